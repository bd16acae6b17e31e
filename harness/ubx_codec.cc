// C28: UBX messages decode and encode per the u-blox layout.
// Oracle: tables of documented payload offsets (u-blox interface description)
// written independently of the code's read order.
#include "common.h"
#include <cstddef>
#include <memory>
extern "C" {
#include <swiftnav/bytestream.h>
#include <ubx/decode.h>
#include <ubx/encode.h>
}
using namespace ref;

namespace {
struct F {
  const char *name;
  int off;     // payload offset in the message / in the record
  int size;    // bytes on the wire
  size_t mem;  // offset of the destination in the struct
  int stride;  // member stride per record (repeated part only)
};
struct Type {
  const char *name;
  u8 cls, id;
  int fixed;  // length of the fixed part
  std::vector<F> f;
  int rec;  // record length, 0 when there is no repeated part
  std::vector<F> r;
  size_t ssize;
  std::function<ubx_rc(swiftnav_bytestream_t *, void *)> dec;
  std::function<ubx_rc(const u8 *, void *)> plain;
  std::function<u16(const void *, u8 *)> enc;
};
#define SZ(T, m) (int)sizeof(((T *)0)->m)
#define A(T, off, m) {#m, off, SZ(T, m), offsetof(T, m), 0}
#define RA(T, off, m) {#m, off, SZ(T, m[0]), offsetof(T, m), SZ(T, m[0])}

#define MK(T, DEC, ENC)                                                                             \
  sizeof(T), [](swiftnav_bytestream_t *b, void *m) { return DEC##_bytestream(b, (T *)m); }, [](const u8 *b, void *m) { return DEC(b, (T *)m); },                     \
      [](const void *m, u8 *b) { return ENC((const T *)m, b); }

const std::vector<Type> &types() {
  static const std::vector<Type> t = {
      {"HNR-PVT", 0x28, 0x00, 72,
       {A(ubx_hnr_pvt, 0, i_tow), A(ubx_hnr_pvt, 4, year), A(ubx_hnr_pvt, 6, month), A(ubx_hnr_pvt, 7, day), A(ubx_hnr_pvt, 8, hour),
        A(ubx_hnr_pvt, 9, min), A(ubx_hnr_pvt, 10, sec), A(ubx_hnr_pvt, 11, valid), A(ubx_hnr_pvt, 12, nano), A(ubx_hnr_pvt, 16, fix_type),
        A(ubx_hnr_pvt, 17, flags), A(ubx_hnr_pvt, 18, reserved1), A(ubx_hnr_pvt, 20, lon), A(ubx_hnr_pvt, 24, lat), A(ubx_hnr_pvt, 28, height),
        A(ubx_hnr_pvt, 32, height_mean_sea_level), A(ubx_hnr_pvt, 36, ground_speed), A(ubx_hnr_pvt, 40, speed),
        A(ubx_hnr_pvt, 44, heading_of_motion), A(ubx_hnr_pvt, 48, heading_vehicle), A(ubx_hnr_pvt, 52, horizontal_accuracy),
        A(ubx_hnr_pvt, 56, vertical_accuracy), A(ubx_hnr_pvt, 60, speed_acc), A(ubx_hnr_pvt, 64, heading_acc), A(ubx_hnr_pvt, 68, reserved2)},
       0, {}, MK(ubx_hnr_pvt, ubx_decode_hnr_pvt, ubx_encode_hnr_pvt)},
      {"NAV-ATT", 0x01, 0x05, 32,
       {A(ubx_nav_att, 0, i_tow), A(ubx_nav_att, 4, version), A(ubx_nav_att, 5, reserved), A(ubx_nav_att, 8, roll), A(ubx_nav_att, 12, pitch),
        A(ubx_nav_att, 16, heading), A(ubx_nav_att, 20, acc_roll), A(ubx_nav_att, 24, acc_pitch), A(ubx_nav_att, 28, acc_heading)},
       0, {}, MK(ubx_nav_att, ubx_decode_nav_att, ubx_encode_nav_att)},
      {"NAV-CLOCK", 0x01, 0x22, 20,
       {A(ubx_nav_clock, 0, i_tow), A(ubx_nav_clock, 4, clk_bias), A(ubx_nav_clock, 8, clk_drift), A(ubx_nav_clock, 12, time_acc),
        A(ubx_nav_clock, 16, freq_acc)},
       0, {}, MK(ubx_nav_clock, ubx_decode_nav_clock, ubx_encode_nav_clock)},
      {"NAV-PVT", 0x01, 0x07, 92,
       {A(ubx_nav_pvt, 0, i_tow), A(ubx_nav_pvt, 4, year), A(ubx_nav_pvt, 6, month), A(ubx_nav_pvt, 7, day), A(ubx_nav_pvt, 8, hour),
        A(ubx_nav_pvt, 9, min), A(ubx_nav_pvt, 10, sec), A(ubx_nav_pvt, 11, valid), A(ubx_nav_pvt, 12, time_acc), A(ubx_nav_pvt, 16, nano),
        A(ubx_nav_pvt, 20, fix_type), A(ubx_nav_pvt, 21, flags), A(ubx_nav_pvt, 22, flags2), A(ubx_nav_pvt, 23, num_sats), A(ubx_nav_pvt, 24, lon),
        A(ubx_nav_pvt, 28, lat), A(ubx_nav_pvt, 32, height), A(ubx_nav_pvt, 36, height_mean_sea_level), A(ubx_nav_pvt, 40, horizontal_accuracy),
        A(ubx_nav_pvt, 44, vertical_accuracy), A(ubx_nav_pvt, 48, vel_north), A(ubx_nav_pvt, 52, vel_east), A(ubx_nav_pvt, 56, vel_down),
        A(ubx_nav_pvt, 60, ground_speed), A(ubx_nav_pvt, 64, heading_of_motion), A(ubx_nav_pvt, 68, speed_acc), A(ubx_nav_pvt, 72, heading_acc),
        A(ubx_nav_pvt, 76, PDOP), A(ubx_nav_pvt, 78, flags3), A(ubx_nav_pvt, 79, reserved1), A(ubx_nav_pvt, 84, heading_vehicle),
        A(ubx_nav_pvt, 88, magnetic_declination), A(ubx_nav_pvt, 90, magnetic_declination_accuracy)},
       0, {}, MK(ubx_nav_pvt, ubx_decode_nav_pvt, ubx_encode_nav_pvt)},
      {"NAV-VELECEF", 0x01, 0x11, 20,
       {A(ubx_nav_velecef, 0, i_tow), A(ubx_nav_velecef, 4, ecefVX), A(ubx_nav_velecef, 8, ecefVY), A(ubx_nav_velecef, 12, ecefVZ),
        A(ubx_nav_velecef, 16, speed_acc)},
       0, {}, MK(ubx_nav_velecef, ubx_decode_nav_velecef, ubx_encode_nav_velecef)},
      {"NAV-STATUS", 0x01, 0x03, 16,
       {A(ubx_nav_status, 0, i_tow), A(ubx_nav_status, 4, fix_type), A(ubx_nav_status, 5, status_flags), A(ubx_nav_status, 6, fix_status),
        A(ubx_nav_status, 7, status_flags_ext), A(ubx_nav_status, 8, ttff_ms), A(ubx_nav_status, 12, msss)},
       0, {}, MK(ubx_nav_status, ubx_decode_nav_status, ubx_encode_nav_status)},
      {"MGA-GPS-EPH", 0x13, 0x00, 68,
       {A(ubx_mga_gps_eph, 0, msg_type), A(ubx_mga_gps_eph, 1, version), A(ubx_mga_gps_eph, 2, sat_id), A(ubx_mga_gps_eph, 3, reserved1),
        A(ubx_mga_gps_eph, 4, fit_interval), A(ubx_mga_gps_eph, 5, ura_index), A(ubx_mga_gps_eph, 6, sat_health), A(ubx_mga_gps_eph, 7, tgd),
        A(ubx_mga_gps_eph, 8, iodc), A(ubx_mga_gps_eph, 10, toc), A(ubx_mga_gps_eph, 12, reserved2), A(ubx_mga_gps_eph, 13, af2),
        A(ubx_mga_gps_eph, 14, af1), A(ubx_mga_gps_eph, 16, af0), A(ubx_mga_gps_eph, 20, crs), A(ubx_mga_gps_eph, 22, delta_N),
        A(ubx_mga_gps_eph, 24, m0), A(ubx_mga_gps_eph, 28, cuc), A(ubx_mga_gps_eph, 30, cus), A(ubx_mga_gps_eph, 32, e),
        A(ubx_mga_gps_eph, 36, sqrt_A), A(ubx_mga_gps_eph, 40, toe), A(ubx_mga_gps_eph, 42, cic), A(ubx_mga_gps_eph, 44, omega0),
        A(ubx_mga_gps_eph, 48, cis), A(ubx_mga_gps_eph, 50, crc), A(ubx_mga_gps_eph, 52, i0), A(ubx_mga_gps_eph, 56, omega),
        A(ubx_mga_gps_eph, 60, omega_dot), A(ubx_mga_gps_eph, 64, i_dot), A(ubx_mga_gps_eph, 66, reserved3)},
       0, {}, MK(ubx_mga_gps_eph, ubx_decode_mga_gps_eph, ubx_encode_mga_gps_eph)},
      {"ESF-INS", 0x10, 0x15, 36,
       {A(ubx_esf_ins, 0, bitfield0), A(ubx_esf_ins, 4, reserved1), A(ubx_esf_ins, 8, i_tow), A(ubx_esf_ins, 12, x_ang_rate),
        A(ubx_esf_ins, 16, y_ang_rate), A(ubx_esf_ins, 20, z_ang_rate), A(ubx_esf_ins, 24, x_accel), A(ubx_esf_ins, 28, y_accel),
        A(ubx_esf_ins, 32, z_accel)},
       0, {}, MK(ubx_esf_ins, ubx_decode_esf_ins, ubx_encode_esf_ins)},
      // repeated ------------------------------------------------------------
      {"RXM-RAWX", 0x02, 0x15, 16,
       {A(ubx_rxm_rawx, 0, rcv_tow), A(ubx_rxm_rawx, 8, rcv_wn), A(ubx_rxm_rawx, 10, leap_second), A(ubx_rxm_rawx, 11, num_meas),
        A(ubx_rxm_rawx, 12, rec_status), A(ubx_rxm_rawx, 13, version), A(ubx_rxm_rawx, 14, reserved1)},
       32,
       {RA(ubx_rxm_rawx, 0, pseudorange_m), RA(ubx_rxm_rawx, 8, carrier_phase_cycles), RA(ubx_rxm_rawx, 16, doppler_hz), RA(ubx_rxm_rawx, 20, gnss_id),
        RA(ubx_rxm_rawx, 21, sat_id), RA(ubx_rxm_rawx, 22, sig_id), RA(ubx_rxm_rawx, 23, freq_id), RA(ubx_rxm_rawx, 24, lock_time),
        RA(ubx_rxm_rawx, 26, cno_dbhz), RA(ubx_rxm_rawx, 27, pr_std_m), RA(ubx_rxm_rawx, 28, cp_std_cycles), RA(ubx_rxm_rawx, 29, doppler_std_hz),
        RA(ubx_rxm_rawx, 30, track_state), RA(ubx_rxm_rawx, 31, reserved2)},
       MK(ubx_rxm_rawx, ubx_decode_rxm_rawx, ubx_encode_rawx)},
#define SV(off, m) {#m, off, SZ(ubx_nav_sat_data, m), offsetof(ubx_nav_sat, data) + offsetof(ubx_nav_sat_data, m), (int)sizeof(ubx_nav_sat_data)}
      {"NAV-SAT", 0x01, 0x35, 8,
       {A(ubx_nav_sat, 0, i_tow), A(ubx_nav_sat, 4, version), A(ubx_nav_sat, 5, num_svs), A(ubx_nav_sat, 6, reserved1)},
       12,
       {SV(0, gnss_id), SV(1, sv_id), SV(2, cno), SV(3, elev), SV(4, azim), SV(6, pr_res), SV(8, flags)},
       MK(ubx_nav_sat, ubx_decode_nav_sat, ubx_encode_nav_sat)},
      {"RXM-SFRBX", 0x02, 0x13, 8,
       {A(ubx_rxm_sfrbx, 0, gnss_id), A(ubx_rxm_sfrbx, 1, sat_id), A(ubx_rxm_sfrbx, 2, reserved1), A(ubx_rxm_sfrbx, 3, freq_id),
        A(ubx_rxm_sfrbx, 4, num_words), A(ubx_rxm_sfrbx, 5, channel), A(ubx_rxm_sfrbx, 6, version), A(ubx_rxm_sfrbx, 7, reserved2)},
       4, {RA(ubx_rxm_sfrbx, 0, data_words)}, MK(ubx_rxm_sfrbx, ubx_decode_rxm_sfrbx, ubx_encode_rxm_sfrbx)},
      {"ESF-MEAS", 0x10, 0x02, 8,
       {A(ubx_esf_meas, 0, time_tag), A(ubx_esf_meas, 4, flags), A(ubx_esf_meas, 6, id)},
       4, {RA(ubx_esf_meas, 0, data)}, MK(ubx_esf_meas, ubx_decode_esf_meas, ubx_encode_esf_meas)},
      {"ESF-RAW", 0x10, 0x03, 4, {A(ubx_esf_raw, 0, msss)},
       8, {RA(ubx_esf_raw, 0, data), RA(ubx_esf_raw, 4, sensor_time_tag)},
       MK(ubx_esf_raw, ubx_decode_esf_raw, ubx_encode_esf_raw)},
  };
  return t;
}

// a message of type t: class, id, length, payload; nrec = number of records it announces
Bytes gen(G &g, const Type &t, int &nrec, bool &tail) {
  Bytes b = {t.cls, t.id, 0, 0};
  nrec = 0;
  tail = false;
  Bytes p((size_t)t.fixed);
  for (auto &f : t.f) {
    if (f.size == 1 || f.size == 2 || f.size == 4 || f.size == 8) {
      u64 v = g.bits(8 * f.size);
      memcpy(&p[f.off], &v, f.size);
    } else {
      Bytes x = g.bytes(f.size);
      memcpy(&p[f.off], x.data(), f.size);
    }
  }
  std::string n = t.name;
  if (n == "RXM-RAWX") { nrec = g.chance(10) ? (int)g.range(0, 255) : (int)g.range(0, 20); p[11] = (u8)nrec; }
  else if (n == "NAV-SAT") { nrec = g.chance(15) ? (int)g.range(90, 100) : (int)g.range(0, 20); p[5] = (u8)nrec; }
  else if (n == "RXM-SFRBX") { nrec = (int)g.range(0, 10); p[4] = (u8)nrec; }
  else if (n == "ESF-MEAS") {
    u16 fl;
    memcpy(&fl, &p[4], 2);
    nrec = (fl >> 11) & 31;
    tail = fl & 8;
  } else if (n == "ESF-RAW") { nrec = g.chance(15) ? (int)g.range(120, 128) : (int)g.range(0, 20); }
  b.insert(b.end(), p.begin(), p.end());
  for (int i = 0; i < nrec; i++) { Bytes r = g.bytes(t.rec); append(b, r); }
  if (tail) append(b, g.bytes(4));
  u16 len = (u16)(b.size() - 4);
  memcpy(&b[2], &len, 2);
  return b;
}

struct Exact {  // exact-size heap copy so that any overread is seen
  u8 *p;
  size_t n;
  Exact(const Bytes &b, size_t n_) : p((u8 *)malloc(n_ ? n_ : 1)), n(n_) { if (n) memcpy(p, b.data(), n); }
  ~Exact() { free(p); }
};

ubx_rc decode(const Type &t, const Bytes &b, size_t n, Bytes &out, u8 fill) {
  Exact e(b, n);
  std::unique_ptr<u8, decltype(&free)> m((u8 *)malloc(t.ssize), free);
  memset(m.get(), fill, t.ssize);
  swiftnav_bytestream_t s;
  swiftnav_bytestream_init(&s, e.p, (u32)n);
  ubx_rc rc = t.dec(&s, m.get());
  out.assign(m.get(), m.get() + t.ssize);
  if (rc == RC_OK) {  // the decoder that takes a plain buffer
    memset(m.get(), fill, t.ssize);
    PBT_CHECK(t.plain(e.p, m.get()) == RC_OK && !memcmp(m.get(), out.data(), t.ssize), "decoding the same %s from a plain buffer differs", t.name);
  }
  return rc;
}
void expect_fields(const Type &t, const Bytes &b, const Bytes &m, int nrec, bool tail) {
  PBT_CHECK(m[0] == t.cls && m[1] == t.id && !memcmp(&m[2], &b[2], 2), "%s header fields", t.name);
  for (auto &f : t.f)
    if (memcmp(&b[4 + f.off], &m[f.mem], f.size))
      PBT_FAIL("field", "%s.%s: wire %s decoded %s", t.name, f.name, hex(&b[4 + f.off], f.size).c_str(), hex(&m[f.mem], f.size).c_str());
  for (int i = 0; i < nrec; i++)
    for (auto &f : t.r) {
      const u8 *w = &b[4 + t.fixed + (size_t)i * t.rec + f.off], *d = &m[f.mem + (size_t)i * f.stride];
      if (memcmp(w, d, f.size)) PBT_FAIL("record-field", "%s.%s[%d of %d]: wire %s decoded %s", t.name, f.name, i, nrec, hex(w, f.size).c_str(), hex(d, f.size).c_str());
    }
  if (tail) {
    const u8 *w = &b[4 + t.fixed + (size_t)nrec * t.rec], *d = &m[offsetof(ubx_esf_meas, calib_tag)];
    if (memcmp(w, d, 4)) PBT_FAIL("calib", "ESF-MEAS calib tag: wire %s decoded %s", hex(w, 4).c_str(), hex(d, 4).c_str());
  }
}
}  // namespace

PBT_PROP(C28, decode_encode, 400000, 8000000, "message accepted and every field compared; repeated part non-empty where there is one") {
  const Type &t = types()[g.below(types().size())];
  int nrec;
  bool tail;
  Bytes b = gen(g, t, nrec, tail);
  g.label(t.name);
  g.nontrivial_if(!t.rec || nrec > 0);
  g.fingerprint(b.data(), b.size());
  g.note(fmt("%s records=%d len=%zu", t.name, nrec, b.size()));
  Bytes m;
  size_t extra = g.chance(20) ? (size_t)g.range(1, 8) : 0;  // checksum or other bytes may follow
  Bytes bb = b;
  append(bb, g.bytes(extra));
  ubx_rc rc = decode(t, bb, bb.size(), m, (u8)g.below(256));
  PBT_CHECK(rc == RC_OK, "%s (%d records) rejected with %d", t.name, nrec, rc);
  expect_fields(t, b, m, nrec, tail);
  // decode then encode is the identity
  std::unique_ptr<u8, decltype(&free)> ms((u8 *)malloc(t.ssize), free);  // keep alignment
  memcpy(ms.get(), m.data(), t.ssize);
  size_t pad = 64 + b.size();
  Bytes o(pad + 64, 0xA5);
  u16 n = t.enc(ms.get(), o.data());
  PBT_CHECK(n == b.size(), "%s encoded length %u, expected %zu", t.name, n, b.size());
  for (size_t i = 0; i < b.size(); i++) PBT_CHECK(o[i] == b[i], "%s encoded byte %zu is %02x, expected %02x", t.name, i, o[i], b[i]);
  // nothing is written past the end (SFRBX may clear its ten words)
  size_t wr = strcmp(t.name, "RXM-SFRBX") ? b.size() : std::max<size_t>(b.size(), 12 + 40);
  for (size_t i = wr; i < o.size(); i++) PBT_CHECK(o[i] == 0xA5, "%s encoder wrote past the message at %zu", t.name, i);
}

PBT_PROP(C28, encode_decode, 200000, 4000000, "message with random struct contents encoded and decoded back") {
  const Type &t = types()[g.below(types().size())];
  std::unique_ptr<u8, decltype(&free)> ms((u8 *)malloc(t.ssize), free);
  memset(ms.get(), 0x11, t.ssize);
  int nrec;
  bool tail;
  Bytes b = gen(g, t, nrec, tail);
  // fill the struct from values, not through the decoder
  u8 *m = ms.get();
  memcpy(m, b.data(), 4);
  for (auto &f : t.f) memcpy(m + f.mem, &b[4 + f.off], f.size);
  for (int i = 0; i < nrec; i++)
    for (auto &f : t.r) memcpy(m + f.mem + (size_t)i * f.stride, &b[4 + t.fixed + (size_t)i * t.rec + f.off], f.size);
  if (tail) memcpy(m + offsetof(ubx_esf_meas, calib_tag), &b[4 + t.fixed + (size_t)nrec * t.rec], 4);
  g.label(t.name);
  g.nontrivial_if(!t.rec || nrec > 0);
  g.fingerprint(b.data(), b.size());
  Bytes o(b.size() + 64, 0x5A);
  u16 n = t.enc(m, o.data());
  PBT_CHECK(n == b.size(), "%s encoded length %u, expected %zu", t.name, n, b.size());
  for (size_t i = 0; i < b.size(); i++) PBT_CHECK(o[i] == b[i], "%s encoded byte %zu is %02x, expected %02x", t.name, i, o[i], b[i]);
  Bytes d;
  ubx_rc rc = decode(t, o, n, d, 0xEE);
  PBT_CHECK(rc == RC_OK, "%s does not decode its own encoding: %d", t.name, rc);
  expect_fields(t, b, d, nrec, tail);
}

PBT_PROP(C28, reject, 300000, 6000000, "truncated, mistyped or over-count message refused") {
  const Type &t = types()[g.below(types().size())];
  int nrec;
  bool tail;
  Bytes b = gen(g, t, nrec, tail);
  Bytes m;
  g.nontrivial();
  switch (g.below(4)) {
    case 0: {  // cut anywhere
      size_t n = g.chance(40) ? b.size() - 1 - g.below(std::min<size_t>(b.size(), 5)) : g.below(b.size());
      g.label("truncated");
      ubx_rc rc = decode(t, b, n, m, 0);
      PBT_CHECK(rc == RC_INVALID_MESSAGE, "%s cut to %zu of %zu bytes gives %d", t.name, n, b.size(), rc);
      break;
    }
    case 1: {  // other class or id
      int w = (int)g.below(2);
      u8 v = g.coin() ? types()[g.below(types().size())].id : (u8)g.below(256);
      if (v == b[w]) v ^= (u8)(1u << g.below(8));
      if (g.chance(50)) { const Type &u = types()[g.below(types().size())]; if (u.name != t.name) { b[0] = u.cls; b[1] = u.id; } else b[w] = v; }
      else b[w] = v;
      g.label("type");
      ubx_rc rc = decode(t, b, b.size(), m, 0);
      PBT_CHECK(rc == RC_MESSAGE_TYPE_MISMATCH, "%s decoder given class %02x id %02x gives %d", t.name, b[0], b[1], rc);
      break;
    }
    case 2: {  // announces more records than there are
      if (!t.rec) throw Discard{};
      g.label("count");
      std::string n = t.name;
      int more = nrec + 1 + (int)g.below(4);
      if (n == "RXM-RAWX") { if (more > 255) throw Discard{}; b[4 + 11] = (u8)more; }
      else if (n == "NAV-SAT") { if (more > 100) throw Discard{}; b[4 + 5] = (u8)more; }
      else if (n == "RXM-SFRBX") b[4 + 4] = (u8)more;
      else if (n == "ESF-MEAS") {
        if (more > 31) throw Discard{};
        u16 fl;
        memcpy(&fl, &b[8], 2);
        fl = (u16)((fl & 0x7ff) | more << 11);
        memcpy(&b[8], &fl, 2);
      } else { u16 l = (u16)(4 + 8 * more); memcpy(&b[2], &l, 2); }
      ubx_rc rc = decode(t, b, b.size(), m, 0);
      PBT_CHECK(rc == RC_INVALID_MESSAGE, "%s announcing %d records with %d present gives %d", t.name, more, nrec, rc);
      break;
    }
    default: {  // counts beyond the capacity of the message struct, all bytes present
      g.label("over-capacity");
      if (g.coin()) {
        const Type *s = nullptr;
        for (auto &x : types()) if (!strcmp(x.name, "RXM-SFRBX")) s = &x;
        int n = (int)g.range(11, 255);
        Bytes f = {s->cls, s->id, 0, 0, 0, 1, 0, 0, (u8)n, 0, 2, 0};
        append(f, g.bytes((size_t)n * 4));
        u16 l = (u16)(f.size() - 4);
        memcpy(&f[2], &l, 2);
        PBT_CHECK(decode(*s, f, f.size(), m, 0) == RC_INVALID_MESSAGE, "SFRBX with %d words accepted", n);
      } else {
        const Type *s = nullptr;
        for (auto &x : types()) if (!strcmp(x.name, "ESF-RAW")) s = &x;
        int n = (int)g.range(129, 700);
        Bytes f = {s->cls, s->id, 0, 0};
        append(f, g.bytes((size_t)n * 8 + 4));
        u16 l = (u16)(f.size() - 4);
        memcpy(&f[2], &l, 2);
        PBT_CHECK(decode(*s, f, f.size(), m, 0) == RC_INVALID_MESSAGE, "ESF-RAW with %d samples accepted", n);
      }
    }
  }
}

PBT_PROP(C28, nav_sat_many, 20000, 400000, "NAV-SAT announcing more satellites than the struct holds") {
  const Type *s = nullptr;
  for (auto &x : types()) if (!strcmp(x.name, "NAV-SAT")) s = &x;
  int n = (int)g.range(101, 255);
  Bytes f = {s->cls, s->id, 0, 0};
  append(f, g.bytes(4));
  f.push_back(1);
  f.push_back((u8)n);
  append(f, g.bytes(2));
  append(f, g.bytes((size_t)n * 12));
  u16 l = (u16)(f.size() - 4);
  memcpy(&f[2], &l, 2);
  g.nontrivial();
  g.fingerprint(f.data(), f.size());
  Bytes m;
  ubx_rc rc = decode(*s, f, f.size(), m, 0);
  if (rc == RC_OK) expect_fields(*s, f, m, 100, false);  // the first hundred
  else PBT_CHECK(rc == RC_INVALID_MESSAGE, "rc %d", rc);
}

PBT_PROP(C28, checksum, 200000, 4000000, "checksum over two or more bytes") {
  Bytes b = g.bytes(g.below(g.chance(10) ? 4096 : 64));
  u8 ck[2] = {(u8)g.below(256), (u8)g.below(256)};
  u32 a = 0, c = 0;
  for (size_t i = 0; i < b.size(); i++) { a += b[i]; c += a; }
  Exact e(b, b.size());
  ubx_checksum(e.p, b.size(), ck);
  g.nontrivial_if(b.size() > 1);
  g.fingerprint(b.data(), b.size());
  PBT_CHECK(ck[0] == (u8)a && ck[1] == (u8)c, "checksum %02x%02x, expected %02x%02x", ck[0], ck[1], a & 255, c & 255);
}
