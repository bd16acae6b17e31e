// C10-C15, C38: librtcm decoders and encoders against the reference layouts.
#include "rtcmref.h"
#include <map>
#include <memory>
extern "C" {
#include <rtcm3/bits.h>
#include <rtcm3/decode.h>
#include <rtcm3/encode.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#include <rtcm3/msm_utils.h>
#include <rtcm3/ssr_decode.h>
#include <rtcm3/sta_decode.h>
#include <swiftnav/bitstream.h>
}
using namespace pbt;
using namespace ref;

// exact-size heap copy: the sanitizer sees any read beyond the payload
struct Buf {
  u8 *p;
  size_t nbits;
  Buf(const Bytes &b, size_t nbits_) : nbits(nbits_) {
    size_t n = (nbits + 7) / 8;
    p = (u8 *)malloc(n ? n : 1);
    memset(p, 0, n ? n : 1);
    memcpy(p, b.data(), std::min(n, b.size()));
  }
  ~Buf() { free(p); }
  swiftnav_bitstream_t bs() const {
    swiftnav_bitstream_t s;
    swiftnav_bitstream_init(&s, p, (u32)nbits);
    return s;
  }
  Buf(const Buf &) = delete;
};
template <class T> struct Obj {  // heap object filled with a pattern, so that unset fields show
  T *p;
  explicit Obj(u8 fill = 0x43) { p = (T *)malloc(sizeof(T)); memset(p, fill, sizeof(T)); }
  ~Obj() { free(p); }
  T *operator->() { return p; }
  T &operator*() { return *p; }
  Obj(const Obj &) = delete;
};
// the decoders that take a plain buffer, by the decoder that takes a bit stream
static void *plain(void *f) {
  static const std::map<void *, void *> m = {
#define W(x) {(void *)rtcm3_decode_##x##_bitstream, (void *)rtcm3_decode_##x},
  W(1001)
  W(1002)
  W(1003)
  W(1004)
  W(1005)
  W(1006)
  W(1007)
  W(1008)
  W(1010)
  W(1012)
  W(1029)
  W(1033)
  W(1230)
  W(4062)
  W(4075)
  W(bds_eph)
  W(clock)
  W(code_bias)
  W(gal_eph_fnav)
  W(gal_eph_inav)
  W(glo_eph)
  W(gps_eph)
  W(msm4)
  W(msm5)
  W(msm6)
  W(msm7)
  W(orbit)
  W(orbit_clock)
  W(phase_bias)
  W(qzss_eph)
#undef W
  };
  return m.at(f);
}
template <class T, class F> static rtcm3_rc dec(F f, const Bytes &b, size_t nbits, T *out) {
  Buf buf(b, nbits);
  swiftnav_bitstream_t bs = buf.bs();
  Bytes before((u8 *)out, (u8 *)out + sizeof(T));
  rtcm3_rc rc = f(&bs, out);
  if (rc != RC_OK) return rc;
  Obj<T> again;
  memcpy((void *)again.p, before.data(), sizeof(T));
  PBT_CHECK(((rtcm3_rc(*)(const u8 *, T *))plain((void *)f))(buf.p, again.p) == RC_OK && !memcmp((void *)again.p, (void *)out, sizeof(T)), "decoding the same message from a plain buffer differs");
  return rc;
}
#define EQ(a, b, what) PBT_CHECK((long long)(a) == (long long)(b), "%s: got %lld want %lld", what, (long long)(a), (long long)(b))
#define NEAR(a, b, tol, what) PBT_CHECK(fabs((double)(a) - (double)(b)) <= (tol), "%s: got %.17g want %.17g", what, (double)(a), (double)(b))

typedef rtcm3_rc (*ObsDec)(swiftnav_bitstream_t *, rtcm_obs_message *);
static ObsDec obs_dec(int num) {
  switch (num) {
    case 1001: return rtcm3_decode_1001_bitstream;
    case 1002: return rtcm3_decode_1002_bitstream;
    case 1003: return rtcm3_decode_1003_bitstream;
    case 1004: return rtcm3_decode_1004_bitstream;
    case 1010: return rtcm3_decode_1010_bitstream;
    default: return rtcm3_decode_1012_bitstream;
  }
}
static void check_freq(const LObs &m, const LSat &s, const rtcm_sat_data &d, int f, size_t i) {
  const rtcm_freq_data &o = d.obs[f];
  std::string w = fmt("%d sat#%zu L%d ", m.num, i, f + 1);
  EQ(o.code, f ? s.code2 : s.code1, (w + "code").c_str());
  bool vpr = f ? m.vpr2(s) : m.vpr1(s);
  EQ(o.flags.fields.valid_pr, vpr, (w + "valid_pr").c_str());
  if (vpr && m.vpr1(s)) NEAR(o.pseudorange, f ? m.pr_l2(s) : m.pr_l1(s), 1e-6, (w + "pseudorange").c_str());
  bool vcp = m.vcp(s, f);
  if (m.vpr1(s)) {
    // an L2 phase with an unusable frequency channel is not specified
    if (!(f == 1 && m.glo() && s.fcn > 20)) {
      EQ(o.flags.fields.valid_cp, vcp, (w + "valid_cp").c_str());
      if (vcp) NEAR(o.carrier_phase, m.cp(s, f), 1e-4, (w + "carrier_phase").c_str());
      EQ(o.flags.fields.valid_lock, vcp, (w + "valid_lock").c_str());
    }
  }
  NEAR(o.lock, lock7((unsigned)(f ? s.lock2 : s.lock1)), 0, (w + "lock").c_str());
  if (m.ext()) {
    u64 c = f ? s.cnr2 : s.cnr1;
    EQ(o.flags.fields.valid_cnr, c != 0, (w + "valid_cnr").c_str());
    if (c) NEAR(o.cnr, 0.25 * (double)c, 0, (w + "cnr").c_str());
  } else EQ(o.flags.fields.valid_cnr, 0, (w + "valid_cnr").c_str());
  EQ(o.flags.fields.valid_dop, 0, (w + "valid_dop").c_str());
}
static void check_lobs(const LObs &m, const rtcm_obs_message &o) {
  EQ(o.header.msg_num, m.num, "msg_num");
  EQ(o.header.stn_id, m.stn, "stn_id");
  EQ(o.header.tow_ms, m.tow, "tow_ms");
  EQ(o.header.sync, m.sync, "sync");
  EQ(o.header.n_sat, m.sats.size(), "n_sat");
  EQ(o.header.div_free, m.div, "div_free");
  EQ(o.header.smooth, m.smooth, "smooth");
  for (size_t i = 0; i < m.sats.size(); i++) {
    const LSat &s = m.sats[i];
    EQ(o.sats[i].svId, s.sv, "svId");
    if (m.glo()) EQ(o.sats[i].fcn, s.fcn, "fcn");
    check_freq(m, s, o.sats[i], 0, i);
    if (m.l2()) check_freq(m, s, o.sats[i], 1, i);
  }
}
static const char *numlabel(int n) {
  static std::map<int, std::string> m;
  auto &s = m[n];
  if (s.empty()) s = fmt("%d", n);
  return s.c_str();
}

PBT_PROP(C10, obs, 160000, 2000000, "legacy observation message with random/edge raw fields; non-trivial: at least one satellite") {
  LObs m = gen_lobs(g);
  bool late = g.chance(5);
  if (late) m.tow = m.glo() ? g.range(86400000, (1 << 27) - 1) : g.range(604800000, (1 << 30) - 1);
  size_t nb;
  Bytes b = m.enc(&nb);
  g.label(numlabel(m.num));
  g.fingerprint(b.data(), b.size());
  g.nontrivial_if(!m.sats.empty());
  g.note(fmt("%d %s", m.num, hex(b.data(), b.size()).c_str()));
  Obj<rtcm_obs_message> o;
  rtcm3_rc rc = dec(obs_dec(m.num), b, nb, o.p);
  if (late) { EQ(rc, RC_INVALID_MESSAGE, "rc for time of week beyond the week"); return; }
  EQ(rc, RC_OK, "rc");
  check_lobs(m, *o);
  // the decoder of any other message must refuse it
  static const int nums[] = {1001, 1002, 1003, 1004, 1010, 1012};
  for (int n : nums)
    if (n != m.num) {
      Obj<rtcm_obs_message> q;
      b.resize(b.size() + 2000);
      PBT_CHECK(dec(obs_dec(n), b, nb + 8000, q.p) == RC_MESSAGE_TYPE_MISMATCH, "decoder %d accepted %d", n, m.num);
    }
}

static void check_sta(const Sta &s, const rtcm_msg_1005 &m) {
  EQ(m.stn_id, s.stn, "stn_id"); EQ(m.ITRF, s.itrf, "ITRF"); EQ(m.GPS_ind, s.gps, "GPS_ind"); EQ(m.GLO_ind, s.glo, "GLO_ind");
  EQ(m.GAL_ind, s.gal, "GAL_ind"); EQ(m.ref_stn_ind, s.refs, "ref_stn_ind"); EQ(m.osc_ind, s.osc, "osc_ind"); EQ(m.quart_cycle_ind, s.qc, "quart_cycle_ind");
  NEAR(m.arp_x, (double)sext(s.x, 38) / 10000.0, 1e-7, "arp_x");
  NEAR(m.arp_y, (double)sext(s.y, 38) / 10000.0, 1e-7, "arp_y");
  NEAR(m.arp_z, (double)sext(s.z, 38) / 10000.0, 1e-7, "arp_z");
}
PBT_PROP(C10, station, 120000, 1000000, "1005/1006 with random/edge raw fields; every case counts") {
  Sta s = gen_sta(g);
  size_t nb;
  Bytes b = enc_sta(s, &nb);
  g.label(numlabel(s.num));
  g.fingerprint(b.data(), b.size());
  g.nontrivial();
  g.note(fmt("%d %s", s.num, hex(b.data(), b.size()).c_str()));
  if (s.num == 1005) {
    Obj<rtcm_msg_1005> m;
    EQ(dec(rtcm3_decode_1005_bitstream, b, nb, m.p), RC_OK, "rc");
    check_sta(s, *m);
    Obj<rtcm_msg_1006> q;
    b.resize(60);
    EQ(dec(rtcm3_decode_1006_bitstream, b, 480, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of the 1006 decoder");
  } else {
    Obj<rtcm_msg_1006> m;
    EQ(dec(rtcm3_decode_1006_bitstream, b, nb, m.p), RC_OK, "rc");
    check_sta(s, m->msg_1005);
    NEAR(m->ant_height, (double)s.h / 10000.0, 1e-9, "ant_height");
    Obj<rtcm_msg_1005> q;
    EQ(dec(rtcm3_decode_1005_bitstream, b, nb, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of the 1005 decoder");
  }
}

static void check_str(const char *got, unsigned n, const Str &s, const char *what) {
  EQ(n, s.s.size(), what);
  PBT_CHECK(!memcmp(got, s.s.data(), s.s.size()), "%s: got %s want %s", what, hex(got, s.s.size()).c_str(), hex(s.s.data(), s.s.size()).c_str());
}
PBT_PROP(C10, descriptors, 120000, 1000000, "1007/1008/1033 with random strings; non-trivial: a non-empty string") {
  bool over = g.chance(8);
  Desc d = gen_desc(g, 31);
  size_t lim = d.num == 1007 ? 1 : d.num == 1008 ? 2 : 5;
  if (over) {
    Str *ss[] = {&d.a, &d.as, &d.r, &d.fw, &d.rs};
    ss[g.draw(lim)]->s = g.bytes(33 + g.draw(100));
  }
  size_t nb;
  Bytes b = enc_desc(d, &nb);
  g.label(numlabel(d.num));
  g.fingerprint(b.data(), b.size());
  g.nontrivial_if(d.a.s.size() + d.as.s.size() > 0);
  g.note(hex(b.data(), b.size()));
  if (d.num == 1033) {
    Obj<rtcm_msg_1033> m;
    rtcm3_rc rc = dec(rtcm3_decode_1033_bitstream, b, nb, m.p);
    if (over) { PBT_CHECK(rc == RC_INVALID_MESSAGE, "oversized string accepted"); return; }
    EQ(rc, RC_OK, "rc");
    EQ(m->stn_id, d.stn, "stn_id"); EQ(m->ant_setup_id, d.setup, "ant_setup_id");
    check_str(m->ant_descriptor, m->ant_descriptor_counter, d.a, "ant_descriptor");
    check_str(m->ant_serial_num, m->ant_serial_num_counter, d.as, "ant_serial_num");
    check_str(m->rcv_descriptor, m->rcv_descriptor_counter, d.r, "rcv_descriptor");
    check_str(m->rcv_fw_version, m->rcv_fw_version_counter, d.fw, "rcv_fw_version");
    check_str(m->rcv_serial_num, m->rcv_serial_num_counter, d.rs, "rcv_serial_num");
  } else if (d.num == 1008) {
    Obj<rtcm_msg_1008> m;
    rtcm3_rc rc = dec(rtcm3_decode_1008_bitstream, b, nb, m.p);
    if (over) { PBT_CHECK(rc == RC_INVALID_MESSAGE, "oversized string accepted"); return; }
    EQ(rc, RC_OK, "rc");
    EQ(m->msg_1007.stn_id, d.stn, "stn_id"); EQ(m->msg_1007.ant_setup_id, d.setup, "ant_setup_id");
    check_str(m->msg_1007.ant_descriptor, m->msg_1007.ant_descriptor_counter, d.a, "ant_descriptor");
    check_str(m->ant_serial_num, m->ant_serial_num_counter, d.as, "ant_serial_num");
    Obj<rtcm_msg_1007> q;
    EQ(dec(rtcm3_decode_1007_bitstream, b, nb, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of the 1007 decoder");
  } else {
    Obj<rtcm_msg_1007> m;
    rtcm3_rc rc = dec(rtcm3_decode_1007_bitstream, b, nb, m.p);
    if (over) { PBT_CHECK(rc == RC_INVALID_MESSAGE, "oversized string accepted"); return; }
    EQ(rc, RC_OK, "rc");
    EQ(m->stn_id, d.stn, "stn_id"); EQ(m->ant_setup_id, d.setup, "ant_setup_id");
    check_str(m->ant_descriptor, m->ant_descriptor_counter, d.a, "ant_descriptor");
    Obj<rtcm_msg_1008> q;
    b.resize(b.size() + 40);
    EQ(dec(rtcm3_decode_1008_bitstream, b, b.size() * 8, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of the 1008 decoder");
  }
}
PBT_PROP(C10, text, 80000, 500000, "1029 with random header and text bytes; non-trivial: non-empty text") {
  BitW w;
  u64 stn = g.bits(12), mjd = g.bits(16), sod = g.bits(17), nch = g.bits(7);
  Bytes t = g.bytes(g.chance(10) ? 255 : g.draw(256));
  w.put(1029, 12); w.put(stn, 12); w.put(mjd, 16); w.put(sod, 17); w.put(nch, 7); w.put(t.size(), 8);
  for (u8 c : t) w.put(c, 8);
  g.fingerprint(w.b.data(), w.b.size());
  g.nontrivial_if(!t.empty());
  g.note(hex(w.b.data(), w.b.size()));
  Obj<rtcm_msg_1029> m;
  EQ(dec(rtcm3_decode_1029_bitstream, w.b, w.n, m.p), RC_OK, "rc");
  EQ(m->stn_id, stn, "stn_id"); EQ(m->mjd_num, mjd, "mjd_num"); EQ(m->utc_sec_of_day, sod, "utc_sec_of_day");
  EQ(m->unicode_chars, nch, "unicode_chars"); EQ(m->utf8_code_units_n, t.size(), "utf8_code_units_n");
  PBT_CHECK(!memcmp(m->utf8_code_units, t.data(), t.size()), "text differs");
}
PBT_PROP(C10, glo_bias, 80000, 500000, "1230 with every mask and random biases; non-trivial: at least one bias") {
  BitW w;
  u64 stn = g.bits(12), ind = g.draw(2), res = g.draw(8), mask = g.draw(16), v[4];
  w.put(1230, 12); w.put(stn, 12); w.put(ind, 1); w.put(res, 3); w.put(mask, 4);
  for (int i = 0; i < 4; i++) { v[i] = g.bits(16); if (mask & (8 >> i)) w.put(v[i], 16); }
  g.fingerprint(w.b.data(), w.b.size());
  g.nontrivial_if(mask != 0);
  g.note(hex(w.b.data(), w.b.size()));
  Obj<rtcm_msg_1230> m;
  EQ(dec(rtcm3_decode_1230_bitstream, w.b, w.n, m.p), RC_OK, "rc");
  EQ(m->stn_id, stn, "stn_id"); EQ(m->bias_indicator, ind, "bias_indicator"); EQ(m->fdma_signal_mask, mask, "fdma_signal_mask");
  double got[4] = {m->L1_CA_cpb_meter, m->L1_P_cpb_meter, m->L2_CA_cpb_meter, m->L2_P_cpb_meter};
  for (int i = 0; i < 4; i++) NEAR(got[i], mask & (8 >> i) ? 0.02 * (double)sext(v[i], 16) : 0.0, 1e-9, fmt("bias %d", i).c_str());
}
PBT_PROP(C10, proprietary, 80000, 500000, "4062 with random type, sender and payload; non-trivial: non-empty payload") {
  BitW w;
  u64 res = g.chance(10) ? g.draw(16) : 0, type = g.bits(16), snd = g.bits(16);
  Bytes t = g.bytes(g.chance(10) ? 255 : g.draw(256));
  w.put(4062, 12); w.put(res, 4); w.put(type, 16); w.put(snd, 16); w.put(t.size(), 8);
  for (u8 c : t) w.put(c, 8);
  g.fingerprint(w.b.data(), w.b.size());
  g.nontrivial_if(!t.empty());
  g.note(hex(w.b.data(), w.b.size()));
  Obj<rtcm_msg_swift_proprietary> m;
  rtcm3_rc rc = dec(rtcm3_decode_4062_bitstream, w.b, w.n, m.p);
  if (res) { EQ(rc, RC_INVALID_MESSAGE, "rc with reserved bits set"); return; }
  EQ(rc, RC_OK, "rc");
  EQ(m->msg_type, type, "msg_type"); EQ(m->sender_id, snd, "sender_id"); EQ(m->len, t.size(), "len");
  PBT_CHECK(!memcmp(m->data, t.data(), t.size()), "payload differs");
}

struct Ndf {
  u64 stn, res;
  struct F { u64 sys, num, ext, sig, epoch, cont, bits; std::vector<u64> words; };
  std::vector<F> f;
  Bytes enc(size_t *nb) const {
    BitW w;
    w.put(4075, 12); w.put(stn, 12); w.put(res, 2); w.put(f.size(), 6);
    for (auto &x : f) {
      w.put(x.sys, 4); w.put(x.num, 6); w.put(x.ext, 4); w.put(x.sig, 5); w.put(x.epoch, 30); w.put(x.cont, 1); w.put(x.bits, 12);
      for (size_t i = 0; i < x.words.size(); i++) w.put(x.words[i], (unsigned)std::min<u64>(32, x.bits - 32 * i));
    }
    *nb = w.n;
    return w.b;
  }
};
static Ndf gen_ndf(G &g) {
  Ndf m;
  m.stn = g.bits(12);
  m.res = g.chance(4) ? 1 + g.draw(3) : 0;
  size_t n = (size_t)(g.chance(10) ? g.range(0, 63) : g.range(0, 4)), bits = 0;
  for (size_t k = 0; k < n; k++) {
    Ndf::F f = {g.bits(4), g.bits(6), g.bits(4), g.bits(5), g.bits(30), g.draw(2), 0, {}};
    f.bits = g.coin() ? g.pick<u64>({0, 1, 31, 32, 33, 250, 256, 288, 300, 85, 4095}) : g.draw(400);
    bits += 62 + f.bits;
    if (bits > 1023 * 8 - 32) break;
    for (u64 i = 0; i < f.bits; i += 32) f.words.push_back(g.bits((unsigned)std::min<u64>(32, f.bits - i)));
    m.f.push_back(f);
  }
  return m;
}
PBT_PROP(C10, ndf, 120000, 800000, "4075 with random frames of any size; non-trivial: a frame with data") {
  Ndf x = gen_ndf(g);
  size_t nb;
  Bytes b = x.enc(&nb);
  g.fingerprint(b.data(), b.size());
  g.note(hex(b.data(), b.size()));
  Obj<rtcm_msg_ndf> m;
  rtcm3_rc rc = dec(rtcm3_decode_4075_bitstream, b, nb, m.p);
  if (x.res) { EQ(rc, RC_INVALID_MESSAGE, "rc with reserved bits set"); return; }
  EQ(rc, RC_OK, "rc");
  EQ(m->stn_id, x.stn, "stn_id"); EQ(m->frame_count, x.f.size(), "frame_count");
  for (size_t k = 0; k < x.f.size(); k++) {
    const Ndf::F &f = x.f[k];
    const rtcm_ndf_frame &y = m->frames[k];
    EQ(y.sat_sys, f.sys, "sat_sys"); EQ(y.sat_num, f.num, "sat_num"); EQ(y.ext_sat_info, f.ext, "ext_sat_info"); EQ(y.sig_type, f.sig, "sig_type");
    EQ(y.epoch_time, f.epoch, "epoch_time"); EQ(y.continuous_tracking, f.cont, "continuous_tracking"); EQ(y.frame_data_size_bits, f.bits, "frame_data_size_bits");
    for (size_t i = 0; i < f.words.size(); i++) EQ(y.frame_data[i], f.words[i], fmt("frame %zu word %zu", k, i).c_str());
    g.nontrivial_if(f.bits > 0);
  }
}

// ---- C11 ephemerides ----------------------------------------------------
typedef rtcm3_rc (*EphDec)(swiftnav_bitstream_t *, rtcm_msg_eph *);
static EphDec eph_dec(int num) {
  switch (num) {
    case 1019: return rtcm3_decode_gps_eph_bitstream;
    case 1020: return rtcm3_decode_glo_eph_bitstream;
    case 1042: return rtcm3_decode_bds_eph_bitstream;
    case 1044: return rtcm3_decode_qzss_eph_bitstream;
    case 1045: return rtcm3_decode_gal_eph_fnav_bitstream;
    default: return rtcm3_decode_gal_eph_inav_bitstream;
  }
}
static const int EPHS[] = {1019, 1020, 1042, 1044, 1045, 1046};
static void check_eph(int num, const Raw &r, const rtcm_msg_eph &e) {
  int cons = num == 1019 ? RTCM_CONSTELLATION_GPS : num == 1020 ? RTCM_CONSTELLATION_GLO : num == 1042 ? RTCM_CONSTELLATION_BDS : num == 1044 ? RTCM_CONSTELLATION_QZS : RTCM_CONSTELLATION_GAL;
  EQ(e.constellation, cons, "constellation");
  EQ(e.sat_id, r.u("sat"), "sat_id");
  if (num == 1020) {
    const ephemeris_glo_raw_rtcm_t &k = e.data.glo;
    EQ(k.fcn, r.u("fcn"), "fcn"); EQ(e.fit_interval, r.u("p1"), "P1"); EQ(k.t_b, r.u("tb"), "t_b"); EQ(e.ura, r.u("ft"), "F_T");
    EQ(k.vel[0], r.s("vx"), "vel x"); EQ(k.vel[1], r.s("vy"), "vel y"); EQ(k.vel[2], r.s("vz"), "vel z");
    EQ(k.pos[0], r.s("px"), "pos x"); EQ(k.pos[1], r.s("py"), "pos y"); EQ(k.pos[2], r.s("pz"), "pos z");
    EQ(k.acc[0], r.s("ax"), "acc x"); EQ(k.acc[1], r.s("ay"), "acc y"); EQ(k.acc[2], r.s("az"), "acc z");
    EQ(k.gamma, r.s("gamma"), "gamma"); EQ(k.tau, r.s("tau"), "tau"); EQ(k.d_tau, r.s("dtau"), "d_tau");
    EQ(e.health_bits, r.u("bn") | r.u("ln3") | (r.u("add") ? r.u("ln5") : 0), "health");
    return;
  }
  const ephemeris_kepler_raw_rtcm_t &k = e.data.kepler;
  EQ(e.wn, r.u("wn"), "wn"); EQ(e.ura, r.u("ura"), "ura"); EQ(e.toe, r.u("toe"), "toe"); EQ(k.toc, r.u("toc"), "toc");
  EQ(k.inc_dot, r.s("idot"), "inc_dot"); EQ(k.iode, r.u("iode"), "iode");
  EQ(k.af2, r.s("af2"), "af2"); EQ(k.af1, r.s("af1"), "af1"); EQ(k.af0, r.s("af0"), "af0");
  EQ(k.crs, r.s("crs"), "crs"); EQ(k.dn, r.s("dn"), "dn"); EQ(k.m0, r.s("m0"), "m0"); EQ(k.cuc, r.s("cuc"), "cuc"); EQ(k.ecc, r.u("ecc"), "ecc");
  EQ(k.cus, r.s("cus"), "cus"); EQ(k.sqrta, r.u("sqrta"), "sqrta"); EQ(k.cic, r.s("cic"), "cic"); EQ(k.omega0, r.s("omega0"), "omega0");
  EQ(k.cis, r.s("cis"), "cis"); EQ(k.inc, r.s("inc"), "inc"); EQ(k.crc, r.s("crc"), "crc"); EQ(k.w, r.s("w"), "w"); EQ(k.omegadot, r.s("omegadot"), "omegadot");
  EQ(e.health_bits, r.u("health"), "health");
  if (num == 1019 || num == 1044) {
    EQ(k.tgd.gps_s, r.s("tgd"), "tgd"); EQ(k.iodc, r.u("iodc"), "iodc"); EQ(e.fit_interval, r.u("fit"), "fit_interval");
    if (num == 1019) { EQ(k.codeL2, r.u("codeL2"), "codeL2"); EQ(k.L2_data_bit, r.u("l2p"), "L2_data_bit"); }
  } else if (num == 1042) {
    EQ(k.tgd.bds_s[0], r.s("tgd1"), "tgd1"); EQ(k.tgd.bds_s[1], r.s("tgd2"), "tgd2"); EQ(k.iodc, r.u("iodc"), "iodc");
  } else {
    EQ(k.tgd.gal_s[0], r.s("bgd0"), "bgd E5a/E1"); EQ(k.tgd.gal_s[1], num == 1046 ? r.s("bgd1") : 0, "bgd E5b/E1");
  }
}
PBT_PROP(C11, eph, 240000, 3000000, "ephemeris message with random/edge raw fields; every accepted case counts") {
  int num = g.pick({1019, 1020, 1042, 1044, 1045, 1046});
  Raw r = gen_raw(g, eph_layout(num), {{"msg", (u64)num}});
  if (num == 1042 && !g.chance(5) && r.v["sat"] <= 5) r.v["sat"] += 6;
  Bytes b = r.enc();
  size_t nb = r.nbits();
  g.label(numlabel(num));
  g.fingerprint(b.data(), b.size());
  g.note(fmt("%d %s", num, hex(b.data(), b.size()).c_str()));
  Obj<rtcm_msg_eph> e((u8)g.draw(256));
  rtcm3_rc rc = dec(eph_dec(num), b, nb, e.p);
  if (num == 1042 && r.u("sat") <= 5) { EQ(rc, RC_INVALID_MESSAGE, "rc for a BeiDou GEO"); return; }
  g.nontrivial();
  EQ(rc, RC_OK, "rc");
  check_eph(num, r, *e);
  int other = EPHS[g.draw(6)];
  if (other != num) {
    Obj<rtcm_msg_eph> q;
    b.resize(100);
    EQ(dec(eph_dec(other), b, 800, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of another decoder");
  }
}

// ---- C12 MSM ------------------------------------------------------------
typedef rtcm3_rc (*MsmDec)(swiftnav_bitstream_t *, rtcm_msm_message *);
static MsmDec msm_dec(int type) {
  switch (type) {
    case 4: return rtcm3_decode_msm4_bitstream;
    case 5: return rtcm3_decode_msm5_bitstream;
    case 6: return rtcm3_decode_msm6_bitstream;
    default: return rtcm3_decode_msm7_bitstream;
  }
}
static void check_msm(const Msm &m, const rtcm_msm_message &o, u64 tow) {
  const rtcm_msm_header &h = o.header;
  EQ(h.msg_num, m.num(), "msg_num"); EQ(h.stn_id, m.stn, "stn_id"); EQ(h.tow_ms, tow, "tow_ms"); EQ(h.multiple, m.multiple, "multiple");
  EQ(h.iods, m.iods, "iods"); EQ(h.reserved, m.reserved, "reserved"); EQ(h.steering, m.steering, "steering"); EQ(h.ext_clock, m.ext, "ext_clock");
  EQ(h.div_free, m.divf, "div_free"); EQ(h.smooth, m.smooth, "smooth");
  for (int i = 0; i < 64; i++) EQ(h.satellite_mask[i], (m.satmask >> (63 - i)) & 1, "satellite_mask");
  for (int i = 0; i < 32; i++) EQ(h.signal_mask[i], (m.sigmask >> (31 - i)) & 1, "signal_mask");
  for (size_t i = 0; i < m.cellmask.size(); i++) EQ(h.cell_mask[i], m.cellmask[i], "cell_mask");
  bool rates = m.type == 5 || m.type == 7;
  const rtcm_msm_sat_data *sats = o.sats;
  for (size_t i = 0; i < m.sats.size(); i++) {
    if (m.sats[i].rough_ms != 255) NEAR(sats[i].rough_range_ms, (double)m.sats[i].rough_ms + (double)m.sats[i].rough_mod / 1024, 1e-9, "rough_range_ms");
    if (m.cons == GLO) EQ(sats[i].glo_fcn, rates ? m.sats[i].info : 255, "glo_fcn");
    if (rates && m.sats[i].rate != 0x2000) NEAR(sats[i].rough_range_rate_m_s, (double)sext(m.sats[i].rate, 14), 0, "rough_range_rate");
  }
  for (size_t i = 0; i < m.cells.size(); i++) {
    MsmExp e = msm_expect(m, m.cells[i]);
    const rtcm_msm_signal_data &s = o.signals[i];
    std::string w = fmt("%d sat %d sig %d ", m.num(), m.cells[i].sat, m.cells[i].sig);
    EQ(s.flags.fields.valid_pr, e.vpr, (w + "valid_pr").c_str());
    EQ(s.flags.fields.valid_cp, e.vcp, (w + "valid_cp").c_str());
    EQ(s.flags.fields.valid_cnr, e.vcnr, (w + "valid_cnr").c_str());
    EQ(s.flags.fields.valid_dop, e.vdop, (w + "valid_dop").c_str());
    EQ(s.flags.fields.valid_lock, 1, (w + "valid_lock").c_str());
    if (e.vpr) NEAR(s.pseudorange_ms, e.pr, 1e-11, (w + "pseudorange_ms").c_str());
    if (e.vcp) NEAR(s.carrier_phase_ms, e.cp, 1e-11, (w + "carrier_phase_ms").c_str());
    if (e.vcnr) NEAR(s.cnr, e.cnr, 0, (w + "cnr").c_str());
    if (e.vdop) NEAR(s.range_rate_m_s, e.dop, 1e-9, (w + "range_rate").c_str());
    NEAR(s.lock_time_s, e.lock, 1e-9, (w + "lock_time").c_str());
    EQ(s.hca_indicator, e.hca, (w + "hca").c_str());
  }
}
static const char *const CN[] = {"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL"};
PBT_PROP(C12, msm, 160000, 2000000, "MSM4-7 of every constellation, random masks (up to 64 satellites, 32 signals, 64 cells) and raw fields; non-trivial: at least one cell") {
  Msm m = gen_msm(g);
  u64 tow = m.epoch;
  if (m.cons == BDS && g.chance(10)) {  // negative BeiDou epoch, counted down from 2^30
    u64 neg = (u64)g.ival(1, 14000);
    m.epoch = (1ull << 30) - neg;
    tow = 604800000 - neg;
    g.label("bds-negative-epoch");
  }
  size_t nb;
  Bytes b = m.enc(&nb);
  g.label(CN[m.cons]);
  g.label(numlabel(m.type));
  if (m.sats.size() > 32) g.label(">32 satellites");
  g.fingerprint(b.data(), b.size());
  g.nontrivial_if(!m.cells.empty());
  g.note(fmt("%d sats=%zu sigs=%zu cells=%zu %s", m.num(), m.sats.size(), m.sigs.size(), m.cells.size(), hex(b.data(), b.size()).c_str()));
  Obj<rtcm_msm_message> o((u8)g.draw(256));
  EQ(dec(msm_dec(m.type), b, nb, o.p), RC_OK, "rc");
  check_msm(m, *o, tow);
  for (int t = 4; t <= 7; t++)
    if (t != m.type) EQ(dec(msm_dec(t), b, nb, o.p), RC_MESSAGE_TYPE_MISMATCH, "rc of another MSM decoder");
}
PBT_PROP(C12, reject, 80000, 500000, "MSM with a time beyond the week/day, too many cells, or a message number that is not MSM4-7; non-trivial: all") {
  Msm m = gen_msm(g);
  int kind = (int)g.draw(3);
  Bytes b;
  size_t nb;
  rtcm3_rc want = RC_INVALID_MESSAGE;
  if (kind == 0) {
    m.epoch = m.cons == GLO ? g.range(86400000, (1 << 27) - 1) : g.range(604800000, (1 << 30) - 1 - 14000 - 1);
    b = m.enc(&nb);
  } else if (kind == 1) {
    m.satmask = g.draw(0) | g.draw(0); m.sigmask = (u32)g.draw(1ull << 32) | 1;
    if (g.chance(50)) { m.satmask = ~0ull >> g.draw(60); m.sigmask = 0xFFFFFFFFu >> g.draw(32); }
    if (__builtin_popcountll(m.satmask) * __builtin_popcount(m.sigmask) <= 64) { g.label("small"); return; }
    msm_fill(g, m);
    b = m.enc(&nb);
    if (b.size() > 1023) { b.resize(1023); nb = 1023 * 8; }
  } else {
    b = m.enc(&nb);
    BitW w;
    int n;
    do n = (int)g.draw(4096); while ((n >= 1071 && n <= 1127 && n % 10 == m.type));
    w.put(n, 12);
    b[0] = w.b[0];
    b[1] = (u8)((b[1] & 0xF) | (w.b[1] & 0xF0));
    want = RC_MESSAGE_TYPE_MISMATCH;
  }
  g.label(kind == 0 ? "time" : kind == 1 ? "cells" : "number");
  g.fingerprint(b.data(), b.size());
  g.nontrivial();
  g.note(fmt("kind %d %s", kind, hex(b.data(), b.size()).c_str()));
  Obj<rtcm_msm_message> o;
  rtcm3_rc rc = dec(msm_dec(m.type), b, nb, o.p);
  if (kind == 2) EQ(rc, want, "rc"); else PBT_CHECK(rc != RC_OK, "accepted");
}

// ---- C13 SSR ------------------------------------------------------------
static void check_ssr_header(const Ssr &m, const rtcm_msg_ssr_header &h) {
  EQ(h.message_num, m.num(), "message_num"); EQ(h.epoch_time, m.epoch, "epoch_time"); EQ(h.constellation, m.cons, "constellation");
  EQ(h.update_interval, m.upd, "update_interval"); EQ(h.multi_message, m.multi, "multi_message");
  if (m.kind == ORBIT || m.kind == COMBINED) EQ(h.sat_ref_datum, m.datum, "sat_ref_datum");
  EQ(h.iod_ssr, m.iod, "iod_ssr"); EQ(h.ssr_provider_id, m.prov, "ssr_provider_id"); EQ(h.ssr_solution_id, m.sol, "ssr_solution_id");
  if (m.kind == PHASE_BIAS) { EQ(h.dispersive_bias_consistency, m.disp, "dispersive"); EQ(h.melbourne_wubbena_consistency, m.mw, "mw"); }
  EQ(h.num_sats, m.sats.size(), "num_sats");
}
static void check_orbit(const Ssr &m, const SsrSat &s, const rtcm_msg_ssr_orbit_corr &o) {
  EQ(o.sat_id, s.id, "orbit sat_id");
  EQ(o.iode, m.cons == BDS ? s.iode2 : s.iode, "iode");
  if (m.cons == SBAS) EQ(o.iodcrc, s.iode2, "iodcrc");
  EQ(o.radial, sext(s.rad, 22), "radial"); EQ(o.along_track, sext(s.alo, 20), "along"); EQ(o.cross_track, sext(s.cro, 20), "cross");
  EQ(o.dot_radial, sext(s.drad, 21), "dot radial"); EQ(o.dot_along_track, sext(s.dalo, 19), "dot along"); EQ(o.dot_cross_track, sext(s.dcro, 19), "dot cross");
}
static void check_clock(const SsrSat &s, const rtcm_msg_ssr_clock_corr &c) {
  EQ(c.sat_id, s.id, "clock sat_id");
  EQ(c.c0, sext(s.c0, 22), "c0"); EQ(c.c1, sext(s.c1, 21), "c1"); EQ(c.c2, sext(s.c2, 27), "c2");
}
union SsrOut { rtcm_msg_orbit o; rtcm_msg_clock c; rtcm_msg_orbit_clock oc; rtcm_msg_code_bias cb; rtcm_msg_phase_bias pb; };
static rtcm3_rc dec_ssr(int kind, const Bytes &b, size_t nb, SsrOut *o) {
  switch (kind) {
    case ORBIT: return dec(rtcm3_decode_orbit_bitstream, b, nb, &o->o);
    case CLOCK: return dec(rtcm3_decode_clock_bitstream, b, nb, &o->c);
    case COMBINED: return dec(rtcm3_decode_orbit_clock_bitstream, b, nb, &o->oc);
    case CODE_BIAS: return dec(rtcm3_decode_code_bias_bitstream, b, nb, &o->cb);
    default: return dec(rtcm3_decode_phase_bias_bitstream, b, nb, &o->pb);
  }
}
static const char *const KN[] = {"orbit", "clock", "combined", "code-bias", "phase-bias"};
static Ssr gen_any_ssr(G &g, int maxsat = 63) {
  int kind = (int)g.draw(5);
  int cons = (int)g.draw(NCONS);
  if (kind != PHASE_BIAS && cons == SBAS) cons = BDS;
  return gen_ssr(g, cons, kind, maxsat);
}
PBT_PROP(C13, ssr, 160000, 2000000, "SSR orbit/clock/combined/code-bias/phase-bias of every constellation with random raw fields; non-trivial: at least one satellite") {
  Ssr m = gen_any_ssr(g);
  size_t nb;
  Bytes b = m.enc(&nb);
  g.label(KN[m.kind]);
  g.label(CN[m.cons]);
  g.fingerprint(b.data(), b.size());
  g.nontrivial_if(!m.sats.empty());
  g.note(fmt("%d %s", m.num(), hex(b.data(), b.size()).c_str()));
  Obj<SsrOut> o;
  EQ(dec_ssr(m.kind, b, nb, o.p), RC_OK, "rc");
  check_ssr_header(m, m.kind == ORBIT ? o->o.header : m.kind == CLOCK ? o->c.header : m.kind == COMBINED ? o->oc.header : m.kind == CODE_BIAS ? o->cb.header : o->pb.header);
  for (size_t i = 0; i < m.sats.size(); i++) {
    const SsrSat &s = m.sats[i];
    switch (m.kind) {
      case ORBIT: check_orbit(m, s, o->o.orbit[i]); break;
      case CLOCK: check_clock(s, o->c.clock[i]); break;
      case COMBINED: check_orbit(m, s, o->oc.orbit[i]); check_clock(s, o->oc.clock[i]); break;
      case CODE_BIAS:
        EQ(o->cb.sats[i].sat_id, s.id, "sat_id"); EQ(o->cb.sats[i].num_code_biases, s.sigs.size(), "num_code_biases");
        for (size_t j = 0; j < s.sigs.size(); j++) {
          EQ(o->cb.sats[i].signals[j].signal_id, s.sigs[j].id, "signal_id"); EQ(o->cb.sats[i].signals[j].code_bias, sext(s.sigs[j].cb, 14), "code_bias");
        }
        break;
      default:
        EQ(o->pb.sats[i].sat_id, s.id, "sat_id"); EQ(o->pb.sats[i].num_phase_biases, s.sigs.size(), "num_phase_biases");
        EQ(o->pb.sats[i].yaw_angle, s.yaw, "yaw_angle"); EQ(o->pb.sats[i].yaw_rate, sext(s.yawrate, 8), "yaw_rate");
        for (size_t j = 0; j < s.sigs.size(); j++) {
          auto &q = o->pb.sats[i].signals[j];
          EQ(q.signal_id, s.sigs[j].id, "signal_id"); EQ(q.integer_indicator, s.sigs[j].integer, "integer"); EQ(q.widelane_indicator, s.sigs[j].wl, "widelane");
          EQ(q.discontinuity_indicator, s.sigs[j].disc, "discontinuity"); EQ(q.phase_bias, sext(s.sigs[j].pb, 20), "phase_bias");
        }
    }
  }
  // every other SSR decoder must refuse the message, except the combined one,
  // which also reads the orbit layout
  for (int k = 0; k < 5; k++) {
    if (k == m.kind || (k == COMBINED && m.kind == ORBIT)) continue;
    Obj<SsrOut> q;
    EQ(dec_ssr(k, b, nb, q.p), RC_MESSAGE_TYPE_MISMATCH, "rc of another SSR decoder");
  }
}

// ---- C14 truncation -----------------------------------------------------
PBT_PROP(C14, truncate, 240000, 3000000, "any supported message cut at a random bit or byte before its last used field; non-trivial: cut behind the header") {
  int kind = (int)g.draw(11);
  Bytes b;
  size_t nb = 0, slack = 0;  // slack: trailing reserved bits no field is read from
  std::function<rtcm3_rc(const Bytes &, size_t)> f;
  std::string name;
  Obj<rtcm_obs_message> obs; Obj<rtcm_msg_1005> m5; Obj<rtcm_msg_1006> m6; Obj<rtcm_msg_1007> m7; Obj<rtcm_msg_1008> m8;
  Obj<rtcm_msg_1033> m33; Obj<rtcm_msg_1029> m29; Obj<rtcm_msg_1230> m1230; Obj<rtcm_msg_swift_proprietary> m4062;
  Obj<rtcm_msg_eph> eph; Obj<rtcm_msm_message> msm; Obj<SsrOut> ssr; Obj<rtcm_msg_ndf> ndf;
  if (kind == 0) {
    LObs m = gen_lobs(g);
    b = m.enc(&nb);
    name = numlabel(m.num);
    f = [&, m](const Bytes &x, size_t n) { return dec(obs_dec(m.num), x, n, obs.p); };
  } else if (kind == 1) {
    Sta s = gen_sta(g);
    b = enc_sta(s, &nb);
    name = numlabel(s.num);
    f = [&, s](const Bytes &x, size_t n) { return s.num == 1005 ? dec(rtcm3_decode_1005_bitstream, x, n, m5.p) : dec(rtcm3_decode_1006_bitstream, x, n, m6.p); };
  } else if (kind == 2) {
    Desc d = gen_desc(g, 31);
    b = enc_desc(d, &nb);
    name = numlabel(d.num);
    f = [&, d](const Bytes &x, size_t n) { return d.num == 1007 ? dec(rtcm3_decode_1007_bitstream, x, n, m7.p) : d.num == 1008 ? dec(rtcm3_decode_1008_bitstream, x, n, m8.p) : dec(rtcm3_decode_1033_bitstream, x, n, m33.p); };
  } else if (kind == 3) {
    BitW w;
    int len = (int)g.draw(256);
    w.put(1029, 12); w.put(g.bits(12), 12); w.put(g.bits(16), 16); w.put(g.bits(17), 17); w.put(g.bits(7), 7); w.put(len, 8);
    for (int i = 0; i < len; i++) w.put(g.draw(256), 8);
    b = w.b; nb = w.n; name = "1029";
    f = [&](const Bytes &x, size_t n) { return dec(rtcm3_decode_1029_bitstream, x, n, m29.p); };
  } else if (kind == 4) {
    BitW w;
    int mask = (int)g.draw(16);
    w.put(1230, 12); w.put(g.bits(12), 12); w.put(g.draw(2), 1); w.put(0, 3); w.put(mask, 4);
    for (int i = 0; i < 4; i++) if (mask >> i & 1) w.put(g.bits(16), 16);
    b = w.b; nb = w.n; name = "1230";
    f = [&](const Bytes &x, size_t n) { return dec(rtcm3_decode_1230_bitstream, x, n, m1230.p); };
  } else if (kind == 5) {
    BitW w;
    int len = (int)g.draw(256);
    w.put(4062, 12); w.put(0, 4); w.put(g.bits(16), 16); w.put(g.bits(16), 16); w.put(len, 8);
    for (int i = 0; i < len; i++) w.put(g.draw(256), 8);
    b = w.b; nb = w.n; name = "4062";
    f = [&](const Bytes &x, size_t n) { return dec(rtcm3_decode_4062_bitstream, x, n, m4062.p); };
  } else if (kind == 6) {
    int num = g.pick({1019, 1020, 1042, 1044, 1045, 1046});
    Raw r = gen_raw(g, eph_layout(num), {{"msg", (u64)num}});
    if (num == 1042 && r.v["sat"] <= 5) r.v["sat"] += 6;
    b = r.enc(); nb = r.nbits();
    name = numlabel(num);
    slack = num == 1045 ? 7 : num == 1046 ? 2 : 0;
    if (num == 1020) slack = r.u("add") ? 7 : 79;
    f = [&, num](const Bytes &x, size_t n) { return dec(eph_dec(num), x, n, eph.p); };
  } else if (kind == 7 || kind == 8) {
    Msm m = gen_msm(g);
    b = m.enc(&nb);
    name = fmt("MSM%d", m.type);
    f = [&, m](const Bytes &x, size_t n) { return dec(msm_dec(m.type), x, n, msm.p); };
  } else if (kind == 10) {
    Ndf m = gen_ndf(g);
    m.res = 0;
    b = m.enc(&nb);
    name = "4075";
    f = [&](const Bytes &x, size_t n) { return dec(rtcm3_decode_4075_bitstream, x, n, ndf.p); };
  } else {
    Ssr m = gen_any_ssr(g);
    b = m.enc(&nb);
    name = KN[m.kind];
    f = [&, m](const Bytes &x, size_t n) { return dec_ssr(m.kind, x, n, ssr.p); };
  }
  static std::map<std::string, std::string> lab;
  g.label((lab[name] = name).c_str());
  size_t need = nb - slack;
  size_t cut;
  switch (g.draw(4)) {
    case 0: cut = need - 1 - g.draw(std::min<size_t>(need, 32)); break;
    case 1: cut = g.draw(std::min<size_t>(need, 200)); break;
    default: cut = g.draw(need); break;
  }
  if (g.coin()) cut &= ~(size_t)7;
  g.fingerprint(b.data(), b.size());
  g.fingerprint(&cut, sizeof cut);
  g.nontrivial_if(cut >= 24);
  g.note(fmt("%s cut to %zu of %zu bits: %s", name.c_str(), cut, nb, hex(b.data(), (cut + 7) / 8).c_str()));
  rtcm3_rc rc = f(b, cut);
  PBT_CHECK(rc != RC_OK, "%s accepted with %zu of %zu bits", name.c_str(), cut, nb);
  PBT_CHECK(f(b, nb) == RC_OK, "%s refused when complete", name.c_str());
}

// ---- C15 encoding -------------------------------------------------------
struct EncBuf {
  u8 *p;
  u8 fill;
  enum { N = 2048 };
  EncBuf(u8 f) : fill(f) { p = (u8 *)malloc(N); memset(p, f, N); }
  ~EncBuf() { free(p); }
};
static void check_bits(const EncBuf &e, unsigned ret, const Bytes &want, size_t nbits, const char *what) {
  PBT_CHECK(ret == (nbits + 7) / 8, "%s: returned length %u, layout has %zu bits", what, ret, nbits);
  Bytes got(e.p, e.p + ret);
  for (size_t i = 0; i < nbits; i++) PBT_CHECK(getu(got, i, 1) == getu(want, i, 1), "%s: bit %zu differs\n got %s\nwant %s", what, i, hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str());
  for (size_t i = ret; i < EncBuf::N; i++) PBT_CHECK(e.p[i] == e.fill, "%s: byte %zu beyond the returned length %u was written", what, i, ret);
}
typedef uint16_t (*ObsEnc)(const rtcm_obs_message *, uint8_t *);
static ObsEnc obs_enc(int num) {
  switch (num) {
    case 1001: return rtcm3_encode_1001;
    case 1002: return rtcm3_encode_1002;
    case 1003: return rtcm3_encode_1003;
    case 1004: return rtcm3_encode_1004;
    case 1010: return rtcm3_encode_1010;
    default: return rtcm3_encode_1012;
  }
}
PBT_PROP(C15, obs_bits, 120000, 1500000, "legacy observation message built from raw values: encoded bits equal the reference layout; satellites without usable measurements are left out; non-trivial: a satellite is encoded") {
  LObs m = gen_lobs(g, true);
  Obj<rtcm_obs_message> o((u8)g.draw(256));
  rtcm_obs_header &h = o->header;
  h.msg_num = m.num; h.stn_id = m.stn; h.tow_ms = m.tow; h.sync = m.sync; h.n_sat = m.sats.size(); h.div_free = m.div; h.smooth = m.smooth;
  LObs want = m;
  want.sats.clear();
  for (size_t i = 0; i < m.sats.size(); i++) {
    const LSat &s = m.sats[i];
    rtcm_sat_data &d = o->sats[i];
    d.svId = s.sv; d.fcn = s.fcn;
    bool drop = g.chance(12);
    for (int f = 0; f < (m.l2() ? 2 : 1); f++) {
      rtcm_freq_data &q = d.obs[f];
      q.code = (u8)(f ? s.code2 : s.code1); q.flags.data = 0;
      q.pseudorange = f ? m.pr_l2(s) : m.pr_l1(s);
      q.carrier_phase = m.cp(s, f);
      q.lock = lock7((unsigned)(f ? s.lock2 : s.lock1));
      q.cnr = 0.25 * (double)(f ? s.cnr2 : s.cnr1);
      q.flags.fields.valid_pr = f ? m.vpr2(s) : 1;
      q.flags.fields.valid_cp = (f ? s.diff2 : s.diff1) != 0x80000;
      q.flags.fields.valid_lock = q.flags.fields.valid_cp;
      q.flags.fields.valid_cnr = q.cnr != 0;
    }
    if (drop) {
      if (g.coin()) d.obs[0].flags.fields.valid_pr = 0; else d.obs[0].flags.fields.valid_cp = 0;
    } else want.sats.push_back(s);
  }
  size_t nb;
  Bytes b = want.enc(&nb);
  g.label(numlabel(m.num));
  g.fingerprint(b.data(), b.size());
  g.nontrivial_if(!want.sats.empty());
  g.note(fmt("%d %s", m.num, hex(b.data(), b.size()).c_str()));
  EncBuf e((u8)g.draw(256));
  unsigned n = obs_enc(m.num)(o.p, e.p);
  check_bits(e, n, b, nb, numlabel(m.num));
}
PBT_PROP(C15, obs_values, 120000, 1500000, "legacy observations with arbitrary real measurements: encode then decode returns them to field resolution, the phase up to multiples of 1500 cycles; non-trivial: a satellite is encoded") {
  int num = g.pick({1002, 1004, 1010, 1012});
  LObs k; k.num = num;
  Obj<rtcm_obs_message> o, r;
  rtcm_obs_header &h = o->header;
  h.msg_num = num; h.stn_id = g.bits(12); h.tow_ms = (u32)g.range(0, 86399999); h.sync = g.draw(2); h.div_free = g.draw(2); h.smooth = g.draw(8);
  int ns = (int)g.range(1, g.chance(10) ? 31 : 4);
  h.n_sat = ns;
  for (int i = 0; i < ns; i++) {
    rtcm_sat_data &d = o->sats[i];
    d.svId = g.bits(6); d.fcn = g.draw(21);
    LSat s{}; s.fcn = d.fcn;
    double pr = g.real(1.9e7, 4.5e7);
    if (g.chance(20)) pr = k.prunit() * (double)g.range(60, 120) + (g.coin() ? 0 : g.real(-0.03, 0.03));
    for (int f = 0; f < 2; f++) {
      rtcm_freq_data &q = d.obs[f];
      q.code = (u8)(f ? s.code2 : s.code1); q.flags.data = 0;
      q.pseudorange = f ? pr + g.real(-163, 163) : pr;
      double dif = g.chance(25) ? g.real(-20000, 20000) : g.real(-250, 250);  // metres
      if (g.chance(15)) {  // at the limits of the field, also after rolling over
        dif = (g.coin() ? 1 : -1) * 262.144 + g.real(-0.0012, 0.0012) + (double)g.range(-3, 3) * (g.coin() ? 1500 * C_LIGHT / k.freq(s, f) : 0);
        g.label("phase at the range limit");
      }
      q.carrier_phase = (pr + dif) * k.freq(s, f) / C_LIGHT;
      q.lock = g.chance(50) ? (double)g.range(0, 1200) : g.real(0, 2000);
      q.cnr = g.real(0.2, 63.7);
      q.flags.fields.valid_pr = q.flags.fields.valid_cp = q.flags.fields.valid_lock = q.flags.fields.valid_cnr = 1;
    }
  }
  g.label(numlabel(num));
  g.nontrivial();
  g.fingerprint(o.p, 16);
  g.fingerprint(&o->sats[0].obs[0].pseudorange, 8);
  EncBuf e(0);
  unsigned n = obs_enc(num)(o.p, e.p);
  Bytes b(e.p, e.p + n);
  g.note(fmt("%d %s", num, hex(b.data(), b.size()).c_str()));
  EQ(dec(obs_dec(num), b, n * 8, r.p), RC_OK, "rc of decoding the encoded message");
  EQ(r->header.n_sat, ns, "n_sat");
  EQ(r->header.tow_ms, h.tow_ms, "tow_ms");
  for (int i = 0; i < ns; i++) {
    LSat s{}; s.fcn = o->sats[i].fcn;
    EQ(r->sats[i].svId, o->sats[i].svId, "svId");
    for (int f = 0; f < (k.l2() ? 2 : 1); f++) {
      const rtcm_freq_data &a = o->sats[i].obs[f], &q = r->sats[i].obs[f];
      // the raw value that stands for "invalid" cannot be sent
      if (!q.flags.fields.valid_pr) { g.label("hit invalid pattern"); continue; }
      NEAR(q.pseudorange, a.pseudorange, f ? 0.0301 : 0.01001, "pseudorange");
      if (q.flags.fields.valid_cp) {
        double dc = q.carrier_phase - a.carrier_phase;
        double roll = round(dc / 1500) * 1500;
        double lam = C_LIGHT / k.freq(s, f);
        NEAR(dc - roll, 0, (0.00025 + 1e-4) / lam, "carrier phase modulo 1500 cycles");
        // no roll-over unless it is needed
        double diff_m = a.carrier_phase * lam - (f ? o->sats[i].obs[0].pseudorange : a.pseudorange);
        if (fabs(diff_m) < 262.1) NEAR(roll, 0, 0, "phase rolled over needlessly");
      } else {
        double diff_m = a.carrier_phase * C_LIGHT / k.freq(s, f) - o->sats[i].obs[0].pseudorange;
        PBT_FAIL("", "valid phase (phase - range = %.6f m) was sent as invalid", diff_m);
      }
      NEAR(q.cnr, a.cnr, 0.1251, "cnr");
      PBT_CHECK(q.lock <= a.lock + 1e-9, "lock time %.3f was raised to %.3f", a.lock, q.lock);
      unsigned idx = 0;
      while (idx < 127 && lock7(idx + 1) <= a.lock) idx++;
      NEAR(q.lock, lock7(idx), 0, "lock time");
    }
  }
}
PBT_PROP(C15, station, 80000, 800000, "1005/1006 from raw values: encoded bits equal the layout; heights outside the field are clamped; every case counts") {
  Sta s = gen_sta(g);
  s.res = 0;
  Obj<rtcm_msg_1006> m;
  rtcm_msg_1005 &q = m->msg_1005;
  q.stn_id = s.stn; q.ITRF = s.itrf; q.GPS_ind = s.gps; q.GLO_ind = s.glo; q.GAL_ind = s.gal; q.ref_stn_ind = s.refs; q.osc_ind = s.osc; q.reserved = 0; q.quart_cycle_ind = s.qc;
  double j = g.real(-0.00004, 0.00004);
  q.arp_x = (double)sext(s.x, 38) / 10000.0 + j; q.arp_y = (double)sext(s.y, 38) / 10000.0 - j; q.arp_z = (double)sext(s.z, 38) / 10000.0 + j;
  m->ant_height = (double)s.h / 10000.0;
  if (g.chance(10)) {
    if (g.coin()) { m->ant_height = 6.5535 + g.real(0, 100); s.h = 65535; } else { m->ant_height = -g.real(0, 100); s.h = 0; }
  }
  size_t nb;
  Bytes b = enc_sta(s, &nb);
  g.label(numlabel(s.num));
  g.nontrivial();
  g.fingerprint(b.data(), b.size());
  g.note(hex(b.data(), b.size()));
  EncBuf e((u8)g.draw(256));
  unsigned n = s.num == 1005 ? rtcm3_encode_1005(&q, e.p) : rtcm3_encode_1006(m.p, e.p);
  check_bits(e, n, b, nb, numlabel(s.num));
}
PBT_PROP(C15, strings, 80000, 800000, "1007/1008/1029/1033/1230/4062 from random content: encoded bits equal the layout; non-trivial: non-empty content") {
  EncBuf e((u8)g.draw(256));
  unsigned n;
  Bytes b;
  size_t nb;
  const char *what;
  switch (g.draw(4)) {
    case 0: {
      Desc d = gen_desc(g, 32);
      b = enc_desc(d, &nb);
      what = numlabel(d.num);
      g.nontrivial_if(d.a.s.size() > 0);
      Obj<rtcm_msg_1033> m;
      Obj<rtcm_msg_1008> q;
      m->stn_id = q->msg_1007.stn_id = d.stn; m->ant_setup_id = q->msg_1007.ant_setup_id = d.setup;
      auto cp = [](char *dst, u8 &c, const Str &s) { c = s.s.size(); memcpy(dst, s.s.data(), s.s.size()); };
      cp(m->ant_descriptor, m->ant_descriptor_counter, d.a); cp(m->ant_serial_num, m->ant_serial_num_counter, d.as); cp(m->rcv_descriptor, m->rcv_descriptor_counter, d.r);
      cp(m->rcv_fw_version, m->rcv_fw_version_counter, d.fw); cp(m->rcv_serial_num, m->rcv_serial_num_counter, d.rs);
      cp(q->msg_1007.ant_descriptor, q->msg_1007.ant_descriptor_counter, d.a); cp(q->ant_serial_num, q->ant_serial_num_counter, d.as);
      n = d.num == 1033 ? rtcm3_encode_1033(m.p, e.p) : d.num == 1008 ? rtcm3_encode_1008(q.p, e.p) : rtcm3_encode_1007(&q->msg_1007, e.p);
      break;
    }
    case 1: {
      BitW w;
      Obj<rtcm_msg_1029> m;
      Bytes t = g.bytes(g.draw(256));
      m->stn_id = g.bits(12); m->mjd_num = g.bits(16); m->utc_sec_of_day = g.bits(17); m->unicode_chars = g.bits(7); m->utf8_code_units_n = t.size();
      memcpy(m->utf8_code_units, t.data(), t.size());
      w.put(1029, 12); w.put(m->stn_id, 12); w.put(m->mjd_num, 16); w.put(m->utc_sec_of_day, 17); w.put(m->unicode_chars, 7); w.put(t.size(), 8);
      for (u8 c : t) w.put(c, 8);
      b = w.b; nb = w.n; what = "1029";
      g.nontrivial_if(!t.empty());
      n = rtcm3_encode_1029(m.p, e.p);
      break;
    }
    case 2: {
      BitW w;
      Obj<rtcm_msg_1230> m;
      m->stn_id = g.bits(12); m->bias_indicator = g.draw(2); m->fdma_signal_mask = g.draw(16);
      w.put(1230, 12); w.put(m->stn_id, 12); w.put(m->bias_indicator, 1); w.put(0, 3); w.put(m->fdma_signal_mask, 4);
      double *v[4] = {&m->L1_CA_cpb_meter, &m->L1_P_cpb_meter, &m->L2_CA_cpb_meter, &m->L2_P_cpb_meter};
      for (int i = 0; i < 4; i++) {
        u64 raw = g.bits(16);
        *v[i] = 0.02 * (double)sext(raw, 16) + g.real(-0.009, 0.009);
        if (sext(raw, 16) == 32767 || sext(raw, 16) == -32768) *v[i] = 0.02 * (double)sext(raw, 16);
        if (m->fdma_signal_mask & (8 >> i)) w.put(raw, 16);
      }
      b = w.b; nb = w.n; what = "1230";
      g.nontrivial_if(m->fdma_signal_mask);
      n = rtcm3_encode_1230(m.p, e.p);
      break;
    }
    default: {
      BitW w;
      Obj<rtcm_msg_swift_proprietary> m;
      Bytes t = g.bytes(g.draw(256));
      m->msg_type = g.bits(16); m->sender_id = g.bits(16); m->len = t.size();
      memcpy(m->data, t.data(), t.size());
      w.put(4062, 12); w.put(0, 4); w.put(m->msg_type, 16); w.put(m->sender_id, 16); w.put(t.size(), 8);
      for (u8 c : t) w.put(c, 8);
      b = w.b; nb = w.n; what = "4062";
      g.nontrivial_if(!t.empty());
      n = rtcm3_encode_4062(m.p, e.p);
    }
  }
  g.label(what);
  g.fingerprint(b.data(), b.size());
  g.note(fmt("%s %s", what, hex(b.data(), b.size()).c_str()));
  check_bits(e, n, b, nb, what);
}
PBT_PROP(C15, eph, 160000, 2000000, "ephemeris decoded from random raw fields and encoded again: the used bits are identical; every case counts") {
  int num = g.pick({1019, 1020, 1042, 1045, 1046});
  Raw r = gen_raw(g, eph_layout(num), {{"msg", (u64)num}});
  for (auto &d : r.def)
    if (d.kind == 'r') r.v[d.name] = 0;
  if (num == 1020) {
    // fields without a place in the message structure, and negative zero
    r.v["almh"] = 1; r.v["add"] = 0; r.v["ln5"] = 0; r.v["ln3"] = r.v["bn"];
    for (auto &d : r.def) if (d.kind == 'm' && smag(r.v[d.name], d.w) == 0) r.v[d.name] = 0;
  }
  if (num == 1042 && r.v["sat"] <= 5) r.v["sat"] += 6;
  Bytes b = r.enc();
  size_t nb = r.nbits();
  g.label(numlabel(num));
  g.nontrivial();
  g.fingerprint(b.data(), b.size());
  g.note(fmt("%d %s", num, hex(b.data(), b.size()).c_str()));
  // the structure is filled from the reference values, not by the decoder
  Obj<rtcm_msg_eph> m(0);
  m->sat_id = r.u("sat");
  if (num == 1020) {
    auto &k = m->data.glo;
    k.fcn = r.u("fcn"); m->fit_interval = r.u("p1"); k.t_b = r.u("tb"); m->ura = r.u("ft"); m->health_bits = r.u("bn");
    k.vel[0] = r.s("vx"); k.vel[1] = r.s("vy"); k.vel[2] = r.s("vz"); k.pos[0] = r.s("px"); k.pos[1] = r.s("py"); k.pos[2] = r.s("pz");
    k.acc[0] = r.s("ax"); k.acc[1] = r.s("ay"); k.acc[2] = r.s("az"); k.gamma = r.s("gamma"); k.tau = r.s("tau"); k.d_tau = r.s("dtau");
  } else {
    auto &k = m->data.kepler;
    m->wn = r.u("wn"); m->ura = r.u("ura"); m->toe = r.u("toe"); k.toc = r.u("toc"); k.inc_dot = r.s("idot"); k.iode = r.u("iode");
    k.af2 = r.s("af2"); k.af1 = r.s("af1"); k.af0 = r.s("af0"); k.crs = r.s("crs"); k.dn = r.s("dn"); k.m0 = r.s("m0"); k.cuc = r.s("cuc"); k.ecc = r.u("ecc");
    k.cus = r.s("cus"); k.sqrta = r.u("sqrta"); k.cic = r.s("cic"); k.omega0 = r.s("omega0"); k.cis = r.s("cis"); k.inc = r.s("inc"); k.crc = r.s("crc"); k.w = r.s("w");
    k.omegadot = r.s("omegadot"); m->health_bits = r.u("health");
    if (num == 1019) { k.tgd.gps_s = r.s("tgd"); k.iodc = r.u("iodc"); m->fit_interval = r.u("fit"); k.codeL2 = r.u("codeL2"); k.L2_data_bit = r.u("l2p"); }
    if (num == 1042) { k.tgd.bds_s[0] = r.s("tgd1"); k.tgd.bds_s[1] = r.s("tgd2"); k.iodc = r.u("iodc"); }
    if (num == 1045 || num == 1046) { k.tgd.gal_s[0] = r.s("bgd0"); k.tgd.gal_s[1] = num == 1046 ? r.s("bgd1") : 0; }
  }
  EncBuf e((u8)g.draw(256));
  unsigned n = num == 1019 ? rtcm3_encode_gps_eph(m.p, e.p) : num == 1020 ? rtcm3_encode_glo_eph(m.p, e.p) : num == 1042 ? rtcm3_encode_bds_eph(m.p, e.p) : num == 1045 ? rtcm3_encode_gal_eph_fnav(m.p, e.p) : rtcm3_encode_gal_eph_inav(m.p, e.p);
  if (num == 1020) {
    // reserved bits are the encoder's own choice
    PBT_CHECK(n == (nb + 7) / 8, "1020: returned length %u", n);
    size_t pos = 0;
    Bytes got(e.p, e.p + n);
    for (auto &d : r.def) {
      if (d.kind != 'r') PBT_CHECK(getu(got, pos, d.w) == r.u(d.name), "1020 field %s: got %llx want %llx", d.name, (unsigned long long)getu(got, pos, d.w), (unsigned long long)r.u(d.name));
      pos += d.w;
    }
    for (size_t i = n; i < EncBuf::N; i++) PBT_CHECK(e.p[i] == e.fill, "byte %zu beyond the returned length was written", i);
  } else check_bits(e, n, b, nb, numlabel(num));
}
static void fill_msm(const Msm &m, rtcm_msm_message &o, u64 tow) {
  rtcm_msm_header &h = o.header;
  h.msg_num = m.num(); h.stn_id = m.stn; h.tow_ms = tow; h.multiple = m.multiple; h.iods = m.iods; h.reserved = m.reserved; h.steering = m.steering;
  h.ext_clock = m.ext; h.div_free = m.divf; h.smooth = m.smooth;
  for (int i = 0; i < 64; i++) h.satellite_mask[i] = (m.satmask >> (63 - i)) & 1;
  for (int i = 0; i < 32; i++) h.signal_mask[i] = (m.sigmask >> (31 - i)) & 1;
  for (size_t i = 0; i < m.cellmask.size(); i++) h.cell_mask[i] = m.cellmask[i];
  for (size_t i = 0; i < m.sats.size(); i++) {
    o.sats[i].rough_range_ms = (double)m.sats[i].rough_ms + (double)m.sats[i].rough_mod / 1024;
    o.sats[i].rough_range_rate_m_s = (double)sext(m.sats[i].rate, 14);
    o.sats[i].glo_fcn = m.sats[i].info;
  }
}
PBT_PROP(C15, msm_bits, 120000, 1500000, "MSM4/5 from raw values: encoded bits equal the reference layout; non-trivial: at least one cell") {
  Msm m = gen_msm(g, 4, 5);
  if (m.cons == GLO && m.dow > 6) m.dow = 6;
  for (auto &s : m.sats) if (s.rough_ms == 255) s.rough_ms = 254;
  for (auto &c : m.cells) {
    // raw -2^14 / -2^21 stand for invalid: cells carry the flag instead
    if (c.cnr > 63) c.cnr = 63;
  }
  u64 tow = m.cons == GLO ? m.dow * 86400000 + m.epoch : m.epoch;
  Obj<rtcm_msm_message> o((u8)g.draw(256));
  fill_msm(m, *o, tow);
  for (size_t i = 0; i < m.cells.size(); i++) {
    MsmExp e = msm_expect(m, m.cells[i]);
    rtcm_msm_signal_data &s = o->signals[i];
    s.flags.data = 0;
    s.flags.fields.valid_pr = e.vpr; s.flags.fields.valid_cp = e.vcp; s.flags.fields.valid_cnr = e.vcnr; s.flags.fields.valid_lock = 1;
    s.flags.fields.valid_dop = m.cells[i].dop != 0x4000;
    s.pseudorange_ms = e.pr; s.carrier_phase_ms = e.cp; s.lock_time_s = e.lock; s.hca_indicator = e.hca; s.cnr = e.cnr; s.range_rate_m_s = e.dop;
    if (m.cells[i].lock != 0 && g.chance(10)) { s.flags.fields.valid_lock = 0; m.cells[i].lock = 0; }
  }
  size_t nb;
  Bytes b = m.enc(&nb);
  g.label(CN[m.cons]);
  g.label(numlabel(m.type));
  g.nontrivial_if(!m.cells.empty());
  g.fingerprint(b.data(), b.size());
  g.note(fmt("%d %s", m.num(), hex(b.data(), b.size()).c_str()));
  EncBuf e((u8)g.draw(256));
  unsigned n = m.type == 4 ? rtcm3_encode_msm4(o.p, e.p) : rtcm3_encode_msm5(o.p, e.p);
  check_bits(e, n, b, nb, "MSM");
  EQ(m.type == 4 ? rtcm3_encode_msm5(o.p, e.p) : rtcm3_encode_msm4(o.p, e.p), 0, "length from the other MSM encoder");
}
PBT_PROP(C15, msm_values, 120000, 1500000, "MSM4/5 with arbitrary real measurements: encode then decode returns them to field resolution; non-trivial: at least one cell") {
  Msm m = gen_msm(g, 4, 5);
  if (m.cons == GLO && m.dow > 6) m.dow = 6;
  u64 tow = m.cons == GLO ? m.dow * 86400000 + m.epoch : m.epoch;
  Obj<rtcm_msm_message> o, r;
  fill_msm(m, *o, tow);
  size_t ci = 0;
  for (size_t i = 0; i < m.sats.size(); i++) {
    double rr = g.real(0, 250);
    if (g.chance(15)) rr = (double)g.range(1, 250) + g.real(-1.0 / 1500, 1.0 / 1500);  // near a whole millisecond
    double rate = g.real(-8000, 8000);
    o->sats[i].rough_range_ms = rr;
    o->sats[i].rough_range_rate_m_s = round(rate);
    for (size_t j = 0; j < m.sigs.size(); j++) {
      if (!m.cellmask[i * m.sigs.size() + j]) continue;
      rtcm_msm_signal_data &s = o->signals[ci++];
      s.flags.data = 0;
      s.flags.fields.valid_pr = !g.chance(8); s.flags.fields.valid_cp = !g.chance(8); s.flags.fields.valid_cnr = !g.chance(8); s.flags.fields.valid_lock = !g.chance(8); s.flags.fields.valid_dop = !g.chance(8);
      // field range: +-2^-10 ms and +-2^-8 ms around the rough range
      s.pseudorange_ms = rr + g.real(-1.0 / 2100, 1.0 / 2100);
      s.carrier_phase_ms = rr + g.real(-1.0 / 310, 1.0 / 310);
      if (g.chance(8)) { s.pseudorange_ms = rr + (g.coin() ? 1 : -1) * g.real(1.0 / 600, 1); }
      if (g.chance(8)) { s.carrier_phase_ms = rr + (g.coin() ? 1 : -1) * g.real(1.0 / 200, 1); }
      s.lock_time_s = g.chance(30) ? 0.032 * pow(2, (double)g.range(0, 15)) * g.pick({1.0, 0.999, 1.001}) : g.real(0, 700);
      s.hca_indicator = g.coin();
      s.cnr = g.real(0.6, 63.4);
      s.range_rate_m_s = round(rate) + g.real(-1.6, 1.6);
      if (g.chance(8)) s.range_rate_m_s = round(rate) + (g.coin() ? 1 : -1) * g.real(1.7, 100);
    }
  }
  g.label(numlabel(m.type));
  g.nontrivial_if(ci > 0);
  g.fingerprint(&o->header, sizeof o->header);
  if (ci) g.fingerprint(&o->signals[0].pseudorange_ms, 8);
  EncBuf e(0);
  unsigned n = m.type == 4 ? rtcm3_encode_msm4(o.p, e.p) : rtcm3_encode_msm5(o.p, e.p);
  size_t nb;
  m.enc(&nb);
  EQ(n, (nb + 7) / 8, "length");
  Bytes b(e.p, e.p + n);
  g.note(fmt("%d %s", m.num(), hex(b.data(), b.size()).c_str()));
  EQ(dec(msm_dec(m.type), b, nb, r.p), RC_OK, "rc of decoding the encoded message");
  EQ(r->header.tow_ms, m.epoch, "tow");
  ci = 0;
  const rtcm_msm_sat_data *os = o->sats, *rs = r->sats;
  for (size_t i = 0; i < m.sats.size(); i++) {
    NEAR(rs[i].rough_range_ms, os[i].rough_range_ms, 0.5 / 1024 + 1e-9, "rough range");
    for (size_t j = 0; j < m.sigs.size(); j++) {
      if (!m.cellmask[i * m.sigs.size() + j]) continue;
      const rtcm_msm_signal_data &s = o->signals[ci], &q = r->signals[ci];
      ci++;
      double rr = rs[i].rough_range_ms;
      bool vpr = s.flags.fields.valid_pr, vcp = s.flags.fields.valid_cp;
      double dpr = fabs(s.pseudorange_ms - rr), dcp = fabs(s.carrier_phase_ms - rr);
      const double eps = 1e-8;
      if (!vpr || dpr > 1.0 / 1024 + eps) EQ(q.flags.fields.valid_pr, 0, "valid_pr of an absent or out-of-range pseudorange");
      else if (dpr < 1.0 / 1024 - eps * 10) { EQ(q.flags.fields.valid_pr, 1, "valid_pr"); NEAR(q.pseudorange_ms, s.pseudorange_ms, pow(2, -25) + 1e-12, "pseudorange_ms"); }
      if (!vcp || dcp > 1.0 / 256 + eps) EQ(q.flags.fields.valid_cp, 0, "valid_cp of an absent or out-of-range phase");
      else if (dcp < 1.0 / 256 - eps) { EQ(q.flags.fields.valid_cp, 1, "valid_cp"); NEAR(q.carrier_phase_ms, s.carrier_phase_ms, pow(2, -30) + 1e-12, "carrier_phase_ms"); }
      EQ(q.hca_indicator, s.hca_indicator, "hca");
      EQ(q.flags.fields.valid_cnr, s.flags.fields.valid_cnr, "valid_cnr");
      if (s.flags.fields.valid_cnr) NEAR(q.cnr, s.cnr, 0.5001, "cnr");
      double lt = 0;
      if (s.flags.fields.valid_lock) for (unsigned k = 0; k < 16; k++) if (lock4(k) <= s.lock_time_s) lt = lock4(k);
      NEAR(q.lock_time_s, lt, 1e-9, "lock time");
      if (m.type == 5) {
        double dd = fabs(s.range_rate_m_s - rs[i].rough_range_rate_m_s);
        if (!s.flags.fields.valid_dop || dd > 1.6384 + 1e-6) EQ(q.flags.fields.valid_dop, 0, "valid_dop of an absent or out-of-range rate");
        else if (dd < 1.638) { EQ(q.flags.fields.valid_dop, 1, "valid_dop"); NEAR(q.range_rate_m_s, s.range_rate_m_s, 0.00005 + 1e-9, "range rate"); }
      }
    }
  }
}
PBT_PROP(C15, lock, 80000, 200000, "4-bit lock indicator of random and boundary lock times: the largest indicator not above the time; every case counts") {
  double t = g.chance(40) ? 0.032 * pow(2, (double)g.range(-1, 16)) * g.pick({1.0, 0.9999999, 1.0000001}) : g.chance(50) ? g.real(0, 1.2) : g.real(0, 2000);
  unsigned want = 0;
  for (unsigned k = 1; k < 16; k++) if (t >= lock4(k)) want = k;
  g.nontrivial();
  g.fingerprint(&t, 8);
  g.note(fmt("t=%.9g", t));
  // thresholds are decimal constants: allow the neighbour exactly at one
  unsigned got = rtcm3_encode_lock_time(t);
  bool edge = false;
  for (unsigned k = 1; k < 16; k++) if (fabs(t - lock4(k)) < 1e-12 * lock4(k)) edge = true;
  PBT_CHECK(got == want || (edge && abs((int)got - (int)want) <= 1), "lock time %.9g: indicator %u want %u", t, got, want);
  for (unsigned k = 0; k < 16; k++) {
    NEAR(rtcm3_decode_lock_time(k), lock4(k), 1e-9, "decoded lock time");
  }
}

// ---- C38 masks ----------------------------------------------------------
PBT_PROP(C38, masks, 160000, 2000000, "random boolean masks of 0..64 entries: count and every n-th position; non-trivial: at least one bit set") {
  unsigned size = (unsigned)(g.chance(30) ? g.pick({64, 32}) : g.range(0, 64));
  bool *mask = (bool *)malloc(size ? size : 1);  // exact size
  std::vector<unsigned> pos;
  int dens = (int)g.draw(4);
  for (unsigned i = 0; i < size; i++) {
    bool v = dens == 0 ? g.coin() : dens == 1 ? g.chance(90) : dens == 2 ? g.chance(8) : true;
    mask[i] = v;
    if (v) pos.push_back(i);
  }
  g.nontrivial_if(!pos.empty());
  g.fingerprint(mask, size);
  g.fingerprint(&size, sizeof size);
  if (g.want_notes) { std::string s; for (unsigned i = 0; i < size; i++) s += mask[i] ? '1' : '0'; g.note(s); }
  unsigned n = count_mask_values(size, mask);
  std::vector<unsigned> got;
  for (unsigned k = 1; k <= pos.size(); k++) got.push_back(find_nth_mask_value(size, mask, k));
  free(mask);
  EQ(n, pos.size(), "count_mask_values");
  for (unsigned k = 0; k < pos.size(); k++) EQ(got[k], pos[k], fmt("position of set bit %u", k + 1).c_str());
}
static int want_cons(unsigned n) {
  if (n >= 1071 && n <= 1127 && n % 10 >= 1 && n % 10 <= 7) {
    static const int c[] = {GPS, GLO, GAL, SBAS, QZS, BDS};
    return c[(n - 1071) / 10];
  }
  struct { unsigned lo, hi; int c; } ssr[] = {{1057, 1062, GPS}, {1063, 1068, GLO}, {1240, 1245, GAL}, {1246, 1251, QZS}, {1258, 1263, BDS}, {1265, 1265, GPS}, {1266, 1266, GLO}, {1267, 1267, GAL}, {1268, 1268, QZS}, {1269, 1269, SBAS}, {1270, 1270, BDS}};
  for (auto &s : ssr) if (n >= s.lo && n <= s.hi) return s.c;
  return RTCM_CONSTELLATION_INVALID;
}
PBT_PROP(C38, numbers, 12000, 20000, "blocks of message numbers that together cover all 65536 values: constellation and MSM type; every case counts") {
  unsigned block = (unsigned)g.draw(256);
  g.nontrivial();
  g.fingerprint(&block, sizeof block);
  g.note(fmt("numbers %u..%u and 1000..1300", block * 256, block * 256 + 255));
  auto one = [](unsigned n) {
    int t = n >= 1071 && n <= 1127 && n % 10 >= 1 && n % 10 <= 7 ? (int)(n % 10) : 0;
    PBT_CHECK((int)to_msm_type((u16)n) == t, "to_msm_type(%u) = %d want %d", n, (int)to_msm_type((u16)n), t);
    int c = to_constellation((u16)n);
    PBT_CHECK(c == want_cons(n), "to_constellation(%u) = %d want %d", n, c, want_cons(n));
  };
  for (unsigned n = block * 256; n < block * 256 + 256; n++) one(n);
  for (unsigned n = 1000; n < 1300; n++) one(n);
}
PBT_PROP(C38, bits, 160000, 2000000, "random bit fields at random positions: set then get, neighbours untouched; every case counts") {
  size_t n = 24;
  Bytes b = g.bytes(n), orig = b;
  unsigned w = (unsigned)g.range(1, 64), pos = (unsigned)g.draw(n * 8 - w + 1);
  u64 v = g.bits(w);
  g.nontrivial();
  g.fingerprint(b.data(), b.size());
  g.fingerprint(&v, 8);
  g.note(fmt("w=%u pos=%u v=%llx", w, pos, (unsigned long long)v));
  u8 *p = (u8 *)malloc(n);
  memcpy(p, b.data(), n);
  int how = (int)g.draw(3);
  if (w <= 32) {
    PBT_CHECK(rtcm_getbitu(p, pos, w) == getu(b, pos, w), "getbitu");
    PBT_CHECK(rtcm_getbits(p, pos, w) == sext(getu(b, pos, w), w), "getbits");
  }
  PBT_CHECK(rtcm_getbitul(p, pos, w) == getu(b, pos, w), "getbitul");
  PBT_CHECK(rtcm_getbitsl(p, pos, w) == sext(getu(b, pos, w), w), "getbitsl");
  bool sm = how == 2 && w >= 2 && w <= 32;
  if (w >= 2 && w <= 32) PBT_CHECK(rtcm_get_sign_magnitude_bit(p, pos, w) == smag(getu(b, pos, w), w), "get_sign_magnitude_bit");
  s64 sv = smag(v, w);
  if (sm) rtcm_set_sign_magnitude_bit(p, pos, w, sv);
  else if (w <= 32 && how == 0) rtcm_setbitu(p, pos, w, (u32)v);
  else if (w <= 32 && how == 1) rtcm_setbits(p, pos, w, (s32)sext(v, w));
  else if (how == 0) rtcm_setbitul(p, pos, w, v);
  else rtcm_setbitsl(p, pos, w, sext(v, w));
  Bytes a(p, p + n);
  free(p);
  if (sm) PBT_CHECK(smag(getu(a, pos, w), w) == sv, "sign-magnitude field written");
  else PBT_CHECK(getu(a, pos, w) == v, "field written");
  for (unsigned i = 0; i < n * 8; i++)
    if (i < pos || i >= pos + w) PBT_CHECK(getu(a, i, 1) == getu(orig, i, 1), "bit %u outside the field changed", i);
}

// ------------------------------------------------------------------ C40: ST proprietary messages (999)
namespace {
std::string sta_text(G &g, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += (char)(g.chance(90) ? g.range(32, 126) : g.range(1, 255));
  return s;
}
}  // namespace
PBT_PROP(C40, version, 60000, 2000000, "a version text of at least one byte") {
  std::string t = sta_text(g, (size_t)(g.chance(50) ? g.range(0, 40) : g.range(0, 255)));
  size_t room = (size_t)(g.chance(40) ? (s64)t.size() + g.range(-3, 3) : g.range(1, 255));
  if (room < 1 || room > 255) room = 128;
  BitW w;
  w.put(999, 12); w.put(25, 8); w.put(t.size(), 8);
  for (char c : t) w.put((u8)c, 8);
  g.fingerprint(w.b.data(), w.b.size());
  g.fingerprint(&room, sizeof room);
  g.nontrivial_if(!t.empty());
  g.note(fmt("%zu bytes of text, room for %zu", t.size(), room));
  Buf b(w.b, w.n);
  std::unique_ptr<char, decltype(&::free)> out((char *)malloc(room), ::free);
  memset(out.get(), 0x5A, room);
  EQ(sta_decode_fwver(b.p, out.get(), (u8)room), RC_OK, "rc");
  std::string want = t.substr(0, room - 1);
  PBT_CHECK(memchr(out.get(), 0, room), "the text is not terminated within its %zu bytes", room);
  PBT_CHECK(want == out.get(), "got \"%s\", want \"%s\"", hex((u8 *)out.get(), strlen(out.get())).c_str(), hex((u8 *)want.data(), want.size()).c_str());
}
PBT_PROP(C40, config, 60000, 2000000, "a configuration text of at least one byte") {
  // the text stands in four words behind 58 bits, the bytes of each word in reverse
  size_t n = (size_t)(g.chance(60) ? g.range(0, 15) : 15);
  std::string t = sta_text(g, n);
  BitW w;
  w.put(999, 12); w.put(2, 8); w.put(g.bits(38), 38);
  std::string f = t;
  f.resize(16);
  if (n == 15 && g.coin()) f[15] = (char)g.range(1, 255);  // one byte more than the text has room for
  for (int i = 0; i < 4; i++) for (int j = 3; j >= 0; j--) w.put((u8)f[(size_t)(i * 4 + j)], 8);
  size_t room = (size_t)g.range(16, 255);
  g.fingerprint(w.b.data(), w.b.size());
  g.nontrivial_if(n > 0);
  g.note(hex((const u8 *)t.data(), t.size()));
  Buf b(w.b, w.n);
  std::unique_ptr<char, decltype(&::free)> out((char *)malloc(room), ::free);
  memset(out.get(), 0x5A, room);
  EQ(sta_decode_rcc_config(b.p, out.get(), (u8)room), RC_OK, "rc");
  PBT_CHECK(memchr(out.get(), 0, room), "the text is not terminated");
  PBT_CHECK(t == out.get(), "got \"%s\", want \"%s\"", hex((u8 *)out.get(), strlen(out.get())).c_str(), hex((u8 *)t.data(), t.size()).c_str());
}

PBT_PROP(C40, rfstatus, 20000, 500000, "at least one section") {
  // sections in the order of the mask bits
  unsigned mask = (unsigned)g.bits(5);
  BitW w;
  std::vector<std::pair<const char *, std::pair<std::function<u64(const sta_rf_status &)>, u64>>> want;
  auto put = [&](const char *n, unsigned b, std::function<u64(const sta_rf_status &)> f) { u64 v = g.bits(b); w.put(v, b); want.push_back({n, {f, v}}); };
  w.put(999, 12); w.put(24, 8);
#define F(n, b) put(#n, b, [=](const sta_rf_status &s) { return (u64)s.n; })
  F(gnss_epoch_time, 30);
  w.put(mask, 8);
  want.push_back({"status_mask", {[](const sta_rf_status &s) { return (u64)s.status_mask; }, mask}});
  if (mask & 1) { F(cw_detect_mask, 4); F(cw_notch_mask, 8); F(cw_constellation_mask, 32); F(cw_candidate_mask, 8); for (int i = 0; i < 8; i++) F(cw_power_array[i], 32); }
  if (mask & 2) { F(agc_mask, 4); w.put(g.bits(8), 8); for (int i = 0; i < 4; i++) F(agc_array[i], 12); }
  if (mask & 4) { F(ifm_mask, 6); F(ifm_constellation_mask, 32); }
  if (mask & 8) for (int i = 0; i < 6; i++) F(noise_floor_ddc_array[i], 32);
  if (mask & 16) { F(antenna_sense_power_switch, 1); F(antenna_sense_op_mode, 1); F(antenna_sense_rf_path, 3); F(antenna_sense_status, 3); }
#undef F
  g.fingerprint(w.b.data(), w.b.size());
  g.note(fmt("mask %02x, %zu bits", mask, w.n));
  g.nontrivial_if(mask != 0);
  Buf b(w.b, w.n);
  Obj<sta_rf_status> m;
  auto check = [&]() {
    EQ(m->msg_num, 999, "message number"); EQ(m->subtype_id, 24, "subtype");
    for (auto &x : want) EQ(x.second.first(*m), x.second.second, x.first);
  };
  // the length is given in bits (as the comparisons are) or bytes (as in the tests)
  if (sta_decode_rfstatus(b.p, m.p, (u16)w.n) == RC_OK || sta_decode_rfstatus(b.p, m.p, (u16)((w.n + 7) / 8)) == RC_OK) return check();
  if (mask & 1) {  // what it fills in of a message with bits to spare
    Buf c(w.b, w.n + 8);
    sta_decode_rfstatus(c.p, m.p, (u16)(w.n + 8));
    check();
  }
  PBT_FAIL("rf-status-rejected", "a complete RF status message of %zu bits is rejected", w.n);
}
