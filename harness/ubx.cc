// C02, C08, C09, C29-C32, C36 for the UBX to SBP converter.
// Oracle: a model written from the u-blox interface description, the ICDs and the SBP
// specification; frames are built here byte by byte.
#include "conv.h"
#include <functional>
#include <map>
#include <memory>
extern "C" {
#include <gnss-converters/ubx_sbp.h>
void alt_ubx_sbp_init(struct ubx_sbp_state *, void (*)(u16, sbp_msg_type_t, const sbp_msg_t *, void *), void *);
int alt_ubx_sbp_process(struct ubx_sbp_state *, int (*)(u8 *, size_t, void *));
void alt_ubx_set_hnr_flag(struct ubx_sbp_state *, bool);
}
SCH(ubx_sbp_init) SCH(ubx_sbp_process) SCH(ubx_set_hnr_flag)
using namespace conv;

namespace {
const double WEEK = 604800.0;
const u32 WEEKMS = 604800000u;
void cb(u16 sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { sched::step(); ((Source *)ctx)->out.push_back({sender, (int)t, *m}); }
int rd(u8 *b, size_t n, void *ctx) { return ((Source *)ctx)->rd(b, n); }

struct Inst {
  std::unique_ptr<ubx_sbp_state> st{new ubx_sbp_state};
  Source *s;
  int alt;
  explicit Inst(Source *src, int a = 0, u8 fill = 0x5A, bool hnr = false, const Inst *worn = nullptr) : s(src), alt(a) {
    memset(st.get(), fill, sizeof(ubx_sbp_state));
    if (worn) memcpy(st.get(), worn->st.get(), sizeof *st);  // memory that another instance has used
    PICK(alt, ubx_sbp_init)(st.get(), cb, s);
    if (hnr) PICK(alt, ubx_set_hnr_flag)(st.get(), true);
  }
  int step() {
    size_t before = s->calls;
    int r = PICK(alt, ubx_sbp_process)(st.get(), rd);
    if (r <= 0) PBT_CHECK(s->eof, "end of input reported (%d) with %zu of %zu bytes read", r, s->pos, s->data.size());
    if (r > 0 && s->calls == before) quiet++;
    else quiet = 0;
    PBT_CHECK(quiet < 4096, "no input read in %d calls", quiet);
    return r;
  }
  void run() {
    while (step() > 0) {}
    PBT_CHECK(s->pos == s->data.size(), "stopped after %zu of %zu bytes", s->pos, s->data.size());
  }
  int quiet = 0;
};
void run(Source &s, bool hnr, int alt = 0, u8 fill = 0x5A, const Inst *worn = nullptr) { s.pos = s.ci = s.calls = 0; s.eof = false; s.out.clear(); Inst(&s, alt, fill, hnr, worn).run(); }

Bytes frame(u8 cls, u8 id, const Bytes &p) {
  Bytes b = {0xB5, 0x62, cls, id, (u8)p.size(), (u8)(p.size() >> 8)};
  append(b, p);
  u8 a = 0, c = 0;
  for (size_t i = 2; i < b.size(); i++) { a = (u8)(a + b[i]); c = (u8)(c + a); }
  b.push_back(a);
  b.push_back(c);
  return b;
}
struct Frm {
  u8 cls, id;
  Bytes p;
  std::string what;
  std::function<void(const std::vector<Out> &)> check;  // judges what the frame yielded
};
template <class T> void put(Bytes &p, size_t off, T v) {
  if (p.size() < off + sizeof(T)) p.resize(off + sizeof(T));
  memcpy(&p[off], &v, sizeof(T));
}
const sbp_msg_t &only(const std::vector<Out> &o, int type, const char *n) {
  PBT_CHECK(o.size() == 1, "%s: %zu messages instead of one", n, o.size());
  PBT_CHECK(o[0].type == type, "message type %d instead of %s", o[0].type, n);
  return o[0].msg;
}
auto nothing = [](const std::vector<Out> &o) {
  PBT_CHECK(o.empty(), "unexpected message %s", dump(o[0]).substr(0, 300).c_str());
};

int code_of(int gnss, int sig) {  // -1: not supported
  static const std::map<std::pair<int, int>, int> t = {
      {{0, 0}, CODE_GPS_L1CA}, {{0, 3}, CODE_GPS_L2CL}, {{0, 4}, CODE_GPS_L2CM}, {{1, 0}, CODE_SBAS_L1CA},
      {{2, 0}, CODE_GAL_E1C},  {{2, 1}, CODE_GAL_E1B},  {{2, 5}, CODE_GAL_E7I},  {{2, 6}, CODE_GAL_E7Q},
      {{3, 0}, CODE_BDS2_B1},  {{3, 1}, CODE_BDS2_B1},  {{3, 2}, CODE_BDS2_B2},  {{3, 3}, CODE_BDS2_B2},
      {{5, 0}, CODE_QZS_L1CA}, {{5, 4}, CODE_QZS_L2CM}, {{5, 5}, CODE_QZS_L2CL}, {{6, 0}, CODE_GLO_L1OF}, {{6, 2}, CODE_GLO_L2OF}};
  auto i = t.find({gnss, sig});
  return i == t.end() ? -1 : i->second;
}

struct Slot { Bytes bits; u32 issue; };
struct Model {
  bool hnr = false;
  u8 pvt_n = 0, pvt_flags = 0, pvt_fix = 0;
  s32 att_roll = 0, att_pitch = 0;
  u32 att_racc = 0, att_pacc = 0;
  u8 att_flags = 0;
  bool wn_set = false, obs_time = false;
  s64 obs_ms = 0;
  s64 imu_run = -1, odo_run = -1;
  u32 imu_last = 0, odo_last = 0;
  bool imu_time = false;
  double imu_time_s = 0;  // absolute, since the start of week 0
  int imu_sent = 0;
  bool temp_set = false;
  double temp = 0;
  std::map<int, std::pair<u32, s32>> ticks;
  s64 last_tow = -1;
  bool leap_known = false;
  int leap = 0;
  // generator side time line
  u32 msss = 1000, ctag = 1000, stag = 0;
  // subframes received
  std::map<int, std::map<int, Slot>> gps, bds, gal, glo;
  u32 bds_base = 0;
  int first_part = 0;
  u8 gps_prn = 0, bds_prn = 0, gal_prn = 0, glo_prn = 0;  // the satellite a history is mostly about
  std::map<int, u32> glo_frame;
};

double gen_range_val(G &g, double lo, double hi) {
  switch (g.below(10)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return floor(g.real(lo, hi)) + (double)g.range(0, 512) / 512;
    case 3: return floor(g.real(lo, hi)) + 0.999;
    case 4: return floor(g.real(lo, hi));
    default: return g.real(lo, hi);
  }
}
double weird(G &g) {
  switch (g.below(6)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return 1e300;
    case 4: return -1e10;
    default: return 2147483648.0 * (double)g.range(-3, 3);
  }
}

struct Meas { double pr, cp; float dop; u8 gnss, sat, sig, cno, trk; u16 lock; };
void check_meas(const Meas &m, const sbp_packed_obs_content_t &o, int i) {
  PBT_CHECK(o.sid.code == code_of(m.gnss, m.sig) && o.sid.sat == m.sat, "obs %d: signal %u/%u for gnss %u sig %u sat %u", i, o.sid.sat, o.sid.code, m.gnss, m.sig, m.sat);
  u8 fl = 8 | (m.trk & 7);
  double P = m.pr * 50;
  if (!(P >= 0 && P <= 4294967295.0)) {
    fl &= ~1;
    PBT_CHECK(o.P == 0, "obs %d: P %u for %g m", i, o.P, m.pr);
  } else
    PBT_CHECK(fabs(o.P - P) <= 1, "obs %d: P %u for %.4f m", i, o.P, m.pr);
  if (!(m.cp >= -2147483648.0 && m.cp < 2147483647.0)) {
    fl &= ~6;
    PBT_CHECK(o.L.i == 0 && o.L.f == 0, "obs %d: L %d+%u/256 for %g cycles", i, o.L.i, o.L.f, m.cp);
  } else
    PBT_CHECK(fabs(o.L.i + o.L.f / 256.0 - m.cp) <= 1 / 512.0 + 1e-9, "obs %d: L %d+%u/256 for %.6f cycles", i, o.L.i, o.L.f, m.cp);
  if (!(m.dop >= -32768.0f && m.dop < 32767.0f)) {
    fl &= ~8;
    PBT_CHECK(o.D.i == 0 && o.D.f == 0, "obs %d: D %d+%u/256 for %g Hz", i, o.D.i, o.D.f, m.dop);
  } else
    PBT_CHECK(fabs(o.D.i + o.D.f / 256.0 - m.dop) <= 1 / 512.0 + 1e-9, "obs %d: D %d+%u/256 for %.6f Hz", i, o.D.i, o.D.f, m.dop);
  PBT_CHECK(o.cn0 == (m.cno > 63 ? 255 : 4 * m.cno), "obs %d: cn0 %u for %u dBHz", i, o.cn0, m.cno);
  u8 lk = 0;
  while (lk < 15 && m.lock >= (32u << lk)) lk++;
  PBT_CHECK(o.lock == lk, "obs %d: lock %u for %u ms", i, o.lock, m.lock);
  PBT_CHECK(o.flags == fl, "obs %d: flags %02x, expected %02x", i, o.flags, fl);
}
Frm gen_rawx(G &g, Model &md, int maxn = 127) {
  Frm f{0x02, 0x15, {}, "RAWX", nothing};
  int n = maxn > 127 || g.chance(10) ? maxn : g.chance(20) ? 0 : g.chance(30) ? (int)g.range(13, std::min(maxn, 45)) : (int)g.range(1, 8);
  double tow = g.chance(20) ? (double)g.ival(0, WEEKMS - 1) / 1000 : g.chance(5) ? 604799.9999999 : g.real(0, WEEK - 1e-6);
  if (g.chance(15)) tow = floor(tow) + g.pick<double>({0.0004999, 0.0005, 0.0005001, 0.9999995, 0.001});
  if (md.obs_time && g.chance(60)) tow = fmod((double)md.obs_ms / 1000 + g.real(0, 5), WEEK);
  u16 wn = g.chance(10) ? 0 : (u16)g.range(1900, 2300);
  if (md.obs_time && wn && g.chance(70)) wn = (u16)(md.obs_ms / WEEKMS);
  bool leap = g.coin();
  s8 ls = (s8)(g.chance(80) ? 18 : g.range(0, 60));
  put<double>(f.p, 0, tow);
  put<u16>(f.p, 8, wn);
  put<s8>(f.p, 10, ls);
  put<u8>(f.p, 11, (u8)n);
  put<u8>(f.p, 12, (u8)((g.below(128) << 1) | (leap ? 1 : 0)));
  put<u8>(f.p, 13, (u8)g.below(256));
  put<u16>(f.p, 14, (u16)g.below(65536));
  std::vector<Meas> ms, ok;
  for (int i = 0; i < n; i++) {
    Meas m;
    m.pr = g.chance(4) ? weird(g) : gen_range_val(g, 0, 85e6);
    m.cp = g.chance(4) ? weird(g) : gen_range_val(g, -2147483648.0, 2147483646.0);
    m.dop = (float)(g.chance(4) ? weird(g) : gen_range_val(g, -32768, 32766));
    if (g.chance(92)) {
      static const std::vector<std::pair<u8, u8>> sup = {{0, 0}, {0, 3}, {0, 4}, {1, 0}, {2, 0}, {2, 1}, {2, 5}, {2, 6}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {5, 0}, {5, 4}, {5, 5}, {6, 0}, {6, 2}};
      auto x = g.pick(sup);
      m.gnss = x.first; m.sig = x.second;
    } else { m.gnss = (u8)g.range(0, 8); m.sig = (u8)g.range(0, 9); }
    m.sat = (u8)g.bits(8);
    m.cno = (u8)(g.chance(20) ? g.bits(8) : g.range(10, 63));
    m.trk = (u8)g.bits(8);
    m.lock = (u16)(g.chance(40) ? std::min<s64>(65535, std::max<s64>(0, (32 << g.below(12)) + g.range(-1, 1))) : (s64)g.bits(16));
    size_t o = 16 + 32 * (size_t)i;
    put<double>(f.p, o, m.pr); put<double>(f.p, o + 8, m.cp); put<float>(f.p, o + 16, m.dop);
    put<u8>(f.p, o + 20, m.gnss); put<u8>(f.p, o + 21, m.sat); put<u8>(f.p, o + 22, m.sig); put<u8>(f.p, o + 23, (u8)g.below(256));
    put<u16>(f.p, o + 24, m.lock); put<u8>(f.p, o + 26, m.cno);
    put<u32>(f.p, o + 27, (u32)g.below(0)); put<u8>(f.p, o + 30, m.trk); put<u8>(f.p, o + 31, (u8)g.below(256));
    ms.push_back(m);
    if (code_of(m.gnss, m.sig) >= 0 && ok.size() < 210) ok.push_back(m);
  }
  if (n && wn && md.wn_set) { md.obs_time = true; md.obs_ms = (s64)wn * WEEKMS + (s64)floor(tow * 1000); }
  md.leap_known = leap;
  if (leap) md.leap = ls;
  f.check = [=](const std::vector<Out> &o) {
    size_t want = std::max<size_t>(1, (ok.size() + 13) / 14), k = 0;
    PBT_CHECK(o.size() == want, "%zu OBS messages for %zu supported signals, expected %zu", o.size(), ok.size(), want);
    for (size_t j = 0; j < o.size(); j++) {
      PBT_CHECK(o[j].type == SbpMsgObs, "type %d instead of OBS", o[j].type);
      const auto &m = o[j].msg.obs;
      PBT_CHECK(m.header.n_obs == (want << 4 | j), "sequence field %02x of message %zu of %zu", m.header.n_obs, j, want);
      double t = (double)m.header.t.tow + m.header.t.ns_residual * 1e-6;
      PBT_CHECK(m.header.t.ns_residual >= -500001 && m.header.t.ns_residual <= 500001, "ns residual %d", m.header.t.ns_residual);
      PBT_CHECK(fabs(t - tow * 1000) < 3e-6, "time %u ms %d ns for %.9f s", m.header.t.tow, m.header.t.ns_residual, tow);
      PBT_CHECK(m.header.t.wn == (u16)(wn ? wn : -1), "week %u for %u", m.header.t.wn, wn);
      PBT_CHECK(m.n_obs == std::min<size_t>(14, ok.size() - k), "message %zu holds %u observations", j, m.n_obs);
      for (int i = 0; i < m.n_obs; i++, k++) check_meas(ok[k], m.obs[i], (int)k);
    }
  };
  return f;
}

u32 gen_itow(G &g) { return g.chance(3) ? (u32)g.range(1119, 1121) : g.chance(80) ? (u32)g.ival(0, WEEKMS - 1) : (u32)g.bits(32); }
void set_tow(Model &m, u32 t) { m.last_tow = t; }
u16 sat16(u32 v) { return (u16)std::min<u32>(v, 65535); }
u8 pvt_mode(u8 fix, u8 fl) {
  u8 r = 0;
  if (fix == 1) r = 5;
  else if (fix == 2 || fix == 3 || fix == 4) {
    if (!(fl & 2)) r = 1;
    else switch (fl >> 6) { case 0: r = 2; break; case 1: r = 3; break; case 2: r = 4; break; default: r = 0; }
  }
  if (fix == 1 || fix == 4) r |= 8;
  return r;
}
Frm gen_pvt(G &g, Model &md) {
  Frm f{0x01, 0x07, g.bytes(92), "NAV-PVT", nothing};
  u32 t = gen_itow(g), ha = (u32)g.bits(32), va = (u32)g.bits(32);
  if (g.coin()) ha &= 0x1FFFF;
  if (g.coin()) va &= 0x1FFFF;
  u8 fix = (u8)(g.chance(95) ? g.range(0, 5) : g.below(256)), fl = (u8)g.bits(8), n = (u8)g.bits(8);
  s32 lon = (s32)g.bits(32), lat = (s32)g.bits(32), h = (s32)g.bits(32);
  put<u32>(f.p, 0, t); put<u8>(f.p, 20, fix); put<u8>(f.p, 21, fl); put<u8>(f.p, 23, n);
  put<s32>(f.p, 24, lon); put<s32>(f.p, 28, lat); put<s32>(f.p, 32, h); put<u32>(f.p, 40, ha); put<u32>(f.p, 44, va);
  md.pvt_n = n; md.pvt_fix = fix; md.pvt_flags = pvt_mode(fix, fl);
  set_tow(md, t);
  if (!md.hnr) {
    u8 fg = md.pvt_flags;
    f.check = [=](const std::vector<Out> &o) {
      const auto &m = only(o, SbpMsgPosLlh, "POS_LLH").pos_llh;
      PBT_CHECK(m.tow == t, "tow %u, expected %u", m.tow, t);
      PBT_CHECK(near(m.lat, lat * 1e-7, 1e-10) && near(m.lon, lon * 1e-7, 1e-10) && near(m.height, h * 1e-3, 1e-8), "lat %.9f lon %.9f height %.5f for %d %d %d", m.lat, m.lon, m.height, lat, lon, h);
      PBT_CHECK(m.h_accuracy == sat16(ha) && m.v_accuracy == sat16(va), "accuracy %u %u for %u %u", m.h_accuracy, m.v_accuracy, ha, va);
      PBT_CHECK(m.n_sats == n && m.flags == fg, "n_sats %u flags %u, expected %u %u (fix %u flags %02x)", m.n_sats, m.flags, n, fg, fix, fl);
    };
  }
  return f;
}
Frm gen_att(G &g, Model &md) {
  Frm f{0x01, 0x05, g.bytes(32), "NAV-ATT", nothing};
  u32 t = gen_itow(g), ra = (u32)g.bits(32), pa = (u32)g.bits(32), ya = (u32)g.bits(32);
  s32 r = (s32)g.ival(-18000000, 18000000), p = (s32)g.ival(-9000000, 9000000), y = (s32)g.ival(-36000000, 36000000);
  put<u32>(f.p, 0, t); put<s32>(f.p, 8, r); put<s32>(f.p, 12, p); put<s32>(f.p, 16, y);
  put<u32>(f.p, 20, ra); put<u32>(f.p, 24, pa); put<u32>(f.p, 28, ya);
  md.att_roll = r; md.att_pitch = p; md.att_racc = ra; md.att_pacc = pa;
  u8 fl = md.att_flags = md.pvt_fix == 1 || md.pvt_fix == 4;
  if (!md.hnr)
    f.check = [=](const std::vector<Out> &o) {
      const auto &m = only(o, SbpMsgOrientEuler, "ORIENT_EULER").orient_euler;
      PBT_CHECK(m.tow == t, "tow %u, expected %u", m.tow, t);
      PBT_CHECK(m.roll == r * 10 && m.pitch == p * 10 && m.yaw == y * 10, "attitude %d %d %d for %d %d %d", m.roll, m.pitch, m.yaw, r, p, y);
      PBT_CHECK(near(m.roll_accuracy, ra * 1e-5, 1e-6 * (1 + ra * 1e-5)) && near(m.pitch_accuracy, pa * 1e-5, 1e-6 * (1 + pa * 1e-5)) && near(m.yaw_accuracy, ya * 1e-5, 1e-6 * (1 + ya * 1e-5)),
                "accuracy %g %g %g for %u %u %u", m.roll_accuracy, m.pitch_accuracy, m.yaw_accuracy, ra, pa, ya);
      PBT_CHECK(m.flags == fl, "flags %u, expected %u", m.flags, fl);
    };
  return f;
}
Frm gen_vel(G &g, Model &md) {
  Frm f{0x01, 0x11, g.bytes(20), "NAV-VELECEF", nothing};
  u32 t = gen_itow(g), acc = (u32)g.bits(g.coin() ? 16 : 8);
  s32 v[3];
  put<u32>(f.p, 0, t);
  for (int i = 0; i < 3; i++) { v[i] = (s32)g.ival(-200000000, 200000000); put<s32>(f.p, 4 + 4 * (size_t)i, v[i]); }
  put<u32>(f.p, 16, acc);
  u8 n = md.pvt_n, fl = (u8)((md.pvt_fix ? 5 : 0) | 8);
  s32 a = v[0], b = v[1], c = v[2];
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgVelEcef, "VEL_ECEF").vel_ecef;
    PBT_CHECK(m.tow == t, "tow %u, expected %u", m.tow, t);
    PBT_CHECK(m.x == a * 10 && m.y == b * 10 && m.z == c * 10, "velocity %d %d %d for %d %d %d", m.x, m.y, m.z, a, b, c);
    PBT_CHECK(m.accuracy == (u16)acc, "accuracy %u for %u", m.accuracy, acc);
    PBT_CHECK(m.n_sats == n && m.flags == fl, "n_sats %u flags %u, expected %u %u", m.n_sats, m.flags, n, fl);
  };
  return f;
}
Frm gen_hnr(G &g, Model &md) {
  Frm f{0x28, 0x00, g.bytes(72), "HNR-PVT", nothing};
  u32 t = gen_itow(g), ha = (u32)g.bits(20), va = (u32)g.bits(20), hda = (u32)g.bits(32);
  s32 lon = (s32)g.bits(32), lat = (s32)g.bits(32), h = (s32)g.bits(32), hv = (s32)g.ival(-36000000, 36000000);
  put<u32>(f.p, 0, t); put<s32>(f.p, 20, lon); put<s32>(f.p, 24, lat); put<s32>(f.p, 28, h); put<s32>(f.p, 48, hv);
  put<u32>(f.p, 52, ha); put<u32>(f.p, 56, va); put<u32>(f.p, 64, hda);
  set_tow(md, t);
  if (md.hnr) {
    Model c = md;
    f.check = [=](const std::vector<Out> &o) {
      PBT_CHECK(o.size() == 2 && o[0].type + o[1].type == SbpMsgPosLlh + SbpMsgOrientEuler && o[0].type != o[1].type, "%zu messages for HNR-PVT", o.size());
      const auto &m = o[o[0].type == SbpMsgPosLlh ? 0 : 1].msg.pos_llh;
      const auto &e = o[o[0].type == SbpMsgPosLlh ? 1 : 0].msg.orient_euler;
      PBT_CHECK(m.tow == t && e.tow == t, "tow %u %u, expected %u", m.tow, e.tow, t);
      PBT_CHECK(near(m.lat, lat * 1e-7, 1e-10) && near(m.lon, lon * 1e-7, 1e-10) && near(m.height, h * 1e-3, 1e-8), "lat %.9f lon %.9f height %.5f for %d %d %d", m.lat, m.lon, m.height, lat, lon, h);
      PBT_CHECK(m.h_accuracy == sat16(ha) && m.v_accuracy == sat16(va), "accuracy %u %u for %u %u", m.h_accuracy, m.v_accuracy, ha, va);
      PBT_CHECK(m.n_sats == c.pvt_n && m.flags == c.pvt_flags, "n_sats %u flags %u, expected those of NAV-PVT %u %u", m.n_sats, m.flags, c.pvt_n, c.pvt_flags);
      PBT_CHECK(e.yaw == hv * 10 && e.roll == c.att_roll * 10 && e.pitch == c.att_pitch * 10, "attitude %d %d %d", e.roll, e.pitch, e.yaw);
      PBT_CHECK(near(e.roll_accuracy, c.att_racc * 1e-5, 1e-6 * (1 + c.att_racc * 1e-5)) && near(e.pitch_accuracy, c.att_pacc * 1e-5, 1e-6 * (1 + c.att_pacc * 1e-5)) && near(e.yaw_accuracy, hda * 1e-5, 1e-6 * (1 + hda * 1e-5)),
                "accuracy %g %g %g", e.roll_accuracy, e.pitch_accuracy, e.yaw_accuracy);
      PBT_CHECK(e.flags == c.att_flags, "flags %u, expected %u", e.flags, c.att_flags);
    };
  }
  return f;
}
Frm gen_sat(G &g, Model &) {
  Frm f{0x01, 0x35, g.bytes(8), "NAV-SAT", nothing};
  int n = g.chance(20) ? (int)g.pick<int>({62, 63, 64, 84, 85, 86, 99, 100}) : (int)g.range(0, 12);
  put<u8>(f.p, 5, (u8)n);
  struct S { u8 sat, code, cno; s8 el; s16 az; };
  std::vector<S> v;
  for (int i = 0; i < n; i++) {
    u8 gn = g.pick<u8>({0, 1, 2, 3, 5, 6});
    S s;
    s.code = (u8)code_of(gn, 0);
    s.sat = (u8)g.bits(8); s.cno = (u8)(g.chance(20) ? g.bits(8) : g.range(0, 63));
    s.el = (s8)g.ival(-91, 90); s.az = (s16)g.ival(0, 360);
    size_t o = 8 + 12 * (size_t)i;
    put<u8>(f.p, o, gn); put<u8>(f.p, o + 1, s.sat); put<u8>(f.p, o + 2, s.cno); put<s8>(f.p, o + 3, s.el); put<s16>(f.p, o + 4, s.az);
    put<u16>(f.p, o + 6, (u16)g.below(65536)); put<u32>(f.p, o + 8, (u32)g.below(0));
    v.push_back(s);
  }
  f.check = [=](const std::vector<Out> &o) {
    size_t a = 0, m = 0;
    for (auto &x : o) {
      if (x.type == SbpMsgSvAzEl) {
        const auto &z = x.msg.sv_az_el;
        PBT_CHECK(z.n_azel > 0 && a + z.n_azel <= v.size(), "%zu+%u azimuths for %zu satellites", a, z.n_azel, v.size());
        PBT_CHECK(z.n_azel == std::min<size_t>(SBP_MSG_SV_AZ_EL_AZEL_MAX, v.size() - a), "message with %u of %zu azimuths left", z.n_azel, v.size() - a);
        for (int i = 0; i < z.n_azel; i++, a++) {
          const auto &q = z.azel[i];
          PBT_CHECK(q.sid.sat == v[a].sat && q.sid.code == v[a].code, "azel %zu: %u/%u, expected %u/%u", a, q.sid.sat, q.sid.code, v[a].sat, v[a].code);
          PBT_CHECK(fabs(q.az * 2.0 - v[a].az) <= 1 && q.el == v[a].el, "azel %zu: az %u el %d for %d %d", a, q.az, q.el, v[a].az, v[a].el);
        }
      } else {
        PBT_CHECK(x.type == SbpMsgMeasurementState, "type %d", x.type);
        const auto &z = x.msg.measurement_state;
        PBT_CHECK(z.n_states > 0 && m + z.n_states <= v.size(), "%zu+%u states for %zu satellites", m, z.n_states, v.size());
        PBT_CHECK(z.n_states == std::min<size_t>(SBP_MSG_MEASUREMENT_STATE_STATES_MAX, v.size() - m), "message with %u of %zu states left", z.n_states, v.size() - m);
        for (int i = 0; i < z.n_states; i++, m++) {
          const auto &q = z.states[i];
          PBT_CHECK(q.mesid.sat == v[m].sat && q.mesid.code == v[m].code, "state %zu: %u/%u, expected %u/%u", m, q.mesid.sat, q.mesid.code, v[m].sat, v[m].code);
          PBT_CHECK(q.cn0 == (v[m].cno > 63 ? 255 : v[m].cno * 4), "state %zu: cn0 %u for %u dBHz", m, q.cn0, v[m].cno);
        }
      }
    }
    PBT_CHECK(a == v.size() && m == v.size(), "%zu azimuths and %zu states for %zu satellites", a, m, v.size());
  };
  return f;
}
Frm gen_status(G &g, Model &md) {
  Frm f{0x01, 0x03, g.bytes(16), "NAV-STATUS", nothing};
  u32 t = g.chance(90) ? (u32)g.ival(0, WEEKMS - 1) : (u32)g.bits(32);
  u8 fix = (u8)(g.chance(70) ? g.range(3, 4) : g.range(0, 6)), fl = (u8)(g.chance(60) ? g.bits(8) | 0xD : g.bits(8));
  if (md.obs_time && g.chance(60)) t = (u32)(((md.obs_ms + g.range(-3000, 3000)) % WEEKMS + WEEKMS) % WEEKMS);
  u32 msss = md.msss;
  if (md.imu_time) msss = (u32)std::max<s64>(0, (s64)(md.imu_time_s * 1000) + (g.chance(80) ? g.range(-400, 400) : g.range(-300000000, 300000000)));
  if (md.imu_time && md.imu_time_s * 1000 > 3.9e9) msss = md.msss;
  put<u32>(f.p, 0, t); put<u8>(f.p, 4, fix); put<u8>(f.p, 5, fl); put<u32>(f.p, 12, msss);
  bool tg = (fl & 12) == 12;
  if (tg) md.wn_set = true;
  if (tg && (fl & 1) && (fix == 3 || fix == 4) && md.obs_time && md.imu_time) {
    // the local time must be unambiguous: not after 49.7 days of uptime, nor half a week away
    s64 near_ms = (s64)t % WEEKMS;
    s64 w = md.obs_ms / WEEKMS, d = near_ms - md.obs_ms % WEEKMS;
    s64 half = WEEKMS / 2;
    if (d > half) w--;
    else if (d < -half) w++;
    if (llabs(llabs(d) - half) < 2000 || md.imu_time_s * 1000 > 3.9e9) throw Discard{};
    s64 gnss = w * WEEKMS + near_ms;
    s64 want = gnss - (s64)msss;
    set_tow(md, t);
    f.check = [=](const std::vector<Out> &o) {
      const auto &m = only(o, SbpMsgGnssTimeOffset, "GNSS_TIME_OFFSET").gnss_time_offset;
      s64 got = (s64)m.weeks * WEEKMS + m.milliseconds;
      PBT_CHECK(got == want, "offset of %d weeks %d ms is off by %lld ms (itow %u msss %u)", m.weeks, m.milliseconds, (long long)(got - want), t, msss);
      PBT_CHECK(m.microseconds == 0 && m.flags == 0, "microseconds %d flags %u", m.microseconds, m.flags);
    };
  }
  return f;
}
Frm gen_monhw(G &g, Model &) {
  Frm f{0x0A, 0x09, {}, "MON-HW", nothing};
  int n = g.chance(30) ? (int)g.range(245, 256) : g.chance(70) ? 60 : (int)g.range(0, 300);
  f.p = g.bytes((size_t)n);
  Bytes fr = frame(f.cls, f.id, f.p);
  Bytes want(fr.begin() + 2, fr.end() - 2);
  if (want.size() <= SBP_MSG_FWD_FWD_PAYLOAD_MAX)
    f.check = [=](const std::vector<Out> &o) {
      const auto &m = only(o, SbpMsgFwd, "FWD").fwd;
      PBT_CHECK(m.source == 0 && m.protocol == 1, "source %u protocol %u", m.source, m.protocol);
      PBT_CHECK(m.n_fwd_payload == want.size() && !memcmp(m.fwd_payload, want.data(), want.size()), "payload of %u bytes differs from the %zu forwarded", m.n_fwd_payload, want.size());
    };
  return f;
}

double week_diff(double a, double b) {  // milliseconds, times of week
  double d = a - b;
  return d > WEEKMS / 2 ? d - WEEKMS : d < -(WEEKMS / 2.0) ? d + WEEKMS : d;
}
double clamp16(double v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
void advance(G &g, u32 &t) {
  switch (g.below(12)) {
    case 0: t += (u32)g.pick<int>({999, 1000, 1001, 1500}); break;
    case 1: t -= (u32)g.range(0, 2000); break;
    case 2: t = (u32)g.ival(1000, 4294967295ll); break;
    default: t += (u32)g.range(0, 200);
  }
  if (t < 1000) t = 1000;
}
Frm gen_esfraw(G &g, Model &md) {
  Frm f{0x10, 0x03, {}, "ESF-RAW", nothing};
  advance(g, md.msss);
  u32 msss = md.msss;
  put<u32>(f.p, 0, msss);
  if (g.chance(10)) md.stag = (1u << 24) - (u32)g.range(1, 3000);
  struct R { u8 type; u32 val, tag; };
  std::vector<R> rs;
  auto val = [&](u8) { return (u32)(g.chance(50) ? (u32)(g.ival(-520000, 520000) & 0xFFFFFF) : g.bits(24)); };
  int samples = (int)(g.chance(15) ? g.range(10, 17) : g.range(0, 4));
  static const std::vector<u8> axes = {14, 13, 5, 16, 17, 18};
  for (int s = 0; s < samples && rs.size() < 118; s++) {
    std::vector<u8> a = axes;
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[g.coin() ? g.below(i) : i - 1]);
    if (g.chance(4)) a.erase(a.begin() + (long)g.below(a.size()));
    if (g.chance(4)) a.insert(a.begin() + (long)g.below(a.size()), a[g.below(a.size())]);
    for (u8 t : a) {
      if (g.chance(4)) rs.push_back({(u8)g.pick<int>({0, 1, 4, 6, 11, 15, 19, 63, 255}), (u32)g.bits(24), md.stag});
      rs.push_back({t, val(t), md.stag});
    }
    if (g.chance(40)) rs.push_back({12, (u32)(g.chance(10) ? (g.pick<int>({8700, -4100, 0}) + g.range(-1, 1)) & 0xFFFFFF : g.chance(80) ? (u32)(g.ival(-6000, 12000) & 0xFFFFFF) : g.bits(24)), md.stag});
    md.stag = (md.stag + (u32)g.range(1, 700)) & 0xFFFFFF;
  }
  if (rs.empty() && g.coin()) rs.push_back({12, (u32)(g.ival(-6000, 12000) & 0xFFFFFF), md.stag});
  for (size_t i = 0; i < rs.size(); i++) { put<u32>(f.p, 4 + 8 * i, (u32)rs[i].type << 24 | rs[i].val); put<u32>(f.p, 8 + 8 * i, rs[i].tag); }
  // expectation
  struct X { double a[6]; double t_ms; bool aux; bool ts; double temp; };
  std::vector<X> xs;
  int cnt[256] = {0}, cur = 0;
  X now{};
  for (auto &r : rs) {
    s32 v = (s32)sext(r.val, 24);
    if (r.type == 12) { md.temp_set = true; md.temp = v * 0.01; continue; }
    int ax = -1;
    for (int k = 0; k < 6; k++) if (axes[(size_t)k] == r.type) ax = k;
    if (ax < 0) continue;
    if (md.imu_run != -1 && msss - md.imu_last > 1000) { md.imu_run = -1; break; }
    if (md.imu_run == -1) md.imu_run = msss;
    else md.imu_run += msss - md.imu_last;
    md.imu_last = msss;
    double dt = (double)((r.tag - rs[0].tag) & 0xFFFFFF) * 39.0625e-6;
    md.imu_time = true;
    md.imu_time_s = (double)md.imu_run / 1000 + dt - 0.05;
    now.a[ax] = ax < 3 ? clamp16(v * ldexp(1, -12) / (125.0 / 32768)) : clamp16(v * ldexp(1, -10) / (4 * 9.80665 / 32768));
    now.t_ms = (double)md.imu_run + dt * 1000 - 50;
    if (++cnt[r.type] != cur + 1) break;
    bool all = true;
    for (u8 t : axes) all &= cnt[t] == cur + 1;
    if (all) {
      cur++;
      now.aux = md.imu_sent++ % 20 == 0;
      now.ts = md.temp_set;
      now.temp = md.temp;
      xs.push_back(now);
    }
  }
  f.check = [=](const std::vector<Out> &o) {
    size_t k = 0;
    auto next = [&](int type, const char *n) -> const sbp_msg_t & {
      PBT_CHECK(k < o.size() && o[k].type == type, "%s expected as message %zu of %zu", n, k, o.size());
      return o[k++].msg;
    };
    for (size_t i = 0; i < xs.size(); i++) {
      const X &x = xs[i];
      if (x.aux) {
        const auto &m = next(SbpMsgImuAux, "IMU_AUX").imu_aux;
        PBT_CHECK(m.imu_type == 0 && m.imu_conf == 0x41, "imu type %u conf %02x", m.imu_type, m.imu_conf);
        if (!x.ts) PBT_CHECK(m.temp == -32768, "temperature %d before any was known", m.temp);
        else {
          double w = (x.temp - 23) * 512;
          if (w > 32767) w = 32767;
          if (w < -32767) w = -32767;
          PBT_CHECK(fabs(m.temp - w) <= 1.01, "temperature %d for %.2f deg", m.temp, x.temp);
        }
      }
      const auto &m = next(SbpMsgImuRaw, "IMU_RAW").imu_raw;
      s16 got[6] = {m.gyr_x, m.gyr_y, m.gyr_z, m.acc_x, m.acc_y, m.acc_z};
      for (int a = 0; a < 6; a++) PBT_CHECK(fabs(got[a] - x.a[a]) <= 0.51 + 1e-6 * fabs(x.a[a]), "axis %d: %d, expected %.2f", a, got[a], x.a[a]);
      PBT_CHECK(m.tow >> 30 == 1, "time source %u", m.tow >> 30);
      double t = (m.tow & 0x3FFFFFFF) + m.tow_f / 256.0, w = fmod(x.t_ms, (double)WEEKMS);
      PBT_CHECK((m.tow & 0x3FFFFFFF) < WEEKMS, "time %u", m.tow & 0x3FFFFFFF);
      PBT_CHECK(week_diff(t, w) <= 1e-3 && week_diff(t, w) >= -1 / 256.0 - 1e-3, "sample %zu: time %.4f ms, expected %.4f", i, t, w);
    }
    PBT_CHECK(k == o.size(), "%zu messages, expected %zu; next %s", o.size(), k, dump(o[k]).substr(0, 200).c_str());
  };
  return f;
}
Frm gen_esfmeas(G &g, Model &md) {
  Frm f{0x10, 0x02, {}, "ESF-MEAS", nothing};
  int n = (int)(g.chance(10) ? g.range(0, 31) : g.range(1, 4));
  bool tag = g.chance(92);
  if (tag) advance(g, md.ctag);
  put<u32>(f.p, 0, (u32)g.below(0));
  put<u16>(f.p, 4, (u16)((u16)n << 11 | (tag ? 8 : 0) | (g.below(2048) & 0x7F7)));
  put<u16>(f.p, 6, (u16)g.below(65536));
  struct X { bool odo; double t_ms; u8 src; s32 v; u8 fl; };
  std::vector<X> xs;
  bool drop = !tag;
  for (int i = 0; i < n; i++) {
    u8 ty = (u8)(g.chance(85) ? g.range(6, 11) : g.below(64));
    u32 v = (u32)g.bits(24);
    if (ty >= 6 && ty <= 10 && md.ticks.count(ty) && g.chance(85))
      v = ((md.ticks[ty].first + (u32)g.range(0, g.chance(20) ? 4000000 : 50)) & 0x7FFFFF) | (g.coin() ? 0x800000 : 0);
    put<u32>(f.p, 8 + 4 * (size_t)i, (u32)g.below(4) << 30 | (u32)ty << 24 | v);
    if (drop || ty < 6 || ty > 11) continue;
    if (md.odo_run != -1 && md.ctag - md.odo_last > 1000) { md.odo_run = -1; drop = true; continue; }
    if (md.odo_run == -1) md.odo_run = md.ctag;
    else md.odo_run += md.ctag - md.odo_last;
    md.odo_last = md.ctag;
    X x{};
    x.t_ms = (double)(md.odo_run % WEEKMS);
    if (ty == 11) {
      x.odo = true;
      x.v = (s32)sext(v, 24);
      x.fl = (u8)(2 | 3 << 3 | (v >> 23) << 5);
    } else {
      u32 c = v & 0x7FFFFF;
      if (!md.ticks.count(ty)) md.ticks[ty] = {c, (s32)c};
      else {
        s32 d = (s32)sext(c - md.ticks[ty].first, 23);
        if (d == -(1 << 22)) throw Discard{};
        md.ticks[ty].first = c;
        md.ticks[ty].second += v & 0x800000 ? -d : d;
      }
      x.v = md.ticks[ty].second;
      static const u8 src[] = {2, 3, 1, 0, 0};
      x.src = src[ty - 6];
      x.fl = 2;
    }
    xs.push_back(x);
  }
  if (tag) put<u32>(f.p, 8 + 4 * (size_t)n, md.ctag);
  f.check = [=](const std::vector<Out> &o) {
    PBT_CHECK(o.size() == xs.size(), "%zu messages for %zu samples", o.size(), xs.size());
    for (size_t i = 0; i < xs.size(); i++) {
      const X &x = xs[i];
      if (x.odo) {
        PBT_CHECK(o[i].type == SbpMsgOdometry, "type %d", o[i].type);
        const auto &m = o[i].msg.odometry;
        PBT_CHECK(m.velocity == x.v && m.flags == x.fl, "velocity %d flags %02x, expected %d %02x", m.velocity, m.flags, x.v, x.fl);
        PBT_CHECK(m.tow < WEEKMS && fabs(week_diff(m.tow, x.t_ms)) <= 1, "time %u, expected %.0f", m.tow, x.t_ms);
      } else {
        PBT_CHECK(o[i].type == SbpMsgWheeltick, "type %d", o[i].type);
        const auto &m = o[i].msg.wheeltick;
        PBT_CHECK((s32)m.ticks == x.v && m.source == x.src && m.flags == x.fl, "ticks %d source %u flags %u, expected %d %u %u", (s32)m.ticks, m.source, m.flags, x.v, x.src, x.fl);
        PBT_CHECK(m.time < (u64)WEEKMS * 1000 && fabs(week_diff((double)m.time / 1000, x.t_ms)) <= 0.0011, "time %llu us, expected %.0f ms", (unsigned long long)m.time, x.t_ms);
      }
    }
  };
  return f;
}

// ---- navigation subframes -------------------------------------------------------------
// mostly the next one still missing for this satellite
int pick_part(G &g, Model &md, const std::map<int, Slot> &have, int n, int wild) {
  if (!md.first_part) md.first_part = 1 + (g.coin() ? 0 : (int)g.below(5));  // some receivers come in in the middle of a set
  if (g.chance(60))
    for (int k = 0; k < n; k++) {
      int i = (md.first_part - 1 + k) % n + 1;
      if (!have.count(i)) return i;
    }
  return (int)(g.chance(85) ? g.range(1, n) : g.range(0, wild));
}
struct F1 { const char *n; double want, got, tol; };
void same(const char *what, std::initializer_list<F1> l) {
  for (auto &x : l) PBT_CHECK(fabs(x.want - x.got) <= x.tol * fabs(x.want) + 1e-300, "%s %s is %.17g, encoded %.17g", what, x.n, x.got, x.want);
}
const double D = 1e-13, FL = 2e-7;  // relative tolerances of double and float fields
double p2(int n) { return ldexp(1.0, n); }
struct Rd {  // bit field reader on data bits
  const Bytes &b;
  size_t pos = 0;
  u64 u(unsigned w) { u64 v = getu(b, pos, w); pos += w; return v; }
  double s(unsigned w) { return (double)sext(u(w), w); }
};
void setu(Bytes &b, size_t pos, unsigned w, u64 v) {
  for (unsigned i = 0; i < w; i++, pos++) {
    u8 m = (u8)(0x80 >> (pos % 8));
    if ((v >> (w - 1 - i)) & 1) b[pos / 8] |= m;
    else b[pos / 8] &= (u8)~m;
  }
}
const double PI = 3.1415926535898;
Frm sfrbx(G &g, u8 gnss, u8 sat, u8 freq, const std::vector<u32> &w) {
  Frm f{0x02, 0x13, {}, "SFRBX", nothing};
  put<u8>(f.p, 0, gnss); put<u8>(f.p, 1, sat); put<u8>(f.p, 2, (u8)g.below(256)); put<u8>(f.p, 3, freq);
  put<u8>(f.p, 4, (u8)w.size()); put<u8>(f.p, 5, (u8)g.below(256)); put<u8>(f.p, 6, 2); put<u8>(f.p, 7, (u8)g.below(256));
  for (size_t i = 0; i < w.size(); i++) put<u32>(f.p, 8 + 4 * i, w[i]);
  return f;
}
double ura_gps(int i) { static const double t[16] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}; return t[i]; }
// nearest week so that tow lies within half a week of ref
s64 match_week(double tow, s64 ref_wn, double ref_tow) {
  double d = tow - ref_tow;
  return d > WEEK / 2 ? ref_wn - 1 : d < -WEEK / 2 ? ref_wn + 1 : ref_wn;
}
Frm gen_gps(G &g, Model &md) {
  if (!md.gps_prn) md.gps_prn = g.chance(70) ? 1 : 32;
  u8 prn = (u8)(g.chance(80) ? g.coin() ? md.gps_prn : 2 : g.chance(70) ? g.range(1, 32) : g.bits(8));
  int sf = pick_part(g, md, md.gps[prn], 3, 7);
  u8 iode = (u8)(g.chance(85) ? 0x5A : g.pick<int>({0x5B, 0, 255, 0xDA}));
  Bytes b = g.bytes(30);  // ten words of 24 data bits
  bool pre = g.chance(95);
  setu(b, 0, 8, 0x8B);
  if (!pre) setu(b, 0, 8, g.below(0x8B));
  auto W = [](int word, int bit) { return (size_t)((word - 1) * 24 + bit - 1); };
  u32 how = (u32)(g.chance(90) ? g.ival(0, 100799) : g.range(100800, 131071));
  setu(b, W(2, 1), 17, how);
  setu(b, W(2, 20), 3, (u64)sf);
  if (sf == 1) {
    setu(b, W(8, 1), 8, iode);
    setu(b, W(3, 13), 4, g.below(15));  // a URA of 15 means "do not use"
    setu(b, W(8, 9), 16, (u64)g.ival(0, 37799));
  } else if (sf == 2) {
    setu(b, W(3, 1), 8, iode);
    setu(b, W(10, 1), 16, (u64)g.ival(0, 37799));
  } else if (sf == 3)
    setu(b, W(10, 1), 8, iode);
  int nw = g.chance(95) ? 10 : (int)g.range(0, 9);
  std::vector<u32> w;
  for (int i = 0; i < nw; i++) w.push_back((u32)(getu(b, (size_t)i * 24, 24) << 6 | g.below(64)) | (u32)g.below(4) << 30);
  Frm f = sfrbx(g, 0, prn, 0, w);
  f.what = fmt("GPS prn %u sf %d iode %u", prn, sf, iode);
  if (!pre || nw != 10 || prn < 1 || prn > 32 || sf < 1 || sf > 3) return f;
  auto &sl = md.gps[prn];
  sl[sf] = {b, iode};
  if (sl.size() < 3) return f;
  if (sl[1].issue != sl[2].issue || sl[2].issue != sl[3].issue) {  // only the newest may belong to the new set
    Slot k = sl[sf];
    sl.clear();
    sl[sf] = k;
    return f;
  }
  Bytes a = sl[1].bits, c = sl[2].bits, d = sl[3].bits;
  u32 h = (u32)getu(a, W(2, 1), 17);
  if (h >= 100800) { sl.erase(1); return f; }
  double tot = h ? (h - 1) * 6.0 : WEEK - 6;
  sl.clear();
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgEphemerisGps, "EPHEMERIS_GPS").ephemeris_gps;
    s64 wn = (s64)getu(a, W(3, 1), 10);
    while (wn < 1876) wn += 1024;
    double toe = (double)getu(c, W(10, 1), 16) * 16, toc = (double)getu(a, W(8, 9), 16) * 16;
    PBT_CHECK(m.common.sid.sat == prn && m.common.sid.code == CODE_GPS_L1CA, "satellite %u/%u for %u", m.common.sid.sat, m.common.sid.code, prn);
    PBT_CHECK(m.common.valid == 1 && m.common.health_bits == getu(a, W(3, 17), 6), "valid %u health %u", m.common.valid, m.common.health_bits);
    PBT_CHECK(m.common.fit_interval == (getu(c, W(10, 17), 1) ? 6 * 3600 : 4 * 3600), "fit %u", m.common.fit_interval);
    auto s = [&](const Bytes &x, int word, int bit, unsigned n) { return (double)sext(getu(x, W(word, bit), n), n); };
    auto u = [&](const Bytes &x, int word, int bit, unsigned n) { return (double)getu(x, W(word, bit), n); };
    same("GPS", {{"toe", toe, (double)m.common.toe.tow, 0}, {"toe wn", (double)match_week(toe, wn, tot), (double)m.common.toe.wn, 0},
                 {"toc", toc, (double)m.toc.tow, 0}, {"toc wn", (double)match_week(toc, wn, tot), (double)m.toc.wn, 0},
                 {"ura", ura_gps((int)u(a, 3, 13, 4)), m.common.ura, FL},
                 {"iodc", u(a, 3, 23, 2) * 256 + u(a, 8, 1, 8), (double)m.iodc, 0}, {"iode", u(c, 3, 1, 8), (double)m.iode, 0},
                 {"tgd", s(a, 7, 17, 8) * p2(-31), m.tgd, FL}, {"af2", s(a, 9, 1, 8) * p2(-55), m.af2, FL}, {"af1", s(a, 9, 9, 16) * p2(-43), m.af1, FL},
                 {"af0", s(a, 10, 1, 22) * p2(-31), m.af0, FL}, {"crs", s(c, 3, 9, 16) * p2(-5), m.c_rs, FL}, {"dn", s(c, 4, 1, 16) * p2(-43) * PI, m.dn, D},
                 {"m0", s(c, 4, 17, 32) * p2(-31) * PI, m.m0, D}, {"cuc", s(c, 6, 1, 16) * p2(-29), m.c_uc, FL}, {"ecc", u(c, 6, 17, 32) * p2(-33), m.ecc, D},
                 {"cus", s(c, 8, 1, 16) * p2(-29), m.c_us, FL}, {"sqrta", u(c, 8, 17, 32) * p2(-19), m.sqrta, D}, {"cic", s(d, 3, 1, 16) * p2(-29), m.c_ic, FL},
                 {"omega0", s(d, 3, 17, 32) * p2(-31) * PI, m.omega0, D}, {"cis", s(d, 5, 1, 16) * p2(-29), m.c_is, FL}, {"inc", s(d, 5, 17, 32) * p2(-31) * PI, m.inc, D},
                 {"crc", s(d, 7, 1, 16) * p2(-5), m.c_rc, FL}, {"w", s(d, 7, 17, 32) * p2(-31) * PI, m.w, D}, {"omegadot", s(d, 9, 1, 24) * p2(-43) * PI, m.omegadot, D},
                 {"idot", s(d, 10, 9, 14) * p2(-43) * PI, m.inc_dot, D}});
  };
  return f;
}
Frm gen_bds(G &g, Model &md) {
  if (!md.bds_prn) md.bds_prn = g.chance(50) ? 6 : g.pick<u8>({5, 6, 58, 59, 63, 64});  // around the ends of the D2 ranges
  u8 prn = (u8)(g.chance(75) ? g.coin() ? md.bds_prn : 7 : g.chance(70) ? g.range(1, 64) : g.bits(8));
  int sf = pick_part(g, md, md.bds[prn], 3, 7);
  Bytes b = g.bytes(28);  // 26 + 9 * 22 data bits
  if (!md.bds_base) md.bds_base = 1 + (g.chance(60) ? 300000 : g.pick<u32>({0, 604782, 604788, 604776, 524280, 524286, 6, 4092}));  // of the ends of the week and of fields
  u32 base = g.chance(90) ? md.bds_base - 1 : g.pick<u32>({0, 30, 604770, 300030});
  u32 sow = (u32)(g.chance(88) ? base + 6 * (u32)std::max(0, sf - 1) : g.chance(50) ? g.range(604800, 1048575) : g.ival(0, 604799));
  setu(b, 0, 11, 0x712);
  setu(b, 15, 3, (u64)sf);
  setu(b, 18, 20, sow);
  if (sf == 1) setu(b, 18 + 20 + 1 + 5 + 4 + 13, 17, (u64)g.ival(0, 75597));
  // toe: 2 high bits end subframe 2, 15 low bits start subframe 3; kept below a week
  if (sf == 2) setu(b, 222, 2, g.below(2));
  if (sf == 3) setu(b, 38, 15, (u64)g.range(0, 32767));
  int nw = g.chance(95) ? 10 : (int)g.range(0, 9);
  std::vector<u32> w;
  size_t pos = 0;
  for (int i = 0; i < nw; i++) {
    unsigned n = i ? 22 : 26;
    w.push_back((u32)(getu(b, pos, n) << (30 - n) | g.below(1u << (30 - n))) | (u32)g.below(4) << 30);
    pos += n;
  }
  Frm f = sfrbx(g, 3, prn, 0, w);
  f.what = fmt("BDS prn %u sf %d sow %u", prn, sf, sow);
  bool geo = prn <= 5 || (prn >= 59 && prn <= 63);  // D2 satellites as libswiftnav lists them
  if (nw != 10 || prn < 1 || prn > 64 || geo || sf < 1 || sf > 3) return f;
  auto &sl = md.bds[prn];
  sl[sf] = {b, sow};
  if (sl.size() < 3) return f;
  for (int i = 1; i <= 3; i++) if (sl[i].issue >= 604800) { sl.erase(i); return f; }
  if (sl[2].issue != sl[1].issue + 6 || sl[3].issue != sl[2].issue + 6) return f;
  Bytes a = sl[1].bits, c = sl[2].bits, d = sl[3].bits;
  sl.clear();
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgEphemerisBds, "EPHEMERIS_BDS").ephemeris_bds;
    PBT_CHECK(m.common.sid.sat == prn && m.common.sid.code == CODE_BDS2_B1, "satellite %u/%u for %u", m.common.sid.sat, m.common.sid.code, prn);
    Rd x{a, 38};
    u64 health = x.u(1), aodc = x.u(5), ura = x.u(4), wn = x.u(13) + 1356;
    double toc = (double)x.u(17) * 8 + 14, tgd1 = x.s(10) * 1e-10, tgd2 = x.s(10) * 1e-10;
    x.u(64);
    double a2 = x.s(11) * p2(-66), a0 = x.s(24) * p2(-33), a1 = x.s(22) * p2(-50);
    u64 aode = x.u(5);
    Rd y{c, 38};
    double dn = y.s(16) * p2(-43) * PI, cuc = y.s(18) * p2(-31), m0 = y.s(32) * p2(-31) * PI, ecc = (double)y.u(32) * p2(-33), cus = y.s(18) * p2(-31), crc = y.s(18) * p2(-6),
           crs = y.s(18) * p2(-6), sqa = (double)y.u(32) * p2(-19);
    u64 th = y.u(2);
    Rd z{d, 38};
    double toe = (double)(th << 15 | z.u(15)) * 8 + 14;
    double inc = z.s(32) * p2(-31) * PI, cic = z.s(18) * p2(-31), od = z.s(24) * p2(-43) * PI, cis = z.s(18) * p2(-31), idot = z.s(14) * p2(-43) * PI, o0 = z.s(32) * p2(-31) * PI,
           om = z.s(32) * p2(-31) * PI;
    PBT_CHECK(m.common.valid == 1 && m.common.health_bits == health && m.common.fit_interval == 3 * 3600, "valid %u health %u fit %u", m.common.valid, m.common.health_bits, m.common.fit_interval);
    same("BDS", {{"toe", toe, (double)m.common.toe.tow, 0}, {"toe wn", (double)wn, (double)m.common.toe.wn, 0}, {"toc", toc, (double)m.toc.tow, 0}, {"toc wn", (double)wn, (double)m.toc.wn, 0},
                 {"ura", ura_gps((int)ura), m.common.ura, FL}, {"iodc", (double)aodc, (double)m.iodc, 0}, {"iode", (double)aode, (double)m.iode, 0}, {"tgd1", tgd1, m.tgd1, FL}, {"tgd2", tgd2, m.tgd2, FL},
                 {"af0", a0, m.af0, D}, {"af1", a1, m.af1, FL}, {"af2", a2, m.af2, FL}, {"dn", dn, m.dn, D}, {"cuc", cuc, m.c_uc, FL}, {"m0", m0, m.m0, D}, {"ecc", ecc, m.ecc, D},
                 {"cus", cus, m.c_us, FL}, {"crc", crc, m.c_rc, FL}, {"crs", crs, m.c_rs, FL}, {"sqrta", sqa, m.sqrta, D}, {"inc", inc, m.inc, D}, {"cic", cic, m.c_ic, FL},
                 {"omegadot", od, m.omegadot, D}, {"cis", cis, m.c_is, FL}, {"idot", idot, m.inc_dot, D}, {"omega0", o0, m.omega0, D}, {"w", om, m.w, D}});
  };
  return f;
}
Frm gen_gal(G &g, Model &md) {
  if (!md.gal_prn) md.gal_prn = g.chance(70) ? 1 : 36;
  u8 prn = (u8)(g.chance(80) ? g.coin() ? md.gal_prn : 2 : g.chance(70) ? g.range(1, 36) : g.bits(8));
  int wt = pick_part(g, md, md.gal[prn], 5, 63);
  u32 iod = g.chance(90) ? 0x155 : (u32)g.pick<int>({0x156, 0, 0x3FF, 0x055, 0x2AA, 0x355});
  Bytes b = g.bytes(16);
  setu(b, 0, 6, (u64)wt);
  if (wt >= 1 && wt <= 4) setu(b, 6, 10, iod);
  if (wt == 1) setu(b, 16, 14, (u64)g.ival(0, 10079));
  if (wt == 4) { setu(b, 16, 6, prn); setu(b, 54, 14, (u64)g.ival(0, 10079)); }
  if (wt == 5) { setu(b, 6 + 41 + 20 + 6, 12, (u64)g.range(900, 3000)); setu(b, 6 + 41 + 20 + 6 + 12, 20, (u64)g.ival(0, 604799)); }
  bool alert = g.chance(3), odd_first = g.chance(2), even_last = g.chance(2);
  int nw = g.chance(96) ? (int)g.range(9, 10) : (int)g.range(0, 8);
  std::vector<u32> w(10);
  for (auto &x : w) x = (u32)g.below(0);
  Bytes e(16, 0);
  setu(e, 0, 1, odd_first);
  setu(e, 1, 1, alert);
  for (int i = 0; i < 112; i++) setu(e, 2 + (size_t)i, 1, getu(b, (size_t)i, 1));
  setu(e, 114, 14, g.below(1 << 14));
  for (size_t i = 0; i < 4; i++) w[i] = (u32)getu(e, 32 * i, 32);
  w[4] = (even_last ? 0u : 1u << 31) | (u32)(g.below(2) << 30) | (u32)getu(b, 112, 16) << 14 | (u32)g.below(1 << 14);
  w.resize((size_t)nw);
  Frm f = sfrbx(g, 2, prn, 0, w);
  f.what = fmt("GAL prn %u word %d iod %u", prn, wt, iod);
  if (nw < 9 || prn < 1 || prn > 36 || alert || odd_first || even_last || wt < 1 || wt > 5) return f;
  auto &sl = md.gal[prn];
  sl[wt] = {b, iod};
  if (wt != 5)
    for (int i = 1; i <= 4; i++) if (sl.count(i) && sl[i].issue != iod) sl.erase(i);
  if (sl.size() < 5) return f;
  Bytes p[5];
  for (int i = 0; i < 5; i++) p[i] = sl[i + 1].bits;
  Bytes p1 = p[0], p2_ = p[1], p3 = p[2], p4 = p[3], p5 = p[4];
  sl.clear();
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgEphemerisGal, "EPHEMERIS_GAL").ephemeris_gal;
    PBT_CHECK(m.common.sid.sat == prn && m.common.sid.code == CODE_GAL_E1B, "satellite %u/%u for %u", m.common.sid.sat, m.common.sid.code, prn);
    Rd a{p1, 6}, b2{p2_, 6}, c{p3, 6}, d{p4, 6}, q{p5, 6};
    double iodv = (double)a.u(10), toe = (double)a.u(14) * 60, m0 = a.s(32) * p2(-31) * PI, ecc = (double)a.u(32) * p2(-33), sqa = (double)a.u(32) * p2(-19);
    b2.u(10);
    double o0 = b2.s(32) * p2(-31) * PI, inc = b2.s(32) * p2(-31) * PI, om = b2.s(32) * p2(-31) * PI, idot = b2.s(14) * p2(-43) * PI;
    c.u(10);
    double od = c.s(24) * p2(-43) * PI, dn = c.s(16) * p2(-43) * PI, cuc = c.s(16) * p2(-29), cus = c.s(16) * p2(-29), crc = c.s(16) * p2(-5), crs = c.s(16) * p2(-5);
    u64 sisa = c.u(8);
    d.u(16);
    double cic = d.s(16) * p2(-29), cis = d.s(16) * p2(-29), toc = (double)d.u(14) * 60, a0 = d.s(31) * p2(-34), a1 = d.s(21) * p2(-46), a2 = d.s(6) * p2(-59);
    q.u(41);
    double bg1 = q.s(10) * p2(-32), bg2 = q.s(10) * p2(-32);
    u64 health = q.u(6);
    s64 wn = (s64)q.u(12) + 1024;
    double tow = (double)q.u(20);
    double ura = sisa < 50 ? (double)sisa * 0.01 : sisa < 75 ? 0.5 + ((double)sisa - 50) * 0.02 : sisa < 100 ? 1 + ((double)sisa - 75) * 0.04 : sisa < 126 ? 2 + ((double)sisa - 100) * 0.16 : -1;
    PBT_CHECK(m.common.valid == 1 && m.common.health_bits == health && m.common.fit_interval == 4 * 3600 && m.source == 0, "valid %u health %u fit %u source %u", m.common.valid, m.common.health_bits, m.common.fit_interval, m.source);
    same("GAL", {{"toe", toe, (double)m.common.toe.tow, 0}, {"toe wn", (double)match_week(toe, wn, tow), (double)m.common.toe.wn, 0}, {"toc", toc, (double)m.toc.tow, 0}, {"toc wn", (double)match_week(toc, wn, tow), (double)m.toc.wn, 0},
                 {"ura", ura, m.common.ura, FL}, {"iode", iodv, (double)m.iode, 0}, {"iodc", iodv, (double)m.iodc, 0}, {"bgd5a", bg1, m.bgd_e1e5a, FL}, {"bgd5b", bg2, m.bgd_e1e5b, FL},
                 {"af0", a0, m.af0, D}, {"af1", a1, m.af1, FL}, {"af2", a2, m.af2, FL}, {"dn", dn, m.dn, D}, {"cuc", cuc, m.c_uc, FL}, {"m0", m0, m.m0, D}, {"ecc", ecc, m.ecc, D},
                 {"cus", cus, m.c_us, FL}, {"crc", crc, m.c_rc, FL}, {"crs", crs, m.c_rs, FL}, {"sqrta", sqa, m.sqrta, D}, {"inc", inc, m.inc, D}, {"cic", cic, m.c_ic, FL},
                 {"omegadot", od, m.omegadot, D}, {"cis", cis, m.c_is, FL}, {"idot", idot, m.inc_dot, D}, {"omega0", o0, m.omega0, D}, {"w", om, m.w, D}});
  };
  return f;
}
Frm gen_glo(G &g, Model &md) {
  if (!md.glo_prn) md.glo_prn = g.chance(70) ? 1 : 28;
  u8 prn = (u8)(g.chance(80) ? g.coin() ? md.glo_prn : 2 : g.chance(60) ? g.range(1, 28) : g.chance(50) ? 255 : g.bits(8));
  int st = pick_part(g, md, md.glo[prn], 5, 15);
  u16 sup = (u16)(g.chance(90) ? 0x0102 : g.pick<int>({0x0103, 0, 0x0202, 65535}));
  u8 freq = (u8)g.range(0, 13);
  Bytes b = g.bytes(12);
  auto at = [](int lsb, int n) { return (size_t)(85 - (lsb + n - 1)); };  // ICD bit 85 is sent first
  bool idle = g.chance(2);
  setu(b, 0, 1, idle);
  setu(b, at(81, 4), 4, (u64)st);
  if (st == 2) setu(b, at(70, 7), 7, (u64)g.range(1, 95));
  if (st == 4) setu(b, at(16, 11), 11, (u64)g.ival(1, 1461));
  if (st == 5) setu(b, at(32, 5), 5, (u64)g.range(1, 26));  // up to 2099
  int nw = g.chance(96) ? 4 : (int)g.range(0, 10);
  std::vector<u32> w(10);
  for (auto &x : w) x = (u32)g.below(0);
  for (size_t i = 0; i < 3; i++) w[i] = (u32)getu(b, 32 * i, 32);
  w[3] = (u32)sup << 16 | (u32)g.below(65536);
  w.resize((size_t)nw);
  Frm f = sfrbx(g, 6, prn, freq, w);
  f.what = fmt("GLO prn %u string %d frame %u", prn, st, sup);
  if (nw != 4 || prn < 1 || prn > 28 || idle || st < 1 || st > 5) return f;
  auto &sl = md.glo[prn];
  if (!md.glo_frame.count(prn) || md.glo_frame[prn] != sup) { sl.clear(); md.glo_frame[prn] = sup; }
  sl[st] = {b, sup};
  if (sl.size() < 5 || !md.leap_known) return f;
  Bytes s1 = sl[1].bits, s2 = sl[2].bits, s3 = sl[3].bits, s4 = sl[4].bits, s5 = sl[5].bits;
  int leap = md.leap;
  sl.clear();
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgEphemerisGlo, "EPHEMERIS_GLO").ephemeris_glo;
    PBT_CHECK(m.common.sid.sat == prn && m.common.sid.code == CODE_GLO_L1OF, "satellite %u/%u for %u", m.common.sid.sat, m.common.sid.code, prn);
    auto u = [&](const Bytes &x, int lsb, unsigned n) { return (double)getu(x, at(lsb, (int)n), n); };
    auto s = [&](const Bytes &x, int lsb, unsigned n) { return (double)smag(getu(x, at(lsb, (int)n), n), n); };
    const Bytes *xyz[3] = {&s1, &s2, &s3};
    for (int i = 0; i < 3; i++)
      same("GLO", {{"pos", s(*xyz[i], 9, 27) * p2(-11) * 1000, m.pos[i], D}, {"vel", s(*xyz[i], 41, 24) * p2(-20) * 1000, m.vel[i], D}, {"acc", s(*xyz[i], 36, 5) * p2(-30) * 1000, m.acc[i], FL}});
    PBT_CHECK(m.fcn == freq + 1, "fcn %u for frequency id %u", m.fcn, freq);
    static const double fit[4] = {60, 30, 45, 60};
    static const double ft[16] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
    // days from 1980-01-06 to 1 January of the four-year period; 1996 + 4 (N4 - 1)
    double sec = (5839 + 1461 * (u(s5, 32, 5) - 1) + u(s4, 16, 11) - 1) * 86400 + u(s2, 70, 7) * 900 - 3 * 3600 + leap;
    PBT_CHECK(near(m.common.toe.wn * WEEK + m.common.toe.tow, sec, 0.5) && m.common.toe.tow < 604800, "toe %u %u, expected %.0f s", m.common.toe.wn, m.common.toe.tow, sec);
    PBT_CHECK(m.common.valid == 1 && m.common.health_bits == ((int)u(s2, 80, 1) | (int)u(s3, 65, 1)), "valid %u health %u", m.common.valid, m.common.health_bits);
    same("GLO", {{"gamma", s(s3, 69, 11) * p2(-40), m.gamma, FL}, {"tau", s(s4, 59, 22) * p2(-30), m.tau, FL}, {"d_tau", s(s4, 54, 5) * p2(-30), m.d_tau, FL}, {"ura", ft[(int)u(s4, 30, 4)], m.common.ura, FL},
                 {"fit", (fit[(int)u(s1, 77, 2)] + 20) * 60, (double)m.common.fit_interval, 0}, {"iod", u(s2, 70, 7), (double)m.iod, 0}});
  };
  return f;
}
u32 crc24q_bits_ref(const Bytes &b, size_t nbits) {
  u32 c = 0;
  for (size_t i = 0; i < nbits; i++) {
    u32 fb = ((c >> 23) & 1) ^ (u32)getu(b, i, 1);
    c = (c << 1) & 0xFFFFFF;
    if (fb) c ^= 0x864CFB;
  }
  return c;
}
Frm gen_sbas(G &g, Model &md) {
  u8 prn = (u8)(g.chance(90) ? g.range(120, 158) : g.bits(8));
  Bytes b = g.bytes(32);
  u8 pre = g.pick<u8>({0x53, 0x9A, 0xC6});
  if (g.chance(4)) pre = (u8)g.below(256);
  setu(b, 0, 8, pre);
  setu(b, 226, 24, crc24q_bits_ref(b, 226));
  bool bad = g.chance(12);
  if (bad) { size_t k = g.below(250); setu(b, k, 1, !getu(b, k, 1)); pre = (u8)getu(b, 0, 8); }
  int nw = g.chance(95) ? (int)g.range(8, 9) : (int)g.range(0, 10);
  std::vector<u32> w(10);
  for (auto &x : w) x = (u32)g.below(0);
  for (size_t i = 0; i < 8; i++) w[i] = (u32)getu(b, 32 * i, 32);
  w.resize((size_t)nw);
  Frm f = sfrbx(g, 1, prn, 0, w);
  f.what = fmt("SBAS prn %u", prn);
  if (bad || prn < 120 || prn > 158 || (nw != 8 && nw != 9) || (pre != 0x53 && pre != 0x9A && pre != 0xC6)) return f;
  if (md.last_tow < 0 || md.last_tow > WEEKMS) return f;  // no time yet
  u32 tow = (u32)((md.last_tow - 1120 + WEEKMS) % WEEKMS);
  f.check = [=](const std::vector<Out> &o) {
    const auto &m = only(o, SbpMsgSbasRaw, "SBAS_RAW").sbas_raw;
    PBT_CHECK(m.sid.sat == prn && m.sid.code == CODE_SBAS_L1CA, "satellite %u/%u", m.sid.sat, m.sid.code);
    PBT_CHECK(m.tow == tow, "tow %u, expected %u", m.tow, tow);
    PBT_CHECK(m.message_type == getu(b, 8, 6), "message type %u", m.message_type);
    Bytes d(27, 0);
    for (size_t i = 0; i < 212; i++) setu(d, i, 1, getu(b, 14 + i, 1));
    PBT_CHECK(!memcmp(m.data, d.data(), 27), "payload %s, expected %s", hex(m.data, 27).c_str(), hex(d.data(), 27).c_str());
  };
  return f;
}
Frm gen_other(G &g, Model &) {
  Frm f{(u8)g.pick<int>({0x01, 0x02, 0x05, 0x06, 0x0A, 0x10, 0x13, 0x21, 0x28, 0xB5}), (u8)g.pick<int>({0x01, 0x08, 0x14, 0x20, 0x30, 0x62, 0xB5, 0x16}), g.bytes(g.below(40)), "other", nothing};
  return f;
}
typedef Frm (*Gen)(G &, Model &);
Frm gen_rawx_(G &g, Model &m) { return gen_rawx(g, m); }
const std::vector<Gen> all_gens = {gen_rawx_, gen_pvt, gen_att, gen_vel, gen_hnr, gen_sat, gen_status, gen_esfraw, gen_esfmeas, gen_monhw, gen_gps, gen_bds, gen_gal, gen_glo, gen_sbas, gen_other};

Bytes clean_garbage(G &g, size_t n) {  // no sync pattern inside
  Bytes b = g.bytes(n);
  for (size_t i = 0; i < n; i++) if (g.chance(10)) b[i] = g.coin() ? 0xB5 : 0x62;
  for (size_t i = 0; i + 1 < n; i++) if (b[i] == 0xB5 && b[i + 1] == 0x62) b[i + 1] = 0x63;
  if (n && b[0] == 0x62) b[0] = 0x61;
  return b;
}
// drives a converter over frames produced one by one by model-aware generators
int converse(G &g, const std::vector<Gen> &gens, size_t maxn, bool direct_ok = true, size_t minn = 1) {
  Model md;
  md.hnr = g.chance(30);
  md.msss = md.ctag = g.chance(20) ? (u32)g.pick<u32>({4294967295u - 500, 604799000u, 604800000u * 2 - 300, 0u, 30u, 49u, 50u}) : (u32)g.range(1000, 600000000);
  size_t n = (size_t)g.range((s64)minn, (s64)maxn);
  Source s;
  std::vector<Frm> fs;
  for (size_t i = 0; i < n; i++) fs.push_back(g.pick(gens)(g, md));
  bool direct = direct_ok && g.chance(25);
  u16 sender = 61568;
  if (!direct)
    for (auto &f : fs) {
      append(s.data, frame(f.cls, f.id, f.p));
      if (g.chance(5)) append(s.data, clean_garbage(g, g.below(30)));
    }
  s.chunks = gen_chunks(g);
  Inst in(&s, false, (u8)g.below(256), md.hnr);
  if (g.chance(20)) ubx_set_sender_id(in.st.get(), sender = (u16)g.below(65536));
  int produced = 0;
  for (size_t i = 0; i < fs.size(); i++) {
    s.out.clear();
    if (direct) {
      Bytes b = frame(fs[i].cls, fs[i].id, fs[i].p);
      size_t len = b.size() - 4;
      std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(len), free);
      memcpy(p.get(), &b[2], len);
      swiftnav_bytestream_t bs;
      swiftnav_bytestream_init(&bs, p.get(), (u32)len);
      ubx_handle_frame(&bs, in.st.get());
    } else {
      int r = in.step();
      PBT_CHECK(r > 0, "input ended at frame %zu (%s)", i, fs[i].what.c_str());
    }
    g.note(fmt("%s -> %zu", fs[i].what.c_str(), s.out.size()));
    try {
      fs[i].check(s.out);
    } catch (Fail &e) {
      throw Fail{e.key, fmt("frame %zu %s: ", i, fs[i].what.c_str()) + e.msg};
    }
    for (auto &o : s.out) { PBT_CHECK(o.sender == sender, "sender %u, expected %u", o.sender, sender); check_wellformed(o); }
    produced += (int)s.out.size();
    g.fingerprint(fs[i].p.data(), fs[i].p.size());
  }
  if (!direct) PBT_CHECK(in.step() <= 0, "messages beyond the last frame");
  return produced;
}
Bytes hostile(G &g) {
  Bytes b;
  Model md;
  md.msss = md.ctag = (u32)g.range(1000, 600000000);
  size_t n = (size_t)g.range(1, 8);
  for (size_t k = 0; k < n; k++) {
    switch (g.below(9)) {
      case 0: append(b, g.bytes(g.below(40))); break;
      case 1: {  // arbitrary length field
        Bytes h = {0xB5, 0x62, g.pick<u8>({1, 2, 0x10, 0x28, 0x0A, 0xB5}), g.pick<u8>({0, 2, 3, 5, 7, 9, 0x11, 0x13, 0x15, 0x35, 0xB5})};
        le<u16>(h, (u16)g.pick<int>({0, 1, 2, 3, 4, 8, 16, 20, 4088, 4089, 4090, 4091, 4092, 4096, 65535, (int)g.below(65536)}));
        append(b, h);
        append(b, g.bytes(g.below(64)));
        break;
      }
      case 2: {  // right checksum, any payload
        static const std::vector<std::pair<u8, u8>> t = {{1, 3}, {1, 5}, {1, 7}, {1, 0x11}, {1, 0x35}, {2, 0x13}, {2, 0x15}, {0x10, 2}, {0x10, 3}, {0x28, 0}, {0x0A, 9}};
        auto x = g.pick(t);
        append(b, frame(x.first, x.second, g.bytes(g.chance(20) ? g.below(1300) : g.chance(5) ? 4090 : g.below(120))));
        break;
      }
      case 3: { Frm f = g.pick(all_gens)(g, md); f.p.resize(g.below(f.p.size() + 20)); append(b, frame(f.cls, f.id, f.p)); break; }
      case 4: { Frm f = g.pick(all_gens)(g, md); if (!f.p.empty()) for (int j = (int)g.range(1, 4); j; j--) f.p[g.below(f.p.size())] = (u8)g.bits(8); append(b, frame(f.cls, f.id, f.p)); break; }
      case 5: { Frm f = g.pick(all_gens)(g, md); Bytes x = frame(f.cls, f.id, f.p); if (g.coin()) x.resize(g.below(x.size())); else x[g.below(x.size())] ^= (u8)g.range(1, 255); append(b, x); break; }
      default: { Frm f = g.pick(all_gens)(g, md); append(b, frame(f.cls, f.id, f.p)); }
    }
  }
  if (g.chance(5)) append(b, g.bytes(5000));
  return b;
}
}  // namespace

PBT_PROP(C29, rawx, 60000, 2000000, "observations came out") {
  static const std::vector<Gen> gs = {gen_rawx_, gen_rawx_, gen_status};
  if (converse(g, gs, 3) > 0) g.nontrivial();
}
// what an instance does after hundreds of messages
PBT_PROP(C29, long, 150, 15000, "200 frames or more, observations came out") {
  static const std::vector<Gen> gs = {gen_rawx_, gen_status, gen_other};
  if (converse(g, gs, 400, true, 200) > 0) g.nontrivial();
}
PBT_PROP(C30, long, 250, 20000, "300 frames or more, messages came out") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_pvt, gen_att, gen_vel, gen_hnr, gen_sat, gen_monhw, gen_other}, {gen_pvt, gen_hnr, gen_att}, {gen_status, gen_status, gen_esfraw}};
  if (converse(g, g.pick(mixes), 600, true, 300) > 0) g.nontrivial();
}
PBT_PROP(C31, long, 250, 20000, "300 frames or more, messages came out") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_esfraw}, {gen_esfmeas}, {gen_esfraw, gen_esfmeas, gen_status}};
  if (converse(g, g.pick(mixes), 600, true, 300) > 0) g.nontrivial();
}
PBT_PROP(C32, long, 250, 20000, "300 frames or more, ephemerides came out") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_glo, gen_glo, gen_gps, gen_bds, gen_gal, gen_sbas, gen_pvt}, {gen_gps}, {gen_glo, gen_glo, gen_glo, gen_glo, gen_glo, gen_rawx_}, {gen_bds}, {gen_gal}};
  if (converse(g, g.pick(mixes), 600, true, 300) > 0) g.nontrivial();
}
PBT_PROP(C29, full, 6000, 200000, "more than 127 measurements, which only the frame interface can carry") {
  Model md;
  Source s;
  Frm f = gen_rawx(g, md, (int)g.range(128, 255));
  Inst in(&s);
  Bytes b = frame(f.cls, f.id, f.p);
  swiftnav_bytestream_t bs;
  swiftnav_bytestream_init(&bs, &b[2], (u32)b.size() - 4);
  ubx_handle_frame(&bs, in.st.get());
  f.check(s.out);
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(f.p[11] > 127);
  g.fingerprint(f.p.data(), f.p.size());
}
PBT_PROP(C30, nav, 120000, 3000000, "messages came out") {
  static const std::vector<Gen> gs = {gen_pvt, gen_att, gen_vel, gen_hnr, gen_sat, gen_monhw, gen_other};
  if (converse(g, gs, 8) > 0) g.nontrivial();
}
PBT_PROP(C30, offset, 60000, 2000000, "messages came out") {
  static const std::vector<Gen> gs = {gen_status, gen_status, gen_esfraw, gen_rawx_, gen_status};
  if (converse(g, gs, 9) > 0) g.nontrivial();
}
PBT_PROP(C31, imu, 60000, 2000000, "inertial messages came out") {
  static const std::vector<Gen> gs = {gen_esfraw};
  if (converse(g, gs, 8) > 0) g.nontrivial();
}
PBT_PROP(C31, odometry, 100000, 3000000, "odometry messages came out") {
  static const std::vector<Gen> gs = {gen_esfmeas};
  if (converse(g, gs, 10) > 0) g.nontrivial();
}
PBT_PROP(C31, mixed, 40000, 1000000, "messages came out") {
  static const std::vector<Gen> gs = {gen_esfraw, gen_esfmeas, gen_status, gen_rawx_};
  if (converse(g, gs, 10) > 0) g.nontrivial();
}
PBT_PROP(C31, temperature, 50000, 500000, "in range") {
  double t = g.chance(20) ? 0.01 * (double)(g.pick<int>({8700, -4100, 2300, 0}) + g.range(-3, 3)) : g.chance(30) ? g.pick<double>({23, 87, -41, 86.998, 86.9981, -40.998, -40.9981, 0}) + g.real(-0.01, 0.01) : g.real(-60, 110);
  double w = (t - 23) * 512;
  w = std::min(32767.0, std::max(-32767.0, w));
  int got = ubx_convert_temperature_to_bmi160(t);
  PBT_CHECK(fabs(got - w) <= 1.01, "%.6f deg becomes %d, expected %.2f", t, got, w);
  g.nontrivial_if(t < 87 && t > -41);
  g.fingerprint(&t, sizeof t);
}
#define EPH(NAME, GEN)                                                                  \
  PBT_PROP(C32, NAME, 50000, 1500000, "an ephemeris came out") {                        \
    static const std::vector<Gen> gs = {GEN};                                           \
    if (converse(g, gs, 24) > 0) g.nontrivial();                                        \
  }
EPH(gps, gen_gps)
EPH(bds, gen_bds)
EPH(gal, gen_gal)
PBT_PROP(C32, glo, 50000, 1500000, "messages came out") {
  static const std::vector<Gen> gs = {gen_glo, gen_glo, gen_glo, gen_glo, gen_glo, gen_glo, gen_glo, gen_rawx_};
  if (converse(g, gs, 28) > 1) g.nontrivial();
}
PBT_PROP(C32, sbas, 80000, 2000000, "messages came out") {
  static const std::vector<Gen> gs = {gen_sbas, gen_sbas, gen_sbas, gen_sbas, gen_pvt, gen_hnr, gen_status, gen_rawx_, gen_esfraw, gen_status};
  if (converse(g, gs, 12) > 0) g.nontrivial();
}
PBT_PROP(C32, mixed, 30000, 1000000, "messages came out") {
  static const std::vector<Gen> gs = {gen_glo, gen_glo, gen_gps, gen_bds, gen_gal, gen_rawx_, gen_sbas, gen_pvt};
  if (converse(g, gs, 60) > 0) g.nontrivial();
}

PBT_PROP(C02, stream, 80000, 3000000, "messages came out of a hostile stream") {
  Source s;
  s.data = hostile(g);
  s.chunks = gen_chunks(g);
  Inst in(&s, false, (u8)g.below(256), g.coin());
  in.run();
  if (g.chance(30)) {
    append(s.data, hostile(g));
    s.eof = false;
    in.run();
    g.label("resumed");
  }
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(!s.out.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C02, frame, 80000, 3000000, "messages came out of an arbitrary frame") {
  Source s;
  Inst in(&s, false, (u8)g.below(256), g.coin());
  Model md;
  int n = (int)g.range(1, 6);
  for (int k = 0; k < n; k++) {
    Bytes b;
    if (g.coin()) {
      Frm f = g.pick(all_gens)(g, md);
      b = frame(f.cls, f.id, f.p);
      b = Bytes(b.begin() + 2, b.end() - 2);
      if (g.chance(30)) b.resize(g.below(b.size() + 1));
      for (int j = (int)g.below(4); j && b.size() > 2; j--) b[(size_t)g.range(2, (s64)b.size() - 1)] = (u8)g.bits(8);
    } else {
      static const std::vector<std::pair<u8, u8>> t = {{1, 3}, {1, 5}, {1, 7}, {1, 0x11}, {1, 0x35}, {2, 0x13}, {2, 0x15}, {0x10, 2}, {0x10, 3}, {0x28, 0}, {0x0A, 9}};
      auto x = g.pick(t);
      b = g.bytes(g.chance(20) ? g.below(1300) : g.below(120));
      b.insert(b.begin(), {x.first, x.second, (u8)g.bits(8), (u8)(g.chance(80) ? g.below(6) : g.bits(8))});
    }
    std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(b.size() + !b.size()), free);
    memcpy(p.get(), b.data(), b.size());
    swiftnav_bytestream_t bs;
    swiftnav_bytestream_init(&bs, p.get(), (u32)b.size());
    ubx_handle_frame(&bs, in.st.get());
    g.fingerprint(b.data(), b.size());
  }
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(!s.out.empty());
}

PBT_PROP(C08, ubx, 80000, 3000000, "a damaged frame or garbage precedes an intact supported frame") {
  Source all, good;
  all.chunks = gen_chunks(g);
  Model md;
  md.msss = md.ctag = (u32)g.range(1000, 600000000);
  size_t n = (size_t)g.range(2, 8);
  bool dam = false, nt = false;
  for (size_t i = 0; i < n; i++) {
    switch (g.below(5)) {
      case 0: append(all.data, clean_garbage(g, (size_t)g.range(1, 50))); dam = true; break;
      case 1: {  // damage that leaves sync and length alone
        Frm f = g.pick(all_gens)(g, md);
        Bytes b = frame(f.cls, f.id, f.p), was = b;
        for (int j = (int)g.range(1, 3); j; j--) {
          size_t p = (size_t)g.range(2, (s64)b.size() - 1);
          if (p == 4 || p == 5) p = 2;
          b[p] ^= g.coin() ? (u8)(1u << g.below(8)) : (u8)g.range(1, 255);
        }
        u8 a = 0, c = 0;
        for (size_t k = 2; k + 2 < b.size(); k++) { a = (u8)(a + b[k]); c = (u8)(c + a); }
        if (b == was || (b[b.size() - 2] == a && b[b.size() - 1] == c)) throw Discard{};
        append(all.data, b);
        dam = true;
        break;
      }
      case 2: {  // sync lost
        Frm f = g.pick(all_gens)(g, md);
        Bytes b = frame(f.cls, f.id, f.p);
        b[g.below(2)] = 0x55;
        for (size_t k = 0; k + 1 < b.size(); k++) if (b[k] == 0xB5 && b[k + 1] == 0x62) b[k + 1] = 0x63;
        append(all.data, b);
        dam = true;
        break;
      }
      default: {
        Frm f = g.pick(all_gens)(g, md);
        Bytes b = frame(f.cls, f.id, f.p);
        append(all.data, b);
        append(good.data, b);
        nt |= dam;
      }
    }
  }
  bool hnr = g.coin();
  run(all, hnr);
  run(good, hnr);
  std::string a = all.render(), b = good.render();
  if (a != b) PBT_FAIL("framing", "intact frames alone convert differently:%s", first_diff(a, b).c_str());
  g.nontrivial_if(nt && !good.out.empty());
  g.fingerprint(all.data.data(), all.data.size());
}
PBT_PROP(C09, ubx, 60000, 2000000, "output was produced and the chunkings differ") {
  Source a, b;
  a.data = b.data = hostile(g);
  a.chunks = gen_chunks(g);
  b.chunks = gen_chunks(g);
  bool hnr = g.coin();
  run(a, hnr);
  run(b, hnr);
  std::string x = a.render(), y = b.render();
  if (x != y) PBT_FAIL("chunking", "output depends on the chunking:%s", first_diff(x, y).c_str());
  g.nontrivial_if(!a.out.empty() && a.chunks != b.chunks);
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, ubx, 60000, 2000000, "the run produced messages") {
  Source a, b, c, x;
  a.data = hostile(g);
  if (g.coin()) { append(a.data, hostile(g)); share(g, x.data, a.data, 0xB5); }  // the other has seen the beginning of it
  else x.data = hostile(g);
  b.data = c.data = a.data;
  a.chunks = b.chunks = c.chunks = gen_chunks(g);
  bool hnr = g.coin(), hx = g.coin();
  run(a, hnr, false, (u8)g.below(256));
  {
    Inst ib(&b, false, (u8)g.below(256), hnr), ix(&x, false, 0, hx);
    bool db = false, dx = false;
    while (!db || !dx) {
      if (!dx && (db || g.coin())) dx = ix.step() <= 0;
      else if (!db) db = ib.step() <= 0;
    }
    run(c, hnr, true, 0, g.coin() ? &ix : g.coin() ? &ib : nullptr);
  }
  std::string ra = a.render(), rb = b.render(), rc = c.render();
  if (ra != rb) PBT_FAIL("instances", "another instance changed the output:%s", first_diff(rb, ra).c_str());
  if (ra != rc) PBT_FAIL("memory", "output depends on memory contents:%s", first_diff(rc, ra).c_str());
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, ubx_threads, 12000, 600000, "both threads produced messages and took turns") {
  Source a, x;
  a.data = hostile(g);
  if (g.chance(30)) x.data = a.data; else x.data = hostile(g);
  a.chunks = gen_chunks(g);
  x.chunks = gen_chunks(g);
  bool ha = g.coin(), hx = g.coin();
  Source b, y;
  b.data = a.data; b.chunks = a.chunks;
  y.data = x.data; y.chunks = x.chunks;
  run(a, ha);
  run(x, hx);
  auto r = sched::run(sched::gen_plan(g, 12, g.coin() ? 12 : 3000, 20000), {}, {[&] { run(b, ha, 2); }, [&] { run(y, hx, 2); }});
  std::string ra = a.render(), rb = b.render(), rx = x.render(), ry = y.render();
  if (ra != rb) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(rb, ra).c_str());
  if (rx != ry) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(ry, rx).c_str());
  g.nontrivial_if(!a.out.empty() && !x.out.empty() && r.switches);
  g.fingerprint(a.data.data(), a.data.size());
}
