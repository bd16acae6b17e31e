// C05, C22, C23, C24, C36 for the SBP to RTCM3 converter.
// Oracle: a model of the RTCM frames to expect, written from RTCM 10403.3 and the SBP
// specification, and the way back through the RTCM3 to SBP converter.
#include "conv.h"
#include "rtcmref.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
extern "C" {
#include <gnss-converters-extra/sbp_conv.h>
#include <gnss-converters-extra/sbp_rtcm3.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
#include <libsbp/v4/sbp_msg.h>
#include <swiftnav/signal.h>
#define CBS(X) X(base_pos_ecef) X(glo_biases) X(sbp_obs) X(sbp_osr) X(sbp_ssr_orbit_clock) X(sbp_ssr_phase_biases) X(sbp_ssr_code_biases) \
  X(sbp_ssr_gridded_correction) X(sbp_ssr_grid_definition) X(sbp_ssr_stec_correction) X(sbp_gps_eph) X(sbp_glo_eph) X(sbp_bds_eph) X(sbp_gal_eph) X(sbp_log)
#define DECL(n) void alt_sbp2rtcm_##n##_cb(u16, u8, const u8[], struct rtcm3_out_state *); void sch_sbp2rtcm_##n##_cb(u16, u8, const u8[], struct rtcm3_out_state *) __attribute__((weak));
CBS(DECL)
void alt_sbp2rtcm_init(struct rtcm3_out_state *, s32 (*)(u8 *, u16, void *), void *);
void alt_sbp2rtcm_set_leap_second(s8, struct rtcm3_out_state *);
void alt_sbp2rtcm_set_rtcm_out_mode(msm_enum, struct rtcm3_out_state *);
void alt_sbp2rtcm_set_glo_fcn(sbp_gnss_signal_t, u8, struct rtcm3_out_state *);
bool alt_sbp2rtcm_set_ant_height(double, struct rtcm3_out_state *);
void alt_sbp2rtcm_set_rcv_ant_descriptors(const char *, const char *, struct rtcm3_out_state *);
}
SCH(sbp2rtcm_init) SCH(sbp2rtcm_set_ant_height) SCH(sbp2rtcm_set_glo_fcn) SCH(sbp2rtcm_set_leap_second) SCH(sbp2rtcm_set_rcv_ant_descriptors) SCH(sbp2rtcm_set_rtcm_out_mode)
using namespace conv;

namespace {
#define EQ(a, b, what) PBT_CHECK((long long)(a) == (long long)(b), "%s: got %lld want %lld", what, (long long)(a), (long long)(b))
#define NEAR(a, b, tol, what) PBT_CHECK(fabs((double)(a) - (double)(b)) <= (tol), "%s: got %.17g want %.17g", what, (double)(a), (double)(b))
const s64 WEEK = 604800000, DAY = 86400000, HOUR = 3600000;
const int LEAP = 18;  // since 2017
gps_time_t gt(s64 ms) {
  gps_time_t t;
  t.wn = (s16)(ms / WEEK);
  t.tow = (double)(ms % WEEK) / 1000.0;
  return t;
}

// ---- what is done to a converter ----------------------------------------------
enum Op { BASE_POS, GLO_BIAS, OBS, OSR, ORBIT_CLOCK, PHASE_BIASES, CODE_BIASES, GRIDDED, GRID_DEF, STEC, EPH_GPS, EPH_GLO, EPH_BDS, EPH_GAL, LOG, NMSG, SET_LEAP = NMSG, SET_MODE, SET_FCN, SET_HEIGHT, SET_DESC };
typedef void (*Cb)(u16, u8, const u8[], struct rtcm3_out_state *);
#define MAINCB(n) sbp2rtcm_##n##_cb,
#define ALTCB(n) alt_sbp2rtcm_##n##_cb,
#define SCHCB(n) sch_sbp2rtcm_##n##_cb,
const Cb CB[3][NMSG] = {{CBS(MAINCB)}, {CBS(ALTCB)}, {CBS(SCHCB)}};
const u16 TYPE[NMSG] = {0x0048, 0x0075, 0x004A, 0x0640, 0x05DD, 0x05E6, 0x05E1, 0x05F0, 0x05F5, 0x05EB, 0x008A, 0x008B, 0x0089, 0x008D, 0x0401};
const int FIXED[NMSG] = {24, 9, -1, -1, -1, -1, -1, -1, -1, -1, 139, 92, 147, 153, -1};
struct Ev {
  int op;
  u16 sender = 0;
  Bytes p;
  int a = 0, b = 0;
  double h = 0;
  std::string s1, s2;
  std::string str() const { return fmt("op %d sender %u bytes %s a %d b %d h %g '%s' '%s'", op, sender, hex(p.data(), p.size()).c_str(), a, b, h, s1.c_str(), s2.c_str()); }
};
struct Inst {
  std::unique_ptr<rtcm3_out_state> st{new rtcm3_out_state};
  std::vector<Bytes> out;
  int alt;
  bool empty_ok = true;
  static s32 cb(u8 *b, u16 n, void *ctx) {
    sched::step();
    if (n) ((Inst *)ctx)->out.push_back(Bytes(b, b + n));
    return n;
  }
  explicit Inst(int a = 0, u8 fill = 0x5A, const Inst *worn = nullptr) : alt(a) {
    memset(st.get(), fill, sizeof *st);
    if (worn) memcpy(st.get(), worn->st.get(), sizeof *st);  // memory that another instance has used
    PICK(alt, sbp2rtcm_init)(st.get(), cb, this);
  }
  Inst(const Inst &) = delete;
  void apply(const Ev &e) {
    switch (e.op) {
      case SET_LEAP: PICK(alt, sbp2rtcm_set_leap_second)((s8)e.a, st.get()); break;
      case SET_MODE: PICK(alt, sbp2rtcm_set_rtcm_out_mode)((msm_enum)e.a, st.get()); break;
      case SET_FCN: {
        sbp_gnss_signal_t sid;
        sid.sat = (u8)e.a; sid.code = CODE_GLO_L1OF;
        PICK(alt, sbp2rtcm_set_glo_fcn)(sid, (u8)e.b, st.get());
        break;
      }
      case SET_HEIGHT: PICK(alt, sbp2rtcm_set_ant_height)(e.h, st.get()); break;
      case SET_DESC: PICK(alt, sbp2rtcm_set_rcv_ant_descriptors)(e.s1.c_str(), e.s2.c_str(), st.get()); break;
      default: {  // exactly the message, nothing behind it
        std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(e.p.size() + !e.p.size()), free);
        memcpy(p.get(), e.p.data(), e.p.size());
        CB[alt][e.op](e.sender, (u8)e.p.size(), p.get(), st.get());
      }
    }
  }
  std::string render() const {
    std::string s;
    for (auto &f : out) s += hex(f.data(), f.size()) + "\n";
    return s;
  }
};
// one complete frame; returns its payload
Bytes unframe(const Bytes &f) {
  PBT_CHECK(f.size() >= 8 && f.size() <= 1029, "frame of %zu bytes", f.size());
  PBT_CHECK(f[0] == 0xD3 && (f[1] & 0xFC) == 0, "no frame header %02x %02x", f[0], f[1]);
  size_t n = (size_t)((f[1] & 3) << 8 | f[2]);
  PBT_CHECK(n + 6 == f.size(), "frame length %zu in a frame of %zu bytes", n, f.size());
  u32 c = (u32)f[n + 3] << 16 | (u32)f[n + 4] << 8 | f[n + 5];
  PBT_CHECK(c == crc24q(f.data(), n + 3), "wrong CRC %06x", c);
  return Bytes(f.begin() + 3, f.begin() + 3 + (long)n);
}

// ---- signals --------------------------------------------------------------------
struct Sig { int code, cons, id; double freq; };  // GLONASS: frequency of channel 0, second harmonic by band
const Sig SIGS[] = {
    {CODE_GPS_L1CA, GPS, 2, 1575.42e6}, {CODE_GPS_L1P, GPS, 3, 1575.42e6}, {CODE_GPS_L2P, GPS, 9, 1227.6e6}, {CODE_GPS_L2CM, GPS, 15, 1227.6e6}, {CODE_GPS_L2CL, GPS, 16, 1227.6e6}, {CODE_GPS_L2CX, GPS, 17, 1227.6e6},
    {CODE_GPS_L5I, GPS, 22, 1176.45e6}, {CODE_GPS_L5Q, GPS, 23, 1176.45e6}, {CODE_GPS_L5X, GPS, 24, 1176.45e6}, {CODE_GPS_L1CI, GPS, 30, 1575.42e6}, {CODE_GPS_L1CQ, GPS, 31, 1575.42e6}, {CODE_GPS_L1CX, GPS, 32, 1575.42e6},
    {CODE_SBAS_L1CA, SBAS, 2, 1575.42e6}, {CODE_SBAS_L5I, SBAS, 22, 1176.45e6}, {CODE_SBAS_L5Q, SBAS, 23, 1176.45e6}, {CODE_SBAS_L5X, SBAS, 24, 1176.45e6},
    {CODE_GLO_L1OF, GLO, 2, 1602e6}, {CODE_GLO_L1P, GLO, 3, 1602e6}, {CODE_GLO_L2OF, GLO, 8, 1246e6}, {CODE_GLO_L2P, GLO, 9, 1246e6},
    {CODE_BDS2_B1, BDS, 2, 1561.098e6}, {CODE_BDS3_B3I, BDS, 8, 1268.52e6}, {CODE_BDS3_B3Q, BDS, 9, 1268.52e6}, {CODE_BDS3_B3X, BDS, 10, 1268.52e6}, {CODE_BDS2_B2, BDS, 14, 1207.14e6}, {CODE_BDS3_B5I, BDS, 22, 1176.45e6}, {CODE_BDS3_B5Q, BDS, 23, 1176.45e6}, {CODE_BDS3_B5X, BDS, 24, 1176.45e6}, {CODE_BDS3_B7I, BDS, 25, 1207.14e6}, {CODE_BDS3_B1CI, BDS, 30, 1575.42e6}, {CODE_BDS3_B1CQ, BDS, 31, 1575.42e6}, {CODE_BDS3_B1CX, BDS, 32, 1575.42e6},
    {CODE_QZS_L1CA, QZS, 2, 1575.42e6}, {CODE_QZS_L2CM, QZS, 15, 1227.6e6}, {CODE_QZS_L2CL, QZS, 16, 1227.6e6}, {CODE_QZS_L2CX, QZS, 17, 1227.6e6}, {CODE_QZS_L5I, QZS, 22, 1176.45e6}, {CODE_QZS_L5Q, QZS, 23, 1176.45e6}, {CODE_QZS_L5X, QZS, 24, 1176.45e6}, {CODE_QZS_L1CI, QZS, 30, 1575.42e6}, {CODE_QZS_L1CQ, QZS, 31, 1575.42e6}, {CODE_QZS_L1CX, QZS, 32, 1575.42e6},
    {CODE_GAL_E1C, GAL, 2, 1575.42e6}, {CODE_GAL_E1B, GAL, 4, 1575.42e6}, {CODE_GAL_E1X, GAL, 5, 1575.42e6}, {CODE_GAL_E6C, GAL, 8, 1278.75e6}, {CODE_GAL_E6B, GAL, 10, 1278.75e6}, {CODE_GAL_E6X, GAL, 11, 1278.75e6}, {CODE_GAL_E7I, GAL, 14, 1207.14e6}, {CODE_GAL_E7Q, GAL, 15, 1207.14e6}, {CODE_GAL_E7X, GAL, 16, 1207.14e6}, {CODE_GAL_E8I, GAL, 18, 1191.795e6}, {CODE_GAL_E8Q, GAL, 19, 1191.795e6}, {CODE_GAL_E8X, GAL, 20, 1191.795e6}, {CODE_GAL_E5I, GAL, 22, 1176.45e6}, {CODE_GAL_E5Q, GAL, 23, 1176.45e6}, {CODE_GAL_E5X, GAL, 24, 1176.45e6}};
const Sig *sig_of(int code) {
  for (auto &s : SIGS) if (s.code == code) return &s;
  return nullptr;
}
double freq_of(const Sig &s, int fcn) {  // 0: unknown
  if (s.cons != GLO) return s.freq;
  if (fcn < 0) return 0;
  return s.freq + (fcn - 7) * (s.freq > 1.5e9 ? 562500.0 : 437500.0);
}
const int FIRST[NCONS] = {1, 120, 1, 1, 193, 1}, NSATS[NCONS] = {32, 39, 28, 64, 10, 36};

// ---- observations -----------------------------------------------------------------
struct Ob {
  u32 P = 0;
  s32 Li = 0;
  u8 Lf = 0;
  s16 Di = 0;
  u8 Df = 0, cn0 = 0, lock = 0, flags = 0, sat = 0, code = 0;
  bool tame_l = true, tame_d = true;  // next to the other signals of the satellite
  double L() const { return (double)Li + Lf / 256.0; }
  double D() const { return (double)Di + Df / 256.0; }
};
void put(Bytes &b, const Ob &o) {
  le(b, o.P); le(b, o.Li); le(b, o.Lf); le(b, o.Di); le(b, o.Df); le(b, o.cn0); le(b, o.lock); le(b, o.flags); le(b, o.sat); le(b, o.code);
}
struct ObsMsg {
  u32 tow;
  s32 ns = 0;
  u16 wn, sender;
  u8 size, idx;
  std::vector<Ob> obs;
  Ev ev() const {
    Ev e;
    e.op = OBS;
    e.sender = sender;
    le(e.p, tow); le(e.p, ns); le(e.p, wn); le(e.p, (u8)(size << 4 | idx));
    for (auto &o : obs) put(e.p, o);
    return e;
  }
};
struct Epoch {  // observations to be sent together
  u32 tow;
  u16 wn, sender;
  std::vector<Ob> obs;
};
struct ExpF { int num; std::function<void(const Bytes &)> check; };

Msm parse_msm(const Bytes &b) {
  Msm m;
  size_t at = 0;
  auto get = [&](unsigned w) { u64 v = getu(b, at, w); at += w; return v; };
  int num = (int)get(12);
  m.type = num % 10;
  m.cons = -1;
  for (int c = 0; c < NCONS; c++) if (MSM_BASE[c] == num / 10 * 10) m.cons = c;
  PBT_CHECK(m.cons >= 0 && (m.type == 4 || m.type == 5), "message %d", num);
  m.stn = get(12);
  m.dow = m.cons == GLO ? get(3) : 0;
  m.epoch = get(m.cons == GLO ? 27 : 30);
  m.multiple = get(1); m.iods = get(3); m.reserved = get(7); m.steering = get(2); m.ext = get(2); m.divf = get(1); m.smooth = get(3);
  m.satmask = get(64); m.sigmask = (u32)get(32);
  for (int i = 0; i < 64; i++) if (m.satmask >> (63 - i) & 1) m.sats.push_back({(u8)(i + 1), 0, 0, 0, 0});
  for (int i = 0; i < 32; i++) if (m.sigmask >> (31 - i) & 1) m.sigs.push_back((u8)(i + 1));
  PBT_CHECK(m.sats.size() * m.sigs.size() <= 64, "cell mask of %zu by %zu", m.sats.size(), m.sigs.size());
  for (auto &s : m.sats)
    for (u8 sg : m.sigs) {
      bool on = get(1);
      m.cellmask.push_back(on);
      if (on) m.cells.push_back({s.id, sg, 0, 0, 0, 0, 0, 0});
    }
  bool rates = m.type == 5;
  for (auto &s : m.sats) s.rough_ms = get(8);
  if (rates) for (auto &s : m.sats) s.info = get(4);
  for (auto &s : m.sats) s.rough_mod = get(10);
  if (rates) for (auto &s : m.sats) s.rate = get(14);
  for (auto &c : m.cells) c.pr = get(15);
  for (auto &c : m.cells) c.cp = get(22);
  for (auto &c : m.cells) c.lock = get(4);
  for (auto &c : m.cells) c.hca = get(1);
  for (auto &c : m.cells) c.cnr = get(6);
  if (rates) for (auto &c : m.cells) c.dop = get(15);
  PBT_CHECK((at + 7) / 8 == b.size(), "message of %zu bits in %zu bytes", at, b.size());
  while (at % 8) EQ(get(1), 0, "padding");
  return m;
}
LObs parse_legacy(const Bytes &b) {
  LObs m;
  size_t at = 0;
  auto get = [&](unsigned w) { u64 v = getu(b, at, w); at += w; return v; };
  m.num = (int)get(12);
  m.stn = get(12); m.tow = get(m.glo() ? 27 : 30); m.sync = get(1);
  size_t n = get(5);
  m.div = get(1); m.smooth = get(3);
  while (n--) {
    LSat s;
    s.sv = get(6); s.code1 = get(1);
    s.fcn = m.glo() ? get(5) : 0;
    s.pr1 = get(m.glo() ? 25 : 24); s.diff1 = get(20); s.lock1 = get(7); s.amb = get(m.glo() ? 7 : 8); s.cnr1 = get(8);
    s.code2 = get(2); s.pr2 = get(14); s.diff2 = get(20); s.lock2 = get(7); s.cnr2 = get(8);
    m.sats.push_back(s);
  }
  PBT_CHECK((at + 7) / 8 == b.size(), "message of %zu bits in %zu bytes", at, b.size());
  return m;
}

struct Model {
  int leap = -1000;  // unknown
  int mode = 5;      // 0: legacy
  int fcn[29];
  bool ant = false;
  double height = 0;
  std::string ad, rd;
  std::vector<Ob> buf;
  u32 tow = 0;
  u16 wn = 0, osender = 0;
  u8 n_obs = 0;
  std::vector<ExpF> out;
  std::vector<Epoch> epochs;
  bool odd = false;  // the sequence was irregular
  Model() { for (auto &f : fcn) f = -1; }

  void flush() {
    if (buf.empty()) return;
    std::set<std::pair<u8, u8>> seen;  // the same signal twice, in messages of two sequences: which is sent is left open
    for (auto &o : buf) if (!seen.insert({o.sat, o.code}).second) throw Discard{};
    Epoch e{tow, wn, osender, buf};
    buf.clear();
    epochs.push_back(e);
    if (mode) msm(e); else legacy(e);
  }
  u64 glo_tow(u32 t) const { return (u64)((((s64)t + 3 * HOUR - leap * 1000) % WEEK + WEEK) % WEEK); }
  struct Cell { Ob o; int fcn; const Sig *s; int mid; };
  void msm(const Epoch &e) {
    std::vector<Cell> cells[NCONS];
    for (auto &o : e.obs) {
      const Sig *s = sig_of(o.code);
      if (!s || o.sat < FIRST[s->cons] || o.sat >= FIRST[s->cons] + NSATS[s->cons]) continue;
      cells[s->cons].push_back({o, s->cons == GLO ? fcn[o.sat] : -1, s, o.sat - FIRST[s->cons] + 1});
    }
    int last = -1;
    for (int c = 0; c < NCONS; c++) if (!cells[c].empty()) last = c;
    for (int c = 0; c < NCONS; c++) {
      if (cells[c].empty()) continue;
      auto v = cells[c];
      u64 stn = e.sender & 0xFFF, dow = 0, ep = e.tow;
      if (c == GLO) { ep = glo_tow(e.tow); dow = ep / (u64)DAY; ep %= (u64)DAY; }
      if (c == BDS) ep = (ep + (u64)WEEK - 14000) % (u64)WEEK;
      bool multiple = c != last;
      int type = mode;
      out.push_back({MSM_BASE[c] + type, [=](const Bytes &b) {
                       Msm m = parse_msm(b);
                       EQ(m.stn, stn, "station"); EQ(m.epoch, ep, "epoch time"); EQ(m.dow, dow, "day of week"); EQ(m.multiple, multiple, "multiple message bit");
                       check_msm(m, v);
                     }});
    }
  }
  static void check_msm(const Msm &m, const std::vector<Cell> &v) {
    u64 satmask = 0;
    u32 sigmask = 0;
    std::map<std::pair<int, int>, const Cell *> want;
    for (auto &x : v) {
      satmask |= 1ull << (64 - x.mid);
      sigmask |= 1u << (32 - x.s->id);
      want[{x.mid, x.s->id}] = &x;
    }
    bool fits = __builtin_popcountll(satmask) * __builtin_popcount(sigmask) <= 64;
    if (fits) {
      EQ(m.satmask, satmask, "satellite mask"); EQ(m.sigmask, sigmask, "signal mask"); EQ(m.cells.size(), want.size(), "number of cells");
    } else {
      EQ(m.satmask & ~satmask, 0, "satellites without observation"); EQ(m.sigmask & ~sigmask, 0, "signals without observation");
      PBT_CHECK(m.cells.size() >= 1, "nothing sent");
    }
    struct Sat { double pmin = 1e12, pmax = 0; bool tp = true, any_p = false, tl = true, td = true, any_d = false, want_d = false, range = true; double rmin = 1e9, rmax = -1e9; };
    std::map<int, Sat> sat;
    for (auto &x : v) {
      Sat &s = sat[x.mid];
      // also when two generated epochs of the same time came together
      s.pmin = std::min(s.pmin, x.o.P * 0.02); s.pmax = std::max(s.pmax, x.o.P * 0.02);
      s.tp = s.pmax - s.pmin < 144.1;
      double fx = freq_of(*x.s, x.fcn);  // the channel may have changed since the message was made
      if ((x.o.flags & 8) && fx > 0) {
        double r = -x.o.D() * C_LIGHT / fx;
        s.rmin = std::min(s.rmin, r); s.rmax = std::max(s.rmax, r);
        s.td = s.rmax - s.rmin < 1.1 && fabs(r) < 8190;
      }
      s.range &= (double)x.o.P * 0.02 / C_LIGHT * 1000 < 254.99;
    }
    for (auto &c : m.cells) {
      std::string w = fmt("MSM%d constellation %d satellite %d signal %d: ", m.type, m.cons, c.sat, c.sig);
      auto it = want.find({c.sat, c.sig});
      PBT_CHECK(it != want.end(), "%scell without observation", w.c_str());
      const Cell &x = *it->second;
      const Ob &o = x.o;
      Sat &s = sat[c.sat];
      MsmExp e = msm_expect(m, c);
      double f = freq_of(*x.s, x.fcn);
      s.any_p |= e.vpr;
      if (s.tp && s.range) PBT_CHECK(e.vpr, "%spseudorange lost", w.c_str());
      if (e.vpr) NEAR(e.pr * C_LIGHT / 1000, (double)o.P * 0.02, 0.00895, (w + "pseudorange").c_str());
      bool vl = (o.flags & 2) && f > 0;
      if (!vl) PBT_CHECK(!e.vcp, "%sphase made up", w.c_str());
      if (vl && s.tp && s.range && fabs(o.L() * C_LIGHT / f - o.P * 0.02) < 1000) PBT_CHECK(e.vcp, "%sphase lost", w.c_str());
      if (e.vcp) {
        NEAR(e.cp * f / 1000, o.L(), 0.0016, (w + "phase").c_str());
        EQ(e.hca, !(o.flags & 4), (w + "half cycle ambiguity").c_str());
      }
      bool vd = m.type == 5 && (o.flags & 8) && f > 0;
      s.want_d |= vd;
      s.any_d |= e.vdop;
      if (!vd) PBT_CHECK(!e.vdop, "%sDoppler made up", w.c_str());
      if (vd && s.td) PBT_CHECK(e.vdop, "%sDoppler lost", w.c_str());
      if (e.vdop) NEAR(-e.dop * f / C_LIGHT, o.D(), 0.0003, (w + "Doppler").c_str());
      EQ(c.lock, o.lock, (w + "lock indicator").c_str());
      NEAR(4 * e.cnr, o.cn0, o.cn0 > 252 ? 3.01 : 2.01, (w + "C/N0").c_str());
    }
    for (auto &k : m.sats) {
      Sat &s = sat[k.id];
      if (fits && s.range) PBT_CHECK(s.any_p, "all pseudoranges of satellite %d lost", k.id);
      if (fits && s.want_d) PBT_CHECK(s.any_d, "all Doppler of satellite %d lost", k.id);
      if (m.cons == GLO && m.type == 5)
        for (auto &x : v)
          if (x.mid == k.id) { if (x.fcn >= 0) EQ(k.info, x.fcn, "GLONASS channel"); else PBT_CHECK(k.info >= 14, "GLONASS channel %d made up", (int)k.info); }
    }
  }
  void legacy(const Epoch &e) {
    struct S { int sat, fcn; const Ob *f[2]; };
    std::vector<S> v[2];
    auto obs = std::make_shared<std::vector<Ob>>(e.obs);
    for (auto &o : *obs) {
      int k, f;
      switch (o.code) {
        case CODE_GPS_L1CA: case CODE_GPS_L1P: k = 0; f = 0; break;
        case CODE_GPS_L2CM: case CODE_GPS_L2P: k = 0; f = 1; break;
        case CODE_GLO_L1OF: case CODE_GLO_L1P: k = 1; f = 0; break;
        case CODE_GLO_L2OF: case CODE_GLO_L2P: k = 1; f = 1; break;
        default: continue;
      }
      if (f == 0) {
        if (o.sat < 1 || o.sat > (k ? 28 : 32) || v[k].size() >= 31) continue;
        if (k && fcn[o.sat] < 0) continue;
        v[k].push_back({o.sat, k ? fcn[o.sat] : 0, {&o, nullptr}});
      } else {
        for (auto &s : v[k]) if (s.sat == o.sat) { s.f[1] = &o; break; }
      }
    }
    for (int k = 0; k < 2; k++) {
      if (v[k].empty()) continue;
      std::vector<S> sats;  // no place for satellites without L1 phase or beyond the range ambiguities
      for (auto &x : v[k]) if ((x.f[0]->flags & 6) == 6 && x.f[0]->P * 0.02 < 256 * C_LIGHT / 1000) sats.push_back(x);
      u64 stn = e.sender & 0xFFF, t = k ? glo_tow(e.tow) % (u64)DAY : e.tow;
      bool sync = k == 0 && !v[1].empty();
      out.push_back({k ? 1012 : 1004, [=](const Bytes &b) {
                       (void)obs;
                       LObs m = parse_legacy(b);
                       EQ(m.stn, stn, "station"); EQ(m.tow, t, "epoch time"); EQ(m.sync, sync, "synchronous flag"); EQ(m.sats.size(), sats.size(), "number of satellites");
                       std::map<int, const LSat *> got;
                       for (auto &s : m.sats) { got[(int)s.sv] = &s; }
                       std::map<int, int> times;
                       for (auto &s : sats) times[s.sat]++;
                       for (auto &s : m.sats) PBT_CHECK(--times[(int)s.sv] >= 0, "satellite %d sent again", (int)s.sv);
                       times.clear();
                       for (auto &s : sats) times[s.sat]++;
                       for (auto &s : sats) {
                         PBT_CHECK(got.count(s.sat), "satellite %d lost", s.sat);
                         if (times[s.sat] > 1) continue;  // both codes on L1: an entry for each
                         const LSat &r = *got[s.sat];
                         if (k) EQ(r.fcn, s.fcn, "GLONASS channel");
                         bool far = (double)s.f[0]->P * 0.02 >= (k ? 127 : 255) * m.prunit();  // does not fit the modulus
                         for (int f = 0; f < 2; f++) {
                           std::string w = fmt("%d satellite %d L%d: ", m.num, s.sat, f + 1);
                           bool vp = f ? m.vpr2(r) : m.vpr1(r), vl = m.vcp(r, f);
                           const Ob *o = s.f[f];
                           if (!o) { PBT_CHECK(!vp, "%spseudorange made up", w.c_str()); PBT_CHECK(!vl, "%sphase made up", w.c_str()); continue; }
                           bool fit = !far && (f == 0 || fabs((double)o->P - (double)s.f[0]->P) < 8190);
                           if (r.pr1 != 0x80000 && fit) PBT_CHECK(vp, "%spseudorange lost", w.c_str());
                           if (vp && m.vpr1(r)) NEAR(f ? m.pr_l2(r) : m.pr_l1(r), (double)o->P * 0.02, f ? 0.0301 : 0.0101, (w + "pseudorange").c_str());
                           bool wl = (o->flags & 6) == 6;
                           if (!wl) PBT_CHECK(!vl, "%sphase made up", w.c_str());
                           if (wl && !far) PBT_CHECK(vl, "%sphase lost", w.c_str());
                           if (vl && m.vpr1(r) && !far) {
                             double d = m.cp(r, f) - o->L(), fr = m.freq(r, f);
                             d -= rint(d / 1500) * 1500;  // the phase may be rolled over by 1500 cycles
                             if (fabs(o->L() * C_LIGHT / fr - (double)s.f[0]->P * 0.02) < 262) d = m.cp(r, f) - o->L();
                             NEAR(d, 0, 0.00028 * fr / C_LIGHT + 1e-6, (w + "phase").c_str());
                           }
                           unsigned li = 0;
                           double lt = lock4(o->lock);
                           while (li < 127 && lock7(li + 1) <= lt) li++;
                           if (vl) EQ(f ? r.lock2 : r.lock1, li, (w + "lock indicator").c_str());
                           EQ(f ? r.cnr2 : r.cnr1, o->cn0, (w + "C/N0").c_str());
                           bool pc = o->code == CODE_GPS_L1P || o->code == CODE_GPS_L2P || o->code == CODE_GLO_L1P || o->code == CODE_GLO_L2P;
                           if (k) PBT_CHECK((f ? r.code2 : r.code1) == 0 || pc, "%scode", w.c_str());  // the rest in glo_p_code
                           else EQ(f ? r.code2 : r.code1, pc, (w + "code").c_str());
                         }
                       }
                     }});
    }
  }
  void obs(const ObsMsg &m) {
    if (m.tow > (u32)WEEK) return;
    if (m.sender != osender) { if (!buf.empty()) odd = true; flush(); osender = m.sender; }
    if (!buf.empty()) {
      s64 dt = ((s64)m.wn - wn) * WEEK + (s64)m.tow - (s64)tow;
      if (dt < 0) { odd = true; return; }
      if (dt > 0) { odd = true; flush(); }
      else {
        if (m.size != n_obs >> 4 || m.idx <= (n_obs & 15)) { odd = true; flush(); return; }
        if (m.idx != (n_obs & 15) + 1) odd = true;
      }
    }
    for (auto &o : m.obs) {
      if (!(o.flags & 1) || (o.flags & 0x80)) continue;
      const Sig *s = sig_of(o.code);
      if (s && s->cons == GLO && leap == -1000) continue;
      if (buf.size() >= 210) break;
      buf.push_back(o);
    }
    tow = m.tow; wn = m.wn; n_obs = (u8)(m.size << 4 | m.idx);
    if (m.idx + 1 == m.size) flush();
  }
  void set(const Ev &e) {
    switch (e.op) {
      case SET_LEAP: leap = e.a; break;
      case SET_MODE: mode = e.a == MSM4 ? 4 : e.a == MSM5 ? 5 : 0; break;
      case SET_FCN: if (e.a >= 1 && e.a <= 28) fcn[e.a] = e.b >= 1 && e.b <= 14 ? e.b - 1 : -1; break;
      case SET_HEIGHT: if (e.h >= 0 && e.h <= 6.5535) { height = e.h; ant = true; } break;
      case SET_DESC: ad = e.s1; rd = e.s2; ant = true; break;
    }
  }
  void desc(Bytes b, int num, u16 sender) {
    size_t at = 0;
    auto get = [&](unsigned w) { u64 v = getu(b, at, w); at += w; return v; };
    auto text = [&] { std::string s; for (u64 n = get(8); n; n--) s += (char)get(8); return s; };
    EQ(get(12), num, "message number");
    EQ(get(12), sender & 0xFFF, "station");
    std::string a = text();
    PBT_CHECK(a == ad, "antenna descriptor '%s' instead of '%s'", a.c_str(), ad.c_str());
    get(8);
    PBT_CHECK(text().empty(), "antenna serial number made up");
    if (num == 1033) {
      std::string r = text();
      PBT_CHECK(r == rd, "receiver descriptor '%s' instead of '%s'", r.c_str(), rd.c_str());
      PBT_CHECK(text().empty(), "firmware version made up");
      PBT_CHECK(text().empty(), "receiver serial number made up");
    }
    PBT_CHECK((at + 7) / 8 == b.size(), "message of %zu bits in %zu bytes", at, b.size());
  }
  void compare(Inst &in) {
    for (size_t i = 0; i < in.out.size() || i < out.size(); i++) {
      if (i >= in.out.size()) PBT_FAIL("missing", "message %d was not sent (%zu of %zu were)", out[i].num, in.out.size(), out.size());
      Bytes p = unframe(in.out[i]);
      int num = (int)getu(p, 0, 12);
      if (i >= out.size()) PBT_FAIL("surplus", "unexpected message %d", num);
      PBT_CHECK(num == out[i].num, "message %d instead of %d", num, out[i].num);
      out[i].check(p);
    }
    in.out.clear();
    out.clear();
  }
};

// ---- generators -------------------------------------------------------------
// observations of one satellite on several signals
void gen_sat(G &g, std::vector<Ob> &v, int cons, int sat, const std::vector<const Sig *> &sigs, int fcn, bool tame, bool legacy) {
  double R = g.chance(75) ? g.real(19e6, 42e6) : g.real(1e6, tame ? 75e6 : 85.5e6), v0 = g.chance(70) ? g.real(-1000, 1000) : g.real(-6000, 6000);
  if (legacy) R = std::min(R, cons == GLO ? 75e6 : 76e6);
  if (g.chance(10)) R = (double)g.range(4, 250) * C_LIGHT / 1000 + g.real(-30, 30);  // at a whole millisecond
  for (auto *s : sigs) {
    Ob o;
    o.sat = (u8)sat;
    o.code = (u8)s->code;
    double r = R + g.real(-72, 72), off = g.real(-700, 700), rr = v0 + g.real(-0.5, 0.5);
    if (!tame && g.chance(6)) { r += (g.coin() ? 1 : -1) * g.real(450, 3000); }
    if (g.chance(6)) { off = (g.coin() ? 1 : -1) * (legacy ? g.real(400, 5000) : g.real(1600, 9000)); o.tame_l = false; }
    if (legacy && o.tame_l) off = g.real(-160, 160);
    if (g.chance(6)) { rr += (g.coin() ? 1 : -1) * g.real(3, 30); o.tame_d = false; }
    o.P = (u32)std::max(1.0, rint(r * 50));
    double f = freq_of(*s, fcn >= 0 ? fcn : 7), L = rint((R + off) * f / C_LIGHT * 256), D = rint(-rr * f / C_LIGHT * 256);
    if (g.chance(5)) L = floor(L / 256) * 256;
    o.Li = (s32)floor(L / 256); o.Lf = (u8)(L - 256.0 * o.Li);
    o.Di = (s16)floor(D / 256); o.Df = (u8)(D - 256.0 * o.Di);
    o.cn0 = (u8)(g.chance(80) ? g.range(80, 220) : g.bits(8));
    o.lock = (u8)g.draw(16);
    o.flags = (u8)(1 | (g.chance(85) ? 2 : 0) | (g.chance(80) ? 4 : 0) | (g.chance(75) ? 8 : 0));
    if (g.chance(4)) o.flags &= (u8)~1;
    if (g.chance(4)) o.flags |= 0x80;
    v.push_back(o);
  }
}
struct ObsGen {
  bool tame = false, trip = false;
  int big = 0;  // percentage of large epochs
};
std::vector<Ob> gen_obs(G &g, const Model &md, const ObsGen &og) {
  std::vector<Ob> v;
  bool leg = md.mode == 0;
  int target = g.chance((u32)og.big) ? 210 : (int)g.range(1, 30);
  if (target == 210 && g.chance(60)) {  // as many as there can be, or nearly
    static const int ORDER[3][6] = {{GPS, GLO, GAL, BDS, QZS, SBAS}, {GAL, BDS, GPS, SBAS, GLO, QZS}, {BDS, GLO, GPS, GAL, SBAS, QZS}};
    const int *ord = ORDER[g.draw(3)];
    if (g.coin()) target = (int)g.range(200, 210);
    for (int i = 0; i < 6; i++) {
      int cons = ord[i];
      std::vector<const Sig *> all, use;
      for (auto &s : SIGS) if (s.cons == cons) all.push_back(&s);
      for (size_t k = g.draw(all.size()); use.size() < std::min<size_t>(2, all.size()); k = (k + 1) % all.size()) use.push_back(all[k]);
      int top = std::min(NSATS[cons], 64 / (int)use.size());
      for (int k = 0; k < top && (int)v.size() < target; k++) gen_sat(g, v, cons, FIRST[cons] + k, use, cons == GLO ? md.fcn[FIRST[cons] + k] : -1, og.tame, leg);
    }
    for (auto &o : v) if (g.chance(99)) o.flags = (u8)((o.flags | 1) & 0x7f);
  }
  for (int round = 0; round < 12 && (int)v.size() < target; round++) {
    int cons = leg && g.chance(90) ? (g.coin() ? GPS : GLO) : (int)g.pick({GPS, GPS, GLO, GLO, GAL, BDS, SBAS, QZS});
    std::vector<const Sig *> all, use;
    for (auto &s : SIGS) if (s.cons == cons) all.push_back(&s);
    if (leg && (cons == GPS || cons == GLO)) {  // one signal a band
      all.clear();
      all.push_back(sig_of(cons == GPS ? (g.chance(70) ? CODE_GPS_L1CA : CODE_GPS_L1P) : (g.chance(80) ? CODE_GLO_L1OF : CODE_GLO_L1P)));
      all.push_back(sig_of(cons == GPS ? (g.chance(60) ? CODE_GPS_L2CM : CODE_GPS_L2P) : (g.chance(80) ? CODE_GLO_L2OF : CODE_GLO_L2P)));
    }
    size_t nsig = std::min<size_t>(all.size(), leg ? 2 : (size_t)(g.chance(80) ? g.range(1, 3) : g.range(1, 12)));
    while (use.size() < nsig) {
      const Sig *s = all[g.draw(all.size())];
      bool dup = false;
      for (auto *u : use) dup |= u == s;
      if (dup) { for (auto *a : all) { bool d = false; for (auto *u : use) d |= u == a; if (!d) { s = a; break; } } }
      use.push_back(s);
    }
    if (leg && g.chance(90) && use.size() == 2 && use[0] != all[0]) std::swap(use[0], use[1]);
    size_t nsat = (size_t)(g.chance(80) ? g.range(1, 6) : g.range(1, 32));
    for (size_t k = 0; k < nsat && (int)v.size() < target; k++) {
      int sat = FIRST[cons] + (int)g.draw((u64)NSATS[cons]);
      bool dup = false;
      for (auto &o : v) { const Sig *s = sig_of(o.code); dup |= s && s->cons == cons && o.sat == sat; }
      if (dup) continue;
      std::vector<const Sig *> mine;
      for (auto *s : use) if (g.chance(88)) mine.push_back(s);
      gen_sat(g, v, cons, sat, mine, cons == GLO ? md.fcn[sat] : -1, og.tame, leg);
    }
  }
  if (!og.tame && g.chance(8)) {  // what RTCM has no place for
    Ob o;
    o.sat = (u8)g.bits(8); o.code = (u8)g.pick({CODE_GPS_L2CM, CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_GAL_E1B, CODE_SBAS_L1CA});
    const Sig *s = sig_of(o.code);
    if (o.sat >= FIRST[s->cons] && o.sat < FIRST[s->cons] + NSATS[s->cons]) o.sat = s->cons == SBAS ? 5 : 250;
    if (g.coin()) { o.sat = (u8)g.range(1, 32); o.code = (u8)g.pick<int>({(int)CODE_COUNT, 62, 100, 200, CODE_BDS3_B7X}); }
    o.P = 1000000000; o.flags = 1; o.cn0 = 120;
    v.insert(v.begin() + (long)g.draw(v.size() + 1), o);
  }
  if (v.size() > 210) v.resize(210);
  return v;
}
std::vector<ObsMsg> gen_epoch(G &g, const Model &md, u16 wn, u32 tow, u16 sender, const ObsGen &og) {
  std::vector<Ob> v = gen_obs(g, md, og);
  std::vector<ObsMsg> r;
  size_t total = std::max<size_t>(1, (v.size() + 13) / 14);
  if (total < 15 && g.chance(25)) total += (size_t)g.range(1, (s64)std::min<size_t>(3, 15 - total));
  size_t at = 0;
  for (size_t k = 0; k < total; k++) {
    ObsMsg m;
    m.tow = tow; m.wn = wn; m.sender = sender; m.size = (u8)total; m.idx = (u8)k;
    m.ns = g.chance(70) ? 0 : (s32)g.range(-500000, 500000);
    size_t left = v.size() - at, need = left > 14 * (total - k - 1) ? left - 14 * (total - k - 1) : 0;
    size_t n = k + 1 == total ? left : std::min<size_t>({14, left, std::max<size_t>(need, g.chance(70) ? 14 : g.below(15))});
    m.obs.assign(v.begin() + (long)at, v.begin() + (long)(at + n));
    at += n;
    r.push_back(m);
  }
  return r;
}
// times of week: any, and those where the time of another constellation starts over
s64 gen_tow(G &g, int leap) {
  if (!g.chance(25)) return g.ival(0, WEEK - 1);
  static const int NEAR[] = {0, 0, 0, 125, -125, 1, -1, 1000, -1000, 500};
  s64 at;
  switch (g.draw(4)) {
    case 0: at = 14000; break;                                    // BeiDou week
    case 1: at = g.range(0, 6) * 86400000 + (leap - 10800) * 1000LL; break;  // GLONASS day
    case 2: at = g.range(0, 6) * 86400000 + leap * 1000LL; break;  // UTC day
    default: at = g.range(0, 7) * 86400000;
  }
  at += NEAR[g.draw(10)];
  return (at % WEEK + WEEK) % WEEK;
}
Ev ev_set(int op, int a = 0, int b = 0) { Ev e; e.op = op; e.a = a; e.b = b; return e; }
std::string gen_text(G &g, size_t max) {
  std::string s;
  for (size_t n = g.below(max + 1); n; n--) s += (char)(g.chance(90) ? g.range(32, 126) : g.range(1, 255));
  return s;
}
Ev gen_setter(G &g, bool sane) {
  Ev e;
  e.op = (int)g.range(SET_LEAP, SET_DESC);
  switch (e.op) {
    case SET_LEAP: e.a = g.chance(60) ? LEAP : (int)g.range(sane ? 0 : -128, 127); break;
    case SET_MODE: e.a = (int)g.pick({MSM_UNKNOWN, MSM4, MSM5, MSM4, MSM5, MSM7, MSM1}); break;
    case SET_FCN: e.a = (int)(g.chance(90) ? g.range(1, 28) : g.bits(8)); e.b = (int)(g.chance(85) ? g.range(0, 14) : g.bits(8)); if (sane && e.b > 14) e.b = 15 + e.b % 100; break;
    case SET_HEIGHT: e.h = g.chance(80) ? g.real(0, 6.5535) : g.pick({-0.0001, 0.0, 6.5535, 6.6, -3.0, 1e9, 0.00005}); break;
    case SET_DESC: e.s1 = gen_text(g, sane ? 31 : 60); e.s2 = gen_text(g, sane ? 31 : 60); break;
  }
  return e;
}
Ev legal_leap() { return ev_set(SET_LEAP, LEAP); }
void fp(G &g, const Ev &e) {
  g.fingerprint(&e.op, sizeof e.op);
  g.fingerprint(&e.a, sizeof e.a);
  g.fingerprint(e.p.data(), e.p.size());
  if (g.want_notes) g.note(e.str().substr(0, 1500));
}
u16 gen_sender(G &g, std::vector<u16> &pool) {
  if (pool.empty()) for (int i = 0; i < 2; i++) pool.push_back((u16)g.bits(16));
  return pool[g.chance(85) ? 0 : 1];
}
}  // namespace

static void frames_run(G &g, int minn, int maxn) {
  Inst in(false, (u8)g.below(256));
  Model md;
  std::vector<u16> senders;
  auto set = [&](const Ev &e) { fp(g, e); in.apply(e); md.set(e); };
  if (g.chance(85)) set(ev_set(SET_LEAP, g.chance(70) ? LEAP : (int)g.range(0, 127)));
  if (g.chance(60)) set(ev_set(SET_MODE, g.pick({MSM_UNKNOWN, MSM4, MSM5})));
  int known = g.chance(70) ? 90 : 30;
  for (int s = 1; s <= 28; s++) if (g.chance((u32)known)) set(ev_set(SET_FCN, s, (int)g.range(1, 14)));
  u16 wn = (u16)g.range(1930, 2400);
  s64 t = gen_tow(g, md.leap == -1000 ? LEAP : md.leap);
  ObsGen og;
  og.big = 3;
  std::vector<ObsMsg> pending;
  size_t frames = 0;
  for (int n = (int)g.range(minn, maxn); n; n--) {
    if (g.chance(12)) set(g.coin() ? ev_set(SET_MODE, g.pick({MSM_UNKNOWN, MSM4, MSM5})) : ev_set(SET_FCN, (int)g.range(1, 28), (int)g.range(0, 15)));
    std::vector<ObsMsg> e = gen_epoch(g, md, (u16)(wn + t / WEEK), (u32)(t % WEEK), gen_sender(g, senders), og);
    // irregular histories
    if (g.chance(25)) {
      size_t i = g.draw(e.size());
      switch (g.below(4)) {
        case 0: e.erase(e.begin() + (long)i); break;
        case 1: e.insert(e.begin() + (long)i, e[i]); break;
        case 2: if (e.size() > 1) std::swap(e[i], e[(i + 1) % e.size()]); break;
        default: e[i].size = (u8)g.range(0, 15);
      }
    }
    if (!pending.empty() && g.chance(30)) e.insert(e.begin() + (long)g.draw(e.size() + 1), pending[g.draw(pending.size())]);
    for (auto &m : e) {
      Ev v = m.ev();
      fp(g, v);
      in.apply(v);
      md.obs(m);
      frames += md.out.size();
      size_t k = md.out.size();
      md.compare(in);
      g.nontrivial_if(k > 1);
      if (g.chance(3)) set(ev_set(SET_FCN, (int)g.range(1, 28), (int)g.range(0, 15)));
    }
    pending = e;
    switch (g.draw(6)) {
      default: t += 1000; break;
      case 3: t += 100; break;
      case 4: t += g.range(1, 60000); break;
      case 5: if (g.chance(40)) t -= g.range(1, 3000); else t += 1; break;
    }
    if (t < 0) t = 0;
  }
  g.nontrivial_if(frames > 0 && md.odd);
  if (md.odd) g.label("irregular");
}
PBT_PROP(C22, frames, 80000, 1500000, "frames with observations were expected and some history was irregular, or an epoch has several constellations") {
  frames_run(g, 1, 6);
}
PBT_PROP(C22, long, 200, 15000, "hundreds of epochs with some irregular history, or several constellations") {
  frames_run(g, 80, 200);
}

// ---- and back to SBP ---------------------------------------------------------------
namespace {
struct Back {
  std::unique_ptr<rtcm3_sbp_state> st{new rtcm3_sbp_state};
  time_truth_t tt;
  std::vector<Out> out;
  static void cb(u16 sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { ((Back *)ctx)->out.push_back({sender, (int)t, *m}); }
  static void bad(double, void *) {}
  explicit Back(s64 t0) {
    memset(st.get(), 0x5A, sizeof *st);
    time_truth_init(&tt);
    rtcm2sbp_init(st.get(), &tt, cb, bad, this);
    if (t0 >= 0) time_truth_update(&tt, TIME_TRUTH_EPH_GPS, gt(t0));
  }
  void feed(const Bytes &f) { rtcm2sbp_decode_frame(f.data(), (u32)f.size(), st.get()); }
};
int lock_back(int lock, bool legacy) {
  if (!legacy) return lock;
  // through the indicator DF013 in whole seconds and back
  double t = lock4((unsigned)lock);
  unsigned li = 0;
  while (li < 127 && lock7(li + 1) <= t) li++;
  int k = 0;
  while (k < 15 && lock4((unsigned)k + 1) <= lock7(li) + 1e-9) k++;
  return k;
}
}  // namespace
PBT_PROP(C22, trip, 60000, 1200000, "observations came back from at least two epochs") {
  Inst in(false, (u8)g.below(256));
  Model md;
  auto set = [&](const Ev &e) { fp(g, e); in.apply(e); md.set(e); };
  set(legal_leap());
  if (g.chance(70)) set(ev_set(SET_MODE, g.pick({MSM_UNKNOWN, MSM4, MSM5})));
  bool leg = md.mode == 0;
  u16 wn = (u16)g.range(1950, 2400), sender = (u16)g.bits(16);
  s64 t = std::min<s64>(std::max<s64>(gen_tow(g, LEAP), 125), WEEK - 126) / 125 * 125;
  Back back(wn * WEEK + t);
  for (int s = 1; s <= 28; s++)
    if (g.chance(90)) {
      int f = (int)g.range(1, 14);
      set(ev_set(SET_FCN, s, f));
      sbp_v4_gnss_signal_t sid;
      sid.sat = (u8)s; sid.code = CODE_GLO_L1OF;
      rtcm2sbp_set_glo_fcn(sid, (u8)f, back.st.get());
    }
  ObsGen og;
  og.tame = true;
  og.big = 3;
  int good = 0;
  s64 span = 0;
  for (int n = (int)g.range(1, 4); n; n--) {
    if (t % WEEK == 0) t += 125;  // never taken as the first time
    s64 at = wn * WEEK + t;
    std::vector<ObsMsg> e = gen_epoch(g, md, (u16)(at / WEEK), (u32)(at % WEEK), sender, og);
    // all cells fit
    std::set<int> sats[NCONS], sigs[NCONS];
    size_t nleg[2] = {0, 0};
    for (auto &m : e) for (auto &o : m.obs) {
      const Sig *s = sig_of(o.code);
      sats[s->cons].insert(o.sat); sigs[s->cons].insert(o.code);
    }
    nleg[0] = sats[GPS].size(); nleg[1] = sats[GLO].size();
    for (int c = 0; c < NCONS; c++) if (!leg && sats[c].size() * sigs[c].size() > 64) throw Discard{};
    if (leg && (nleg[0] > 31 || nleg[1] > 31)) throw Discard{};
    std::map<std::pair<int, int>, Ob> want;
    std::set<int> l1;  // satellites seen on L1
    std::set<int> wild_d;  // satellites with a Doppler away from the others
    for (auto &m : e) for (auto &o : m.obs) if (!o.tame_d) wild_d.insert(sig_of(o.code)->cons * 300 + o.sat);
    for (auto &m : e) {
      Ev v = m.ev();
      fp(g, v);
      in.apply(v);
      for (auto &o : m.obs) {
        const Sig *s = sig_of(o.code);
        if (!(o.flags & 1) || (o.flags & 0x80)) continue;
        if (s->cons == SBAS || s->cons == QZS) continue;
        static const int off[] = {CODE_GLO_L1P, CODE_GLO_L2P, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B7I, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X};
        int code = o.code;
        int fc = s->cons == GLO ? md.fcn[o.sat] : -1;
        if (leg) {
          if (s->cons != GPS && s->cons != GLO) continue;
          if (s->cons == GLO && (fc < 0 || o.sat > 24)) continue;
          bool f1 = o.code == CODE_GPS_L1CA || o.code == CODE_GPS_L1P || o.code == CODE_GLO_L1OF || o.code == CODE_GLO_L1P;
          if (f1 && (o.flags & 6) == 6) l1.insert(s->cons * 100 + o.sat);
          else if (!l1.count(s->cons * 100 + o.sat)) continue;
          if ((o.flags & 6) != 6) continue;
          if (s->cons == GLO) code = f1 ? CODE_GLO_L1OF : CODE_GLO_L2OF;
        } else {
          bool skip = false;
          for (int c : off) skip |= c == o.code;
          if (skip) continue;
        }
        Ob w = o;
        w.code = (u8)code;
        bool fk = s->cons != GLO || fc >= 0;
        w.flags &= 15;
        if (leg) w.flags = 7;
        else {
          if (!fk || !o.tame_l) w.flags &= (u8)~2;
          if (!fk || md.mode == 4) w.flags &= (u8)~8;
          if (!(w.flags & 2)) w.flags &= (u8)~4;
        }
        w.lock = (u8)lock_back(o.lock, leg);
        want[{code, o.sat}] = w;
      }
    }
    for (auto &f : in.out) { unframe(f); back.feed(f); }
    in.out.clear();
    std::map<std::pair<int, int>, int> seen;
    for (auto &x : back.out) {
      if (x.type != SbpMsgObs) continue;
      if (x.msg.obs.n_obs == 0) continue;
      EQ(x.sender, (sender & 0xFFF) | 0xF080, "sender");
      EQ(x.msg.obs.header.t.wn, at / WEEK, "week"); EQ(x.msg.obs.header.t.tow, at % WEEK, "time of week");
      for (int i = 0; i < x.msg.obs.n_obs; i++) {
        auto &o = x.msg.obs.obs[i];
        std::string w = fmt("mode %d satellite %d code %d: ", md.mode, o.sid.sat, o.sid.code);
        auto it = want.find({o.sid.code, o.sid.sat});
        PBT_CHECK(it != want.end(), "%smade up", w.c_str());
        PBT_CHECK(!seen[it->first]++, "%stwice", w.c_str());
        const Ob &e_ = it->second;
        NEAR(o.P, e_.P, leg ? 1 : 0, (w + "P").c_str());
        u8 fl = o.flags, wf = e_.flags;
        if (wild_d.count(sig_of(o.sid.code)->cons * 300 + o.sid.sat)) { fl &= (u8)~8; wf &= (u8)~8; }  // may not fit next to the others
        EQ(fl, wf, (w + "flags").c_str());
        double L = (double)o.L.i + o.L.f / 256.0, D = (double)o.D.i + o.D.f / 256.0;
        if (o.flags & 2) {
          double d = L - e_.L();
          if (leg && !e_.tame_l) d -= rint(d / 1500) * 1500;
          NEAR(d, 0, leg ? 1.01 / 256 : 0, (w + "L").c_str());
        }
        if (o.flags & 8) NEAR(D, e_.D(), 0, (w + "D").c_str());
        NEAR(o.cn0, e_.cn0, leg ? 0 : e_.cn0 > 252 ? 3 : 2, (w + "C/N0").c_str());
        EQ(o.lock, e_.lock, (w + "lock").c_str());
      }
    }
    back.out.clear();
    for (auto &k : want)
      if (!seen.count(k.first)) {
        const Ob &o = k.second;
        PBT_FAIL("lost", "mode %d satellite %d code %d lost (P %u L %.3f flags %d)", md.mode, o.sat, o.code, o.P, o.L(), o.flags);
      }
    good += !want.empty();
    s64 step = g.pick<s64>({1000, 1000, 125, 500, 3000, 2000});
    if (span + step > 9000) break;
    span += step;
    t += step;
  }
  g.nontrivial_if(good >= 2);
}

// P code on GLONASS, sent as legacy observation
PBT_PROP(C22, glo_p_code, 2000, 20000, "an observation of a P code was sent") {
  Inst in(false, (u8)g.below(256));
  in.apply(ev_set(SET_LEAP, LEAP));
  in.apply(ev_set(SET_MODE, MSM_UNKNOWN));
  int sat = (int)g.range(1, 28), fcn = (int)g.range(1, 14);
  in.apply(ev_set(SET_FCN, sat, fcn));
  ObsMsg m;
  m.tow = (u32)g.range(0, WEEK - 1); m.wn = (u16)g.range(1930, 2400); m.sender = (u16)g.bits(16); m.size = 1; m.idx = 0;
  bool p[2] = {g.coin(), g.coin()};
  std::vector<const Sig *> sigs = {sig_of(p[0] ? CODE_GLO_L1P : CODE_GLO_L1OF), sig_of(p[1] ? CODE_GLO_L2P : CODE_GLO_L2OF)};
  gen_sat(g, m.obs, GLO, sat, sigs, fcn - 1, true, true);
  for (auto &o : m.obs) o.flags = 15;
  Ev e = m.ev();
  fp(g, e);
  in.apply(e);
  PBT_CHECK(in.out.size() == 1, "%zu messages", in.out.size());
  LObs l = parse_legacy(unframe(in.out[0]));
  PBT_CHECK(l.num == 1012 && l.sats.size() == 1, "message %d with %zu satellites", l.num, l.sats.size());
  g.nontrivial_if(p[0] || p[1]);
  if (l.sats[0].code1 == 0 && l.sats[0].code2 == 0 && (p[0] || p[1])) PBT_FAIL("glo-p-code-lost", "P code labelled as C/A code");
  EQ(l.sats[0].code1, p[0], "L1 code"); EQ(l.sats[0].code2, p[1], "L2 code");
}

// ---- ephemerides --------------------------------------------------------------------
namespace {
double ura_gps(u64 i) {
  static const double t[] = {2, 2.8, 4, 5.7, 8, 11.3, 16};
  return i == 15 ? 6144 : i < 7 ? t[i] : pow(2, (double)i - 2);
}
u32 fit_gps(u64 flag, u64 iodc) {
  if (!flag) return 4 * 3600;
  u32 h = 6;
  if (iodc >= 240 && iodc <= 247) h = 8;
  else if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14;
  else if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) h = 26;
  else if (iodc >= 504 && iodc <= 510) h = 50;
  else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74;
  else if (iodc == 757) h = 98;
  return h * 3600;
}
double sisa(u64 s) {
  if (s < 50) return (double)s * 0.01;
  if (s < 75) return 0.5 + (double)(s - 50) * 0.02;
  if (s < 100) return 1 + (double)(s - 75) * 0.04;
  if (s <= 125) return 2 + (double)(s - 100) * 0.16;
  return -1;
}
double ft_glo(u64 f) {
  static const double t[] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
  return t[f];
}
// one element: the value in the SBP message, the raw RTCM field and its unit
struct El { const char *name; double lsb; std::function<double(const sbp_msg_t &)> get; };
struct EphCase {
  int op, num;
  sbp_msg_type_t type;
  sbp_msg_t m;
  Raw r;
  std::vector<El> els;
  s64 t0;
};
#define ELF(field, nm, unit) do { r.v.at(nm); double x_ = ((double)r.s(nm) + g.real(-0.3, 0.3) * (g.chance(30) ? 0 : 1)) * (unit); M.field = (decltype(M.field))x_; c.els.push_back({nm, unit, [](const sbp_msg_t &q) { return (double)q.MEMBER.field; }}); } while (0)
template <class T> void kepler(G &g, EphCase &c, T &M, int cons, const std::function<T &(sbp_msg_t &)> &sel) {
  Raw &r = c.r;
  double p5 = pow(2, cons == BDS ? -6 : -5), p29 = pow(2, cons == BDS ? -31 : -29), sc31 = M_PI * pow(2, -31), sc43 = M_PI * pow(2, -43);
  auto el = [&](const char *nm, double unit, auto ptr) {
    double x = ((double)r.s(nm) + (g.chance(30) ? 0 : g.real(-0.3, 0.3))) * unit;
    M.*ptr = (std::remove_reference_t<decltype(M.*ptr)>)x;
    c.els.push_back({nm, unit, [sel, ptr](const sbp_msg_t &q) { return (double)(sel(const_cast<sbp_msg_t &>(q)).*ptr); }});
  };
  el("crs", p5, &T::c_rs); el("crc", p5, &T::c_rc); el("cuc", p29, &T::c_uc); el("cus", p29, &T::c_us); el("cic", p29, &T::c_ic); el("cis", p29, &T::c_is);
  el("dn", sc43, &T::dn); el("m0", sc31, &T::m0); el("ecc", pow(2, -33), &T::ecc); el("sqrta", pow(2, -19), &T::sqrta);
  el("omega0", sc31, &T::omega0); el("omegadot", sc43, &T::omegadot); el("w", sc31, &T::w); el("inc", sc31, &T::inc); el("idot", sc43, &T::inc_dot);
  el("af0", pow(2, cons == GPS ? -31 : cons == BDS ? -33 : -34), &T::af0); el("af1", pow(2, cons == GPS ? -43 : cons == BDS ? -50 : -46), &T::af1); el("af2", pow(2, cons == GPS ? -55 : cons == BDS ? -66 : -59), &T::af2);
}
EphCase gen_eph(G &g, bool bds_week_start = false) {
  EphCase c;
  memset(&c.m, 0, sizeof c.m);
  c.num = bds_week_start ? 1042 : g.pick({1019, 1020, 1042, 1045, 1046});
  s64 wn = g.range(1950, 2450);
  c.t0 = wn * WEEK + g.ival(0, WEEK - 1) / 1000 * 1000;
  auto sec = [&](s64 step, s64 span) {  // a time of applicability
    s64 t = g.chance(15) ? (c.t0 / WEEK + (s64)g.draw(2)) * WEEK / 1000 + g.range(-3, 3) * step : c.t0 / 1000 + g.range(-span, span);
    if (llabs(t - c.t0 / 1000) > span) t = c.t0 / 1000 + g.range(-span, span);
    return t / step * step;
  };
  const s64 W = 604800;
  std::vector<FieldDef> lay = c.num == 1019 ? L1019 : c.num == 1020 ? L1020 : c.num == 1042 ? L1042 : c.num == 1045 ? L1045 : L1046;
  Raw &r = c.r = gen_raw(g, lay, {{"msg", (u64)c.num}});
  auto common = [&](sbp_ephemeris_common_content_t &k, int code, int sat, s64 toe, double ura, u32 fit) {
    k.sid.code = (u8)code; k.sid.sat = (u8)sat; k.toe.wn = (u16)(toe / W); k.toe.tow = (u32)(toe % W); k.ura = (float)ura; k.fit_interval = fit; k.valid = 1; k.health_bits = (u8)r.u("health");
  };
  auto fl = [&](const char *nm, double unit) { return (float)(((double)r.s(nm) + (g.chance(30) ? 0 : g.real(-0.3, 0.3))) * unit); };
  switch (c.num) {
    case 1019: {
      c.op = EPH_GPS; c.type = SbpMsgEphemerisGps;
      auto &M = c.m.ephemeris_gps;
      r.v["sat"] = (u64)g.range(1, 32);
      s64 toe = sec(16, 2 * 86400), toc = sec(16, 2 * 86400);
      r.v["toe"] = (u64)(toe % W / 16); r.v["toc"] = (u64)(toc % W / 16); r.v["wn"] = (u64)(toc / W % 1024);
      if (g.coin()) r.v["iode"] = r.u("iodc") & 255;
      r.v["codeL2"] = 1; r.v["l2p"] = 0;
      common(M.common, g.pick({CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5X}), (int)r.u("sat"), toe, ura_gps(r.u("ura")), fit_gps(r.u("fit"), r.u("iodc")));
      M.toc.wn = (u16)(toc / W); M.toc.tow = (u32)(toc % W);
      M.iode = (u8)r.u("iode"); M.iodc = (u16)r.u("iodc");
      M.tgd = fl("tgd", pow(2, -31));
      c.els.push_back({"tgd", pow(2, -31), [](const sbp_msg_t &q) { return (double)q.ephemeris_gps.tgd; }});
      kepler<sbp_msg_ephemeris_gps_t>(g, c, M, GPS, [](sbp_msg_t &q) -> sbp_msg_ephemeris_gps_t & { return q.ephemeris_gps; });
      break;
    }
    case 1042: {
      c.op = EPH_BDS; c.type = SbpMsgEphemerisBds;
      auto &M = c.m.ephemeris_bds;
      r.v["sat"] = (u64)g.range(1, 63);
      // both in one BeiDou week, its first second in bds_week_start
      s64 bw = wn - 1356, toe = g.ival(1, 75599), toc = g.ival(1, 75599);
      if (bds_week_start) { int k = (int)g.below(3); if (k != 1) toe = 0; if (k != 0) toc = 0; }
      r.v["toe"] = (u64)toe; r.v["toc"] = (u64)toc; r.v["wn"] = (u64)bw;
      s64 e = (bw + 1356) * W + toe * 8 + 14, k = (bw + 1356) * W + toc * 8 + 14;
      common(M.common, g.pick({CODE_BDS2_B1, CODE_BDS2_B1, CODE_BDS2_B2}), (int)r.u("sat"), e, r.u("ura") == 15 ? 8192 : ura_gps(r.u("ura")), 3 * 3600);
      M.toc.wn = (u16)(k / W); M.toc.tow = (u32)(k % W);
      M.iode = (u8)r.u("iode"); M.iodc = (u16)r.u("iodc");
      M.tgd1 = fl("tgd1", 1e-10); M.tgd2 = fl("tgd2", 1e-10);
      c.els.push_back({"tgd1", 1e-10, [](const sbp_msg_t &q) { return (double)q.ephemeris_bds.tgd1; }});
      c.els.push_back({"tgd2", 1e-10, [](const sbp_msg_t &q) { return (double)q.ephemeris_bds.tgd2; }});
      kepler<sbp_msg_ephemeris_bds_t>(g, c, M, BDS, [](sbp_msg_t &q) -> sbp_msg_ephemeris_bds_t & { return q.ephemeris_bds; });
      break;
    }
    case 1045:
    case 1046: {
      c.op = EPH_GAL; c.type = SbpMsgEphemerisGal;
      auto &M = c.m.ephemeris_gal;
      r.v["sat"] = (u64)g.range(1, 36);
      s64 toe = sec(60, 2 * 86400), toc = sec(60, 2 * 86400);
      r.v["toe"] = (u64)(toe % W / 60); r.v["toc"] = (u64)(toc % W / 60); r.v["wn"] = (u64)((toe / W - 1024) % 4096);
      if (r.u("ura") > 125) r.v["ura"] = g.chance(30) ? 255 : r.u("ura") % 126;
      common(M.common, g.pick({CODE_GAL_E1B, CODE_GAL_E1B, CODE_GAL_E5I, CODE_GAL_E7Q}), (int)r.u("sat"), toe, sisa(r.u("ura")), 4 * 3600);
      M.toc.wn = (u16)(toc / W); M.toc.tow = (u32)(toc % W);
      M.iode = M.iodc = (u16)r.u("iode");
      M.source = c.num == 1046 ? 0 : 1;
      M.bgd_e1e5a = fl("bgd0", pow(2, -32));
      c.els.push_back({"bgd0", pow(2, -32), [](const sbp_msg_t &q) { return (double)q.ephemeris_gal.bgd_e1e5a; }});
      if (c.num == 1046) {
        M.bgd_e1e5b = fl("bgd1", pow(2, -32));
        c.els.push_back({"bgd1", pow(2, -32), [](const sbp_msg_t &q) { return (double)q.ephemeris_gal.bgd_e1e5b; }});
      } else M.bgd_e1e5b = (float)(g.real(-512, 511) * pow(2, -32));  // has no place in the message
      kepler<sbp_msg_ephemeris_gal_t>(g, c, M, GAL, [](sbp_msg_t &q) -> sbp_msg_ephemeris_gal_t & { return q.ephemeris_gal; });
      break;
    }
    default: {
      c.op = EPH_GLO; c.type = SbpMsgEphemerisGlo;
      auto &M = c.m.ephemeris_glo;
      r.v["health"] = g.draw(2);
      r.v["sat"] = (u64)g.range(1, 28);
      r.v["fcn"] = g.draw(14);
      r.v["tb"] = g.draw(96);
      r.v["p1"] = (u64)g.range(1, 3);
      // t_b lies on the Moscow clock
      s64 day = (c.t0 / 1000 - LEAP + 10800) / 86400, toe = day * 86400 + (s64)r.u("tb") * 900 - 10800 + LEAP;
      c.t0 = (toe + g.range(-11 * 3600, 11 * 3600)) * 1000;
      static const u32 fit[] = {0, 40 * 60, 55 * 60, 70 * 60};
      common(M.common, g.pick({CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L2OF}), (int)r.u("sat"), toe, ft_glo(r.u("ft")), fit[r.u("p1")]);
      M.fcn = (u8)(r.u("fcn") + 1);
      M.iod = (u8)(r.u("tb") * 900 & 127);
      static const char *const px[] = {"px", "py", "pz"}, *const vx[] = {"vx", "vy", "vz"}, *const ax[] = {"ax", "ay", "az"};
      auto mag = [&](const char *nm, double unit) { return ((double)r.s(nm) + (g.chance(30) ? 0 : g.real(-0.3, 0.3))) * unit; };
      for (int i = 0; i < 3; i++) {
        M.pos[i] = mag(px[i], 1000 * pow(2, -11)); M.vel[i] = mag(vx[i], 1000 * pow(2, -20)); M.acc[i] = (float)mag(ax[i], 1000 * pow(2, -30));
        c.els.push_back({px[i], 1000 * pow(2, -11), [i](const sbp_msg_t &q) { return q.ephemeris_glo.pos[i]; }});
        c.els.push_back({vx[i], 1000 * pow(2, -20), [i](const sbp_msg_t &q) { return q.ephemeris_glo.vel[i]; }});
        c.els.push_back({ax[i], 1000 * pow(2, -30), [i](const sbp_msg_t &q) { return (double)q.ephemeris_glo.acc[i]; }});
      }
      M.gamma = (float)mag("gamma", pow(2, -40)); M.tau = (float)mag("tau", pow(2, -30)); M.d_tau = (float)mag("dtau", pow(2, -30));
      c.els.push_back({"gamma", pow(2, -40), [](const sbp_msg_t &q) { return (double)q.ephemeris_glo.gamma; }});
      c.els.push_back({"tau", pow(2, -30), [](const sbp_msg_t &q) { return (double)q.ephemeris_glo.tau; }});
      c.els.push_back({"dtau", pow(2, -30), [](const sbp_msg_t &q) { return (double)q.ephemeris_glo.d_tau; }});
    }
  }
  return c;
}
Ev eph_ev(const EphCase &c, u16 sender) {
  Ev e;
  e.op = c.op;
  e.sender = sender;
  u8 b[256], n = 0;
  PBT_CHECK(sbp_message_encode(b, 255, &n, c.type, &c.m) == SBP_OK && n == FIXED[c.op], "harness: ephemeris payload of %d bytes", n);
  e.p.assign(b, b + n);
  return e;
}
sbp_ephemeris_common_content_t &common_of(sbp_msg_t &m, int op) {
  switch (op) {
    case EPH_GPS: return m.ephemeris_gps.common;
    case EPH_GLO: return m.ephemeris_glo.common;
    case EPH_BDS: return m.ephemeris_bds.common;
    default: return m.ephemeris_gal.common;
  }
}
void check_eph_frame(const EphCase &c, const Bytes &p) {
  EQ(getu(p, 0, 12), c.num, "message number");
  size_t nb = c.r.nbits();
  EQ(p.size(), (nb + 7) / 8, "message length");
  size_t at = 0;
  static const char *const skip[] = {"almh", "almv", "tk", "p2", "p3", "p", "en", "p4", "nt", "m", "add", "na", "tauc", "n4", "taugps", "ln5", "res", "bn", "ln3", "codeL2", "l2p"};
  bool healthy = true;
  for (auto &d : c.r.def) {
    u64 got = getu(p, at, d.w), want = c.r.v.at(d.name);
    at += d.w;
    bool sk = false;
    for (auto *s : skip) sk |= !strcmp(s, d.name);
    if (c.num == 1020 && (!strcmp(d.name, "bn") || !strcmp(d.name, "ln3"))) healthy &= got == 0;
    if (c.num == 1020 && !strcmp(d.name, "add")) EQ(got, 0, "additional data flag");
    if (sk) continue;
    if (d.kind == 'm') EQ(smag(got, d.w), smag(want, d.w), d.name);
    else if (!strcmp(d.name, "p1") && want == 3) PBT_CHECK(got == 0 || got == 3, "p1 is %llu", (unsigned long long)got);  // both stand for 70 minutes
    else EQ(got, want, d.name);
  }
  if (c.num == 1020) EQ(healthy, c.r.u("health") == 0, "healthy");
}
}  // namespace
PBT_PROP(C23, bds_week_start, 4000, 40000, "an ephemeris with a time at the first second of a BeiDou week was sent as such") {
  EphCase c = gen_eph(g, true);
  Inst in(false, (u8)g.below(256));
  Ev e = eph_ev(c, (u16)g.bits(16));
  fp(g, e);
  in.apply(legal_leap());
  in.apply(e);
  PBT_CHECK(in.out.size() == 1, "%zu messages sent", in.out.size());
  Bytes p = unframe(in.out[0]);
  g.nontrivial();
  EphCase k = c;  // as second 604800 of the week before
  if (!c.r.u("toc")) { k.r.v["wn"]--; k.r.v["toc"] = 75600; }
  if (!c.r.u("toe")) k.r.v["toe"] = 75600;
  size_t at = 0;
  bool late = true;
  for (auto &d : k.r.def) {
    if (!strcmp(d.name, "wn") || !strcmp(d.name, "toe") || !strcmp(d.name, "toc")) late &= getu(p, at, d.w) == k.r.v.at(d.name);
    at += d.w;
  }
  if (late) {
    Raw &r = c.r;
    for (auto *n : {"wn", "toe", "toc"}) r.v[n] = k.r.v.at(n);
    check_eph_frame(c, p);  // nothing else differs
    PBT_FAIL("bds-week-start", "first second of a BeiDou week sent as second 604800 of the week before");
  }
  check_eph_frame(c, p);
}
PBT_PROP(C23, frame, 120000, 4000000, "an ephemeris was sent and some element is neither zero nor an end of its range") {
  EphCase c = gen_eph(g);
  Inst in(false, (u8)g.below(256));
  Ev l = legal_leap();
  in.apply(l);
  if (g.chance(30)) {  // unrelated calls before
    Ev e = gen_setter(g, true);
    if (e.op != SET_LEAP) in.apply(e);
    EphCase o = gen_eph(g);
    in.apply(eph_ev(o, 5));
    in.out.clear();
  }
  Ev e = eph_ev(c, (u16)g.bits(16));
  fp(g, e);
  in.apply(e);
  PBT_CHECK(in.out.size() == 1, "%zu messages sent", in.out.size());
  check_eph_frame(c, unframe(in.out[0]));
  g.nontrivial_if(!c.els.empty());
  if (c.num == 1042 && c.r.u("sat") <= 5) { g.label("refused on the way back"); return; }
  Back back(c.t0);
  back.feed(in.out[0]);
  PBT_CHECK(back.out.size() == 1 && back.out[0].type == (int)c.type, "%zu messages came back", back.out.size());
  sbp_msg_t &m = back.out[0].msg, w = c.m;
  auto &k = common_of(m, c.op), &x = common_of(w, c.op);
  static const int code[] = {CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_BDS2_B1, CODE_GAL_E1B};
  EQ(k.sid.sat, x.sid.sat, "satellite"); EQ(k.sid.code, code[c.op - EPH_GPS], "code");
  EQ(k.toe.wn, x.toe.wn, "toe week"); EQ(k.toe.tow, x.toe.tow, "toe time of week");
  NEAR(k.ura, x.ura, 1e-6 + 1e-6 * fabs(x.ura), "ura"); EQ(k.fit_interval, x.fit_interval, "fit interval"); EQ(k.health_bits, x.health_bits, "health");
  EQ(k.valid, c.op != EPH_GPS || (c.m.ephemeris_gps.iodc & 255) == c.m.ephemeris_gps.iode, "valid");
  for (auto &el : c.els) {
    double a = el.get(m), b = el.get(w);
    NEAR(a, b, el.lsb * 0.5 + fabs(b) * (2e-7), el.name);
  }
  switch (c.op) {
    case EPH_GPS: EQ(m.ephemeris_gps.toc.wn, w.ephemeris_gps.toc.wn, "toc week"); EQ(m.ephemeris_gps.toc.tow, w.ephemeris_gps.toc.tow, "toc"); EQ(m.ephemeris_gps.iode, w.ephemeris_gps.iode, "iode"); EQ(m.ephemeris_gps.iodc, w.ephemeris_gps.iodc, "iodc"); break;
    case EPH_BDS: EQ(m.ephemeris_bds.toc.wn, w.ephemeris_bds.toc.wn, "toc week"); EQ(m.ephemeris_bds.toc.tow, w.ephemeris_bds.toc.tow, "toc"); EQ(m.ephemeris_bds.iode, w.ephemeris_bds.iode, "iode"); EQ(m.ephemeris_bds.iodc, w.ephemeris_bds.iodc, "iodc"); break;
    case EPH_GAL: EQ(m.ephemeris_gal.toc.wn, w.ephemeris_gal.toc.wn, "toc week"); EQ(m.ephemeris_gal.toc.tow, w.ephemeris_gal.toc.tow, "toc"); EQ(m.ephemeris_gal.iode, w.ephemeris_gal.iode, "iode"); EQ(m.ephemeris_gal.iodc, w.ephemeris_gal.iodc, "iodc"); EQ(m.ephemeris_gal.source, w.ephemeris_gal.source, "source"); break;
    default: EQ(m.ephemeris_glo.fcn, w.ephemeris_glo.fcn, "fcn"); EQ(m.ephemeris_glo.iod, w.ephemeris_glo.iod, "iod");
  }
}

// ---- the other messages ------------------------------------------------------------
namespace {
struct Misc { Ev e; std::vector<ExpF> out; };
void add_misc(G &g, Model &md, Ev &e) {
  u16 sender = e.sender;
  switch (e.op) {
    case BASE_POS: {
      double x[3];
      s64 raw[3];
      for (int i = 0; i < 3; i++) {
        raw[i] = g.chance(70) ? g.range(-64000000000ll, 64000000000ll) : sext(g.bits(38), 38);
        x[i] = ((double)raw[i] + (g.coin() ? 0 : g.real(-0.4, 0.4))) * 0.0001;
        if (llabs(raw[i]) >= (1ll << 37) - 1) x[i] = (double)raw[i] * 0.0001;
        le(e.p, x[i]);
      }
      s64 rx = raw[0], ry = raw[1], rz = raw[2];
      double h = md.height;
      md.out.push_back({1006, [=](const Bytes &b) {
                          EQ(b.size(), 21, "length"); EQ(getu(b, 12, 12), sender & 0xFFF, "station");
                          EQ(sext(getu(b, 34, 38), 38), rx, "X"); EQ(sext(getu(b, 74, 38), 38), ry, "Y"); EQ(sext(getu(b, 114, 38), 38), rz, "Z");
                          NEAR((double)getu(b, 152, 16) * 0.0001, h, 0.0000501, "antenna height");
                        }});
      if (md.ant)
        for (int n : {1008, 1033}) {
          Model snap = md;
          md.out.push_back({n, [snap, n, sender](const Bytes &b) mutable { snap.desc(b, n, sender); }});
        }
      return;
    }
    case GLO_BIAS: {
      u8 mask = (u8)g.draw(16);
      s16 v[4];
      le(e.p, mask);
      for (auto &k : v) { k = (s16)g.bits(16); le(e.p, k); }
      s64 a[4] = {v[0], v[1], v[2], v[3]};
      std::vector<s64> vals(a, a + 4);
      md.out.push_back({1230, [=](const Bytes &b) {
                          EQ(getu(b, 12, 12), sender & 0xFFF, "station"); EQ(getu(b, 24, 1), 0, "bias indicator"); EQ(getu(b, 28, 4), mask, "mask");
                          size_t at = 32;
                          for (int i = 0; i < 4; i++)
                            if (mask & (8 >> i)) { EQ(sext(getu(b, at, 16), 16), vals[(size_t)i], "bias"); at += 16; }
                          EQ(b.size(), at / 8, "length");
                        }});
      return;
    }
    case LOG: {
      le(e.p, (u8)g.draw(8));
      std::string t = gen_text(g, g.chance(70) ? 40 : 254);
      for (char ch : t) e.p.push_back((u8)ch);
      if (t.empty()) return;
      md.out.push_back({1029, [=](const Bytes &b) {
                          EQ(getu(b, 12, 12), sender & 0xFFF, "station");
                          EQ(getu(b, 64, 8), t.size(), "code units"); EQ(b.size(), 9 + t.size(), "length");
                          std::string s(b.begin() + 9, b.end());
                          PBT_CHECK(s == t, "text '%s' instead of '%s'", s.c_str(), t.c_str());
                        }});
      return;
    }
    default: {
      e.p = g.bytes(g.chance(70) ? g.below(256) : g.pick<size_t>({0, 1, 50, 99, 254, 255}));
      Bytes p = e.p;
      u16 type = TYPE[e.op];
      md.out.push_back({4062, [=](const Bytes &b) {
                          EQ(b.size(), 7 + p.size(), "length"); EQ(getu(b, 12, 4), 0, "reserved"); EQ(getu(b, 16, 16), type, "SBP message type"); EQ(getu(b, 32, 16), sender, "SBP sender"); EQ(getu(b, 48, 8), p.size(), "SBP length");
                          PBT_CHECK(Bytes(b.begin() + 7, b.end()) == p, "payload differs");
                        }});
    }
  }
}
}  // namespace
static void misc_run(G &g, int minn, int maxn) {
  Inst in(false, (u8)g.below(256));
  Model md;
  std::vector<u16> senders;
  Back back(g.coin() ? 2100 * WEEK + 100000000 : -1);
  std::set<int> kinds;
  for (int n = (int)g.range(minn, maxn); n; n--) {
    if (g.chance(25)) {
      Ev e = gen_setter(g, true);
      fp(g, e);
      in.apply(e);
      md.set(e);
      continue;
    }
    Ev e;
    e.op = g.chance(20) ? (int)g.pick({BASE_POS, LOG, GLO_BIAS}) : (int)g.draw(EPH_GPS);
    if (e.op == OBS) { // observations in between do not disturb
      ObsGen og;
      Model tmp = md;
      std::vector<ObsMsg> v = gen_epoch(g, tmp, 2100, (u32)g.range(1, WEEK - 1), gen_sender(g, senders), og);
      Ev o = v[0].ev();
      in.apply(o);
      in.out.clear();
      continue;
    }
    e.sender = gen_sender(g, senders);
    add_misc(g, md, e);
    fp(g, e);
    in.apply(e);
    std::vector<Bytes> frames = in.out;
    if (!md.out.empty()) kinds.insert(e.op);
    md.compare(in);
    // what is wrapped unwraps to the same message, and positions come back
    for (auto &f : frames) {
      back.out.clear();
      back.feed(f);
      int num = (int)getu(Bytes(f.begin() + 3, f.end()), 0, 12);
      if (num == 4062) {
        sbp_msg_t m;
        memset(&m, 0, sizeof m);
        bool ok = sbp_message_decode(e.p.data(), (u8)e.p.size(), nullptr, (sbp_msg_type_t)TYPE[e.op], &m) == SBP_OK;
        PBT_CHECK(back.out.size() == ok, "%zu messages unwrapped", back.out.size());
        if (ok) {
          std::string a = dump(back.out[0]), b = dump({e.sender, TYPE[e.op], m});
          PBT_CHECK(a == b, "unwrapped %s instead of %s", a.substr(0, 500).c_str(), b.substr(0, 500).c_str());
          g.label("unwrapped");
        }
      }
      if (num == 1006) {
        PBT_CHECK(back.out.size() == 1 && back.out[0].type == SbpMsgBasePosEcef, "base position lost");
        double x[3];
        memcpy(x, e.p.data(), 24);
        NEAR(back.out[0].msg.base_pos_ecef.x, x[0], 0.000051, "x"); NEAR(back.out[0].msg.base_pos_ecef.y, x[1], 0.000051, "y"); NEAR(back.out[0].msg.base_pos_ecef.z, x[2], 0.000051, "z");
        EQ(back.out[0].sender, (e.sender & 0xFFF) | 0xF080, "sender");
      }
      if (num == 1029) {
        PBT_CHECK(back.out.size() == 1 && back.out[0].type == SbpMsgLog, "log text lost");
        EQ(back.out[0].sender, (e.sender & 0xFFF) | 0xF080, "sender");
      }
    }
  }
  g.nontrivial_if(kinds.size() >= 2);
}
PBT_PROP(C24, frames, 60000, 3000000, "at least two messages of different kinds were sent") {
  misc_run(g, 1, 12);
}
PBT_PROP(C24, long, 200, 15000, "hundreds of messages of different kinds were sent") {
  misc_run(g, 300, 600);
}

// ---- histories of anything ----------------------------------------------------------
namespace {
Ev wild(G &g, Model &md, std::vector<u16> &senders, s64 &t, bool setters = true) {
  if (setters && g.chance(12)) {
    Ev e = gen_setter(g, false);
    md.set(e);
    return e;
  }
  Ev e;
  e.op = g.chance(55) ? OBS : (int)g.draw(NMSG);
  e.sender = gen_sender(g, senders);
  switch (e.op) {
    case OBS: {
      ObsMsg m;
      switch (g.draw(5)) { default: break; case 2: t += 1000; break; case 3: t += g.range(-2000, 2000); break; }
      if (t < 0) t = 0;
      m.tow = (u32)(t % WEEK); m.wn = (u16)(2000 + t / WEEK);
      if (g.chance(3)) { m.tow = (u32)g.bits(32); m.wn = (u16)g.bits(16); m.ns = (s32)g.bits(32); }
      m.sender = e.sender;
      m.size = (u8)(g.chance(80) ? g.range(1, 3) : g.draw(16)); m.idx = (u8)(g.chance(80) ? g.below(m.size + 1) : g.draw(16));
      if (g.chance(15)) { m.size = (u8)g.pick({0, 15}); m.idx = (u8)g.draw(16); }
      int n = (int)(g.chance(60) ? 14 : g.range(0, 14)), style = (int)g.draw(4);
      std::vector<Ob> v;
      if (style < 2) {
        ObsGen og;
        og.big = 50;
        v = gen_obs(g, md, og);
        if ((int)v.size() > n) v.resize((size_t)n);
      }
      const Sig *one = &SIGS[g.draw(sizeof SIGS / sizeof *SIGS)];
      while ((int)v.size() < n && style) {  // anything at all
        Ob o;
        o.P = (u32)g.bits(32); o.Li = (s32)g.bits(32); o.Lf = (u8)g.bits(8); o.Di = (s16)g.bits(16); o.Df = (u8)g.bits(8); o.cn0 = (u8)g.bits(8); o.lock = (u8)(g.chance(80) ? g.draw(16) : g.bits(8));
        o.flags = (u8)(g.chance(80) ? g.bits(8) | 1 : g.bits(8));
        if (g.chance(85)) o.flags &= 0x7F;
        const Sig *s = style == 2 ? one : &SIGS[g.draw(sizeof SIGS / sizeof *SIGS)];
        o.code = (u8)(g.chance(95) ? s->code : (int)g.bits(8));
        o.sat = (u8)(g.chance(90) ? FIRST[s->cons] + (int)g.draw((u64)NSATS[s->cons]) : (int)g.bits(8));
        v.push_back(o);
      }
      m.obs = v;
      e = m.ev();
      break;
    }
    case BASE_POS: for (int i = 0; i < 3; i++) { double x = g.chance(80) ? g.real(-1.3e7, 1.3e7) : g.pick({0.0, 1e8, -1e8, 1e300, -1e300, (double)NAN, (double)INFINITY}); le(e.p, x); } break;
    case EPH_GPS: case EPH_GLO: case EPH_BDS: case EPH_GAL: {
      EphCase c = gen_eph(g);
      e = eph_ev(c, e.sender);
      if (g.chance(35)) for (int k = (int)g.range(1, 4); k; k--) e.p[g.draw(e.p.size())] = (u8)g.bits(8);
      break;
    }
    default: e.p = g.bytes(FIXED[e.op] >= 0 ? (size_t)FIXED[e.op] : g.below(256));
  }
  if (g.chance(10)) {  // other lengths
    if (g.coin()) e.p.resize(g.below(e.p.size() + 1));
    else append(e.p, g.bytes(g.below(256 - e.p.size())));
  }
  if (g.chance(3)) e.p = g.bytes(g.below(256));
  return e;
}
Model wild_start(G &g, std::vector<Ev> &pre) {
  Model md;
  if (g.chance(80)) pre.push_back(ev_set(SET_LEAP, g.chance(80) ? LEAP : (int)g.range(-128, 127)));
  if (g.chance(60)) pre.push_back(ev_set(SET_MODE, g.pick({MSM_UNKNOWN, MSM4, MSM5})));
  if (g.chance(70)) for (int s = 1; s <= 28; s++) pre.push_back(ev_set(SET_FCN, s, (int)g.range(1, 14)));
  for (auto &e : pre) md.set(e);
  return md;
}
}  // namespace
PBT_PROP(C05, callbacks, 60000, 3000000, "frames were sent, among them observations") {
  Inst in(false, (u8)g.below(256));
  std::vector<Ev> pre;
  Model md = wild_start(g, pre);
  for (auto &e : pre) in.apply(e);
  std::vector<u16> senders;
  s64 t = g.ival(0, WEEK - 1);
  bool obs = false;
  for (int n = (int)g.range(1, 30); n; n--) {
    Ev e = wild(g, md, senders, t);
    fp(g, e);
    in.apply(e);
    for (auto &f : in.out) {
      Bytes p = unframe(f);
      int num = (int)getu(p, 0, 12);
      static const int known[] = {1004, 1006, 1008, 1012, 1019, 1020, 1029, 1033, 1042, 1045, 1046, 1230, 4062};
      bool ok = num >= 1074 && num <= 1125 && (num % 10 == 4 || num % 10 == 5);
      obs |= ok || num == 1004 || num == 1012;
      for (int k : known) ok |= k == num;
      PBT_CHECK(ok, "message number %d", num);
    }
    in.out.clear();
  }
  g.nontrivial_if(obs);
}
namespace {
struct Conv {
  sbp_conv_t c = sbp_conv_new();
  ~Conv() { sbp_conv_delete(c); }
  Bytes call(u16 sender, u16 type, const Bytes &p, size_t wlen) {
    std::unique_ptr<u8, decltype(&free)> r((u8 *)malloc(p.size() + !p.size()), free), w((u8 *)malloc(wlen + !wlen), free);
    memcpy(r.get(), p.data(), p.size());
    size_t n = sbp_conv(c, sender, type, r.get(), p.size(), w.get(), wlen);
    PBT_CHECK(n <= wlen, "%zu bytes written to a buffer of %zu", n, wlen);
    return Bytes(w.get(), w.get() + n);
  }
};
}  // namespace
PBT_PROP(C05, conv, 30000, 1500000, "frames were written through a buffer smaller than they are") {
  Conv c;
  PBT_CHECK(c.c, "no converter");
  Model md;
  md.leap = LEAP;
  std::vector<u16> senders;
  s64 t = g.ival(0, WEEK - 1);
  Bytes all;
  size_t small = g.chance(50) ? 2048 : g.chance(50) ? g.below(60) : g.below(1500);
  for (int n = (int)g.range(1, 25); n; n--) {
    Ev e = wild(g, md, senders, t, false);
    fp(g, e);
    u16 type = g.chance(95) ? TYPE[e.op] : (u16)g.bits(16);
    append(all, c.call(e.sender, type, e.p, g.chance(80) ? small : g.below(3000)));
  }
  for (int k = 0; k < 10; k++) {
    Bytes b = c.call(1, 0xFFFF, {}, 700);
    append(all, b);
  }
  PBT_CHECK(c.call(1, 0xFFFF, {}, 700).empty(), "output does not end");
  size_t at = 0, frames = 0;
  while (at < all.size()) {
    PBT_CHECK(all.size() - at >= 6, "%zu bytes left over", all.size() - at);
    size_t len = 6 + (size_t)((all[at + 1] & 3) << 8 | all[at + 2]);
    PBT_CHECK(at + len <= all.size(), "frame of %zu bytes cut off after %zu", len, all.size() - at);
    unframe(Bytes(all.begin() + (long)at, all.begin() + (long)(at + len)));
    at += len;
    frames++;
  }
  g.nontrivial_if(frames > 2 && small < 1500);
}
// the C interface converts what the callbacks convert
PBT_PROP(C24, conv, 30000, 1500000, "the converter wrote at least two frames") {
  Conv c;
  Inst in;
  in.apply(ev_set(SET_LEAP, LEAP));
  Ev d;
  d.op = SET_DESC; d.s1 = "NULL                "; d.s2 = "SWFT";
  in.apply(d);
  Model md;
  md.leap = LEAP;
  std::vector<u16> senders;
  s64 t = g.ival(0, WEEK - 1);
  size_t frames = 0;
  for (int n = (int)g.range(1, 15); n; n--) {
    Ev e = wild(g, md, senders, t, false);
    fp(g, e);
    Bytes want;
    if (e.op != GLO_BIAS) in.apply(e);  // which this interface does not pass on
    for (auto &f : in.out) append(want, f);
    frames += in.out.size();
    in.out.clear();
    if (want.size() > 2040) throw Discard{};
    Bytes got = c.call(e.sender, TYPE[e.op], e.p, 4096);
    PBT_CHECK(got == want, "message type %u: got %s want %s", TYPE[e.op], hex(got.data(), got.size()).substr(0, 600).c_str(), hex(want.data(), want.size()).substr(0, 600).c_str());
  }
  g.nontrivial_if(frames >= 2);
}
PBT_PROP(C36, out, 25000, 1200000, "the run produced frames") {
  std::vector<Ev> pre, pre2, h, h2;
  Model md = wild_start(g, pre), md2 = wild_start(g, pre2);
  std::vector<u16> s1, s2;
  s64 t = g.ival(0, WEEK - 1), t2 = g.ival(0, WEEK - 1);
  h = pre;
  h2 = pre2;
  for (int n = (int)g.range(1, 20); n; n--) h.push_back(wild(g, md, s1, t));
  if (g.coin()) {  // the other has seen the beginning of the same history
    for (int n = (int)g.range(1, 10); n; n--) h.push_back(wild(g, md, s1, t));
    size_t k = g.below(h.size() - pre.size()) + pre.size();
    h2.assign(h.begin(), h.begin() + (long)k);
    h.erase(h.begin() + (long)pre.size(), h.begin() + (long)k);
  } else for (int n = (int)g.range(1, 20); n; n--) h2.push_back(wild(g, md2, s2, t2));
  for (auto &e : h) fp(g, e);
  Inst a(false, (u8)g.below(256)), b(false, (u8)g.below(256)), x(false, 0);
  for (auto &e : h) a.apply(e);
  size_t i = 0, j = 0;
  while (i < h.size() || j < h2.size()) {
    if (j < h2.size() && (i >= h.size() || g.coin())) x.apply(h2[j++]);
    else b.apply(h[i++]);
  }
  Inst c(true, 0, g.coin() ? &x : g.coin() ? &b : nullptr);
  for (auto &e : h) c.apply(e);
  std::string ra = a.render(), rb = b.render(), rc = c.render();
  if (ra != rb) PBT_FAIL("instances", "another instance changed the output:%s", first_diff(rb, ra).c_str());
  if (ra != rc) PBT_FAIL("memory", "output depends on memory contents:%s", first_diff(rc, ra).c_str());
  g.nontrivial_if(!a.out.empty());
}
PBT_PROP(C36, out_threads, 8000, 400000, "both threads produced frames and took turns") {
  std::vector<Ev> h, h2;
  Model md = wild_start(g, h);
  std::vector<u16> s1, s2;
  s64 t = g.ival(0, WEEK - 1), t2 = g.ival(0, WEEK - 1);
  for (int n = (int)g.range(1, 20); n; n--) h.push_back(wild(g, md, s1, t));
  if (g.chance(30)) h2 = h;
  else {
    Model md2 = wild_start(g, h2);
    for (int n = (int)g.range(1, 20); n; n--) h2.push_back(wild(g, md2, s2, t2));
  }
  for (auto &e : h) fp(g, e);
  auto go = [&](Inst &i, const std::vector<Ev> &v) { for (auto &e : v) { sched::step(); i.apply(e); } };
  Inst a, x, b(2), y(2);
  go(a, h);
  go(x, h2);
  auto r = sched::run(sched::gen_plan(g, 12, g.coin() ? 12 : 3000, 20000), {}, {[&] { go(b, h); }, [&] { go(y, h2); }});
  std::string ra = a.render(), rb = b.render(), rx = x.render(), ry = y.render();
  if (ra != rb) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(rb, ra).c_str());
  if (rx != ry) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(ry, rx).c_str());
  g.nontrivial_if(!a.out.empty() && !x.out.empty() && r.switches);
}
