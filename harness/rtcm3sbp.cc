// C01, C07, C09, C16-C21, C36 for the RTCM3 to SBP converter.
// Oracle: a model of the conversion written from RTCM 10403.3, the GNSS ICDs and the SBP
// specification. It keeps every time as integer milliseconds since the GPS epoch.
#include "conv.h"
#include "rtcmref.h"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <thread>
extern "C" {
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
#include <libsbp/v4/sbp_msg.h>
#include <swiftnav/signal.h>
void alt_rtcm2sbp_init(struct rtcm3_sbp_state *, time_truth_t *, void (*)(u16, sbp_msg_type_t, const sbp_msg_t *, void *), void (*)(double, void *), void *);
int alt_rtcm2sbp_process(struct rtcm3_sbp_state *, int (*)(u8 *, size_t, void *));
void alt_time_truth_init(time_truth_t *);
void alt_time_truth_get(time_truth_t *, enum time_truth_state *, gps_time_t *);
bool alt_time_truth_update(time_truth_t *, enum time_truth_source, gps_time_t);
bool alt_time_truth_update_from_sbp(time_truth_t *, sbp_msg_type_t, const sbp_msg_t *);
}
SCH(rtcm2sbp_init) SCH(rtcm2sbp_process) SCH(time_truth_init) SCH(time_truth_update) SCH(time_truth_update_from_sbp) SCH(time_truth_get)
using namespace conv;

namespace {
const s64 WEEK = 604800000, DAY = 86400000, HOUR = 3600000;

struct Cfg {  // how an instance is set up
  bool fixed = false;     // time given by the user instead of learnt
  s64 t0 = -1;            // fixed time, or initial time truth (-1: none)
  bool feedback = false;  // ephemerides feed the time truth
  bool hold = false;      // generated epochs and stations rarely change
};
gps_time_t gt(s64 ms) {
  gps_time_t t;
  t.wn = (s16)(ms / WEEK);
  t.tow = (double)(ms % WEEK) / 1000.0;
  return t;
}

struct Inst {
  std::unique_ptr<rtcm3_sbp_state> st{new rtcm3_sbp_state};
  time_truth_t tt;
  Source *s;
  int alt, feedback;
  std::vector<double> invalid;  // reported future base observations
  int quiet = 0;
  static void cb(u16 sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) {
    Inst *i = (Inst *)ctx;
    sched::step();
    i->s->out.push_back({sender, (int)t, *m});
    if (i->feedback) PICK(i->alt, time_truth_update_from_sbp)(&i->tt, t, m);
  }
  static int rd(u8 *b, size_t n, void *ctx) { return ((Inst *)ctx)->s->rd(b, n); }
  static void bad(double d, void *ctx) { ((Inst *)ctx)->invalid.push_back(d); }
  Inst(Source *src, const Cfg &c, int a = 0, u8 fill = 0x5A, const Inst *worn = nullptr) : s(src), alt(a), feedback(c.feedback) {
    memset(st.get(), fill, sizeof(rtcm3_sbp_state));
    memset(&tt, fill, sizeof tt);
    if (worn) {  // memory that another instance has used
      memcpy(st.get(), worn->st.get(), sizeof *st);
      memcpy(&tt, &worn->tt, sizeof tt);
    }
    PICK(alt, time_truth_init)(&tt);
    PICK(alt, rtcm2sbp_init)(st.get(), &tt, cb, bad, this);
    if (c.t0 >= 0) {
      if (c.fixed) {
        st->use_time_from_input_obs = true;
        st->time_from_input_data = gt(c.t0);
      } else {
        PICK(alt, time_truth_update)(&tt, TIME_TRUTH_EPH_GPS, gt(c.t0));
      }
    }
  }
  Inst(const Inst &) = delete;
  int step() {
    size_t before = s->calls;
    int r = PICK(alt, rtcm2sbp_process)(st.get(), rd);
    if (r <= 0) PBT_CHECK(s->eof, "end of input reported (%d) with %zu of %zu bytes read", r, s->pos, s->data.size());
    quiet = r > 0 && s->calls == before ? quiet + 1 : 0;
    PBT_CHECK(quiet < 4096, "no input read in %d calls", quiet);
    return r;
  }
  void run() {
    while (step() > 0) {}
    PBT_CHECK(s->pos == s->data.size(), "stopped after %zu of %zu bytes", s->pos, s->data.size());
  }
};
void run(Source &s, const Cfg &c, int alt = 0, u8 fill = 0x5A, const Inst *worn = nullptr) {
  s.pos = s.ci = s.calls = 0;
  s.eof = false;
  s.out.clear();
  Inst(&s, c, alt, fill, worn).run();
}

// ---- expectations ---------------------------------------------------------
struct Exp {
  u16 sender;
  int type;
  std::string what;
  std::function<void(const sbp_msg_t &)> check;
};
#define EQ(a, b, what) PBT_CHECK((long long)(a) == (long long)(b), "%s: got %lld want %lld", what, (long long)(a), (long long)(b))
#define NEAR(a, b, tol, what) PBT_CHECK(fabs((double)(a) - (double)(b)) <= (tol), "%s: got %.17g want %.17g", what, (double)(a), (double)(b))
void FL(double got, double want, const char *what) { NEAR(got, want, fabs(want) * 1e-6, what); }
void DB(double got, double want, const char *what) { NEAR(got, want, fabs(want) * 1e-13, what); }

struct ObsExp {
  int code, sat;
  bool vp, vl, vd, half;
  double P, L, D, cn0;
  int lock;
};
int flags_of(const ObsExp &e) { return (e.vp ? 1 : 0) | (e.vl ? 2 : 0) | (e.half ? 4 : 0) | (e.vd ? 8 : 0); }
void check_ob(const ObsExp &e, const sbp_packed_obs_content_t &o, size_t i) {
  std::string w = fmt("observation %zu (sat %d code %d) ", i, e.sat, e.code);
  EQ(o.sid.sat, e.sat, (w + "satellite").c_str());
  EQ(o.sid.code, e.code, (w + "code").c_str());
  EQ(o.flags, flags_of(e), (w + "flags").c_str());
  if (e.vp) NEAR((double)o.P, e.P, 0.501, (w + "P").c_str()); else EQ(o.P, 0, (w + "P").c_str());
  if (e.vl) NEAR((double)o.L.i + o.L.f / 256.0, e.L, 0.501 / 256, (w + "L").c_str());
  else { EQ(o.L.i, 0, (w + "L.i").c_str()); EQ(o.L.f, 0, (w + "L.f").c_str()); }
  if (e.vd) NEAR((double)o.D.i + o.D.f / 256.0, e.D, 0.501 / 256, (w + "D").c_str());
  else { EQ(o.D.i, 0, (w + "D.i").c_str()); EQ(o.D.f, 0, (w + "D.f").c_str()); }
  NEAR(o.cn0, std::min(255.0, e.cn0), 0.5, (w + "C/N0").c_str());
  EQ(o.lock, e.lock, (w + "lock").c_str());
}
int lock_index(double s) {
  int k = 0;
  while (k < 15 && lock4((unsigned)k + 1) <= s + 1e-9) k++;
  return k;
}

int leap_at(s64 ms) {
  static const struct { int y, m, leap; } t[] = {{1981, 7, 1}, {1982, 7, 2}, {1983, 7, 3}, {1985, 7, 4}, {1988, 1, 5}, {1990, 1, 6}, {1991, 1, 7}, {1992, 7, 8}, {1993, 7, 9}, {1994, 7, 10}, {1996, 1, 11}, {1997, 7, 12}, {1999, 1, 13}, {2006, 1, 14}, {2009, 1, 15}, {2012, 7, 16}, {2015, 7, 17}, {2017, 1, 18}};
  int leap = 0;
  for (auto &e : t) {
    s64 days = -5;  // 6 January 1980 is the epoch
    for (int y = 1980; y < e.y; y++) days += y % 4 == 0 ? 366 : 365;
    if (e.m == 7) days += e.y % 4 == 0 ? 182 : 181;
    s64 at = days * DAY + (e.leap - 1) * 1000;  // as the old offset is still in force
    if (ms >= at - 3000 && ms <= at + 3000) throw Discard{};
    if (ms >= at) leap = e.leap;
  }
  return leap;
}
// options of the tool, restored when the case ends
struct Options {
  Options() { reset(); }
  ~Options() { reset(); }
  static void reset() {
    for (auto &x : sbp_signal_biases) x = 0;
    for (int i = 0; i < 2; i++) sbp_glo_code_bias[i] = sbp_glo_phase_bias[i] = 0;
    for (auto &x : constellation_mask) x = false;
  }
};

struct Model {
  Cfg cfg;
  bool solved = false;
  s64 ref = -1;  // the reference time
  int leap = 0;
  bool leap_known = false;
  std::vector<ObsExp> buf;
  s64 buf_t = 0;
  bool buf_set = false, full = false;
  u16 sender = 0;
  s64 last_gps = -1, last_glo = -1, last_msm = -1, last_1230 = -1;
  bool warn_msm = false, warn_code[3] = {false, false, false};
  int fcn[29];
  struct Cache { bool orbit = false, clock = false; Ssr m; } cache[NCONS];
  std::vector<Exp> out;
  std::vector<double> invalid;
  int meaningful = 0;  // messages with content expected
  // generator side
  s64 t = 0;           // current epoch
  std::vector<u64> stns;
  u64 ssr_iod = 0;
  s64 ssr_t = 0;
  Model() { for (auto &f : fcn) f = -1; }

  void start(const Cfg &c) {
    cfg = c;
    if (c.t0 >= 0) { solved = true; ref = c.t0; }
    if (c.t0 >= 0 && !c.fixed) { tt = c.t0; tt_known = true; }
  }
  bool truth(s64 ms) {  // a new time is offered to the time truth
    if (ms < 1876 * WEEK) return false;
    if (tt_known && ms <= tt) return false;
    tt = ms;
    tt_known = true;
    return true;
  }
  s64 tt = -1;
  bool tt_known = false;

  static u16 snd(u64 stn) { return (u16)(stn | 0xF080); }
  void emit(u16 sender_, int type, const std::string &what, std::function<void(const sbp_msg_t &)> f) { out.push_back({sender_, type, what, f}); }
  void log(u16 sender_, int level, const std::string &text) {
    emit(sender_, SbpMsgLog, "log " + text, [level, text](const sbp_msg_t &m) {
      EQ(m.log.level, level, "log level");
      std::string got((const char *)m.log.text.data, m.log.text.encoded_len);
      while (!got.empty() && (got.back() == 0 || got.back() == '\n')) got.pop_back();
      PBT_CHECK(got == text, "log text \"%s\" instead of \"%s\"", got.c_str(), text.c_str());
    });
  }
  void code_warning(int k) {
    static const char *const n[] = {"Unknown or Unrecognized Code", "GLONASS L1P", "GLONASS L2P"};
    if (warn_code[k]) return;
    warn_code[k] = true;
    log(snd(0), 4, fmt("Unsupported code received from base: %s", n[k]));
  }
  void flush() {
    size_t n = buf.size(), total = n ? (n + 13) / 14 : 1;
    for (size_t k = 0; k < total; k++) {
      std::vector<ObsExp> part(buf.begin() + (long)(k * 14), buf.begin() + (long)std::min(n, k * 14 + 14));
      s64 at = buf_set ? buf_t : -1;
      emit(sender, SbpMsgObs, fmt("observations %zu/%zu (%zu)", k + 1, total, part.size()), [=](const sbp_msg_t &m) {
        EQ(m.obs.header.t.wn, at < 0 ? 0 : at / WEEK, "week");
        EQ(m.obs.header.t.tow, at < 0 ? 0 : at % WEEK, "time of week");
        EQ(m.obs.header.t.ns_residual, 0, "ns residual");
        EQ(m.obs.header.n_obs >> 4, total, "total number of messages");
        EQ(m.obs.header.n_obs & 15, k, "message number");
        EQ(m.obs.n_obs, part.size(), "number of observations");
        for (size_t i = 0; i < part.size(); i++) check_ob(part[i], m.obs.obs[i], i);
      });
    }
    meaningful += n > 0;
    buf.clear();
    buf_set = false;
  }
  // the unique time with this time of week (day) next to the reference; -1: none
  s64 nearest(s64 x, s64 period) const {
    s64 d = (x - ref) % period;
    if (d < 0) d += period;
    if (2 * d == period) throw Discard{};
    if (2 * d > period) d -= period;
    s64 t_ = ref + d;
    if (t_ < 0) throw Discard{};
    return t_;
  }
  s64 gps_tow(u64 ms) const { return ms >= (u64)WEEK ? -1 : nearest((s64)ms, WEEK); }
  s64 bds_tow(u64 ms) const { return gps_tow((ms + 14000) % WEEK); }
  s64 glo_tod(u64 ms) const { return !leap_known || ms >= (u64)DAY + 1000 ? -1 : nearest((s64)ms - 3 * HOUR + leap * 1000, DAY); }
  void sanity(s64 at) {
    if (at >= 0 && ref - at >= 10000) invalid.push_back((double)(ref - at) / 1000.0);
  }
  bool glo_window(s64 at) const {
    auto in = [&](s64 r) {
      s64 d = at - r - leap * 1000;
      if (d == 30000 || d == -30000) throw Discard{};
      return d < 30000 && d > -30000;
    };
    bool a = in(ref);
    return (last_gps >= 0 && in(last_gps)) || a;
  }
  bool msm_active(s64 at) const {
    if (last_msm >= 0 && at - last_msm == 5000 && at % 125) throw Discard{};
    return last_msm >= 0 && at - last_msm < 5000;
  }

  // every payload: what the time reference is now, and whether the message is looked at
  bool begin(int num) {
    if (!cfg.fixed) {
      solved = tt_known;
      if (tt_known) ref = tt;
    }
    static const int free_[] = {1005, 1006, 1029, 4062, 4075, 1019, 1042, 1045, 1046};
    bool ok = solved;
    for (int n : free_) ok |= n == num;
    if (num >= 1071 && num <= 1123 && num % 10 >= 1 && num % 10 <= 3) ok = true;
    if (ok && solved) { leap = leap_at(ref); leap_known = true; }
    return ok;
  }
  void end(int num, const Bytes &p) {
    if (num >= 1070 && num <= 1229 && solved && p.size() >= 7 && getu(p, 54, 1) == 0) flush();
  }
  void legacy(const LObs &m) {
    s64 at;
    if (m.glo()) {
      if (m.tow >= (u64)DAY && m.tow < (u64)DAY + 1000) throw Discard{};  // during a leap second
      at = glo_tod(m.tow);
      if (at < 0 || !glo_window(at)) return;
    } else {
      at = gps_tow(m.tow);
      sanity(at);
      if (at < 0) return;
    }
    if (msm_active(at)) return;
    s64 &last = m.glo() ? last_glo : last_gps;
    if (last >= 0 && at <= last) return;
    last = at;
    if (!buf.empty() && (buf_t != at || sender != snd(m.stn))) flush();
    buf_t = at;
    buf_set = true;
    sender = snd(m.stn);
    for (auto &s : m.sats)
      for (int f = 0; f < (m.l2() ? 2 : 1); f++) {
        bool vpr = m.vpr1(s) && (f == 0 || m.vpr2(s));
        if (!vpr || !m.vcp(s, f)) continue;
        if (buf.size() >= 210) { full = true; log(snd(0), 3, "Too many RTCM observations received!"); return; }
        ObsExp e;
        u64 c = f ? s.code2 : s.code1;
        e.sat = (int)s.sv;
        if (!m.glo() && s.sv >= 1 && s.sv <= 32) e.code = f ? (c ? CODE_GPS_L2P : CODE_GPS_L2CM) : (c ? CODE_GPS_L1P : CODE_GPS_L1CA);
        else if (!m.glo() && s.sv >= 40 && s.sv <= 58 && f == 0) { e.code = CODE_SBAS_L1CA; e.sat += 80; }
        else if (m.glo() && s.sv >= 1 && s.sv <= 24) {
          if (c) code_warning(f ? 2 : 1);
          e.code = f ? CODE_GLO_L2OF : CODE_GLO_L1OF;
        } else continue;
        e.P = ((f ? m.pr_l2(s) : m.pr_l1(s)) + (double)sbp_signal_biases[e.code]) * 50;
        e.vp = e.P >= -0.5 && e.P <= 4294967295.4;
        if (fabs(e.P + 0.5) < 0.01 || fabs(e.P - 4294967295.5) < 0.6) throw Discard{};
        e.L = m.cp(s, f);
        e.vl = e.half = true;
        e.vd = false;
        e.D = 0;
        e.cn0 = (double)(f ? s.cnr2 : s.cnr1);
        e.lock = lock_index(lock7((unsigned)(f ? s.lock2 : s.lock1)));
        buf.push_back(e);
      }
    if (!m.sync) flush();
  }
  static int msm_code(int cons, int sig);
  static double msm_freq(int code, int fcn);
  void msm(const Msm &m) {
    if (m.cells.size() > 64) throw Discard{};
    s64 at;
    u64 ms = m.epoch;
    if (m.cons == GLO) {
      if (ms >= (u64)DAY && ms < (u64)DAY + 1000) throw Discard{};  // during a leap second
      at = glo_tod(ms);
      if (at < 0 || !glo_window(at)) return;
    } else {
      if (m.cons == BDS && ms >= (1u << 30) - 14000u) ms = ms - (1u << 30) + WEEK;
      if (ms >= (u64)WEEK) return;
      at = m.cons == BDS ? bds_tow(ms) : gps_tow(ms);
      sanity(at);
      if (at < 0) return;
    }
    if (last_gps < 0 && at % WEEK == 0) return;
    if (!msm_active(at) && !buf.empty()) { buf.clear(); buf_set = false; }
    last_gps = last_glo = last_msm = at;
    if (!buf.empty() && (buf_t != at || sender != snd(m.stn))) {
      log(snd(0), 4, "RTCM MSM sequence not properly finished, sending incomplete message");
      flush();
    }
    buf_t = at;
    buf_set = true;
    sender = snd(m.stn);
    static const int lim[NCONS] = {32, 0, 28, 64, 0, 36};
    for (auto &c : m.cells) {
      int code = msm_code(m.cons, c.sig);
      if (code < 0) { code_warning(0); continue; }
      if (c.sat > lim[m.cons] || constellation_mask[m.cons]) continue;
      static const int off[] = {CODE_GLO_L1P, CODE_GLO_L2P, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B7I, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X};
      bool skip = false;
      for (int o : off) skip |= o == code;
      MsmExp x = msm_expect(m, c);
      if (skip || !x.vpr) continue;
      if (buf.size() >= 210) { full = true; log(snd(0), 3, "Too many RTCM observations received!"); return; }
      int f = -1;
      if (m.cons == GLO) {
        if (m.type == 5 || m.type == 7) for (auto &s : m.sats) if (s.id == c.sat && s.info <= 13) f = (int)s.info;
        if (f < 0) f = fcn[c.sat];
      }
      double freq = msm_freq(code, f);
      ObsExp e;
      e.code = code;
      e.sat = c.sat;
      int band = code == CODE_GLO_L2OF;
      bool gb = m.cons == GLO && f >= 0;
      e.P = (x.pr * C_LIGHT / 1000 + (double)sbp_signal_biases[code] + (gb ? (f - 7) * (double)sbp_glo_code_bias[band] : 0)) * 50;
      e.vp = e.P >= -0.5 && e.P <= 4294967295.4;
      if (fabs(e.P + 0.5) < 0.01 || fabs(e.P - 4294967295.5) < 0.6) throw Discard{};
      e.vl = x.vcp && freq > 0;
      e.half = e.vl && !x.hca;
      e.L = e.vl ? x.cp * freq / 1000 + (gb ? (f - 7) * (double)sbp_glo_phase_bias[band] : 0) : 0;
      e.D = x.vdop && freq > 0 ? -x.dop * freq / C_LIGHT : 0;
      e.vd = x.vdop && freq > 0 && e.D >= -32768 && e.D <= 32767;
      if (x.vdop && freq > 0 && (fabs(e.D + 32768) < 0.01 || fabs(e.D - 32767) < 0.01)) throw Discard{};
      e.cn0 = x.vcnr ? x.cnr * 4 : 0;
      e.lock = lock_index(x.lock);
      buf.push_back(e);
    }
  }
  // SSR
  s64 ssr_time(const Ssr &m) const {
    u64 ms = m.epoch * 1000;
    if (m.cons == GLO) return glo_tod(ms);
    if (m.cons == BDS) { if (m.epoch >= 604800) throw Discard{}; return bds_tow(ms); }
    return gps_tow(ms);
  }
  static int ssr_code(int c) {
    static const int t_[NCONS] = {CODE_GPS_L1CA, CODE_SBAS_L1CA, CODE_GLO_L1OF, CODE_BDS2_B1, CODE_QZS_L1CA, CODE_GAL_E1B};
    return t_[c];
  }
  void pair(const Ssr &h, const SsrSat &o, const SsrSat &c) {
    s64 at = ssr_time(h);
    if (at < 0) return;
    int cons = h.cons;
    u64 upd = h.upd, iod = h.iod;
    meaningful++;
    emit(0, SbpMsgSsrOrbitClock, fmt("orbit and clock of satellite %d", o.id), [=](const sbp_msg_t &m_) {
      auto &m = m_.ssr_orbit_clock;
      ssr_head(m.time, m.sid, at, cons, o.id);
      EQ(m.update_interval, upd, "update interval"); EQ(m.iod_ssr, iod, "IOD SSR");
      EQ(m.iod, (cons == BDS ? o.iode2 : o.iode), "IOD");
      EQ(m.radial, sext(o.rad, 22), "radial"); EQ(m.along, sext(o.alo, 20), "along"); EQ(m.cross, sext(o.cro, 20), "cross");
      EQ(m.dot_radial, sext(o.drad, 21), "dot radial"); EQ(m.dot_along, sext(o.dalo, 19), "dot along"); EQ(m.dot_cross, sext(o.dcro, 19), "dot cross");
      EQ(m.c0, sext(c.c0, 22), "c0"); EQ(m.c1, sext(c.c1, 21), "c1"); EQ(m.c2, sext(c.c2, 27), "c2");
    });
  }
  static void ssr_head(const sbp_gps_time_sec_t &t_, const sbp_v4_gnss_signal_t &sid, s64 at, int cons, int sat) {
    EQ(t_.wn, at / WEEK, "week"); EQ(t_.tow, at % WEEK / 1000, "time of week");
    EQ(sid.sat, sat, "satellite"); EQ(sid.code, ssr_code(cons), "code");
  }
  void ssr(const Ssr &m) {
    switch (m.kind) {
      case COMBINED: for (auto &s : m.sats) pair(m, s, s); return;
      case ORBIT:
      case CLOCK: {
        Cache &c = cache[m.cons];
        bool other = m.kind == ORBIT ? c.clock : c.orbit;
        if (other && c.m.epoch == m.epoch && c.m.iod == m.iod) {
          const Ssr &orb = m.kind == ORBIT ? m : c.m, &clk = m.kind == ORBIT ? c.m : m;
          for (auto &k : clk.sats)
            for (auto &o : orb.sats)
              if (o.id == k.id) { pair(orb, o, k); break; }
          c.clock = c.orbit = false;
        } else {
          c.m = m;
          c.orbit = m.kind == ORBIT;
          c.clock = !c.orbit;
        }
        return;
      }
      default: {
        s64 at = ssr_time(m);
        if (at < 0) return;
        int cons = m.cons;
        u64 upd = m.upd, iod = m.iod, disp = m.disp, mw = m.mw;
        for (auto &s : m.sats) {
          meaningful++;
          if (m.kind == CODE_BIAS) {
            emit(0, SbpMsgSsrCodeBiases, fmt("code biases of satellite %d", s.id), [=](const sbp_msg_t &m_) {
              auto &x = m_.ssr_code_biases;
              ssr_head(x.time, x.sid, at, cons, s.id);
              EQ(x.update_interval, upd, "update interval"); EQ(x.iod_ssr, iod, "IOD SSR");
              EQ(x.n_biases, s.sigs.size(), "number of biases");
              for (size_t i = 0; i < s.sigs.size(); i++) { EQ(x.biases[i].code, s.sigs[i].id, "bias code"); EQ(x.biases[i].value, sext(s.sigs[i].cb, 14), "bias value"); }
            });
            continue;
          }
          size_t n = s.sigs.size(), k = 0;
          do {
            size_t cnt = std::min<size_t>(30, n - k);
            emit(0, SbpMsgSsrPhaseBiases, fmt("phase biases %zu.. of satellite %d", k, s.id), [=](const sbp_msg_t &m_) {
              auto &x = m_.ssr_phase_biases;
              ssr_head(x.time, x.sid, at, cons, s.id);
              EQ(x.update_interval, upd, "update interval"); EQ(x.iod_ssr, iod, "IOD SSR");
              EQ(x.dispersive_bias, disp, "dispersive bias"); EQ(x.mw_consistency, mw, "MW consistency");
              EQ(x.yaw, s.yaw, "yaw"); EQ(x.yaw_rate, sext(s.yawrate, 8), "yaw rate");
              EQ(x.n_biases, cnt, "number of biases");
              for (size_t i = 0; i < cnt; i++) {
                auto &q = s.sigs[k + i];
                EQ(x.biases[i].code, q.id, "bias code"); EQ(x.biases[i].integer_indicator, q.integer, "integer indicator");
                EQ(x.biases[i].widelane_integer_indicator, q.wl, "wide-lane indicator"); EQ(x.biases[i].discontinuity_counter, q.disc, "discontinuity");
                EQ(x.biases[i].bias, sext(q.pb, 20), "bias");
              }
            });
            k += cnt;
          } while (k < n);
        }
      }
    }
  }
  void eph(int num, const Raw &r);
};

int Model::msm_code(int cons, int sig) {
  static const std::map<int, int> gps = {{2, CODE_GPS_L1CA}, {3, CODE_GPS_L1P}, {4, CODE_GPS_L1P}, {9, CODE_GPS_L2P}, {10, CODE_GPS_L2P}, {15, CODE_GPS_L2CM}, {16, CODE_GPS_L2CL}, {17, CODE_GPS_L2CX}, {22, CODE_GPS_L5I}, {23, CODE_GPS_L5Q}, {24, CODE_GPS_L5X}, {30, CODE_GPS_L1CI}, {31, CODE_GPS_L1CQ}, {32, CODE_GPS_L1CX}};
  static const std::map<int, int> glo = {{2, CODE_GLO_L1OF}, {3, CODE_GLO_L1P}, {8, CODE_GLO_L2OF}, {9, CODE_GLO_L2P}};
  static const std::map<int, int> gal = {{2, CODE_GAL_E1C}, {4, CODE_GAL_E1B}, {5, CODE_GAL_E1X}, {8, CODE_GAL_E6C}, {10, CODE_GAL_E6B}, {11, CODE_GAL_E6X}, {14, CODE_GAL_E7I}, {15, CODE_GAL_E7Q}, {16, CODE_GAL_E7X}, {18, CODE_GAL_E8I}, {19, CODE_GAL_E8Q}, {20, CODE_GAL_E8X}, {22, CODE_GAL_E5I}, {23, CODE_GAL_E5Q}, {24, CODE_GAL_E5X}};
  static const std::map<int, int> bds = {{2, CODE_BDS2_B1}, {8, CODE_BDS3_B3I}, {9, CODE_BDS3_B3Q}, {10, CODE_BDS3_B3X}, {14, CODE_BDS2_B2}, {22, CODE_BDS3_B5I}, {23, CODE_BDS3_B5Q}, {24, CODE_BDS3_B5X}, {25, CODE_BDS3_B7I}, {30, CODE_BDS3_B1CI}, {31, CODE_BDS3_B1CQ}, {32, CODE_BDS3_B1CX}};
  const std::map<int, int> &t = cons == GPS ? gps : cons == GLO ? glo : cons == GAL ? gal : bds;
  auto i = t.find(sig);
  return i == t.end() ? -1 : i->second;
}
double Model::msm_freq(int code, int fcn) {
  switch (code) {
    case CODE_GPS_L1CA: case CODE_GPS_L1P: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX:
    case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: return 1575.42e6;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_GPS_L2P: return 1227.6e6;
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X:
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X:
    case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X: return 1176.45e6;
    case CODE_GAL_E6B: case CODE_GAL_E6C: case CODE_GAL_E6X: return 1278.75e6;
    case CODE_GAL_E7I: case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_BDS2_B2: return 1207.14e6;
    case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X: return 1191.795e6;
    case CODE_BDS2_B1: return 1561.098e6;
    case CODE_GLO_L1OF: return fcn < 0 ? 0 : 1602e6 + (fcn - 7) * 562500.0;
    case CODE_GLO_L2OF: return fcn < 0 ? 0 : 1246e6 + (fcn - 7) * 437500.0;
  }
  PBT_FAIL("model", "no frequency for code %d", code);
}

double ura_gps(u64 i) {
  static const double t[] = {2, 2.8, 4, 5.7, 8, 11.3, 16};
  return i == 15 ? 6144 : i < 7 ? t[i] : pow(2, (double)i - 2);
}
u32 fit_gps(u64 flag, u64 iodc) {
  if (!flag) return 4 * 3600;
  u32 h = 6;
  if (iodc >= 240 && iodc <= 247) h = 8;
  else if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14;
  else if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) h = 26;
  else if (iodc >= 504 && iodc <= 510) h = 50;
  else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74;
  else if (iodc == 757) h = 98;
  return h * 3600;
}
double sisa(u64 s) {
  if (s < 50) return (double)s * 0.01;
  if (s < 75) return 0.5 + (double)(s - 50) * 0.02;
  if (s < 100) return 1 + (double)(s - 75) * 0.04;
  if (s <= 125) return 2 + (double)(s - 100) * 0.16;
  return -1;
}
double ft_glo(u64 f) {
  static const double t[] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
  return t[f];
}
s64 adjust_week(s64 wn) {  // 10 bit weeks, not before the reference week of the library
  while (wn < 1876) wn += 1024;
  return wn;
}
template <class T> void kepler(const T &m, const Raw &r, int cons) {
  double p5 = pow(2, -5), p29 = pow(2, -29);
  if (cons == BDS) { p5 = pow(2, -6); p29 = pow(2, -31); }
  FL(m.c_rs, (double)r.s("crs") * p5, "c_rs"); FL(m.c_rc, (double)r.s("crc") * p5, "c_rc");
  FL(m.c_uc, (double)r.s("cuc") * p29, "c_uc"); FL(m.c_us, (double)r.s("cus") * p29, "c_us");
  FL(m.c_ic, (double)r.s("cic") * p29, "c_ic"); FL(m.c_is, (double)r.s("cis") * p29, "c_is");
  const double sc31 = M_PI * pow(2, -31), sc43 = M_PI * pow(2, -43);
  DB(m.dn, (double)r.s("dn") * sc43, "dn"); DB(m.m0, (double)r.s("m0") * sc31, "m0");
  DB(m.ecc, (double)r.u("ecc") * pow(2, -33), "ecc"); DB(m.sqrta, (double)r.u("sqrta") * pow(2, -19), "sqrta");
  DB(m.omega0, (double)r.s("omega0") * sc31, "omega0"); DB(m.omegadot, (double)r.s("omegadot") * sc43, "omegadot");
  DB(m.w, (double)r.s("w") * sc31, "w"); DB(m.inc, (double)r.s("inc") * sc31, "inc"); DB(m.inc_dot, (double)r.s("idot") * sc43, "inc_dot");
  FL(m.af2, (double)r.s("af2") * pow(2, cons == GAL ? -59 : cons == BDS ? -66 : -55), "af2");
}
void common(const sbp_ephemeris_common_content_t &c, int sat, int code, s64 wn, s64 tow, double ura, u32 fit, int valid, u64 health) {
  EQ(c.sid.sat, sat, "satellite"); EQ(c.sid.code, code, "code"); EQ(c.toe.wn, wn, "toe week"); EQ(c.toe.tow, tow, "toe time of week");
  FL(c.ura, ura, "ura"); EQ(c.fit_interval, fit, "fit interval"); EQ(c.valid, valid, "valid"); EQ(c.health_bits, health, "health");
}
void Model::eph(int num, const Raw &r) {
  u64 sat = r.u("sat");
  auto resolve = [&](s64 wn, s64 sec) -> s64 {  // ms
    if (sec >= 604800) return -1;
    return solved ? nearest(sec * 1000, WEEK) : adjust_week(wn) * WEEK + sec * 1000;
  };
  switch (num) {
    case 1019: {
      s64 toe = resolve((s64)r.u("wn"), (s64)r.u("toe") * 16), toc = resolve((s64)r.u("wn"), (s64)r.u("toc") * 16);
      if (toe < 0 || toc < 0) return;
      emit(snd(0), SbpMsgEphemerisGps, "GPS ephemeris", [=](const sbp_msg_t &m_) {
        auto &m = m_.ephemeris_gps;
        common(m.common, (int)sat, CODE_GPS_L1CA, toe / WEEK, toe % WEEK / 1000, ura_gps(r.u("ura")), fit_gps(r.u("fit"), r.u("iodc")), (r.u("iodc") & 255) == r.u("iode"), r.u("health"));
        FL(m.tgd, (double)r.s("tgd") * pow(2, -31), "tgd");
        FL(m.af0, (double)r.s("af0") * pow(2, -31), "af0"); FL(m.af1, (double)r.s("af1") * pow(2, -43), "af1");
        kepler(m, r, GPS);
        EQ(m.toc.wn, toc / WEEK, "toc week"); EQ(m.toc.tow, toc % WEEK / 1000, "toc"); EQ(m.iode, r.u("iode"), "iode"); EQ(m.iodc, r.u("iodc"), "iodc");
      });
      meaningful++;
      if (cfg.feedback && r.u("health") == 0) truth(toe);
      return;
    }
    case 1044: {
      s64 wn = adjust_week((s64)r.u("wn"));
      emit(snd(0), SbpMsgEphemerisQzss, "QZSS ephemeris", [=](const sbp_msg_t &m_) {
        auto &m = m_.ephemeris_qzss;
        common(m.common, (int)sat + 192, CODE_QZS_L1CA, wn, (s64)r.u("toe") * 16, ura_gps(r.u("ura")), fit_gps(r.u("fit"), r.u("iodc")), (r.u("iodc") & 255) == r.u("iode"), r.u("health"));
        FL(m.tgd, (double)r.s("tgd") * pow(2, -31), "tgd");
        FL(m.af0, (double)r.s("af0") * pow(2, -31), "af0"); FL(m.af1, (double)r.s("af1") * pow(2, -43), "af1");
        kepler(m, r, QZS);
        EQ(m.toc.wn, wn, "toc week"); EQ(m.toc.tow, r.u("toc") * 16, "toc"); EQ(m.iode, r.u("iode"), "iode"); EQ(m.iodc, r.u("iodc"), "iodc");
      });
      meaningful++;
      return;
    }
    case 1045:
    case 1046: {
      s64 toe = resolve((s64)r.u("wn") + 1024, (s64)r.u("toe") * 60), toc = resolve((s64)r.u("wn") + 1024, (s64)r.u("toc") * 60);
      if (toe < 0 || toc < 0) return;
      emit(snd(0), SbpMsgEphemerisGal, "Galileo ephemeris", [=](const sbp_msg_t &m_) {
        auto &m = m_.ephemeris_gal;
        common(m.common, (int)sat, CODE_GAL_E1B, toe / WEEK, toe % WEEK / 1000, sisa(r.u("ura")), 4 * 3600, 1, r.u("health"));
        FL(m.bgd_e1e5a, (double)r.s("bgd0") * pow(2, -32), "bgd_e1e5a");
        FL(m.bgd_e1e5b, num == 1046 ? (double)r.s("bgd1") * pow(2, -32) : 0, "bgd_e1e5b");
        DB(m.af0, (double)r.s("af0") * pow(2, -34), "af0"); DB(m.af1, (double)r.s("af1") * pow(2, -46), "af1");
        kepler(m, r, GAL);
        EQ(m.toc.wn, toc / WEEK, "toc week"); EQ(m.toc.tow, toc % WEEK / 1000, "toc"); EQ(m.iode, r.u("iode"), "iode"); EQ(m.iodc, r.u("iode"), "iodc");
        EQ(m.source, num == 1046 ? 0 : 1, "source");
      });
      meaningful++;
      return;
    }
    case 1042: {
      if (sat <= 5) return;  // refused by the decoder
      auto bt = [&](u64 raw) {
        s64 sec = ((s64)r.u("wn") + 1356) * 604800 + (s64)raw * 8 + 14;
        return std::make_pair(adjust_week(sec / 604800), sec % 604800);
      };
      auto toe = bt(r.u("toe")), toc = bt(r.u("toc"));
      emit(snd(0), SbpMsgEphemerisBds, "BeiDou ephemeris", [=](const sbp_msg_t &m_) {
        auto &m = m_.ephemeris_bds;
        common(m.common, (int)sat, CODE_BDS2_B1, toe.first, toe.second, r.u("ura") == 15 ? 8192 : ura_gps(r.u("ura")), 3 * 3600, 1, r.u("health"));
        FL(m.tgd1, (double)r.s("tgd1") * 1e-10, "tgd1"); FL(m.tgd2, (double)r.s("tgd2") * 1e-10, "tgd2");
        DB(m.af0, (double)r.s("af0") * pow(2, -33), "af0"); FL(m.af1, (double)r.s("af1") * pow(2, -50), "af1");
        kepler(m, r, BDS);
        EQ(m.toc.wn, toc.first, "toc week"); EQ(m.toc.tow, toc.second, "toc"); EQ(m.iode, r.u("iode"), "iode"); EQ(m.iodc, r.u("iodc"), "iodc");
      });
      meaningful++;
      return;
    }
    default: {
      s64 toe = glo_tod(r.u("tb") * 900000);
      if (toe < 0 || sat == 0) return;
      int f = (int)r.u("fcn");
      if (sat <= 28) fcn[sat] = f <= 13 ? f : -1;
      emit(snd(0), SbpMsgEphemerisGlo, "GLONASS ephemeris", [=](const sbp_msg_t &m_) {
        auto &m = m_.ephemeris_glo;
        static const u32 fit[] = {70 * 60, 40 * 60, 55 * 60, 70 * 60};
        common(m.common, (int)sat, CODE_GLO_L1OF, toe / WEEK, toe % WEEK / 1000, ft_glo(r.u("ft")), fit[r.u("p1")], 1, r.u("bn") | r.u("ln3") | (r.u("add") ? r.u("ln5") : 0));
        FL(m.gamma, (double)r.s("gamma") * pow(2, -40), "gamma"); FL(m.tau, (double)r.s("tau") * pow(2, -30), "tau"); FL(m.d_tau, (double)r.s("dtau") * pow(2, -30), "d_tau");
        const char *const px[] = {"px", "py", "pz"}, *const vx[] = {"vx", "vy", "vz"}, *const ax[] = {"ax", "ay", "az"};
        for (int i = 0; i < 3; i++) {
          DB(m.pos[i], (double)r.s(px[i]) * 1000 * pow(2, -11), px[i]); DB(m.vel[i], (double)r.s(vx[i]) * 1000 * pow(2, -20), vx[i]);
          FL(m.acc[i], (double)r.s(ax[i]) * 1000 * pow(2, -30), ax[i]);
        }
        EQ(m.fcn, f + 1, "fcn"); EQ(m.iod, (r.u("tb") * 900) & 127, "iod");
      });
      meaningful++;
    }
  }
}

// ---- generators -------------------------------------------------------------
struct Frm {
  int num;
  Bytes p;
  std::string what;
  std::function<void(Model &)> apply;
};
void none(Model &) {}
typedef Frm (*Gen)(G &, Model &);

s64 now_of(Model &md) { return md.solved ? md.ref : 2100 * WEEK + 3 * DAY; }
s64 next_epoch(G &g, Model &md) {
  if (md.t <= 0) md.t = now_of(md) + g.range(-20, 20) * 1000;
  if (md.cfg.hold && g.chance(95)) return md.t;
  switch (g.draw(20)) {
    default: break;
    case 9: case 10: case 11: case 12: md.t += 1000; break;
    case 13: md.t += g.range(1, 10) * 200; break;
    case 14: md.t += 5000 + g.range(-1, 1) * (g.coin() ? 1 : 125); break;
    case 15: md.t -= g.range(1, 10) * 1000; break;
    case 16: md.t = now_of(md) + g.range(-45, 60) * 1000; break;
    case 17: md.t = now_of(md) + (g.chance(30) ? g.range(-WEEK / 2 + 1, WEEK / 2 - 1) : g.range(-20000, 20000)); break;
    case 18: md.t = now_of(md) / WEEK * WEEK + (s64)g.draw(2) * WEEK + g.range(-2, 2) * 500; break;
    case 19: md.t = now_of(md) / DAY * DAY + g.pick<s64>({0, -3 * HOUR + 18000, -3 * HOUR + 17000, 14000, 18000, DAY / 2}) + g.range(-2, 2) * 500; break;
  }
  if (md.t < WEEK) md.t = now_of(md);
  return md.t;
}
int leap_for(Model &md) {
  if (md.solved) return leap_at(md.ref);
  return 18;
}
u64 raw_gps(s64 t) { return (u64)(t % WEEK); }
u64 raw_bds(s64 t) { return (u64)((t - 14000) % WEEK); }
u64 raw_glo(Model &md, s64 t) { return (u64)((t - leap_for(md) * 1000 + 3 * HOUR) % DAY); }
u64 gen_stn(G &g, Model &md) {
  if (md.stns.empty()) md.stns = {g.bits(12), g.bits(12)};
  return md.stns[g.chance(md.cfg.hold ? 99 : 92) ? 0 : 1];
}
Frm gen_legacy_n(G &g, Model &md, int num, int maxsat = 0) {
  LObs m;
  m.num = num;
  m.stn = gen_stn(g, md);
  s64 t = next_epoch(g, md);
  m.tow = m.glo() ? raw_glo(md, t) : raw_gps(t);
  if (g.chance(2)) m.tow = g.bits(m.glo() ? 27 : 30);
  m.sync = g.chance(60); m.div = g.draw(2); m.smooth = g.draw(8);
  int n = maxsat ? (int)g.range(maxsat - 3, maxsat) : (int)(g.chance(8) ? g.range(0, 31) : g.range(0, 4));
  for (int i = 0; i < n; i++) {
    LSat s = gen_lsat(g, m, false);
    if (g.chance(80)) s.sv = m.glo() ? (u64)g.range(1, 24) : (u64)g.range(1, 32);
    if (s.fcn > 20) s.fcn %= 21;
    if (maxsat) { if (s.pr1 == 0x80000) s.pr1++; if (s.pr2 == 0x2000) s.pr2++; }
    if (!m.vpr1(s)) s.pr2 = 0x2000;
    m.sats.push_back(s);
  }
  Frm f{num, m.enc(), fmt("%d stn %llu tow %llu sync %llu sats %zu", num, (unsigned long long)m.stn, (unsigned long long)m.tow, (unsigned long long)m.sync, m.sats.size()), none};
  if (num != 1001 && num != 1003) f.apply = [m](Model &x) { x.legacy(m); };
  return f;
}
Frm gen_legacy(G &g, Model &md) { return gen_legacy_n(g, md, g.pick({1004, 1012, 1002, 1010, 1004, 1012, 1001, 1003})); }
Frm gen_legacy_big(G &g, Model &md) { return gen_legacy_n(g, md, g.pick({1004, 1012}), 31); }

const int SUP[NCONS][20] = {{2, 3, 4, 9, 10, 15, 16, 17, 22, 23, 24, 30, 31, 32}, {2}, {2, 8, 3, 9}, {2, 14, 22, 23, 24, 8, 25, 30}, {2}, {2, 4, 5, 8, 10, 11, 14, 15, 16, 18, 19, 20, 22, 23, 24}};
Frm gen_msm_c(G &g, Model &md, int cons, int type, bool big) {
  Msm m;
  m.cons = cons;
  m.type = type;
  m.stn = gen_stn(g, md);
  m.dow = g.draw(8);
  s64 t = next_epoch(g, md);
  m.epoch = cons == GLO ? raw_glo(md, t) : cons == BDS ? raw_bds(t) : raw_gps(t);
  if (cons == BDS && m.epoch >= (u64)WEEK - 14000 && g.chance(70)) m.epoch = (1u << 30) - (WEEK - m.epoch);
  if (g.chance(2)) m.epoch = g.bits(cons == GLO ? 27 : 30);
  m.multiple = big ? !md.cfg.hold || g.chance(90) : g.chance(60); m.iods = g.draw(8); m.reserved = g.bits(7); m.steering = g.draw(4); m.ext = g.draw(4); m.divf = g.draw(2); m.smooth = g.draw(8);
  if (g.chance(10)) msm_masks(g, m);
  else {
    int ns = big ? 16 : (int)g.range(1, 5), nq = big ? 4 : (int)g.range(1, 3);
    int hi = cons == GLO ? 28 : 32;
    m.satmask = 0; m.sigmask = 0;
    for (int i = 0; i < ns; i++) m.satmask |= 1ull << (63 - g.draw((u64)hi));
    if (big) while (__builtin_popcountll(m.satmask) < 16) m.satmask |= 1ull << (63 - g.draw((u64)hi));
    int k = 0;
    while (k < 20 && SUP[cons][k]) k++;
    if (big && md.cfg.hold && g.chance(80))
      for (int i = 0, at = (int)g.draw((u64)k); i < nq; i++) m.sigmask |= 1u << (32 - SUP[cons][(at + i) % k]);
    else
    for (int i = 0; i < nq; i++) m.sigmask |= 1u << (32 - (g.chance(88) ? SUP[cons][g.draw((u64)k)] : (int)g.range(1, 32)));
  }
  msm_fill(g, m, big && md.cfg.hold && g.chance(80));
  if (!g.chance(25))
    for (auto &s : m.sats) if (s.rough_ms > 200) s.rough_ms = 60 + s.rough_ms % 40;
  size_t nb;
  Bytes p = m.enc(&nb);
  Frm f{m.num(), p, fmt("%d stn %llu epoch %llu multiple %llu sats %zu sigs %zu cells %zu", m.num(), (unsigned long long)m.stn, (unsigned long long)m.epoch, (unsigned long long)m.multiple, m.sats.size(), m.sigs.size(), m.cells.size()), none};
  bool suppressed = cons == SBAS || cons == QZS;
  if (g.chance(3) && p.size() > 8) {  // cut short: nothing is taken from it
    f.p.resize((size_t)g.range(7, (s64)p.size() - 1));
    f.what += " truncated";
  } else if (!suppressed) f.apply = [m](Model &x) { x.msm(m); };
  return f;
}
Frm gen_msm_any(G &g, Model &md) {
  static const int c[] = {GPS, GLO, BDS, GAL, GPS, GLO, BDS, GAL, SBAS, QZS};
  return gen_msm_c(g, md, c[g.draw(10)], (int)g.range(4, 7), false);
}
Frm gen_msm_big(G &g, Model &md) {
  static const int c[] = {GPS, GLO, BDS, GAL};
  return gen_msm_c(g, md, c[g.draw(4)], (int)g.range(4, 7), true);
}
Frm gen_msm_cells(G &g, Model &md) {  // more than 64 cells cannot be decoded
  int cons = (int)g.pick({GPS, GLO, BDS, GAL});
  Msm m;
  m.cons = cons; m.type = (int)g.range(4, 7); m.stn = gen_stn(g, md); m.dow = 0; m.epoch = raw_gps(next_epoch(g, md));
  if (cons == GLO) m.epoch %= DAY;
  m.multiple = g.draw(2); m.iods = m.reserved = m.steering = m.ext = m.divf = m.smooth = 0;
  m.satmask = m.sigmask = 0;
  int ns = (int)g.range(9, 64), nq = std::min(32, 65 / ns + 1 + (int)g.draw(4));
  while (ns * nq <= 64) nq++;
  for (int i = 0; i < ns; i++) m.satmask |= 1ull << (63 - i);
  for (int i = 0; i < nq; i++) m.sigmask |= 1u << (31 - i);
  Bytes p = m.enc();
  append(p, g.bytes(g.below(700)));
  return {m.num(), p, fmt("%d with %d cells", m.num(), ns * nq), none};
}
Frm gen_msm13(G &g, Model &md) {
  int num = MSM_BASE[g.draw(NCONS)] + (int)g.range(1, 3);
  BitW w;
  u64 stn = gen_stn(g, md);
  w.put((u64)num, 12); w.put(stn, 12);
  Bytes p = w.b;
  append(p, g.bytes(g.below(60)));
  return {num, p, fmt("%d stn %llu %zu bytes", num, (unsigned long long)stn, p.size()), [stn](Model &x) {
            if (x.warn_msm) return;
            x.warn_msm = true;
            x.log(Model::snd(stn), 4, "MSM1-3 Messages currently not supported");
          }};
}
Frm gen_setmsm_other(G &g, Model &) {  // numbers nobody handles
  int num;
  do num = g.coin() ? (int)g.range(1070, 1229) : (int)g.draw(4096);
  while ((num >= 1001 && num <= 1012) || num == 1019 || num == 1020 || num == 1029 || num == 1033 || (num >= 1042 && num <= 1046) || (num >= 1057 && num <= 1068) || (num >= 1071 && num <= 1137) || num == 1230 || (num >= 1240 && num <= 1270) || num == 4062 || num == 4075);
  BitW w;
  w.put((u64)num, 12); w.put(g.bits(12), 12);
  Bytes p = w.b;
  append(p, g.bytes(g.below(40)));
  return {num, p, fmt("number %d, %zu bytes", num, p.size()), none};
}
Frm gen_eph_n(G &g, Model &md, int num) {
  Raw r = gen_raw(g, eph_layout(num), {{"msg", (u64)num}});
  int satmax = num == 1019 ? 32 : num == 1020 ? 28 : num == 1042 ? 63 : num == 1044 ? 10 : 36;
  if (num != 1044 || true) r.v["sat"] = (u64)g.range(num == 1042 ? 6 : 1, satmax);
  if (num == 1020 && g.chance(3)) r.v["sat"] = 0;  // DF038: slot number unknown
  s64 now = now_of(md) + g.range(-3 * HOUR, 3 * HOUR);
  auto near_toe = [&](s64 off, s64 unit, u64 lim) {
    s64 t = (now - off) % WEEK / 1000 / unit;
    r.v["toe"] = g.chance(4) ? g.draw(lim) : (u64)t;
    r.v["toc"] = g.chance(80) ? r.v["toe"] : g.draw(lim);
  };
  switch (num) {
    case 1019: r.v["wn"] = g.chance(90) ? (u64)(now / WEEK) % 1024 : g.bits(10); near_toe(0, 16, 37800); if (g.chance(2)) r.v["toe"] = g.bits(16); if (g.chance(60)) r.v["health"] = 0; break;
    case 1044: r.v["wn"] = g.bits(10); near_toe(0, 16, 37800); break;
    case 1045: case 1046: r.v["wn"] = (u64)((now / WEEK - 1024) & 4095); near_toe(0, 60, 10080); break;
    case 1042: r.v["wn"] = (u64)std::max<s64>(now / WEEK - 1356, 0) & 8191; near_toe(14000, 8, 75600); break;
    default: r.v["tb"] = (u64)((now - leap_for(md) * 1000 + 3 * HOUR) % DAY / 900000); if (g.chance(3)) r.v["tb"] = g.bits(7);
  }
  if (num == 1019 || num == 1044) if (g.chance(60)) r.v["iode"] = r.v["iodc"] & 255;
  if (num == 1045 || num == 1046) if (g.chance(70)) r.v["ura"] = g.draw(127);
  Frm f{num, r.enc(), fmt("%d ", num) + r.str(), [num, r](Model &x) { x.eph(num, r); }};
  return f;
}
Frm gen_e1019(G &g, Model &md) { return gen_eph_n(g, md, 1019); }
Frm gen_e1020(G &g, Model &md) { return gen_eph_n(g, md, 1020); }
Frm gen_e1042(G &g, Model &md) { return gen_eph_n(g, md, 1042); }
Frm gen_e1044(G &g, Model &md) { return gen_eph_n(g, md, 1044); }
Frm gen_e1045(G &g, Model &md) { return gen_eph_n(g, md, 1045); }
Frm gen_e1046(G &g, Model &md) { return gen_eph_n(g, md, 1046); }
Frm gen_eph(G &g, Model &md) { return gen_eph_n(g, md, g.pick({1019, 1020, 1042, 1044, 1045, 1046})); }

Frm gen_ssr_k(G &g, Model &md, int cons, int kind) {
  if (cons == SBAS && kind != PHASE_BIAS) cons = GPS;
  Ssr m = gen_ssr(g, cons, kind, 63);
  if (md.ssr_t <= 0 || !g.chance(75)) {
    md.ssr_t = (next_epoch(g, md) / 1000) * 1000;
    md.ssr_iod = g.bits(4);
  }
  s64 t = md.ssr_t;
  m.epoch = (cons == GLO ? raw_glo(md, t) : cons == BDS ? raw_bds(t) : raw_gps(t)) / 1000;
  if (cons == GLO && m.epoch == 0 && g.chance(30)) m.epoch = 86400;
  if (g.chance(2) && cons != BDS) m.epoch = g.bits(m.epochw());
  m.iod = g.chance(92) ? md.ssr_iod : g.bits(4);
  // satellites are taken from a short list, so that orbit and clock messages meet
  if (kind == ORBIT || kind == CLOCK) {
    std::vector<SsrSat> u;
    u32 seen[8] = {0};
    u64 lim = 1ull << Ssr::satw(cons);
    for (auto &s : m.sats) {
      u8 id = (u8)(g.chance(80) ? 1 + g.draw(6) : g.draw(lim));
      if (seen[id / 32] >> (id % 32) & 1) continue;
      seen[id / 32] |= 1u << (id % 32);
      s.id = id;
      u.push_back(s);
    }
    m.sats = u;
  }
  if (g.chance(2) && kind == PHASE_BIAS) {  // as many signals as fit
    m.sats.clear();
    m.sats.push_back(ssr_sat(g, cons, kind, 31));
    while (m.sats[0].sigs.size() < (size_t)g.range(29, 31)) m.sats[0].sigs.push_back({g.bits(5), g.bits(14), g.draw(2), g.bits(2), g.bits(4), g.bits(20)});
  }
  return {m.num(), m.enc(), fmt("%d epoch %llu iod %llu sats %zu", m.num(), (unsigned long long)m.epoch, (unsigned long long)m.iod, m.sats.size()), [m](Model &x) { x.ssr(m); }};
}
Frm gen_ssr_pair(G &g, Model &md) { return gen_ssr_k(g, md, g.chance(70) ? GPS : (int)g.draw(NCONS), g.coin() ? ORBIT : CLOCK); }
Frm gen_ssr_any(G &g, Model &md) { return gen_ssr_k(g, md, (int)g.draw(NCONS), (int)g.draw(5)); }

Frm gen_pos(G &g, Model &) {
  Sta s = gen_sta(g);
  size_t nb;
  Bytes p = enc_sta(s, &nb);
  return {s.num, p, fmt("%d stn %llu", s.num, (unsigned long long)s.stn), [s](Model &x) {
            x.meaningful++;
            x.emit(Model::snd(s.stn), SbpMsgBasePosEcef, "base position", [s](const sbp_msg_t &m) {
              NEAR(m.base_pos_ecef.x, (double)sext(s.x, 38) * 0.0001, 1e-6, "x"); NEAR(m.base_pos_ecef.y, (double)sext(s.y, 38) * 0.0001, 1e-6, "y"); NEAR(m.base_pos_ecef.z, (double)sext(s.z, 38) * 0.0001, 1e-6, "z");
            });
          }};
}
std::string utf8(G &g, size_t n) {
  std::string s;
  while (s.size() < n) {
    u32 c;
    switch (g.below(5)) {
      default: c = (u32)g.range(32, 126); break;
      case 2: c = (u32)g.range(0x80, 0x7FF); break;
      case 3: c = (u32)g.range(0x800, 0xD7FF); break;
      case 4: c = (u32)g.range(0x10000, 0x10FFFF); break;
    }
    std::string e;
    if (c < 0x80) e = std::string(1, (char)c);
    else if (c < 0x800) e = {(char)(0xC0 | c >> 6), (char)(0x80 | (c & 63))};
    else if (c < 0x10000) e = {(char)(0xE0 | c >> 12), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
    else e = {(char)(0xF0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
    if (s.size() + e.size() > n) { while (s.size() < n) s += 'x'; break; }
    s += e;
  }
  return s;
}
Frm gen_1029(G &g, Model &) {
  std::string t = utf8(g, (size_t)(g.chance(60) ? g.range(0, 60) : g.chance(60) ? g.range(243, 255) : g.range(0, 255)));
  BitW w;
  u64 stn = g.bits(12), chars = 0;
  for (char c : t) chars += ((u8)c & 0xC0) != 0x80;
  w.put(1029, 12); w.put(stn, 12); w.put(g.bits(16), 16); w.put(g.bits(17), 17); w.put(chars & 127, 7); w.put(t.size(), 8);
  for (char c : t) w.put((u8)c, 8);
  return {1029, w.b, fmt("1029 of %zu bytes", t.size()), [t, stn](Model &x) {
            std::string e = "RTCM: " + t;
            size_t n = std::min<size_t>(e.size(), 254);
            while (n < e.size() && ((u8)e[n] & 0xC0) == 0x80) n--;  // whole characters only
            x.meaningful++;
            x.log(Model::snd(stn), 6, e.substr(0, n));
          }};
}
struct Rcv { const char *sub; int mask; double l1ca, l1p, l2ca, l2p; };
const Rcv RCV[] = {
    {"Geo++ GNSMART (GLO=ASH)", 9, -14.7, 0, 0, -16.2}, {"Geo++ GNSMART (GLO=HEM)", 9, -0.3, 0, 0, 3.5}, {"Geo++ GNSMART (GLO=JAV)", 9, -1.5, 0, 0, -8.1},
    {"Geo++ GNSMART (GLO=JPS)", 9, -3.7, 0, 0, 0.7}, {"Geo++ GNSMART (GLO=LEI)", 9, -70.7, 0, 0, -66.3}, {"Geo++ GNSMART (GLO=NOV)", 9, -70.7, 0, 0, -66.3},
    {"Geo++ GNSMART (GLO=NAV)", 9, 0.4, 0, 0, 2.1}, {"Geo++ GNSMART (GLO=NVR)", 9, 116.7, 0, 0, 187}, {"Geo++ GNSMART (GLO=SEP)", 9, 0, 0, 0, 0},
    {"Geo++ GNSMART (GLO=SOK)", 9, -70.7, 0, 0, -66.3}, {"Geo++ GNSMART (GLO=TPS)", 9, -2.56, 0, 0, 3.74}, {"Geo++ GNSMART (GLO=TRM)", 9, 18.8, 0, 0, 23.2},
    {"TRIMBLE", 15, 19.06, 19.06, 19.06, 19.06}, {"ASHTECH", 15, 19.06, 19.06, 19.06, 19.06}, {"LEICA", 15, -71.94, -71.94, -71.94, -71.94},
    {"NOV", 15, -71.94, -71.94, -71.94, -71.94}, {"GEOMAX", 15, -71.94, -71.94, -71.94, -71.94}, {"SEPT", 15, 0, 0, 0, 0}, {"TPS", 9, 0, 0, 0, 0},
    {"JAVAD", 9, -1.5, 0, 0, -8.1}, {"NAVCOM", 9, 0.4, 0, 0, 2.1}, {"HEMI", 9, -0.2, 0, 0, 3.4}};
Str ascii(G &g, size_t max) {
  Bytes b;
  for (size_t n = g.below(max + 1); n; n--) b.push_back((u8)g.range(32, 126));
  return {b};
}
void bias_msg(const sbp_msg_t &m_, int mask, const double *b) {
  auto &m = m_.glo_biases;
  EQ(m.mask, mask, "mask"); NEAR(m.l1ca_bias, b[0], 0.5001, "l1ca"); NEAR(m.l1p_bias, b[1], 0.5001, "l1p"); NEAR(m.l2ca_bias, b[2], 0.5001, "l2ca"); NEAR(m.l2p_bias, b[3], 0.5001, "l2p");
}
Frm gen_1033(G &g, Model &md) {
  Desc d;
  d.num = 1033; d.stn = gen_stn(g, md); d.setup = g.bits(8);
  d.a = ascii(g, 31); d.as = ascii(g, 31); d.fw = ascii(g, 31); d.rs = ascii(g, 31);
  std::string r;
  if (g.chance(85)) {
    r = RCV[g.draw(sizeof RCV / sizeof *RCV)].sub;
    if (g.chance(10)) r = r.substr(g.below(4));
    size_t room = 31 - std::min<size_t>(31, r.size()), pre = g.coin() ? 0 : g.below(room + 1);
    Str a = ascii(g, pre), z = ascii(g, room - std::min(room, a.s.size()));
    r = std::string(a.s.begin(), a.s.end()) + r + std::string(z.s.begin(), z.s.end());
    if (g.chance(10)) { std::string e = RCV[g.draw(sizeof RCV / sizeof *RCV)].sub; if (r.size() + e.size() <= 31) r += e; }
    r.resize(std::min<size_t>(r.size(), 31));
  } else { Str a = ascii(g, 31); r.assign(a.s.begin(), a.s.end()); }
  d.r = {Bytes(r.begin(), r.end())};
  size_t nb;
  u64 stn = d.stn;
  return {1033, enc_desc(d, &nb), "1033 " + r, [stn, r](Model &x) {
            if (x.last_1230 >= 0 && x.ref - x.last_1230 <= 120000) return;
            const Rcv *k = nullptr;
            for (auto &c : RCV) if (r.find(c.sub) != std::string::npos) { k = &c; break; }
            x.meaningful++;
            x.emit(Model::snd(stn), SbpMsgGloBiases, "biases of the receiver", [k](const sbp_msg_t &m) {
              double b[4] = {0, 0, 0, 0};
              if (k) { b[0] = k->l1ca * 50; b[1] = k->l1p * 50; b[2] = k->l2ca * 50; b[3] = k->l2p * 50; }
              bias_msg(m, k ? k->mask : 0, b);
            });
          }};
}
Frm gen_1230(G &g, Model &md) {
  BitW w;
  u64 stn = gen_stn(g, md), ind = g.chance(30), mask = g.draw(16);
  w.put(1230, 12); w.put(stn, 12); w.put(ind, 1); w.put(g.draw(8), 3); w.put(mask, 4);
  s64 v[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; i++)
    if (mask & (8u >> i)) { u64 x = g.bits(16); w.put(x, 16); v[i] = sext(x, 16); }
  return {1230, w.b, fmt("1230 mask %llu ind %llu", (unsigned long long)mask, (unsigned long long)ind), [=](Model &x) {
            x.meaningful++;
            x.emit(Model::snd(stn), SbpMsgGloBiases, "biases", [=](const sbp_msg_t &m) {
              double b[4];
              for (int i = 0; i < 4; i++) b[i] = ind ? 0 : (double)v[i];
              bias_msg(m, (int)mask, b);
            });
            x.last_1230 = x.ref;
          }};
}
Frm gen_desc_ignored(G &g, Model &) {
  Desc d = gen_desc(g, 31);
  if (d.num == 1033) d.num = 1008;
  size_t nb;
  return {d.num, enc_desc(d, &nb), fmt("%d", d.num), none};
}
Frm gen_4062(G &g, Model &) {
  // every message type the serialiser knows, with the shortest payload it takes
  static const std::vector<std::pair<u16, u8>> types = [] {
    std::vector<std::pair<u16, u8>> v;
    u8 zero[256] = {0};
    for (u32 t = 0; t < 65536; t++)
      for (int n = 0; n < 256; n++) {
        sbp_msg_t m;
        if (sbp_message_decode(zero, (u8)n, nullptr, (sbp_msg_type_t)t, &m) == SBP_OK) { v.push_back({(u16)t, (u8)n}); break; }
      }
    return v;
  }();
  auto &k = types[g.below(types.size())];
  u16 type = g.chance(95) ? k.first : (u16)g.bits(16), sender = (u16)g.bits(16);
  Bytes t = g.bytes(g.chance(20) ? g.below(256) : (size_t)std::max<s64>(0, std::min<s64>(255, k.second + (g.chance(60) ? 0 : g.range(-1, 60)))));
  u64 res = g.chance(3) ? 1 + g.draw(15) : 0;
  BitW w;
  w.put(4062, 12); w.put(res, 4); w.put(type, 16); w.put(sender, 16); w.put(t.size(), 8);
  for (u8 c : t) w.put(c, 8);
  return {4062, w.b, fmt("4062 type %u of %zu bytes", type, t.size()), [=](Model &x) {
            sbp_msg_t m;
            memset(&m, 0, sizeof m);
            if (res || sbp_message_decode(t.data(), (u8)t.size(), nullptr, (sbp_msg_type_t)type, &m) != SBP_OK) return;
            x.meaningful++;
            std::string want = dump({sender, type, m});
            x.emit(sender, type, "wrapped message", [want, sender, type](const sbp_msg_t &got) {
              std::string gs = dump({sender, type, got});
              PBT_CHECK(gs == want, "got %s want %s", gs.substr(0, 800).c_str(), want.substr(0, 800).c_str());
            });
            if (x.cfg.feedback && type == SbpMsgEphemerisGps && m.ephemeris_gps.common.health_bits == 0) {
              if (m.ephemeris_gps.common.toe.wn > 32767 || m.ephemeris_gps.common.toe.tow >= 604800) { if (m.ephemeris_gps.common.toe.tow < 604800 && m.ephemeris_gps.common.toe.wn <= 32767) throw Discard{}; return; }
              x.truth((s64)m.ephemeris_gps.common.toe.wn * WEEK + (s64)m.ephemeris_gps.common.toe.tow * 1000);
            }
          }};
}
u32 crc24q_bits_ref(const Bytes &b, size_t n) {
  u32 c = 0;
  for (size_t i = 0; i < n; i++) {
    u32 bit = (u32)getu(b, i, 1) ^ (c >> 23 & 1);
    c = (c << 1) & 0xFFFFFF;
    if (bit) c ^= 0x864CFB;
  }
  return c;
}
void setu(Bytes &b, size_t pos, unsigned w, u64 v) {
  for (unsigned i = 0; i < w; i++, pos++) {
    u8 m = (u8)(0x80 >> (pos % 8));
    if ((v >> (w - 1 - i)) & 1) b[pos / 8] |= m; else b[pos / 8] &= (u8)~m;
  }
}
Frm gen_4075(G &g, Model &md) {
  struct S { u64 prn, tow; Bytes b; };
  std::vector<S> ok;
  u64 stn = gen_stn(g, md), res = g.chance(3) ? g.range(1, 3) : 0, n = (u64)(g.chance(10) ? g.range(0, 18) : g.range(0, 4));
  bool many = g.chance(8);  // as many as the count can say, most of them empty
  if (many) n = (u64)(g.coin() ? 63 : g.range(30, 63));
  BitW w;
  w.put(4075, 12); w.put(stn, 12); w.put(res, 2); w.put(n, 6);
  for (u64 k = 0; k < n; k++) {
    u64 sys = g.chance(80) ? 3 : g.draw(16), num = g.chance(80) ? g.draw(39) : g.bits(6), ep = g.bits(30);
    Bytes b = g.bytes(32);
    u8 pre = g.pick<u8>({0x53, 0x9A, 0xC6});
    if (g.chance(5)) pre = (u8)g.below(256);
    setu(b, 0, 8, pre);
    setu(b, 226, 24, crc24q_bits_ref(b, 226));
    bool bad = g.chance(10);
    if (bad) { size_t i = g.below(250); setu(b, i, 1, !getu(b, i, 1)); }
    // a length of no whole words below 256 bits is left open: how its last word is aligned is not said anywhere
    u64 bits = g.chance(50) ? 32 * (u64)g.range(8, 9) : g.chance(60) ? (u64)g.range(256, 288) : g.chance(70) ? 32 * g.below(8) : (u64)g.range(289, 700);
    if (many) bits = g.chance(k + 1 == n ? 60 : 10) ? (u64)g.pick({256, 288}) : g.chance(20) ? 32 : 0;
    w.put(sys, 4); w.put(num, 6); w.put(g.bits(4), 4); w.put(g.bits(5), 5); w.put(ep, 30); w.put(g.draw(2), 1); w.put(bits, 12);
    for (u64 i = 0; i < bits / 32; i++) w.put(i < 8 ? getu(b, 32 * i, 32) : g.bits(32), 32);
    if (bits % 32) w.put(g.bits((unsigned)(bits % 32)), (unsigned)(bits % 32));
    if (!bad && sys == 3 && num <= 38 && bits >= 256 && bits <= 288 && (pre == 0x53 || pre == 0x9A || pre == 0xC6)) ok.push_back({num + 120, ep, b});
  }
  size_t cut = 0;
  if (g.chance(4) && w.b.size() > 6 && n) cut = (size_t)g.range(1, std::min<s64>(20, (s64)w.b.size() - 4));
  Bytes p = w.b;
  p.resize(p.size() - cut);
  if (p.size() > 1023) throw Discard{};
  return {4075, p, fmt("4075 with %llu frames, %zu good%s", (unsigned long long)n, ok.size(), cut ? ", cut" : ""), [=](Model &x) {
            if (cut || res) return;
            for (auto &s : ok) {
              x.meaningful++;
              x.emit(Model::snd(stn), SbpMsgSbasRaw, "SBAS frame", [s](const sbp_msg_t &m_) {
                auto &m = m_.sbas_raw;
                EQ(m.sid.sat, s.prn, "satellite"); EQ(m.sid.code, CODE_SBAS_L1CA, "code"); EQ(m.tow, s.tow, "tow"); EQ(m.message_type, getu(s.b, 8, 6), "message type");
                Bytes d(27, 0);
                for (size_t i = 0; i < 212; i++) setu(d, i, 1, getu(s.b, 14 + i, 1));
                PBT_CHECK(!memcmp(m.data, d.data(), 27), "payload %s, expected %s", hex(m.data, 27).c_str(), hex(d.data(), 27).c_str());
              });
            }
          }};
}
const std::vector<Gen> all_gens = {gen_legacy, gen_msm_any, gen_msm_any, gen_eph, gen_ssr_any, gen_ssr_pair, gen_pos, gen_1029, gen_1033, gen_1230, gen_4062, gen_4075, gen_msm13, gen_desc_ignored, gen_setmsm_other, gen_msm_cells};

void gen_options(G &g, u32 pct = 25) {
  if (!g.chance(pct)) return;
  for (int n = (int)g.range(1, 6); n; n--) {
    int c = (int)g.pick({CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2P, CODE_GPS_L1P, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GAL_E1X, CODE_GAL_E1B, CODE_GAL_E7I, CODE_BDS2_B1, CODE_BDS2_B2, CODE_SBAS_L1CA, CODE_GPS_L5X, CODE_GAL_E5X});
    sbp_signal_biases[c] = (float)g.range(-4000, 4000) / (g.coin() ? 4.0f : 0.001f);
  }
  if (g.coin()) for (int i = 0; i < 2; i++) { sbp_glo_code_bias[i] = (float)g.range(-200, 200) / 16; sbp_glo_phase_bias[i] = (float)g.range(-200, 200) / 64; }
  if (g.coin()) constellation_mask[g.pick({GPS, GLO, BDS, GAL})] = true;
}
s64 gen_time(G &g) {  // representable in the time truth
  s64 wk = g.chance(60) ? g.range(1900, 2400) : g.range(1877, 4000);
  s64 ms = g.chance(25) ? g.pick<s64>({0, 125, 1000, WEEK - 125, WEEK - 1000, WEEK - 14000, 14000, 18000, DAY, DAY - 125, 3 * HOUR, 21 * HOUR, DAY * 6 + 21 * HOUR + 18000}) : (s64)g.draw((u64)WEEK / 125) * 125;
  s64 t = wk * WEEK + ms;
  leap_at(t);
  return t;
}
Cfg gen_cfg(G &g) {
  Cfg c;
  c.t0 = gen_time(g);
  c.fixed = g.chance(30);
  return c;
}
size_t converse_steps;  // frames checked in the current run
int converse(G &g, const std::vector<Gen> &gens, size_t maxn, Cfg c, int truth_pct = 3, u32 opt_pct = 25, size_t minn = 1) {
  Options opt;
  gen_options(g, opt_pct);
  Model md;
  md.start(c);
  Source s;
  Inst in(&s, c, false, (u8)g.below(256));
  size_t n = (size_t)g.range((s64)minn, (s64)maxn);
  bool direct = g.chance(20);
  for (size_t i = 0; i < n; i++) {
    converse_steps = i;
    if (!c.fixed && g.chance((u32)truth_pct)) {
      s64 base = md.tt_known ? md.tt : gen_time(g), d = g.pick<s64>({125, 1000, 5000, 30000, 120000, 121000, 3600000, WEEK, -1000, 0});
      if (g.chance(10)) base = (s64)g.draw(1876) * WEEK;
      s64 t = base + d;
      if (t < 0) t = 0;
      bool want = md.truth(t);
      EQ(time_truth_update(&in.tt, g.pick({TIME_TRUTH_EPH_GPS, TIME_TRUTH_EPH_GAL, TIME_TRUTH_EPH_BDS}), gt(t)), want, "time truth accepted");
      g.note(fmt("truth %lld", (long long)t));
      if (want && md.t > 0 && d < HOUR) md.t += d;
    }
    if (c.fixed && g.chance((u32)truth_pct)) {  // the caller moves the time it gave, either way
      s64 d = g.pick<s64>({125, 1000, 30000, 120000, 121000, 3600000, WEEK, -1000, -120000, -121000, -3600000}), t = md.ref + d;
      if (t >= 0 && t / WEEK < 32767) {
        leap_at(t);
        md.ref = t;
        in.st->time_from_input_data = gt(t);
        g.note(fmt("time given %lld", (long long)t));
        if (d < HOUR && md.t > WEEK) md.t += d;
      }
    }
    if (g.chance(5)) {  // channel numbers learnt elsewhere
      sbp_v4_gnss_signal_t sid = {(u8)g.range(0, 30), CODE_GLO_L1OF};
      if (g.chance(60)) {  // of a satellite whose channel is known already
        for (u8 k = 0; k < 28; k++) {
          u8 sat = (u8)(1 + (sid.sat + k) % 28);
          if (md.fcn[sat] >= 0) { sid.sat = sat; break; }
        }
      }
      u8 f = (u8)g.range(0, 15);
      if (g.chance(35)) f = g.pick<u8>({0, 15, 16, 128, 129, 255});  // not known, or no channel there is
      rtcm2sbp_set_glo_fcn(sid, f, in.st.get());
      if (sid.sat >= 1 && sid.sat <= 28) md.fcn[sid.sat] = f >= 1 && f <= 14 ? f - 1 : -1;
    }
    if (!c.fixed) { md.solved = md.tt_known; if (md.solved) md.ref = md.tt; }
    Frm f = g.pick(gens)(g, md);
    if (f.p.empty() || f.p.size() > 1023) throw Discard{};
    md.out.clear();
    md.invalid.clear();
    in.invalid.clear();
    s.out.clear();
    g.note(f.what);
    if (md.begin(f.num)) { f.apply(md); md.end(f.num, f.p); }
    g.fingerprint(f.p.data(), f.p.size());
    Bytes fr = rtcm_frame(f.p);
    if (direct) {
      std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(fr.size()), free);
      memcpy(p.get(), fr.data(), fr.size());
      rtcm2sbp_decode_frame(p.get(), (u32)fr.size(), in.st.get());
    } else {
      append(s.data, fr);
      s.eof = false;
      in.run();
    }
    try {
      for (size_t k = 0; k < std::max(md.out.size(), s.out.size()); k++) {
        if (k >= s.out.size()) PBT_FAIL("missing", "expected %s, got nothing", md.out[k].what.c_str());
        if (k >= md.out.size()) PBT_FAIL("extra", "unexpected %s", dump(s.out[k]).substr(0, 500).c_str());
        PBT_CHECK(s.out[k].type == md.out[k].type, "expected %s, got %s", md.out[k].what.c_str(), dump(s.out[k]).substr(0, 500).c_str());
        PBT_CHECK(s.out[k].sender == md.out[k].sender, "%s: sender %u, expected %u", md.out[k].what.c_str(), s.out[k].sender, md.out[k].sender);
        try {
          md.out[k].check(s.out[k].msg);
        } catch (Fail &e) { throw Fail{e.key, md.out[k].what + ": " + e.msg}; }
        check_wellformed(s.out[k]);
      }
      PBT_CHECK(in.invalid.size() == md.invalid.size(), "%zu reports of a base time in the future, expected %zu", in.invalid.size(), md.invalid.size());
      for (size_t k = 0; k < in.invalid.size(); k++) NEAR(in.invalid[k], md.invalid[k], 1e-6, "reported time difference");
    } catch (Fail &e) { throw Fail{e.key, fmt("frame %zu (%s): ", i, f.what.substr(0, 300).c_str()) + e.msg}; }
  }
  if (md.full) g.label("buffer full");
  return md.meaningful;
}
// what an instance does after hundreds of messages; a case that comes to
// something unspecified ends there
void long_run(G &g, const std::vector<Gen> &gens, Cfg c, int truth_pct = 1) {
  try {
    converse(g, gens, 500, c, truth_pct, 10, 300);
  } catch (Discard &) {
    if (converse_steps < 100) throw;
  }
  if (converse_steps >= 256) g.label("256 frames or more");
  g.nontrivial();
}
}  // namespace

PBT_PROP(C16, legacy, 40000, 1500000, "observations came out") {
  if (converse(g, {gen_legacy}, 8, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C16, msm, 40000, 1500000, "observations came out") {
  if (converse(g, {gen_msm_any, gen_msm_any, gen_msm_any, gen_e1020}, 6, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C16, mixed, 30000, 1500000, "observations came out") {
  if (converse(g, {gen_msm_any, gen_legacy, gen_legacy, gen_msm_any, gen_e1020, gen_msm13, gen_msm_cells, gen_setmsm_other}, 14, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C16, full, 4000, 150000, "observations came out") {
  Cfg c = gen_cfg(g);
  c.hold = true;
  if (converse(g, {gen_msm_big, gen_msm_big, gen_msm_big, gen_msm_big, gen_msm_big, g.coin() ? gen_legacy_big : gen_msm_any}, 12, c, 1) > 0) g.nontrivial();
}
#define EPH(NAME, GEN)                                                     \
  PBT_PROP(C17, NAME, 25000, 1000000, "an ephemeris came out") {           \
    if (converse(g, {GEN}, 4, gen_cfg(g)) > 0) g.nontrivial();             \
  }
EPH(gps, gen_e1019)
EPH(glo, gen_e1020)
EPH(bds, gen_e1042)
EPH(qzss, gen_e1044)
EPH(gal, gen_e1045)
EPH(gali, gen_e1046)
#ifdef PBT_GROUP_t_rtcm
PBT_PROP(C37, effect, 40000, 1500000, "observations came out under biases or disabled constellations") {
  if (converse(g, {gen_legacy, gen_msm_any, gen_msm_any, gen_pos, gen_e1019, gen_e1020, gen_e1042, gen_e1046}, 8, gen_cfg(g), 3, 100) > 0) g.nontrivial();
}
#endif
PBT_PROP(C17, sbas, 20000, 800000, "frames came out") {
  if (converse(g, {gen_4075}, 3, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C17, mixed, 20000, 800000, "an ephemeris came out") {
  if (converse(g, {gen_eph, gen_eph, gen_4075, gen_msm_any}, 10, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C18, pair, 50000, 2000000, "corrections came out") {
  if (converse(g, {gen_ssr_pair}, 8, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C18, any, 50000, 2000000, "corrections came out") {
  if (converse(g, {gen_ssr_any, gen_ssr_any, gen_ssr_pair, gen_msm_any}, 6, gen_cfg(g)) > 0) g.nontrivial();
}
PBT_PROP(C19, station, 80000, 3000000, "messages came out") {
  if (converse(g, {gen_pos, gen_1029, gen_1033, gen_1230, gen_4062, gen_desc_ignored, gen_msm13}, 8, gen_cfg(g), 12) > 0) g.nontrivial();
}
PBT_PROP(C19, biases, 40000, 1500000, "messages came out") {
  if (converse(g, {gen_1033, gen_1033, gen_1230, gen_pos}, 8, gen_cfg(g), 25) > 0) g.nontrivial();
}
namespace {
Frm gen_tiny_legacy(G &g, Model &md) { return gen_legacy_n(g, md, g.pick({1004, 1012, 1002, 1010})); }
}  // namespace
PBT_PROP(C20, moving, 40000, 1500000, "messages with a time came out") {
  Cfg c = gen_cfg(g);
  c.fixed = false;
  if (converse(g, {gen_tiny_legacy, gen_msm_any, gen_e1019, gen_e1020, gen_e1046, gen_ssr_any, gen_e1042}, 12, c, 20) > 0) g.nontrivial();
}
PBT_PROP(C20, edges, 40000, 1500000, "messages with a time came out") {
  Cfg c = gen_cfg(g);
  s64 wk = c.t0 / WEEK;
  c.t0 = wk * WEEK + (s64)g.draw(8) * DAY + g.pick<s64>({0, 18000, 14000, -3 * HOUR, -3 * HOUR + 18000, DAY / 2, 21 * HOUR}) + g.range(-4, 4) * (g.coin() ? 125 : 10000);
  leap_at(c.t0);
  if (converse(g, {gen_tiny_legacy, gen_msm_any, gen_ssr_any}, 10, c, 6) > 0) g.nontrivial();
}
PBT_PROP(C16, long, 250, 20000, "at least 100 frames were checked") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_legacy}, {gen_tiny_legacy, gen_msm_any}, {gen_msm_any, gen_e1020}, {gen_tiny_legacy, gen_msm_any, gen_e1020, gen_pos, gen_1029}};
  long_run(g, g.pick(mixes), gen_cfg(g));
}
PBT_PROP(C18, long, 250, 20000, "at least 100 frames were checked") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_ssr_pair}, {gen_ssr_any}, {gen_ssr_any, gen_ssr_pair, gen_pos}};
  long_run(g, g.pick(mixes), gen_cfg(g));
}
PBT_PROP(C19, long, 250, 20000, "at least 100 frames were checked") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_pos, gen_1029, gen_1033, gen_1230, gen_4062}, {gen_1029}, {gen_4062, gen_1230}};
  long_run(g, g.pick(mixes), gen_cfg(g));
}
PBT_PROP(C17, long, 200, 20000, "at least 100 frames were checked") {
  static const std::vector<std::vector<Gen>> mixes = {{gen_eph}, {gen_4075}, {gen_eph, gen_4075, gen_tiny_legacy}};
  long_run(g, g.pick(mixes), gen_cfg(g));
}
PBT_PROP(C20, long, 200, 20000, "at least 100 frames were checked") {
  Cfg c = gen_cfg(g);
  c.fixed = false;
  long_run(g, {gen_tiny_legacy, gen_msm_any, gen_e1019, gen_e1020, gen_ssr_any}, c, 10);
}
PBT_PROP(C21, gate, 50000, 2000000, "messages came out") {
  Cfg c;
  if (g.chance(20)) c.t0 = gen_time(g);
  c.feedback = g.coin();
  if (converse(g, all_gens, 16, c, 10) > 0) g.nontrivial();
}
PBT_PROP(C21, learning, 40000, 1500000, "messages came out") {
  Cfg c;
  c.feedback = true;
  if (converse(g, {gen_e1019, gen_msm_any, gen_legacy, gen_e1046, gen_1029, gen_e1020, gen_ssr_any, gen_4062}, 14, c, 0) > 0) g.nontrivial();
}
PBT_PROP(C21, truth, 60000, 2000000, "at least two updates were accepted") {
  time_truth_t tt;
  memset(&tt, (int)g.below(256), sizeof tt);
  time_truth_init(&tt);
  bool known = false;
  s64 cur = 0;
  int acc = 0;
  for (int n = (int)g.range(1, 25); n; n--) {
    s64 t = known && g.chance(80) ? cur + g.range(-4, 6) * (g.coin() ? 125 : g.coin() ? 1000 : WEEK) : g.chance(15) ? (s64)g.range(1870, 1880) * WEEK + (s64)g.draw(3) * 125 : gen_time(g);
    gps_time_t x = gt(t);
    bool bad = g.chance(10);
    if (bad) {
      switch (g.draw(5)) {
        case 0: x.wn = -1; break;
        case 1: x.tow = -0.125; break;
        case 2: x.tow = 604800; break;
        case 3: x.tow = -1; break;
        default: x.wn = (s16)g.range(0, 1875);
      }
    }
    bool valid = x.wn >= 1876 && x.tow >= 0 && x.tow < 604800;
    bool want, got;
    g.fingerprint(&x, sizeof x);
    g.note(fmt("%d:%.3f", x.wn, x.tow));
    if (g.chance(70)) {
      auto src = g.pick({TIME_TRUTH_EPH_GPS, TIME_TRUTH_EPH_GAL, TIME_TRUTH_EPH_BDS});
      want = valid && (!known || t > cur);
      got = time_truth_update(&tt, src, x);
      EQ(got, want, "update accepted");
    } else {
      sbp_msg_t m;
      memset(&m, 0, sizeof m);
      sbp_msg_type_t type = g.pick({SbpMsgEphemerisGps, SbpMsgEphemerisGps, SbpMsgEphemerisGps, SbpMsgEphemerisGal, SbpMsgEphemerisBds, SbpMsgObs, SbpMsgEphemerisGlo, SbpMsgEphemerisQzss});
      int health = g.chance(70) ? 0 : (int)g.range(1, 255);
      t = t / 1000 * 1000;
      if (x.wn < 0 || t < 0 || t / WEEK > 32767) continue;
      x = gt(t);
      valid = x.wn >= 1876;
      u32 tow = (u32)x.tow;
      if (g.chance(5)) { tow = (u32)g.range(604800, 0xFFFFFFFFll); valid = false; }
      auto fill = [&](auto &e) { e.common.toe.wn = (u16)x.wn; e.common.toe.tow = tow; e.common.health_bits = (u8)health; };
      switch (type) {
        case SbpMsgEphemerisGps: fill(m.ephemeris_gps); break;
        case SbpMsgEphemerisGal: fill(m.ephemeris_gal); break;
        case SbpMsgEphemerisBds: fill(m.ephemeris_bds); break;
        case SbpMsgEphemerisGlo: fill(m.ephemeris_glo); break;
        case SbpMsgEphemerisQzss: fill(m.ephemeris_qzss); break;
        default: m.obs.header.t.wn = (u16)x.wn; m.obs.header.t.tow = tow;
      }
      want = type == SbpMsgEphemerisGps && health == 0 && valid && (!known || t > cur);
      got = time_truth_update_from_sbp(&tt, type, &m);
      EQ(got, want, "update from SBP accepted");
    }
    if (want) { known = true; cur = t; acc++; }
    enum time_truth_state st;
    gps_time_t now;
    time_truth_get(&tt, &st, &now);
    EQ(st == TIME_TRUTH_SOLVED, known, "time truth solved");
    if (known) { EQ(now.wn, cur / WEEK, "week"); NEAR(now.tow, (double)(cur % WEEK) / 1000, 1e-9, "time of week"); }
    else PBT_CHECK(!gps_time_valid(&now), "an unknown time truth gives %d:%.3f", now.wn, now.tow);
    if (g.chance(20)) { time_truth_get(&tt, nullptr, nullptr); time_truth_get(&tt, &st, nullptr); }
  }
  g.nontrivial_if(acc >= 2);
}
// the same under the deterministic scheduler: every interleaving of the memory accesses can be generated, and a failing one
// replays. Checked against what a variable that keeps the newest time offered does, whatever the order.
PBT_PROP(C21, schedules, 60000, 3000000, "several threads took turns inside the time truth") {
  time_truth_t tt;
  memset(&tt, (int)g.below(256), sizeof tt);
  PICK(2, time_truth_init)(&tt);
  auto tow_of = [](int wn) { return (wn * 7919) % 604800; };  // a mixture of two updates shows
  struct Op { bool upd, sbp; int wn; bool took = false; int saw = 0; double tow = 0; u32 from = 0, to = 0; };
  size_t nt = (size_t)g.range(2, 4);
  std::vector<std::vector<Op>> ops(nt);
  int start = g.coin() ? 0 : 1880;
  if (start) { gps_time_t t; t.wn = (s16)start; t.tow = tow_of(start); PICK(2, time_truth_update)(&tt, TIME_TRUTH_EPH_GPS, t); }
  int updaters = 0;
  for (auto &v : ops) {
    int pct = g.pick({100, 50, 50, 0});
    bool u = false;
    for (int n = (int)g.range(1, 4); n; n--) {
      Op o;
      o.upd = g.chance((unsigned)pct);
      o.sbp = g.chance(30);
      o.wn = o.upd ? (int)g.range(1876, 1886) : 0;
      u |= o.upd;
      v.push_back(o);
    }
    updaters += u;
  }
  u32 clock = 0;
  std::vector<std::function<void()>> bodies;
  for (auto &v : ops)
    bodies.push_back([&] {
      for (auto &o : v) {
        o.from = ++clock;
        if (!o.upd) {
          enum time_truth_state st;
          gps_time_t t;
          PICK(2, time_truth_get)(&tt, &st, &t);
          o.saw = st == TIME_TRUTH_SOLVED ? t.wn : 0;
          o.tow = st == TIME_TRUTH_SOLVED ? t.tow : 0;
        } else if (o.sbp) {
          sbp_msg_t m;
          memset(&m, 0, sizeof m);
          m.ephemeris_gps.common.toe.wn = (u16)o.wn;
          m.ephemeris_gps.common.toe.tow = (u32)tow_of(o.wn);
          o.took = PICK(2, time_truth_update_from_sbp)(&tt, SbpMsgEphemerisGps, &m);
        } else {
          gps_time_t t;
          t.wn = (s16)o.wn;
          t.tow = tow_of(o.wn);
          o.took = PICK(2, time_truth_update)(&tt, TIME_TRUTH_EPH_GPS, t);
        }
        o.to = ++clock;
      }
    });
  auto r = sched::run(sched::gen_plan(g, 12, 6, 200), {{&tt, sizeof tt}}, bodies);
  std::vector<Op> all;
  for (size_t i = 0; i < nt; i++) for (auto &o : ops[i]) {
    all.push_back(o);
    g.note(o.upd ? fmt("thread %zu [%u,%u] offers week %d: %s", i, o.from, o.to, o.wn, o.took ? "taken" : "refused") : fmt("thread %zu [%u,%u] reads week %d", i, o.from, o.to, o.saw));
  }
  std::map<int, int> taken;
  for (auto &o : all) if (o.upd && o.took) taken[o.wn]++;
  for (auto &x : taken) PBT_CHECK(x.second == 1, "week %d accepted %d times", x.first, x.second);
  int best = start;
  for (auto &o : all) if (o.upd) best = std::max(best, o.wn);
  PBT_CHECK(best == start || taken.count(best), "the newest time, week %d, was not accepted", best);
  for (auto &o : all) {
    int before = start, during = start;  // newest offered before this began, and before it ended
    for (auto &p : all) if (p.upd && &p != &o) {
      if (p.to < o.from) before = std::max(before, p.wn);
      if (p.from < o.to) during = std::max(during, p.wn);
    }
    if (o.upd) {
      PBT_CHECK(!o.took || o.wn > before, "week %d was accepted after week %d", o.wn, before);
      PBT_CHECK(o.took || o.wn <= during, "week %d was refused, and nothing newer than %d had been offered", o.wn, during);
    } else {
      PBT_CHECK(o.saw >= before, "week %d was read after week %d had been offered", o.saw, before);
      PBT_CHECK(o.saw <= during, "week %d was read, the newest offered was %d", o.saw, during);
      if (!o.saw) continue;
      PBT_CHECK(o.saw == start || taken.count(o.saw), "week %d was read and had not been accepted", o.saw);
      PBT_CHECK(fabs(o.tow - tow_of(o.saw)) < 1e-9, "week %d was read with time of week %.3f", o.saw, o.tow);
      for (auto &p : all) if (!p.upd && p.to < o.from) PBT_CHECK(p.saw <= o.saw, "went back from week %d to %d", p.saw, o.saw);
    }
  }
  enum time_truth_state st;
  gps_time_t t;
  PICK(2, time_truth_get)(&tt, &st, &t);
  if (best) PBT_CHECK(st == TIME_TRUTH_SOLVED && t.wn == best && fabs(t.tow - tow_of(best)) < 1e-9, "final time %d:%.3f, the newest offered was week %d", t.wn, t.tow, best);
  else PBT_CHECK(st == TIME_TRUTH_UNKNOWN, "solved from nothing");
  g.nontrivial_if(updaters > 1 && r.switches > 1);
  for (auto &o : all) { u32 f[3] = {(u32)o.wn, o.from, o.to}; g.fingerprint(f, sizeof f); }
}
PBT_PROP(C21, threads, 250, 20000, "several writers offered times at once") {
  time_truth_t tt;
  time_truth_init(&tt);
  int nw = (int)g.range(1, 4), nr = (int)g.range(1, 3), per = (int)g.range(20, 300);
  // week and time of week are tied together, so that a mixture of two updates shows
  auto tow_of = [](int wn) { return (double)((wn * 7919) % 604800); };
  std::vector<std::vector<int>> offer((size_t)nw);
  int best = 0;
  for (auto &o : offer)
    for (int i = 0; i < per; i++) { int wn = (int)g.range(1876, 1876 + per * 4); if (g.chance(70)) wn = 1876 + i * 4 + (int)g.draw(8); o.push_back(wn); best = std::max(best, wn); }
  std::atomic<bool> go{false};
  std::atomic<int> done{0};
  std::vector<std::string> err((size_t)nr);
  std::vector<std::vector<int>> took((size_t)nw);
  std::vector<std::thread> th;
  for (int w = 0; w < nw; w++)
    th.emplace_back([&, w] {
      while (!go) {}
      for (int wn : offer[(size_t)w]) {
        gps_time_t t;
        t.wn = (s16)wn;
        t.tow = tow_of(wn);
        if (time_truth_update(&tt, TIME_TRUTH_EPH_GPS, t)) took[(size_t)w].push_back(wn);
      }
      done++;
    });
  for (int r = 0; r < nr; r++)
    th.emplace_back([&, r] {
      while (!go) {}
      int last = 0;
      bool fin = false;
      while (!fin) {
        fin = done == nw;
        enum time_truth_state st;
        gps_time_t t;
        time_truth_get(&tt, &st, &t);
        if (st != TIME_TRUTH_SOLVED) {
          if (last) err[(size_t)r] = "became unknown again";
          continue;
        }
        if (t.wn < last) err[(size_t)r] = fmt("went back from week %d to %d", last, t.wn);
        if (fabs(t.tow - tow_of(t.wn)) > 1e-9) err[(size_t)r] = fmt("week %d with time of week %.3f was never offered", t.wn, t.tow);
        last = t.wn;
      }
      if (last != best) err[(size_t)r] = fmt("final week %d, the newest offered was %d", last, best);
    });
  go = true;
  for (auto &t : th) t.join();
  for (auto &e : err) PBT_CHECK(e.empty(), "%s", e.c_str());
  std::map<int, int> n;
  for (auto &v : took) {
    for (size_t i = 0; i < v.size(); i++) { if (i) PBT_CHECK(v[i] > v[i - 1], "one writer's accepted times are not increasing: %d after %d", v[i], v[i - 1]); n[v[i]]++; }
  }
  for (auto &x : n) PBT_CHECK(x.second == 1, "week %d accepted %d times", x.first, x.second);
  PBT_CHECK(n.count(best), "the newest time was not accepted");
  g.nontrivial_if(nw > 1);
  u64 fpv = (u64)best * 1000 + (u64)per;
  for (auto &o : offer) g.fingerprint(o.data(), o.size() * sizeof(int));
  g.fingerprint(&fpv, sizeof fpv);
}

// ---- streams -----------------------------------------------------------------
namespace {
const u16 NUMS[] = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1010, 1012, 1019, 1020, 1029, 1033, 1042, 1044, 1045, 1046, 1057, 1058, 1059, 1060, 1063, 1064, 1065, 1066, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1084, 1085, 1086, 1087, 1094, 1095, 1096, 1097, 1104, 1107, 1114, 1117, 1124, 1125, 1126, 1127, 1230, 1240, 1241, 1242, 1243, 1246, 1247, 1248, 1249, 1258, 1259, 1260, 1261, 1265, 1266, 1267, 1268, 1269, 1270, 4062, 4075};
Bytes wild_payload(G &g, Model &md) {
  Bytes p;
  switch (g.below(4)) {
    case 0: {
      p = g.bytes(g.chance(20) ? g.below(1024) : g.below(150));
      if (p.size() >= 2) setu(p, 0, 12, NUMS[g.draw(sizeof NUMS / 2)]);
      return p;
    }
    case 1: p = g.pick(all_gens)(g, md).p; p.resize(std::min<size_t>(1023, g.below(p.size() + 20))); return p;
    case 2: {
      p = g.pick(all_gens)(g, md).p;
      for (int j = (int)g.range(1, 5); j && !p.empty(); j--) p[g.below(p.size())] = (u8)g.bits(8);
      return p;
    }
    default: {  // plausible header, arbitrary rest
      p = g.pick(all_gens)(g, md).p;
      for (size_t k = std::min<size_t>(p.size(), 7 + g.below(20)); k < p.size(); k++) p[k] = (u8)g.draw(256);
      return p;
    }
  }
}
Cfg wild_cfg(G &g) {
  Cfg c;
  if (g.chance(85)) { c.t0 = g.chance(90) ? gen_time(g) : (s64)g.draw(32767) * WEEK + (s64)g.draw((u64)WEEK / 125) * 125; c.fixed = g.chance(30); }
  if (!c.fixed && c.t0 >= 0 && c.t0 < 1876 * WEEK) c.t0 += 1876 * WEEK;
  if (c.t0 >= 32767 * WEEK) c.t0 = 30000 * WEEK;
  if (c.t0 >= 0 && g.chance(10)) c.t0 += WEEK - c.t0 % WEEK - g.range(1, 100);  // the last tenth of a second of a week
  else if (c.t0 >= 0 && g.chance(10)) c.t0 += g.range(0, 124);
  c.feedback = g.coin();
  return c;
}
Model gen_model(Cfg c) {  // only to steer the generators
  Model m;
  c.t0 = c.t0 > 1000 * WEEK && c.t0 < 5000 * WEEK ? c.t0 : -1;
  m.start(c);
  return m;
}
Bytes converse_stream(G &g, const Cfg &c) {  // good frames of few kinds, which have to do with each other
  Bytes b;
  Model md = gen_model(c);
  std::vector<Gen> gens{g.pick(all_gens), g.pick(all_gens)};
  if (g.chance(40)) gens = {gen_ssr_pair};
  for (int n = (int)g.range(2, 8); n; n--) {
    Bytes p = g.pick(gens)(g, md).p;
    if (!p.empty() && p.size() <= 1023) append(b, rtcm_frame(p));
  }
  return b;
}
Bytes hostile(G &g, const Cfg &c) {
  Bytes b;
  Model md = gen_model(c);
  size_t n = (size_t)g.range(1, 8);
  for (size_t k = 0; k < n; k++) {
    switch (g.below(8)) {
      case 0: append(b, g.bytes(g.below(40))); break;
      case 1: {
        u16 len = (u16)(g.chance(50) ? g.bits(10) : g.pick<int>({0, 1, 2, 1022, 1023}));
        append(b, {0xD3, (u8)(len >> 8 | g.draw(2) * (u8)g.bits(8)), (u8)len});
        append(b, g.bytes(g.below(64)));
        break;
      }
      case 2: case 3: { Bytes p = wild_payload(g, md); append(b, rtcm_frame(p)); break; }
      case 4: {
        Bytes x = rtcm_frame(g.pick(all_gens)(g, md).p);
        if (g.coin()) x.resize(g.below(x.size())); else x[g.below(x.size())] ^= (u8)g.range(1, 255);
        append(b, x);
        break;
      }
      default: { Bytes p = g.pick(all_gens)(g, md).p; if (!p.empty() && p.size() <= 1023) append(b, rtcm_frame(p)); }
    }
  }
  if (g.chance(5)) append(b, g.bytes(5000));
  return b;
}
}  // namespace
PBT_PROP(C01, stream, 50000, 2000000, "messages came out of a hostile stream") {
  Options opt;
  gen_options(g);
  Source s;
  Cfg c = wild_cfg(g);
  s.data = hostile(g, c);
  s.chunks = gen_chunks(g);
  Inst in(&s, c, false, (u8)g.below(256));
  in.run();
  if (g.chance(30)) {
    append(s.data, hostile(g, c));
    s.eof = false;
    in.run();
    g.label("resumed");
  }
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(!s.out.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C01, payload, 80000, 3000000, "messages came out of arbitrary payloads") {
  Options opt;
  Source s;
  Cfg c = wild_cfg(g);
  Inst in(&s, c, false, (u8)g.below(256));
  Model md = gen_model(c);
  for (int n = (int)g.range(1, 8); n; n--) {
    Bytes b = g.chance(70) ? wild_payload(g, md) : g.pick(all_gens)(g, md).p;
    g.fingerprint(b.data(), b.size());
    bool frame = g.coin();
    if (frame) {
      size_t n = b.size();
      b = rtcm_frame(b);
      if (g.chance(40)) b.resize(g.below(n));  // callers also pass the payload's length
    }
    std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(b.size() + !b.size()), free);
    memcpy(p.get(), b.data(), b.size());
    if (frame) rtcm2sbp_decode_frame(p.get(), (u32)b.size(), in.st.get());
    else rtcm2sbp_decode_payload(p.get(), (u32)b.size(), in.st.get());
  }
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(!s.out.empty());
}

// intact frames of a stream, found by a scanner of our own: the first frame with a right
// CRC at or after the position, then the byte behind it
namespace {
std::vector<std::pair<size_t, size_t>> scan(const Bytes &b) {
  std::vector<std::pair<size_t, size_t>> v;
  size_t i = 0;
  while (i + 6 < b.size()) {
    size_t len = (size_t)((b[i + 1] & 3) << 8 | b[i + 2]);
    if (b[i] == 0xD3 && len >= 1 && i + len + 6 <= b.size() &&
        crc24q(&b[i], len + 3) == ((u32)b[i + len + 3] << 16 | (u32)b[i + len + 4] << 8 | b[i + len + 5])) {
      v.push_back({i, len + 6});
      i += len + 6;
    } else i++;
  }
  return v;
}
// could a frame begin outside these frames which the end of the stream cuts short?
bool waiting(const Bytes &b, const std::vector<std::pair<size_t, size_t>> &put) {
  size_t i = 0, k = 0;
  while (i < b.size()) {
    if (k < put.size() && put[k].first == i) { i += put[k++].second; continue; }
    if (b[i] == 0xD3 && (i + 3 > b.size() || i + 6 + (size_t)((b[i + 1] & 3) << 8 | b[i + 2]) > b.size())) return true;
    i++;
  }
  return false;
}
}  // namespace
PBT_PROP(C01, crowded, 4000, 150000, "messages came out of epochs of many observations") {  // up to and beyond what the buffer holds
  Options opt;
  Source s;
  Cfg c = wild_cfg(g);
  c.hold = true;
  Inst in(&s, c, false, (u8)g.below(256));
  Model md = gen_model(c);
  std::vector<Gen> gens{gen_msm_big, gen_msm_big, gen_msm_big, g.coin() ? gen_legacy_big : gen_msm_big};
  for (int n = (int)g.range(4, 12); n; n--) {
    Bytes b = g.pick(gens)(g, md).p;
    if (g.chance(5) && !b.empty()) b[g.below(b.size())] ^= (u8)(1 << g.draw(8));
    g.fingerprint(b.data(), b.size());
    std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(b.size() + !b.size()), free);
    if (!b.empty()) memcpy(p.get(), b.data(), b.size());
    rtcm2sbp_decode_payload(p.get(), (u32)b.size(), in.st.get());
  }
  for (auto &o : s.out) {
    check_wellformed(o);
    if (o.type == SbpMsgLog && o.msg.log.level == 3) g.label("full");
  }
  g.nontrivial_if(!s.out.empty());
}
PBT_PROP(C07, stream, 50000, 2000000, "a damaged frame or garbage lies between intact frames which produce messages") {
  Options opt;
  Source s, r;
  Cfg c = gen_cfg(g);
  s.chunks = gen_chunks(g);
  Model md = gen_model(c);
  std::vector<std::pair<size_t, size_t>> put;
  size_t n = (size_t)g.range(2, 8);
  bool dam = false, nt = false;
  for (size_t i = 0; i < n; i++) {
    switch (g.below(6)) {
      case 0: {
        Bytes x = g.bytes(g.below(60));
        for (auto &ch : x) if (g.chance(12)) ch = 0xD3;
        append(s.data, x);
        dam = true;
        break;
      }
      case 1: {  // a burst of up to 24 bits, which the CRC always finds
        Bytes p = g.pick(all_gens)(g, md).p;
        if (p.empty() || p.size() > 1023) throw Discard{};
        Bytes x = rtcm_frame(p);
        size_t at = g.below(x.size() * 8 - 1), w = (size_t)g.range(1, 24);
        for (size_t k = 0; k < w && at + k < x.size() * 8; k++)
          if (k == 0 || g.coin()) x[(at + k) / 8] ^= (u8)(0x80 >> ((at + k) % 8));
        append(s.data, x);
        dam = true;
        break;
      }
      case 2: {  // cut short
        Bytes p = g.pick(all_gens)(g, md).p;
        if (p.empty() || p.size() > 1023) throw Discard{};
        Bytes x = rtcm_frame(p);
        x.resize(g.below(x.size()));
        append(s.data, x);
        dam = true;
        break;
      }
      default: {
        Bytes p = g.pick(all_gens)(g, md).p;
        if (p.empty() || p.size() > 1023) throw Discard{};
        Bytes x = rtcm_frame(p);
        put.push_back({s.data.size(), x.size()});
        append(s.data, x);
        nt |= dam;
      }
    }
  }
  if (g.chance(30) || waiting(s.data, put)) s.data.resize(s.data.size() + 1030, 0);  // no frame is left waiting
  else g.label("to the end");
  // a frame which is intact by accident is none of ours
  if (scan(s.data) != put) throw Discard{};
  {
    Inst in(&s, c, false, (u8)g.below(256));
    in.run();
  }
  Inst ref(&r, c);
  for (auto &f : put) rtcm2sbp_decode_frame(&s.data[f.first], (u32)f.second, ref.st.get());
  std::string a = s.render(), b = r.render();
  if (a != b) PBT_FAIL("framing", "intact frames alone convert differently:%s", first_diff(a, b).c_str());
  g.nontrivial_if(nt && !r.out.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C09, rtcm, 40000, 1500000, "output was produced and the chunkings differ") {
  Options opt;
  Source a, b;
  Cfg c = wild_cfg(g);
  a.data = b.data = hostile(g, c);
  a.chunks = gen_chunks(g);
  b.chunks = gen_chunks(g);
  run(a, c);
  run(b, c);
  std::string x = a.render(), y = b.render();
  if (x != y) PBT_FAIL("chunking", "output depends on the chunking:%s", first_diff(x, y).c_str());
  g.nontrivial_if(!a.out.empty() && a.chunks != b.chunks);
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, rtcm, 40000, 1500000, "the run produced messages") {
  Options opt;
  Source a, b, c, x;
  Cfg cf = wild_cfg(g), cx = wild_cfg(g);
  a.data = g.chance(30) ? converse_stream(g, cf) : hostile(g, cf);
  if (g.coin()) {  // the other instance has seen the beginning of the same conversation
    cx = cf;
    share(g, x.data, a.data, 0xD3);
  } else x.data = hostile(g, cx);
  b.data = c.data = a.data;
  a.chunks = b.chunks = c.chunks = gen_chunks(g);
  run(a, cf, false, (u8)g.below(256));
  {
    Inst ib(&b, cf, false, (u8)g.below(256)), ix(&x, cx, false, 0);
    bool db = false, dx = false;
    while (!db || !dx) {
      if (!dx && (db || g.coin())) dx = ix.step() <= 0;
      else if (!db) db = ib.step() <= 0;
    }
    run(c, cf, true, 0, g.coin() ? &ix : g.coin() ? &ib : nullptr);
  }
  std::string ra = a.render(), rb = b.render(), rc = c.render();
  if (ra != rb) PBT_FAIL("instances", "another instance changed the output:%s", first_diff(rb, ra).c_str());
  if (ra != rc) PBT_FAIL("memory", "output depends on memory contents:%s", first_diff(rc, ra).c_str());
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, rtcm_threads, 10000, 500000, "both threads produced messages and took turns") {
  Options opt;
  Cfg ca = wild_cfg(g), cx = wild_cfg(g);
  Source a, x;
  a.data = g.chance(60) ? converse_stream(g, ca) : hostile(g, ca);
  if (g.chance(30)) { x.data = a.data; cx = ca; } else x.data = g.chance(60) ? converse_stream(g, cx) : hostile(g, cx);
  a.chunks = gen_chunks(g);
  x.chunks = gen_chunks(g);
  Source b, y;
  b.data = a.data; b.chunks = a.chunks;
  y.data = x.data; y.chunks = x.chunks;
  run(a, ca);
  run(x, cx);
  auto r = sched::run(sched::gen_plan(g, 12, g.coin() ? 12 : 3000, 20000), {}, {[&] { run(b, ca, 2); }, [&] { run(y, cx, 2); }});
  std::string ra = a.render(), rb = b.render(), rx = x.render(), ry = y.render();
  if (ra != rb) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(rb, ra).c_str());
  if (rx != ry) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(ry, rx).c_str());
  g.nontrivial_if(!a.out.empty() && !x.out.empty() && r.switches);
  g.fingerprint(a.data.data(), a.data.size());
}
