// SBP to NMEA (nmea.c, sbp_nmea.c): C06, C25, C26, C27, C36.
#include "common.h"
#include "turns.h"
#include <memory>
#include <set>
extern "C" {
#include <gnss-converters/nmea.h>
#include <gnss-converters/sbp_nmea.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/pvt_result.h>
#include <swiftnav/signal.h>
void alt_sbp2nmea_init(sbp2nmea_t *, sbp2nmea_mode_t, void (*)(char *, void *), void *);
void alt_sbp2nmea(sbp2nmea_t *, const sbp_msg_t *, sbp2nmea_sbp_id_t);
void alt_sbp2nmea_obs(sbp2nmea_t *, const sbp_msg_obs_t *);
}
SCH(sbp2nmea) SCH(sbp2nmea_init) SCH(sbp2nmea_obs)
using namespace ref;
namespace {
enum { GGA, RMC, VTG, HDT, GLL, ZDA, GSA, GST, GSV, PUBX, THS, NSENT };
const char *SNAME[] = {"GGA", "RMC", "VTG", "HDT", "GLL", "ZDA", "GSA", "GST", "GSV", "PUBX", "THS"};

std::string show(const std::string &s) {
  std::string o;
  for (unsigned char c : s) o += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\x%02x", c);
  return o;
}
// exactly one sentence: $ body * XX CR LF
std::string body_of(const std::string &s) {
  size_t n = s.size();
  PBT_CHECK(n >= 6 && s[0] == '$' && s[n - 5] == '*' && s[n - 2] == '\r' && s[n - 1] == '\n', "\"%s\"", show(s).c_str());
  u8 x = 0;
  for (size_t i = 1; i < n - 5; i++) {
    unsigned char c = (unsigned char)s[i];
    PBT_CHECK(c >= 32 && c < 127 && c != '$' && c != '*', "character %zu of \"%s\"", i, show(s).c_str());
    x ^= c;
  }
  PBT_CHECK(s.substr(n - 4, 2) == fmt("%02X", x), "checksum of \"%s\"", show(s).c_str());
  return s.substr(1, n - 6);
}
std::vector<std::string> split(const std::string &b) {
  std::vector<std::string> f(1);
  for (char c : b)
    if (c == ',') f.emplace_back();
    else f.back() += c;
  return f;
}
int kind_of(const std::vector<std::string> &f) {
  const std::string &n = f[0];
  if (n == "PUBX") return f.size() > 1 && f[1] == "00" ? PUBX : -1;
  if (n.size() != 5) return -1;
  std::string t = n.substr(0, 2), k = n.substr(2);
  if (t != "GP" && t != "GL" && t != "GA" && t != "GB" && t != "GN") return -1;
  for (int i = 0; i < NSENT; i++)
    if (k == SNAME[i] && i != PUBX) return i;
  return -1;
}

struct Sentence {
  std::string raw;
  std::vector<std::string> f;
  int kind;
};
struct Dev {  // one converter instance
  sbp2nmea_t *st;
  std::vector<std::string> out;
  int alt;
  explicit Dev(int mode, int alt_ = 0, u8 fill = 0xA5, const Dev *worn = nullptr) : alt(alt_) {
    st = (sbp2nmea_t *)malloc(sizeof *st);
    memset(st, fill, sizeof *st);
    if (worn) memcpy(st, worn->st, sizeof *st);  // memory that another instance has used
    PICK(alt, sbp2nmea_init)(st, (sbp2nmea_mode_t)mode, [](char *m, void *c) { sched::step(); ((Dev *)c)->out.push_back(m); }, this);
  }
  ~Dev() { free(st); }
  Dev(const Dev &) = delete;
  void msg(const sbp_msg_t &m, int id) {
    std::unique_ptr<sbp_msg_t> h(new sbp_msg_t(m));
    PICK(alt, sbp2nmea)(st, h.get(), (sbp2nmea_sbp_id_t)id);
  }
  void obs(const sbp_msg_obs_t &o) {
    std::unique_ptr<sbp_msg_obs_t> h(new sbp_msg_obs_t(o));
    PICK(alt, sbp2nmea_obs)(st, h.get());
  }
};
Sentence parse(const std::string &raw) {
  Sentence s;
  s.raw = raw;
  s.f = split(body_of(raw));
  s.kind = kind_of(s.f);
  PBT_CHECK(s.kind >= 0, "unknown sentence \"%s\"", show(raw).c_str());
  return s;
}

// ---- model of what the converter has been told ---------------------------
struct Cfg {
  int mode = SBP2NMEA_MODE_GNSS;
  double freq = 10;
  int rate[NSENT] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  double cog_thr = 0.1f, cog_upd = 0.1f;
  u16 base_id = 0;
};
struct Model {
  Cfg c;
  sbp_msg_t m[SBP2NMEA_SBP_CNT];
  bool fused;  // sentences come from the fused solution
  bool wagon = false;
  int obs_total = 0, obs_count = 0;
  s64 obs_wn = 0, obs_tow = 0;
  std::vector<sbp_v4_gnss_signal_t> sids;
  s64 last[NSENT] = {0};
  bool sent[NSENT] = {false};
  double held = 0;        // course kept while standing still
  bool held_known = true;
  explicit Model(const Cfg &cfg) : c(cfg) {
    memset(m, 0, sizeof m);
    fused = c.mode == SBP2NMEA_MODE_FUSED;
  }
  const sbp_msg_pos_llh_cov_t &pos() const { return m[fused ? SBP2NMEA_SBP_POS_LLH_COV : SBP2NMEA_SBP_POS_LLH_COV_GNSS].pos_llh_cov; }
  const sbp_msg_vel_ned_t &vel() const { return m[fused ? SBP2NMEA_SBP_VEL_NED : SBP2NMEA_SBP_VEL_NED_GNSS].vel_ned; }
  const sbp_msg_utc_time_t &utc() const { return m[fused ? SBP2NMEA_SBP_UTC_TIME : SBP2NMEA_SBP_UTC_TIME_GNSS].utc_time; }
  const sbp_msg_dops_t &dops() const { return m[SBP2NMEA_SBP_DOPS].dops; }
  const sbp_msg_soln_meta_t &soln() const { return m[SBP2NMEA_SBP_SOLN_META].soln_meta; }
  int posmode() const { return pos().flags & 7; }
  bool fix() const { return posmode() >= 1 && posmode() <= 6; }
  int quality() const {
    static const int q[] = {0, 1, 2, 5, 4, 6, 2, 0};
    return q[posmode()];
  }
  bool corrected() const { return posmode() >= 2 && posmode() <= 4; }
  u32 tow(int id) const {
    switch (id) {
      case SBP2NMEA_SBP_GPS_TIME: return m[id].gps_time.tow;
      case SBP2NMEA_SBP_GPS_TIME_GNSS: return m[id].gps_time_gnss.tow;
      case SBP2NMEA_SBP_UTC_TIME: return m[id].utc_time.tow;
      case SBP2NMEA_SBP_UTC_TIME_GNSS: return m[id].utc_time_gnss.tow;
      case SBP2NMEA_SBP_POS_LLH_COV: return m[id].pos_llh_cov.tow;
      case SBP2NMEA_SBP_POS_LLH_COV_GNSS: return m[id].pos_llh_cov_gnss.tow;
      case SBP2NMEA_SBP_VEL_NED: return m[id].vel_ned.tow;
      case SBP2NMEA_SBP_VEL_NED_GNSS: return m[id].vel_ned_gnss.tow;
      case SBP2NMEA_SBP_DOPS: return m[id].dops.tow;
      case SBP2NMEA_SBP_AGE_CORR: return m[id].age_corrections.tow;
      case SBP2NMEA_SBP_HDG: return m[id].baseline_heading.tow;
      case SBP2NMEA_SBP_SOLN_META: return m[id].soln_meta.tow;
      case SBP2NMEA_SBP_ORIENT_EULER: return m[id].orient_euler.tow;
    }
    return 0;
  }
  static bool in_fused(int k) { return k != HDT && k != GSA && k != GSV; }
  bool from_fused(int k) const { return fused && in_fused(k); }
  std::vector<int> parts(int k) const {
    if (from_fused(k)) switch (k) {
        case GGA: return {SBP2NMEA_SBP_POS_LLH_COV, SBP2NMEA_SBP_SOLN_META};
        case RMC: case VTG: return {SBP2NMEA_SBP_POS_LLH_COV, SBP2NMEA_SBP_VEL_NED};
        case GLL: case GST: return {SBP2NMEA_SBP_POS_LLH_COV};
        case PUBX: return {SBP2NMEA_SBP_POS_LLH_COV, SBP2NMEA_SBP_VEL_NED, SBP2NMEA_SBP_SOLN_META};
        case THS: return {SBP2NMEA_SBP_POS_LLH_COV, SBP2NMEA_SBP_ORIENT_EULER};
        default: return {};
      }
    switch (k) {
      case HDT: return {SBP2NMEA_SBP_HDG};
      case ZDA: case GSV: return {};
      case THS: return {SBP2NMEA_SBP_POS_LLH_COV_GNSS, SBP2NMEA_SBP_ORIENT_EULER};
      default: return {SBP2NMEA_SBP_POS_LLH_COV_GNSS, SBP2NMEA_SBP_GPS_TIME_GNSS, SBP2NMEA_SBP_VEL_NED_GNSS, SBP2NMEA_SBP_DOPS,
                       SBP2NMEA_SBP_AGE_CORR};
    }
  }
  u32 epoch(int k) const { return tow(from_fused(k) ? SBP2NMEA_SBP_UTC_TIME : SBP2NMEA_SBP_UTC_TIME_GNSS); }
  bool rate_ok(int k, u32 t) const {
    if (c.rate[k] == 0) return false;
    u64 period = (u64)llround(1000.0 / c.freq);
    return t % (period * (u64)c.rate[k]) < period / 2;
  }
  bool ready(int k) const {
    if (c.mode == SBP2NMEA_MODE_FUSED && !in_fused(k)) return false;
    u32 t = epoch(k);
    if (last[k] == t) return false;
    if (from_fused(k) && !wagon) return false;
    if (k == GSA) {
      if (obs_count != obs_total - 1) return false;
      s64 dt = ((s64)m[SBP2NMEA_SBP_GPS_TIME_GNSS].gps_time_gnss.wn - obs_wn) * 604800000ll + (s64)m[SBP2NMEA_SBP_GPS_TIME_GNSS].gps_time_gnss.tow - obs_tow;
      if (dt > 0) return false;
    }
    for (int id : parts(k))
      if (tow(id) != t) return false;
    return true;
  }
  int feed(const sbp_msg_t &x, int id) {  // returns the slot it went to, -1: ignored
    if (c.mode == SBP2NMEA_MODE_GNSS) {
      if (id == SBP2NMEA_SBP_GPS_TIME) id = SBP2NMEA_SBP_GPS_TIME_GNSS;
      else if (id == SBP2NMEA_SBP_UTC_TIME) id = SBP2NMEA_SBP_UTC_TIME_GNSS;
      else if (id == SBP2NMEA_SBP_POS_LLH_COV) id = SBP2NMEA_SBP_POS_LLH_COV_GNSS;
      else if (id == SBP2NMEA_SBP_VEL_NED) id = SBP2NMEA_SBP_VEL_NED_GNSS;
    }
    if (id == SBP2NMEA_SBP_GROUP_META) {
      if (c.mode == SBP2NMEA_MODE_BEST) fused = true;
      wagon = false;
    }
    if (id == SBP2NMEA_SBP_SOLN_META && fused) wagon = true;
    if (id == SBP2NMEA_SBP_MEASUREMENT_STATE)
      for (int i = 0; i < x.measurement_state.n_states; i++) {
        const auto &s = x.measurement_state.states[i].mesid;
        if (code_to_constellation((code_t)s.code) == CONSTELLATION_GLO && s.sat > NUM_SATS_GLO) return -1;
      }
    m[id] = x;
    return id;
  }
  void feed_obs(const sbp_msg_obs_t &o) {
    int total = o.header.n_obs >> 4, count = o.header.n_obs & 15;
    if (count == 0) sids.clear();
    else if (o.header.t.wn != obs_wn || o.header.t.tow != obs_tow || count != obs_count + 1) return;
    obs_total = total;
    obs_count = count;
    obs_wn = o.header.t.wn;
    obs_tow = o.header.t.tow;
    for (int i = 0; i < o.n_obs; i++)
      if (!(o.obs[i].flags & 0x80)) sids.push_back(o.obs[i].sid);
  }
  std::vector<int> emissions() {  // which sentences the last event completes
    std::vector<int> v;
    for (int k = 0; k < NSENT; k++)
      if (ready(k) && rate_ok(k, epoch(k))) {
        v.push_back(k);
        last[k] = epoch(k);
        sent[k] = true;
      }
    return v;
  }
};

// ---- field checks --------------------------------------------------------
struct Ctx {
  const Sentence *s;
  const std::string &f(size_t i) const { return s->f[i]; }
};
void nfields(const Sentence &s, size_t n) { PBT_CHECK(s.f.size() == n, "%zu fields instead of %zu in \"%s\"", s.f.size(), n, show(s.raw).c_str()); }
bool isdigits(const std::string &t) {
  if (t.empty()) return false;
  for (char c : t) if (c < '0' || c > '9') return false;
  return true;
}
void expect_text(const Sentence &s, size_t i, const std::string &want, const char *what) {
  PBT_CHECK(s.f[i] == want, "%s is \"%s\", expected \"%s\" in \"%s\"", what, show(s.f[i]).c_str(), want.c_str(), show(s.raw).c_str());
}
// a decimal number with `dec` decimals within half a unit of want (plus tol)
double number(const Sentence &s, size_t i, int dec, const char *what) {
  std::string t = s.f[i];
  std::string u = !t.empty() && t[0] == '-' ? t.substr(1) : t;
  size_t dot = u.find('.');
  bool ok = dec ? dot != std::string::npos && isdigits(u.substr(0, dot)) && isdigits(u.substr(dot + 1)) && (int)(u.size() - dot - 1) == dec
                : isdigits(u);
  PBT_CHECK(ok, "%s \"%s\" is not a number with %d decimals in \"%s\"", what, show(t).c_str(), dec, show(s.raw).c_str());
  return strtod(t.c_str(), nullptr);
}
void expect_num(const Sentence &s, size_t i, int dec, double want, const char *what, double tol = 0) {
  double v = number(s, i, dec, what);
  double lim = 0.5 * pow(10, -dec) * (1 + 1e-9) + fabs(want) * 1e-12 + tol;
  PBT_CHECK(fabs(v - want) <= lim, "%s is %s, expected %.9g in \"%s\"", what, s.f[i].c_str(), want, show(s.raw).c_str());
}
void expect_empty(const Sentence &s, size_t i, size_t n, const char *what) {
  for (size_t k = i; k < i + n; k++) PBT_CHECK(s.f[k].empty(), "%s (field %zu) should be empty in \"%s\"", what, k, show(s.raw).c_str());
}
void expect_angle(const Sentence &s, size_t i, const std::string &hemi_pos_neg, double deg, int ddig, const char *what) {
  const std::string &t = s.f[i];
  bool ok = (int)t.size() == ddig + 10 && isdigits(t.substr(0, ddig + 2)) && t[ddig + 2] == '.' && isdigits(t.substr(ddig + 3));
  PBT_CHECK(ok, "%s \"%s\" has the wrong form in \"%s\"", what, show(t).c_str(), show(s.raw).c_str());
  double d = atoi(t.substr(0, ddig).c_str()), min = strtod(t.substr(ddig).c_str(), nullptr);
  PBT_CHECK(min < 60, "%s %s has 60 minutes or more", what, t.c_str());
  double v = d + min / 60;
  PBT_CHECK(fabs(v - fabs(deg)) <= 5e-9 + 1e-9, "%s %s is %.10f, expected %.10f", what, t.c_str(), v, fabs(deg));
  const std::string &h = s.f[i + 1];
  bool zero = fabs(deg) < 1e-8;
  bool hok = h.size() == 1 && (h[0] == hemi_pos_neg[0] || h[0] == hemi_pos_neg[1]) &&
             (zero || h[0] == hemi_pos_neg[deg < 0 ? 1 : 0]);
  PBT_CHECK(hok, "%s hemisphere \"%s\" for %.10f", what, show(h).c_str(), deg);
}
void expect_position(const Sentence &s, size_t i, const Model &M) {
  if (M.fix()) {
    expect_angle(s, i, "NS", M.pos().lat, 2, "latitude");
    expect_angle(s, i + 2, "EW", M.pos().lon, 3, "longitude");
  } else {
    expect_empty(s, i, 4, "position without fix");
  }
}
int mdays(int y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : d[m - 1];
}
// date and time rounded to centiseconds
struct DT { int y, mo, d, h, mi, s, cs; };
DT roundup(const sbp_msg_utc_time_t &u, bool tie_up) {
  s64 cs = (s64)(u.ns / 10000000u);
  u32 rest = u.ns % 10000000u;
  if (rest > 5000000u || (rest == 5000000u && tie_up)) cs++;
  DT t = {u.year, u.month, u.day, u.hours, u.minutes, u.seconds, (int)cs};
  if (t.cs == 100) { t.cs = 0; t.s++; }
  if (t.s == 60 && t.cs == 0 && u.seconds != 60) { t.s = 0; t.mi++; }
  if (t.mi == 60) { t.mi = 0; t.h++; }
  if (t.h == 24) { t.h = 0; t.d++; }
  if (t.d > mdays(t.y, t.mo)) { t.d = 1; t.mo++; }
  if (t.mo == 13) { t.mo = 1; t.y++; }
  return t;
}
// i: time field (or -1), j: date field(s) (or -1), full: day,month,year
void expect_utc(const Sentence &s, int i, int j, bool full, const Model &M) {
  const auto &u = M.utc();
  if ((u.flags & 7) == 0) {
    if (i >= 0) expect_empty(s, i, 1, "time when unknown");
    if (j >= 0) expect_empty(s, j, full ? 3 : 1, "date when unknown");
    return;
  }
  std::string err;
  for (int up = 0; up < 2; up++) {
    DT t = roundup(u, up);
    std::string ts = fmt("%02d%02d%02d.%02d", t.h, t.mi, t.s, t.cs);
    bool ok = i < 0 || s.f[i] == ts;
    if (j >= 0) {
      if (full) ok = ok && s.f[j] == fmt("%02d", t.d) && s.f[j + 1] == fmt("%02d", t.mo) && s.f[j + 2] == fmt("%d", t.y);
      else ok = ok && s.f[j] == fmt("%02d%02d%02d", t.d, t.mo, t.y % 100);
    }
    if (ok) return;
    err = fmt("%s %02d.%02d.%d", ts.c_str(), t.d, t.mo, t.y);
  }
  PBT_FAIL("time", "time of \"%s\", expected %s", show(s.raw).c_str(), err.c_str());
}
char mode_char(const Model &M) { return M.fix() ? "NADDDED"[M.posmode()] : 'N'; }
char status_char(const Model &M) { return M.fix() ? 'A' : 'V'; }

const double KN = 3600.0 / 1852.0;
struct Cog { bool vel, shown, maybe, known; double knots, kmh, cog; };
Cog cog_of(Model &M, bool strict) {
  const auto &v = M.vel();
  Cog r;
  double n = v.n / 1000.0, e = v.e / 1000.0, sp = hypot(n, e);
  r.vel = (v.flags & 7) != 0;
  r.knots = sp * KN;
  r.kmh = sp * 3.6;
  bool edge_upd = fabs(sp - M.c.cog_upd) < 1e-7 * (1 + M.c.cog_upd), upd = sp >= M.c.cog_upd;
  double cog = atan2(e, n) * 180 / M_PI;
  if (cog < 0) cog += 360;
  if (edge_upd) { M.held_known = false; }
  else if (upd) { M.held = cog; M.held_known = r.vel; }
  r.cog = M.held;
  r.known = M.held_known || (upd && !edge_upd);
  r.maybe = fabs(sp - M.c.cog_thr) < 1e-7 * (1 + M.c.cog_thr);
  r.shown = sp > M.c.cog_thr;
  (void)strict;
  return r;
}
void expect_course(const Sentence &s, size_t i, const Cog &c) {
  if (!c.vel) { expect_empty(s, i, 1, "course without velocity"); return; }
  if (c.maybe && s.f[i].empty()) return;
  if (!c.shown && !c.maybe) { expect_empty(s, i, 1, "course below the threshold"); return; }
  double v = number(s, i, 1, "course");
  PBT_CHECK(v >= 0 && v < 360, "course %s out of range", s.f[i].c_str());
  if (!c.known) return;
  double d = fabs(v - c.cog);
  d = std::min(d, 360 - d);
  PBT_CHECK(d <= 0.05 + 1e-6, "course %s, expected %.4f in \"%s\"", s.f[i].c_str(), c.cog, show(s.raw).c_str());
}
void expect_dop(const Sentence &s, size_t i, u16 raw, const char *what) { expect_num(s, i, 1, raw * 0.01, what, 1e-9); }

void check_gga(const Sentence &s, Model &M) {
  nfields(s, 15);
  expect_text(s, 0, "GPGGA", "talker");
  expect_utc(s, 1, -1, false, M);
  expect_position(s, 2, M);
  expect_text(s, 6, fmt("%d", M.quality()), "quality");
  if (M.fix()) {
    expect_text(s, 7, fmt("%02d", M.pos().n_sats), "satellites used");
    if (M.posmode() == 5) expect_empty(s, 8, 1, "HDOP");
    else expect_dop(s, 8, M.fused ? M.soln().hdop : M.dops().hdop, "HDOP");
    double g = (double)get_geoid_offset(M.pos().lat * (M_PI / 180), M.pos().lon * (M_PI / 180));
    expect_num(s, 9, 2, M.pos().height - g, "height", 1e-5);
    expect_num(s, 11, 2, g, "geoid separation", 1e-5);
  } else {
    expect_empty(s, 7, 3, "satellites, HDOP, height without fix");
    expect_empty(s, 11, 1, "geoid separation without fix");
  }
  expect_text(s, 10, "M", "unit");
  expect_text(s, 12, "M", "unit");
  if (M.corrected()) {
    u16 age = M.fused ? M.soln().age_corrections : M.m[SBP2NMEA_SBP_AGE_CORR].age_corrections.age;
    if (age != 0xFFFF) expect_num(s, 13, 1, age * 0.1, "age of corrections", 1e-9);
    expect_text(s, 14, fmt("%04d", M.c.base_id & 1023), "station id");
  } else {
    expect_empty(s, 13, 2, "corrections");
  }
}
void check_rmc(const Sentence &s, Model &M) {
  nfields(s, 13);
  expect_text(s, 0, "GPRMC", "talker");
  expect_utc(s, 1, 9, false, M);
  expect_text(s, 2, std::string(1, status_char(M)), "status");
  expect_position(s, 3, M);
  Cog c = cog_of(M, false);
  if (c.vel) expect_num(s, 7, 2, c.knots, "speed", 1e-6);
  else expect_empty(s, 7, 1, "speed");
  expect_course(s, 8, c);
  expect_empty(s, 10, 2, "magnetic variation");
  expect_text(s, 12, std::string(1, mode_char(M)), "mode");
}
void check_vtg(const Sentence &s, Model &M) {
  nfields(s, 10);
  expect_text(s, 0, "GPVTG", "talker");
  Cog c = cog_of(M, false);
  expect_course(s, 1, c);
  expect_text(s, 2, "T", "T");
  expect_empty(s, 3, 1, "magnetic course");
  expect_text(s, 4, "M", "M");
  if (c.vel) {
    expect_num(s, 5, 2, c.knots, "speed", 1e-6);
    expect_num(s, 7, 2, c.kmh, "speed", 1e-6);
  } else {
    expect_empty(s, 5, 1, "speed");
    expect_empty(s, 7, 1, "speed");
  }
  expect_text(s, 6, "N", "N");
  expect_text(s, 8, "K", "K");
  expect_text(s, 9, std::string(1, mode_char(M)), "mode");
}
void check_heading(const Sentence &s, size_t i, double deg) {
  double v = number(s, i, 2, "heading");
  PBT_CHECK(v >= 0 && v < 360, "heading %s out of range", s.f[i].c_str());
  double w = fmod(deg, 360);
  if (w < 0) w += 360;
  double d = fabs(v - w);
  d = std::min(d, 360 - d);
  PBT_CHECK(d <= 0.005 + 1e-6, "heading %s, expected %.6f", s.f[i].c_str(), w);
}
void check_hdt(const Sentence &s, Model &M) {
  nfields(s, 3);
  expect_text(s, 0, "GPHDT", "talker");
  const auto &h = M.m[SBP2NMEA_SBP_HDG].baseline_heading;
  if ((h.flags & 7) == 4) check_heading(s, 1, h.heading / 1000.0);
  else expect_empty(s, 1, 1, "heading without fixed solution");
  expect_text(s, 2, "T", "T");
}
void check_ths(const Sentence &s, Model &M) {
  nfields(s, 3);
  expect_text(s, 0, "GPTHS", "talker");
  const auto &o = M.m[SBP2NMEA_SBP_ORIENT_EULER].orient_euler;
  if (!M.fix() || (o.flags & 7) == 0) {
    expect_empty(s, 1, 1, "heading");
    expect_text(s, 2, "V", "status");
  } else {
    check_heading(s, 1, o.yaw / 1e6);
    expect_text(s, 2, M.posmode() == 5 ? "E" : "A", "status");
  }
}
void check_gll(const Sentence &s, Model &M) {
  nfields(s, 8);
  expect_text(s, 0, "GPGLL", "talker");
  expect_position(s, 1, M);
  expect_utc(s, 5, -1, false, M);
  expect_text(s, 6, std::string(1, status_char(M)), "status");
  expect_text(s, 7, std::string(1, mode_char(M)), "mode");
}
void check_zda(const Sentence &s, Model &M) {
  nfields(s, 7);
  expect_text(s, 0, "GPZDA", "talker");
  expect_utc(s, 1, 2, true, M);
  expect_empty(s, 5, 2, "time zone");
}
int group_of(u8 code) {  // GP GL GA GB
  switch (code_to_constellation((code_t)code)) {
    case CONSTELLATION_GPS: case CONSTELLATION_SBAS: case CONSTELLATION_QZS: return 0;
    case CONSTELLATION_GLO: return 1;
    case CONSTELLATION_GAL: return 2;
    case CONSTELLATION_BDS: return 3;
    default: return -1;
  }
}
const char *TALK[] = {"GP", "GL", "GA", "GB"};
int nmea_id(const sbp_v4_gnss_signal_t &s) {
  switch (code_to_constellation((code_t)s.code)) {
    case CONSTELLATION_GPS: return s.sat;
    case CONSTELLATION_SBAS: return s.sat - 87;
    case CONSTELLATION_QZS: return s.sat;
    case CONSTELLATION_GLO: return s.sat + 64;
    case CONSTELLATION_GAL: return s.sat + 300;
    case CONSTELLATION_BDS: return s.sat + 400;
    default: return -1;
  }
}
void check_gst(const Sentence &s, Model &M) {
  nfields(s, 9);
  std::set<int> talkers;
  for (auto &x : M.sids) if (group_of(x.code) >= 0) talkers.insert(group_of(x.code));
  expect_utc(s, 1, -1, false, M);
  expect_empty(s, 2, 1, "RMS");
  if (talkers.empty() || !M.fix()) {
    expect_text(s, 0, "GPGST", "talker");
    expect_empty(s, 3, 6, "error statistics without fix");
    return;
  }
  expect_text(s, 0, std::string(talkers.size() > 1 ? "GN" : TALK[*talkers.begin()]) + "GST", "talker");
  const auto &p = M.pos();
  double a = p.cov_n_n, b = p.cov_n_e, c = p.cov_e_e;
  double half = (a + c) / 2, r = hypot((a - c) / 2, b), l1 = half + r, l2 = std::max(0.0, half - r);
  const double eps = 3e-7;  // single-precision arithmetic on the covariances
  double T = a + c, tl = T > 0 ? eps * T * T / (r + sqrt(eps) * T) + eps * T : 0;
  auto axis = [&](size_t i, double l, const char *what) {
    double v = number(s, i, 6, what);
    double lo = sqrt(std::max(0.0, l - tl)), hi = sqrt(l + tl);
    PBT_CHECK(v >= lo - 5.1e-7 - lo * 1e-7 && v <= hi + 5.1e-7 + hi * 1e-7, "%s is %s, expected %.9g in \"%s\"", what, s.f[i].c_str(), sqrt(l), show(s.raw).c_str());
  };
  axis(3, l1, "semi-major axis");
  axis(4, l2, "semi-minor axis");
  double o = number(s, 5, 1, "orientation");
  PBT_CHECK(o >= -90 && o <= 90, "orientation %s", s.f[5].c_str());
  {  // the direction must carry (nearly) the larger variance
    double rad = o * M_PI / 180, cn = cos(rad), sn = sin(rad), q = a * cn * cn + 2 * b * cn * sn + c * sn * sn;
    double ang = 0.051 * M_PI / 180;
    PBT_CHECK(q >= l1 - 2 * tl - 4 * r * ang * ang, "orientation %s in \"%s\" is not that of the major axis (variance %.9g instead of %.9g)", s.f[5].c_str(), show(s.raw).c_str(), q, l1);
  }
  expect_num(s, 6, 6, sqrt((double)p.cov_n_n), "north error", 1e-7 * sqrt((double)p.cov_n_n));
  expect_num(s, 7, 6, sqrt((double)p.cov_e_e), "east error", 1e-7 * sqrt((double)p.cov_e_e));
  expect_num(s, 8, 6, sqrt((double)p.cov_d_d), "height error", 1e-7 * sqrt((double)p.cov_d_d));
}
void check_pubx(const Sentence &s, Model &M) {
  nfields(s, 21);
  expect_utc(s, 2, -1, false, M);
  expect_position(s, 3, M);
  const auto &p = M.pos();
  Cog c = cog_of(M, true);
  static const char *nav[] = {"NF", "G3", "D3", "D3", "D3", "DR", "G3", "NF"};
  expect_text(s, 8, nav[M.posmode()], "navigation status");
  if (M.fix()) {
    expect_num(s, 7, 2, p.height, "height", 1e-9);
    double h = sqrt((double)p.cov_n_n + p.cov_e_e), v = sqrt((double)p.cov_d_d);
    expect_num(s, 9, 1, h, "horizontal accuracy", h * 3e-7);
    expect_num(s, 10, 1, v, "vertical accuracy", v * 3e-7);
  } else {
    expect_empty(s, 7, 1, "height");
    expect_empty(s, 9, 2, "accuracy");
  }
  if (c.vel) {
    expect_num(s, 11, 2, c.kmh, "speed", 1e-6);
    expect_course(s, 12, c);
    double d = M.vel().d / 1000.0;
    expect_num(s, 13, 2, d, "vertical speed", fabs(d) * 1e-7);
  } else {
    expect_empty(s, 11, 3, "velocity");
  }
  if (M.corrected()) {
    u16 age = M.fused ? M.soln().age_corrections : M.m[SBP2NMEA_SBP_AGE_CORR].age_corrections.age;
    if (age != 0xFFFF) expect_num(s, 14, 1, age * 0.1, "age of corrections", 1e-9);
  } else {
    expect_empty(s, 14, 1, "age of corrections");
  }
  if (!M.fix() || M.posmode() == 5) {
    expect_empty(s, 15, 3, "DOPs");
  } else if (M.fused) {
    expect_dop(s, 15, M.soln().hdop, "HDOP");
    expect_dop(s, 16, M.soln().vdop, "VDOP");
    expect_empty(s, 17, 1, "TDOP");
  } else {
    expect_dop(s, 15, M.dops().hdop, "HDOP");
    expect_dop(s, 16, M.dops().vdop, "VDOP");
    expect_dop(s, 17, M.dops().tdop, "TDOP");
  }
  expect_text(s, 18, fmt("%d", p.n_sats), "satellites used");
  expect_text(s, 19, "0", "GLONASS satellites");
  expect_text(s, 20, M.posmode() == 5 ? "1" : "0", "dead reckoning");
}
void check_gsa(const std::vector<Sentence> &v, Model &M) {
  std::vector<int> want[4];
  for (auto &x : M.sids) {
    int gr = group_of(x.code);
    if (gr < 0) continue;
    int id = nmea_id(x);
    if (std::find(want[gr].begin(), want[gr].end(), id) == want[gr].end()) want[gr].push_back(id);
  }
  int groups = 0;
  for (auto &w : want) groups += !w.empty();
  PBT_CHECK((int)v.size() == std::max(1, groups), "%zu GSA sentences for %d groups", v.size(), groups);
  bool fix = (M.dops().flags & 7) != 0;
  std::vector<bool> used(4, false);
  for (auto &s : v) {
    nfields(s, 18);
    expect_text(s, 1, "A", "selection");
    expect_text(s, 2, fix ? "3" : "1", "fix mode");
    std::vector<int> got;
    bool end = false;
    for (int i = 3; i < 15; i++) {
      if (s.f[i].empty()) { end = true; continue; }
      PBT_CHECK(!end && isdigits(s.f[i]) && s.f[i].size() >= 2, "satellite \"%s\" in \"%s\"", show(s.f[i]).c_str(), show(s.raw).c_str());
      got.push_back(atoi(s.f[i].c_str()));
    }
    int gr = -1;
    if (groups == 0) {
      PBT_CHECK(got.empty(), "satellites used in \"%s\"", show(s.raw).c_str());
      expect_text(s, 0, "GPGSA", "talker");
    } else {
      PBT_CHECK(!got.empty(), "no satellite in \"%s\"", show(s.raw).c_str());
      for (int k = 0; k < 4; k++)
        if (!used[k] && std::find(want[k].begin(), want[k].end(), got[0]) != want[k].end()) gr = k;
      PBT_CHECK(gr >= 0, "satellite %d of \"%s\" is not used", got[0], show(s.raw).c_str());
      used[gr] = true;
      expect_text(s, 0, std::string(groups > 1 ? "GN" : TALK[gr]) + "GSA", "talker");
      std::set<int> a(got.begin(), got.end()), b(want[gr].begin(), want[gr].end());
      PBT_CHECK(a.size() == got.size(), "a satellite is listed twice in \"%s\"", show(s.raw).c_str());
      PBT_CHECK(a.size() == std::min<size_t>(12, b.size()), "%zu of %zu satellites used are in \"%s\"", a.size(), b.size(), show(s.raw).c_str());
      for (int x : a) PBT_CHECK(b.count(x), "satellite %d of \"%s\" is not used", x, show(s.raw).c_str());
    }
    if (fix) {
      expect_dop(s, 15, M.dops().pdop, "PDOP");
      expect_dop(s, 16, M.dops().hdop, "HDOP");
      expect_dop(s, 17, M.dops().vdop, "VDOP");
    } else {
      expect_empty(s, 15, 3, "DOPs without fix");
    }
  }
}
void check_gsv(const std::vector<Sentence> &v, Model &M) {
  const auto &az = M.m[SBP2NMEA_SBP_SV_AZ_EL].sv_az_el;
  const auto &ms = M.m[SBP2NMEA_SBP_MEASUREMENT_STATE].measurement_state;
  std::multiset<std::string> want[4];
  for (int i = 0; i < az.n_azel; i++) {
    int gr = group_of(az.azel[i].sid.code);
    if (gr < 0) continue;
    std::string snr;
    for (int j = 0; j < ms.n_states; j++)
      if (ms.states[j].mesid.sat == az.azel[i].sid.sat &&
          code_to_constellation((code_t)ms.states[j].mesid.code) == code_to_constellation((code_t)az.azel[i].sid.code)) {
        snr = fmt("%02d", (ms.states[j].cn0 + 2) / 4);
        break;
      }
    want[gr].insert(fmt("%02d,%02d,%03d,", nmea_id(az.azel[i].sid), az.azel[i].el, 2 * az.azel[i].az) + snr);
  }
  size_t total = want[0].size() + want[1].size() + want[2].size() + want[3].size();
  if (total == 0) {
    PBT_CHECK(v.size() == 1 && v[0].f.size() == 4 && v[0].f[0] == "GPGSV" && v[0].f[1] == "1" && v[0].f[2] == "1" && atoi(v[0].f[3].c_str()) == 0,
              "GSV with no satellite: \"%s\"", show(v[0].raw).c_str());
    return;
  }
  size_t done[4] = {0};
  std::multiset<std::string> left[4] = {want[0], want[1], want[2], want[3]};
  for (auto &s : v) {
    int gr = -1;
    for (int k = 0; k < 4; k++) if (s.f[0] == std::string(TALK[k]) + "GSV") gr = k;
    PBT_CHECK(gr >= 0 && s.f.size() >= 4, "\"%s\"", show(s.raw).c_str());
    size_t n = want[gr].size();
    expect_text(s, 1, fmt("%zu", (n + 3) / 4), "number of sentences");
    expect_text(s, 2, fmt("%zu", ++done[gr]), "sentence number");
    expect_text(s, 3, fmt("%02zu", n), "satellites in view");
    size_t here = std::min<size_t>(4, n - 4 * (done[gr] - 1));
    PBT_CHECK(done[gr] <= (n + 3) / 4, "too many sentences: \"%s\"", show(s.raw).c_str());
    nfields(s, 4 + 4 * here);
    for (size_t i = 0; i < here; i++) {
      std::string t = s.f[4 + 4 * i] + "," + s.f[5 + 4 * i] + "," + s.f[6 + 4 * i] + "," + s.f[7 + 4 * i];
      auto it = left[gr].find(t);
      PBT_CHECK(it != left[gr].end(), "satellite \"%s\" of \"%s\" is not as in the SBP messages", show(t).c_str(), show(s.raw).c_str());
      left[gr].erase(it);
    }
  }
  for (int k = 0; k < 4; k++) PBT_CHECK(left[k].empty(), "%zu satellites missing from GSV, e.g. %s", left[k].size(), left[k].begin()->c_str());
}

// ---- a converter next to its model ---------------------------------------
struct Sim {
  Dev d;
  Model M;
  u32 values;     // sentences whose fields are checked (bit mask)
  bool schedule;  // check which sentences come out
  int n[NSENT] = {0};
  std::set<std::pair<int, u64>> issued;
  Sim(const Cfg &c, u32 v, bool s) : d(c.mode), M(c), values(v), schedule(s) {
    sbp2nmea_soln_freq_set(d.st, (float)c.freq);
    for (int k = 0; k < NSENT; k++) if (c.rate[k]) sbp2nmea_rate_set(d.st, c.rate[k], (sbp2nmea_nmea_id_t)k);
    static const Cfg def{};  // what a new converter does by itself
    if (c.cog_thr != def.cog_thr) sbp2nmea_cog_threshold_set(d.st, (float)c.cog_thr);
    if (c.cog_upd != def.cog_upd) sbp2nmea_cog_stationary_threshold_set(d.st, c.cog_upd);
    sbp2nmea_base_id_set(d.st, c.base_id);
  }
  void after() {
    std::vector<int> exp = M.emissions();
    std::vector<std::vector<Sentence>> got(NSENT);
    std::vector<int> order;
    for (auto &raw : d.out) {
      Sentence s = parse(raw);
      if (order.empty() || order.back() != s.kind) order.push_back(s.kind);
      got[s.kind].push_back(std::move(s));
    }
    d.out.clear();
    for (int k = 0; k < NSENT; k++) {
      bool e = std::find(exp.begin(), exp.end(), k) != exp.end();
      if (schedule) {
        if (!got[k].empty() && !e)
          PBT_FAIL("unexpected-sentence", "%s issued at epoch %u, when it is not due: \"%s\"", SNAME[k], M.epoch(k), show(got[k][0].raw).c_str());
        if (got[k].empty() && e) PBT_FAIL("missing-sentence", "%s not issued for epoch %u", SNAME[k], M.epoch(k));
        if (k != GSA && k != GSV) PBT_CHECK(got[k].size() <= 1, "%zu %s sentences at once", got[k].size(), SNAME[k]);
      }
      if (got[k].empty()) continue;
      n[k]++;
    }
    // in order of issue, as the held course depends on it
    for (int k : order) {
      if (got[k].empty()) continue;
      auto v = std::move(got[k]);
      got[k].clear();
      if (!(values >> k & 1)) { if (k == RMC || k == VTG || k == PUBX) cog_of(M, false); continue; }
      switch (k) {
        case GGA: for (auto &s : v) check_gga(s, M); break;
        case RMC: for (auto &s : v) check_rmc(s, M); break;
        case VTG: for (auto &s : v) check_vtg(s, M); break;
        case HDT: for (auto &s : v) check_hdt(s, M); break;
        case GLL: for (auto &s : v) check_gll(s, M); break;
        case ZDA: for (auto &s : v) check_zda(s, M); break;
        case GST: for (auto &s : v) check_gst(s, M); break;
        case PUBX: for (auto &s : v) check_pubx(s, M); break;
        case THS: for (auto &s : v) check_ths(s, M); break;
        case GSA:
          if (M.obs_count != M.obs_total - 1)
            PBT_FAIL("gsa-incomplete", "GSA \"%s\" from %d of %d observation messages", show(v[0].raw).c_str(), M.obs_count + 1, M.obs_total);
          check_gsa(v, M);
          break;
        case GSV: check_gsv(v, M); break;
      }
    }
  }
  void msg(const sbp_msg_t &m, int id) {
    d.msg(m, id);
    M.feed(m, id);
    after();
  }
  void obs(const sbp_msg_obs_t &o) {
    d.obs(o);
    M.feed_obs(o);
    after();
  }
};

// ---- generators ----------------------------------------------------------
double gen_deg(G &g, double lim) {
  switch (g.below(7)) {
    case 0: return g.real(-lim, lim);
    case 1: return (double)g.range(-(s64)lim, (s64)lim);
    case 2: {  // next to a whole degree or minute
      double base = (double)g.range(-(s64)lim * 60, (s64)lim * 60) / 60.0;
      return std::max(-lim, std::min(lim, base + (double)g.range(-2000, 2000) * 1e-11));
    }
    case 3: return (double)g.range(-50, 50) * 1e-9;
    case 4: return g.coin() ? lim : -lim;
    case 5: return (double)g.range(-(s64)lim * 100000000, (s64)lim * 100000000) / 1e8 + (double)g.range(-3, 3) * 1e-9;
    default: {
      double v = (g.coin() ? 1 : -1) * (lim - (double)g.below(1000) * 1e-10);
      return v;
    }
  }
}
float gen_var(G &g) {
  switch (g.below(5)) {
    case 0: return 0;
    case 1: return (float)g.real(0, 1e-3);
    case 2: return (float)g.real(0, 25);
    case 3: return (float)g.below(5);
    default: return (float)g.real(0, 1e8);
  }
}
void gen_pos(G &g, sbp_msg_pos_llh_cov_t &p) {
  p.lat = std::max(-90.0, std::min(90.0, gen_deg(g, 90)));
  p.lon = std::max(-180.0, std::min(180.0, gen_deg(g, 180)));
  p.height = g.coin() ? g.real(-500, 9000) : g.real(-99999, 999999);
  p.cov_n_n = gen_var(g);
  p.cov_e_e = g.chance(20) ? p.cov_n_n : gen_var(g);
  p.cov_d_d = gen_var(g);
  float m = sqrtf(p.cov_n_n) * sqrtf(p.cov_e_e);
  p.cov_n_e = (float)(g.pick<int>({0, 0, 1, -1, 2, 2, 2}) == 2 ? g.real(-1, 1) * m : g.range(-1, 1) * m);
  p.n_sats = (u8)g.bits(8);
  p.flags = (u8)(g.below(7) | (g.below(32) << 3));
}
void gen_utc(G &g, sbp_msg_utc_time_t &u) {
  u.flags = (u8)(g.chance(12) ? g.below(4) << 3 : (g.range(1, 2) | g.below(4) << 3));
  u.year = (u16)(g.coin() ? g.range(2000, 2100) : g.pick({1999, 2000, 2023, 2024, 2099, 2100, 2199}));
  u.month = (u8)g.ival(1, 12);
  u.day = (u8)(g.coin() ? mdays(u.year, u.month) : g.ival(1, mdays(u.year, u.month)));
  bool late = g.chance(30);
  u.hours = (u8)(late ? 23 : g.ival(0, 23));
  u.minutes = (u8)(late ? 59 : g.ival(0, 59));
  u.seconds = (u8)(late ? 59 : g.ival(0, 59));
  switch (g.below(5)) {
    case 0: u.ns = (u32)g.below(1000000000); break;
    case 1: u.ns = (u32)(1000000000 - 1 - g.below(12000000)); break;
    case 2: u.ns = (u32)(g.below(100) * 10000000 + 4999990 + g.below(20)); break;
    case 3: u.ns = (u32)(g.below(10) * 100000000); break;
    default: u.ns = (u32)(994999990 + g.below(20)); break;
  }
}
void gen_vel(G &g, sbp_msg_vel_ned_t &v) {
  auto comp = [&]() -> s32 {
    switch (g.below(5)) {
      case 0: return (s32)g.range(-200, 200);
      case 1: return (s32)g.range(-60000, 60000);
      case 2: return (s32)g.range(-3, 3);
      case 3: return (s32)(g.coin() ? 1 : -1) * (s32)g.below(1000000);
      default: return 0;
    }
  };
  v.n = comp();
  v.e = comp();
  if (g.chance(15)) { v.n = (s32)g.range(100, 100000); v.e = -(s32)g.below(std::max(1, v.n / 300)); }  // around 360 degrees
  v.d = g.coin() ? (s32)g.range(-100000, 100000) : comp();
  v.n_sats = (u8)g.below(40);
  v.flags = (u8)(g.chance(12) ? g.below(32) << 3 : (g.range(1, 3) | g.below(32) << 3));
  if ((v.flags & 7) == 0) v.n = v.e = 0;  // the course held after an invalid velocity is not specified
}
u16 gen_dop(G &g) { return (u16)(g.coin() ? g.below(3000) : g.bits(16)); }
void gen_dops(G &g, sbp_msg_dops_t &d) {
  d.gdop = gen_dop(g);
  d.pdop = gen_dop(g);
  d.tdop = gen_dop(g);
  d.hdop = gen_dop(g);
  d.vdop = gen_dop(g);
  d.flags = (u8)(g.chance(15) ? g.below(32) << 3 : (g.range(1, 6) | g.below(32) << 3));
}
u16 gen_age(G &g) { return (u16)(g.coin() ? g.below(700) : g.bits(16)); }

struct SatPool { code_t first, second; int lo, hi; };
const SatPool POOL[] = {{CODE_GPS_L1CA, CODE_GPS_L2CM, 1, 32}, {CODE_GLO_L1OF, CODE_GLO_L2OF, 1, 28}, {CODE_GAL_E1B, CODE_GAL_E5I, 1, 36},
                        {CODE_BDS2_B1, CODE_BDS2_B2, 1, 63}, {CODE_SBAS_L1CA, CODE_SBAS_L1CA, 120, 151}, {CODE_QZS_L1CA, CODE_QZS_L2CM, 193, 202}};
sbp_v4_gnss_signal_t gen_sid(G &g, u32 mask) {
  u32 k;
  do { k = (u32)g.below(6); if (!mask) break; } while (!(mask >> k & 1) && (mask &= ~0u, k = (u32)__builtin_ctz(mask), false));
  if (mask && !(mask >> k & 1)) k = (u32)__builtin_ctz(mask);
  sbp_v4_gnss_signal_t s;
  s.sat = (u8)g.ival(POOL[k].lo, POOL[k].hi);
  s.code = (u8)(g.coin() ? POOL[k].second : POOL[k].first);
  return s;
}
std::vector<sbp_msg_obs_t> gen_obs(G &g, u16 wn, u32 tow, int most = 4) {
  u32 mask = g.coin() ? 0x3F : (u32)g.range(1, 63);
  int total = g.chance(10) ? (int)g.range(1, 15) : (int)g.range(1, most);
  std::vector<sbp_msg_obs_t> v;
  bool empty = g.chance(5);
  for (int i = 0; i < total; i++) {
    sbp_msg_obs_t o;
    memset(&o, 0, sizeof o);
    o.header.t.wn = wn;
    o.header.t.tow = tow;
    o.header.t.ns_residual = (s32)g.range(-500000, 500000);
    o.header.n_obs = (u8)(total << 4 | i);
    o.n_obs = (u8)(empty ? 0 : i + 1 < total ? 14 : g.below(15));
    for (int k = 0; k < o.n_obs; k++) {
      o.obs[k].sid = gen_sid(g, mask);
      o.obs[k].flags = (u8)(g.bits(7) | (g.chance(10) ? 0x80 : 0));
      o.obs[k].cn0 = (u8)g.bits(8);
    }
    v.push_back(o);
  }
  return v;
}
void gen_azel(G &g, sbp_msg_sv_az_el_t &a, sbp_msg_measurement_state_t &ms) {
  memset(&a, 0, sizeof a);
  memset(&ms, 0, sizeof ms);
  u32 mask = g.coin() ? 0x3F : (u32)g.range(1, 63);
  int n = (int)(g.chance(10) ? 0 : g.chance(20) ? g.range(0, 63) : g.range(1, 14));
  std::set<std::pair<int, int>> seen;
  for (int i = 0; i < n; i++) {
    sbp_v4_gnss_signal_t s = gen_sid(g, mask);
    if (!seen.insert({(int)code_to_constellation((code_t)s.code), s.sat}).second) continue;
    auto &x = a.azel[a.n_azel++];
    x.sid = s;
    x.az = (u8)g.ival(0, 179);
    x.el = (s8)g.ival(0, 90);
  }
  int nm = (int)(g.chance(10) ? 0 : g.range(0, 79));
  for (int i = 0; i < nm; i++) {
    auto &x = ms.states[ms.n_states++];
    if (a.n_azel && !g.chance(20)) {
      x.mesid = a.azel[g.below(a.n_azel)].sid;
      if (g.chance(30)) x.mesid.code = (u8)gen_sid(g, 0x3F).code;
      if (code_to_constellation((code_t)x.mesid.code) == CONSTELLATION_GLO && x.mesid.sat > 28) x.mesid.sat = 28;
    } else x.mesid = gen_sid(g, mask);
    x.cn0 = (u8)g.bits(8);
  }
  if (ms.n_states && g.chance(8)) {  // a message with frequency channels for GLONASS satellites is to be ignored whole
    auto &x = ms.states[g.coin() ? 0 : g.below(ms.n_states)];
    x.mesid.code = CODE_GLO_L1OF;
    x.mesid.sat = (u8)g.range(93, 106);
  }
}
Cfg gen_cfg(G &g) {
  Cfg c;
  c.mode = (int)g.below(3);
  c.freq = 10;
  for (int k = 0; k < NSENT; k++) c.rate[k] = 1;
  if (g.coin()) c.cog_thr = c.cog_upd = (double)(float)g.pick({0.0, 0.05, 0.1, 0.5, 1.0, 5.0});
  if (g.chance(30)) c.cog_thr = 0;
  if (g.chance(30)) c.cog_upd = (double)(float)g.pick({0.0, 0.2, 1.0, 10.0});
  c.base_id = (u16)g.bits(16);
  return c;
}
// one whole epoch of both solutions; solution dependent values are independent
struct Epoch {
  std::vector<std::pair<int, sbp_msg_t>> gnss, fused;
  std::vector<sbp_msg_obs_t> obs;
};
Epoch gen_epoch(G &g, u16 wn, u32 tow, bool with_obs, bool with_sats) {
  Epoch e;
  sbp_msg_t m;
  auto put = [&](std::vector<std::pair<int, sbp_msg_t>> &v, int id) { v.push_back({id, m}); memset(&m, 0, sizeof m); };
  memset(&m, 0, sizeof m);
  m.gps_time_gnss.wn = wn; m.gps_time_gnss.tow = tow; m.gps_time_gnss.flags = 1;
  put(e.gnss, SBP2NMEA_SBP_GPS_TIME_GNSS);
  gen_utc(g, m.utc_time); m.utc_time.tow = tow;
  put(e.gnss, SBP2NMEA_SBP_UTC_TIME_GNSS);
  gen_pos(g, m.pos_llh_cov); m.pos_llh_cov.tow = tow;
  put(e.gnss, SBP2NMEA_SBP_POS_LLH_COV_GNSS);
  gen_vel(g, m.vel_ned); m.vel_ned.tow = tow;
  put(e.gnss, SBP2NMEA_SBP_VEL_NED_GNSS);
  gen_dops(g, m.dops); m.dops.tow = tow;
  put(e.gnss, SBP2NMEA_SBP_DOPS);
  m.age_corrections.tow = tow; m.age_corrections.age = gen_age(g);
  put(e.gnss, SBP2NMEA_SBP_AGE_CORR);
  m.baseline_heading.tow = tow;
  m.baseline_heading.heading = (u32)(g.coin() ? g.below(360000) : g.pick({0, 4, 5, 6, 359990, 359994, 359995, 359996, 359999}));
  m.baseline_heading.flags = (u8)((g.coin() ? 4 : g.below(8)) | g.below(4) << 3);
  put(e.gnss, SBP2NMEA_SBP_HDG);
  m.orient_euler.tow = tow;
  m.orient_euler.yaw = (s32)(g.coin() ? g.range(-180000000, 180000000) : g.range(-180000010, 180000010) / 10 * 10 + g.range(-6000, 6000));
  if (g.chance(6)) m.orient_euler.yaw = (s32)g.bits(32);
  else if (g.chance(30)) m.orient_euler.yaw = (s32)(g.pick({0, 180000000, -180000000, 90000000}) + g.range(-6000, 6000));
  m.orient_euler.flags = (u8)(g.below(4) == 0 ? 0 : 1);
  put(e.gnss, SBP2NMEA_SBP_ORIENT_EULER);
  // the fused wagon
  m.group_meta.group_id = 1; m.group_meta.n_group_msgs = 4;
  put(e.fused, SBP2NMEA_SBP_GROUP_META);
  m.gps_time.wn = wn; m.gps_time.tow = tow; m.gps_time.flags = 1;
  put(e.fused, SBP2NMEA_SBP_GPS_TIME);
  gen_utc(g, m.utc_time); m.utc_time.tow = tow;
  put(e.fused, SBP2NMEA_SBP_UTC_TIME);
  gen_pos(g, m.pos_llh_cov); m.pos_llh_cov.tow = tow;
  put(e.fused, SBP2NMEA_SBP_POS_LLH_COV);
  gen_vel(g, m.vel_ned); m.vel_ned.tow = tow;
  put(e.fused, SBP2NMEA_SBP_VEL_NED);
  m.soln_meta.tow = tow;
  m.soln_meta.pdop = gen_dop(g); m.soln_meta.hdop = gen_dop(g); m.soln_meta.vdop = gen_dop(g);
  m.soln_meta.age_corrections = gen_age(g);
  put(e.fused, SBP2NMEA_SBP_SOLN_META);
  if (with_sats) {
    sbp_msg_t a;
    memset(&a, 0, sizeof a);
    gen_azel(g, a.sv_az_el, m.measurement_state);
    put(e.gnss, SBP2NMEA_SBP_MEASUREMENT_STATE);
    e.gnss.insert(e.gnss.begin(), {{SBP2NMEA_SBP_SV_AZ_EL, a}, e.gnss.back()});
    e.gnss.pop_back();
  }
  if (with_obs) e.obs = gen_obs(g, wn, tow);
  return e;
}
void play(G &g, Sim &s, Epoch &e, bool fused) {
  for (auto &o : e.obs) s.obs(o);
  if (fused && g.coin()) for (auto &x : e.fused) s.msg(x.second, x.first), fused = false;
  for (auto &x : e.gnss) s.msg(x.second, x.first);
  if (fused) for (auto &x : e.fused) s.msg(x.second, x.first);
}
void values_run(G &g, u32 mask, bool sats, int minn = 1, int maxn = 4) {
  Cfg c = gen_cfg(g);
  if (sats && c.mode == SBP2NMEA_MODE_FUSED && g.coin()) c.mode = SBP2NMEA_MODE_BEST;
  Sim s(c, mask, false);
  u16 wn = (u16)g.range(1800, 2400);
  u32 tow = (u32)g.range(1, 6047990) * 100;
  int n = (int)g.range(minn, maxn), total = 0;
  for (int i = 0; i < n; i++, tow += 100) {
    Epoch e = gen_epoch(g, wn, tow, sats || g.chance(20), sats);
    g.fingerprint(e.gnss.data(), e.gnss.size() * sizeof e.gnss[0]);
    play(g, s, e, c.mode != SBP2NMEA_MODE_GNSS && g.chance(85));
  }
  for (int k = 0; k < NSENT; k++)
    if (mask >> k & 1 && s.n[k]) { total += s.n[k]; g.label(SNAME[k]); }
  g.nontrivial_if(total > 0);
}

// anything at all, for C06 and C36
struct Op { int what; int id; sbp_msg_t m; sbp_msg_obs_t o; s64 v; double x; };
template <class T> void scramble(G &g, T &t) {
  auto b = g.bytes(sizeof t);
  memcpy(&t, b.data(), sizeof t);
}
void wild_msg(G &g, int id, sbp_msg_t &m, u32 tow) {
  memset(&m, 0, sizeof m);
  switch (id) {
    case SBP2NMEA_SBP_GPS_TIME: case SBP2NMEA_SBP_GPS_TIME_GNSS: scramble(g, m.gps_time); m.gps_time.tow = tow; break;
    case SBP2NMEA_SBP_UTC_TIME: case SBP2NMEA_SBP_UTC_TIME_GNSS:
      if (g.coin()) scramble(g, m.utc_time); else gen_utc(g, m.utc_time);
      if (g.chance(50)) { m.utc_time.month = (u8)g.range(1, 12); }
      m.utc_time.tow = tow;
      break;
    case SBP2NMEA_SBP_POS_LLH_COV: case SBP2NMEA_SBP_POS_LLH_COV_GNSS: {
      gen_pos(g, m.pos_llh_cov);
      auto &p = m.pos_llh_cov;
      auto wd = [&](double &d) {
        if (g.chance(75)) return;
        switch (g.below(5)) {
          case 0: d = NAN; break;
          case 1: d = g.coin() ? INFINITY : -INFINITY; break;
          case 2: d = ldexp(g.real(-1, 1), (int)g.range(0, 1020)); break;
          case 3: d = g.real(-70000, 70000); break;
          default: { u64 b = g.bits(64); memcpy(&d, &b, 8); }
        }
      };
      auto wf = [&](float &f) { if (g.chance(20)) { u32 b = (u32)g.bits(32); memcpy(&f, &b, 4); } };
      wd(p.lat); wd(p.lon); wd(p.height);
      wf(p.cov_n_n); wf(p.cov_n_e); wf(p.cov_e_e); wf(p.cov_d_d);
      if (g.chance(30)) p.flags = (u8)g.bits(8);
      p.tow = tow;
      break;
    }
    case SBP2NMEA_SBP_VEL_NED: case SBP2NMEA_SBP_VEL_NED_GNSS:
      if (g.coin()) gen_vel(g, m.vel_ned);
      else { m.vel_ned.n = (s32)g.bits(32); m.vel_ned.e = (s32)g.bits(32); m.vel_ned.d = (s32)g.bits(32); m.vel_ned.flags = (u8)g.bits(8); }
      m.vel_ned.tow = tow;
      break;
    case SBP2NMEA_SBP_DOPS: scramble(g, m.dops); m.dops.tow = tow; break;
    case SBP2NMEA_SBP_AGE_CORR: m.age_corrections.age = (u16)g.bits(16); m.age_corrections.tow = tow; break;
    case SBP2NMEA_SBP_HDG: m.baseline_heading.heading = (u32)g.bits(32); m.baseline_heading.flags = (u8)(g.coin() ? 4 : g.bits(8)); m.baseline_heading.tow = tow; break;
    case SBP2NMEA_SBP_SV_AZ_EL: case SBP2NMEA_SBP_MEASUREMENT_STATE: {
      sbp_msg_t a;
      memset(&a, 0, sizeof a);
      sbp_msg_t b = a;
      gen_azel(g, a.sv_az_el, b.measurement_state);
      if (id == SBP2NMEA_SBP_SV_AZ_EL) {
        m = a;
        for (int i = 0; i < m.sv_az_el.n_azel; i++) if (g.chance(20)) scramble(g, m.sv_az_el.azel[i]);
        if (g.chance(10)) { m.sv_az_el.n_azel = 63; }
      } else {
        m = b;
        for (int i = 0; i < m.measurement_state.n_states; i++) if (g.chance(3)) scramble(g, m.measurement_state.states[i]);
      }
      break;
    }
    case SBP2NMEA_SBP_ORIENT_EULER: m.orient_euler.yaw = (s32)g.bits(32); m.orient_euler.flags = (u8)(g.coin() ? 1 : g.bits(8)); m.orient_euler.tow = tow; break;
    case SBP2NMEA_SBP_SOLN_META: scramble(g, m.soln_meta); m.soln_meta.n_sol_in = (u8)g.below(119); m.soln_meta.tow = tow; break;
    case SBP2NMEA_SBP_GROUP_META: scramble(g, m.group_meta); m.group_meta.n_group_msgs = (u8)g.below(127); break;
  }
}
std::vector<Op> gen_history(G &g) {
  std::vector<Op> v;
  u32 tow = (u32)g.pick({0, 100, 1000, 604799900, 12345600});
  u16 wn = 2000;
  int n = (int)g.range(1, 6);
  for (int ep = 0; ep < n; ep++) {
    static const int order[] = {SBP2NMEA_SBP_GROUP_META, SBP2NMEA_SBP_GPS_TIME_GNSS, SBP2NMEA_SBP_GPS_TIME, SBP2NMEA_SBP_POS_LLH_COV_GNSS, SBP2NMEA_SBP_POS_LLH_COV,
                                SBP2NMEA_SBP_VEL_NED_GNSS, SBP2NMEA_SBP_VEL_NED, SBP2NMEA_SBP_DOPS, SBP2NMEA_SBP_AGE_CORR, SBP2NMEA_SBP_HDG, SBP2NMEA_SBP_SV_AZ_EL,
                                SBP2NMEA_SBP_MEASUREMENT_STATE, SBP2NMEA_SBP_ORIENT_EULER, SBP2NMEA_SBP_UTC_TIME_GNSS, SBP2NMEA_SBP_UTC_TIME, SBP2NMEA_SBP_SOLN_META};
    if (g.chance(60))
      for (auto &o : gen_obs(g, wn, tow)) {
        if (g.chance(5)) continue;
        Op p = {};
        p.what = 1;
        p.o = o;
        if (g.chance(5)) p.o.header.n_obs = (u8)g.bits(8);
        if (g.chance(5)) p.o.n_obs = 14;
        for (int i = 0; i < p.o.n_obs; i++) if (g.chance(5)) { p.o.obs[i].sid.sat = (u8)g.bits(8); p.o.obs[i].sid.code = (u8)g.bits(8); }
        v.push_back(p);
      }
    for (int id : order) {
      if (g.chance(6)) continue;
      Op p = {};
      p.id = id;
      wild_msg(g, id, p.m, g.chance(3) ? (u32)g.bits(32) : tow);
      v.push_back(p);
    }
    if (g.chance(25)) {
      Op p = {};
      p.what = 2 + (int)g.below(4);
      p.id = (int)g.below(NSENT);
      p.v = (s64)g.pick<s64>({0, 1, 2, 10, 1 << 30, 0x7FFFFFFF, -1, (s64)g.bits(32)});
      p.x = g.pick({0.0, 1.0, 2.0, 5.0, 10.0, 0.1, 1e-9, 1e9, 2000.0, -1.0, 1e-30});
      v.push_back(p);
    }
    if (g.chance(20)) std::swap(v[g.below(v.size())], v[g.below(v.size())]);
    tow = (tow + 100 * (u32)g.pick({0, 1, 1, 1, 10})) % 604800000;
  }
  return v;
}
void apply(Dev &d, const Op &p) {
  switch (p.what) {
    case 0: d.msg(p.m, p.id); break;
    case 1: d.obs(p.o); break;
    case 2: sbp2nmea_rate_set(d.st, (int)p.v, (sbp2nmea_nmea_id_t)p.id); break;
    case 3: sbp2nmea_soln_freq_set(d.st, (float)p.x); break;
    case 4: sbp2nmea_cog_threshold_set(d.st, (float)p.x); sbp2nmea_cog_stationary_threshold_set(d.st, p.x); break;
    default: sbp2nmea_base_id_set(d.st, (u16)p.v); break;
  }
}
void setup(Dev &d, double freq, int rate) {
  sbp2nmea_soln_freq_set(d.st, (float)freq);
  for (int k = 0; k < NSENT; k++) sbp2nmea_rate_set(d.st, rate, (sbp2nmea_nmea_id_t)k);
}
std::string lines(const Dev &d) {
  std::string o;
  for (auto &s : d.out) o += show(s) + "\n";
  return o;
}
}  // namespace

PBT_PROP(C06, history, 60000, 3000000, "at least one sentence was emitted") {
  std::unique_ptr<Dev> d(new Dev((int)g.below(3)));
  setup(*d, 10, g.chance(90) ? 1 : 10);
  auto h = gen_history(g);
  size_t total = 0;
  for (auto &p : h) {
    apply(*d, p);
    for (auto &s : d->out) {
      Sentence x = parse(s);
      g.label(SNAME[x.kind]);
      g.fingerprint(s.data(), s.size());
    }
    total += d->out.size();
    d->out.clear();
  }
  g.nontrivial_if(total > 0);
}
PBT_PROP(C25, values, 60000, 3000000, "at least one navigation sentence was checked") {
  values_run(g, 1 << GGA | 1 << RMC | 1 << VTG | 1 << HDT | 1 << GLL | 1 << ZDA | 1 << THS, false);
}
PBT_PROP(C26, values, 60000, 3000000, "at least one GSA, GSV, GST or PUBX sentence was checked") {
  values_run(g, 1 << GSA | 1 << GSV | 1 << GST | 1 << PUBX, true);
}
PBT_PROP(C25, long, 150, 15000, "navigation sentences of hundreds of epochs were checked") {
  values_run(g, 1 << GGA | 1 << RMC | 1 << VTG | 1 << HDT | 1 << GLL | 1 << ZDA | 1 << THS, false, 150, 400);
}
PBT_PROP(C26, long, 100, 10000, "GSA, GSV, GST or PUBX sentences of hundreds of epochs were checked") {
  values_run(g, 1 << GSA | 1 << GSV | 1 << GST | 1 << PUBX, true, 60, 110);
}
// observation sequences with losses, wrong totals, older and newer epochs
PBT_PROP(C26, obs, 40000, 2000000, "a GSA sentence was checked after a loss or mix of epochs") {
  Cfg c = gen_cfg(g);
  if (c.mode == SBP2NMEA_MODE_FUSED) c.mode = SBP2NMEA_MODE_GNSS;
  Sim s(c, 1 << GSA | 1 << GST, false);
  u16 wn = 2100;
  u32 tow = (u32)g.range(1, 6047980) * 100;
  bool lossy = false;
  for (int i = (int)g.range(1, 6); i > 0; i--, tow += 100) {
    Epoch e = gen_epoch(g, wn, tow, false, false);
    e.obs = gen_obs(g, wn, tow, 3);
    std::vector<sbp_msg_obs_t> o;
    for (auto &x : e.obs) {
      if (g.chance(30)) { lossy = true; continue; }
      o.push_back(x);
      if (g.chance(3)) o.push_back(x);
    }
    g.fingerprint(&e.obs[0], sizeof e.obs[0]);
    e.obs.clear();
    size_t k = 0, cut = g.below(o.size() + 1);
    for (; k < cut; k++) s.obs(o[k]);
    int before = s.n[GSA];
    play(g, s, e, false);
    for (; k < o.size(); k++) s.obs(o[k]);
    g.nontrivial_if(lossy && s.n[GSA] > before);
  }
}
static void history_run(G &g, int minn, int maxn) {
  Cfg c = gen_cfg(g);
  c.freq = g.pick({10.0, 10.0, 1.0, 2.0, 4.0, 5.0, 20.0, 0.2});
  for (int k = 0; k < NSENT; k++) c.rate[k] = g.pick({1, 1, 1, 0, 2, 5, 10});
  // ZDA, GSA, GSV... values show which messages were used
  Sim s(c, 1 << GGA | 1 << RMC | 1 << VTG | 1 << GLL | 1 << ZDA | 1 << HDT | 1 << THS | 1 << PUBX, true);
  u32 period = (u32)llround(1000 / c.freq);
  s64 tow = (s64)g.range(1, 604800000 / period - 1) * period;
  if (g.chance(30)) tow = 604800000 - (s64)period * g.range(1, 6);
  s64 wn = 2100;
  s64 drift = g.chance(30) ? g.ival(-(s64)period / 2, (s64)period / 2) : 0;
  int epochs = (int)g.range(minn, maxn);
  bool disturbed = false, use_fused = c.mode != SBP2NMEA_MODE_GNSS && g.chance(80), legacy = c.mode == SBP2NMEA_MODE_GNSS && g.coin();
  std::vector<std::pair<int, sbp_msg_t>> late;
  std::vector<sbp_msg_obs_t> lateobs;
  std::set<u32> seen;
  for (int i = 0; i < epochs; i++) {
    s64 t = tow + drift;
    u32 tt = (u32)((t % 604800000 + 604800000) % 604800000);
    u16 w = (u16)(wn + (t >= 604800000) - (t < 0));
    if (tt == 0) { tow += period; continue; }  // tow 0 marks "nothing yet": before any sentence it is ambiguous
    Epoch e = gen_epoch(g, w, tt, g.chance(70), g.chance(30));
    std::vector<std::pair<int, sbp_msg_t>> a = e.gnss, b;
    if (use_fused) b = e.fused;
    if (legacy)
      for (auto &x : a) {
        if (x.first == SBP2NMEA_SBP_GPS_TIME_GNSS) x.first = SBP2NMEA_SBP_GPS_TIME;
        else if (x.first == SBP2NMEA_SBP_UTC_TIME_GNSS) x.first = SBP2NMEA_SBP_UTC_TIME;
        else if (x.first == SBP2NMEA_SBP_POS_LLH_COV_GNSS) x.first = SBP2NMEA_SBP_POS_LLH_COV;
        else if (x.first == SBP2NMEA_SBP_VEL_NED_GNSS) x.first = SBP2NMEA_SBP_VEL_NED;
      }
    auto disturb = [&](std::vector<std::pair<int, sbp_msg_t>> &v) {
      if (v.empty()) return;
      if (g.chance(35)) { v.erase(v.begin() + (long)g.below(v.size())); disturbed = true; }
      if (v.empty()) return;
      if (g.chance(25)) { size_t k = g.below(v.size()); v.insert(v.begin() + (long)k, v[k]); disturbed = true; }
      if (v.size() > 1 && g.chance(35)) { size_t k = g.below(v.size() - 1), l = g.below(v.size() - 1); if (k != l) { std::swap(v[k], v[l]); disturbed = true; } }
    };
    disturb(a);
    disturb(b);
    // messages of the previous epoch may arrive late, before any of the same kind of this one
    std::vector<std::pair<int, sbp_msg_t>> seq = late;
    late.clear();
    size_t ia = 0, ib = 0;
    bool mix = g.coin();
    while (ia < a.size() || ib < b.size()) {
      bool fa = ia < a.size() && (ib >= b.size() || (mix ? g.coin() : true));
      seq.push_back(fa ? a[ia++] : b[ib++]);
    }
    if (g.chance(15) && seq.size() > 2) {  // hold back the end of this epoch
      size_t k = seq.size() - g.range(1, 2);
      late.assign(seq.begin() + (long)k, seq.end());
      seq.resize(k);
      disturbed = true;
    }
    std::vector<sbp_msg_obs_t> obs = lateobs;
    lateobs.clear();
    for (auto &o : e.obs) {
      if (g.chance(5)) { disturbed = true; continue; }
      if (g.chance(15)) lateobs.push_back(o); else if (lateobs.empty()) obs.push_back(o); else lateobs.push_back(o);
    }
    size_t io = 0;
    for (auto &x : seq) {
      while (io < obs.size() && g.coin()) s.obs(obs[io++]);
      s.msg(x.second, x.first);
    }
    while (io < obs.size()) s.obs(obs[io++]);
    seen.insert(tt);
    tow += (s64)period * (g.chance(10) ? g.range(2, 12) : 1);
    if (tow >= 604800000) { tow -= 604800000; wn++; }
  }
  int kinds = 0;
  for (int k = 0; k < NSENT; k++) kinds = std::max(kinds, s.n[k]);
  for (int k = 0; k < NSENT; k++) if (s.n[k]) g.label(SNAME[k]);
  g.label(c.mode == SBP2NMEA_MODE_BEST ? "best" : c.mode == SBP2NMEA_MODE_GNSS ? "gnss" : "fused");
  g.nontrivial_if(kinds >= 2 && disturbed);
  u32 fp[2] = {(u32)tow, (u32)epochs};
  g.fingerprint(fp, sizeof fp);
  g.fingerprint(s.n, sizeof s.n);
}
PBT_PROP(C27, history, 60000, 3000000, "sentences of at least two epochs, with a loss, repetition or reordering in between") {
  history_run(g, 2, 8);
}
PBT_PROP(C27, long, 150, 15000, "sentences of hundreds of epochs, with losses, repetitions or reordering in between") {
  history_run(g, 100, 220);
}
PBT_PROP(C36, nmea, 30000, 1500000, "the run produced sentences") {
  int mode = (int)g.below(3), mode2 = (int)g.below(3);
  auto h = gen_history(g);
  decltype(h) x;
  if (g.coin() && h.size() > 1) {  // the other has seen the beginning of the same history
    size_t k = 1 + g.below(h.size() - 1);
    x.assign(h.begin(), h.begin() + (long)k);
    h.erase(h.begin(), h.begin() + (long)k);
  } else x = gen_history(g);
  Dev a(mode), b(mode, false, (u8)g.below(256)), o(mode2);
  setup(a, 10, 1); setup(b, 10, 1); setup(o, 10, 1);
  for (auto &p : h) apply(a, p);
  size_t i = 0, k = 0;
  while (i < h.size() || k < x.size()) {
    if (i < h.size() && (k >= x.size() || g.coin())) apply(b, h[i++]);
    else apply(o, x[k++]);
  }
  Dev c(mode, true, 0, g.coin() ? &o : g.coin() ? &b : nullptr);
  setup(c, 10, 1);
  for (auto &p : h) apply(c, p);
  std::string ra = lines(a), rb = lines(b), rc = lines(c);
  if (ra != rb) PBT_FAIL("instances", "another instance changed the output:\n%s\ninstead of\n%s", rb.c_str(), ra.c_str());
  if (ra != rc) PBT_FAIL("memory", "output depends on memory contents:\n%s\ninstead of\n%s", rc.c_str(), ra.c_str());
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(ra.data(), ra.size());
}
PBT_PROP(C36, nmea_threads, 6000, 300000, "both threads produced sentences and took turns") {
  int ma = (int)g.below(3), mx = (int)g.below(3);
  auto h = gen_history(g), x = g.chance(30) ? h : gen_history(g);
  auto go = [&](Dev &d, const decltype(h) &v) { setup(d, 10, 1); for (auto &p : v) { sched::step(); apply(d, p); } };
  Dev a(ma), o(mx), b(ma, 2), y(mx, 2);
  go(a, h);
  go(o, x);
  auto r = sched::run(sched::gen_plan(g, 12, g.coin() ? 12 : 3000, 20000), {}, {[&] { go(b, h); }, [&] { go(y, x); }});
  std::string ra = lines(a), rb = lines(b), rx = lines(o), ry = lines(y);
  if (ra != rb) PBT_FAIL("threads", "another thread changed the output:\n%s\ninstead of\n%s", rb.c_str(), ra.c_str());
  if (rx != ry) PBT_FAIL("threads", "another thread changed the output:\n%s\ninstead of\n%s", ry.c_str(), rx.c_str());
  g.nontrivial_if(!a.out.empty() && !o.out.empty() && r.switches);
  g.fingerprint(ra.data(), ra.size());
}
