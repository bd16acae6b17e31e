// Independent description of the RTCM 10403.3 layouts: raw field lists that are
// generated, encoded by the reference bit writer and compared field by field.
#pragma once
#include "common.h"

namespace ref {
struct FieldDef { const char *name; u8 w; char kind; };  // kind: u unsigned, s two's complement, m sign-magnitude, r reserved
struct Raw {
  std::vector<FieldDef> def;
  std::map<std::string, u64> v;  // raw bits
  u64 u(const char *n) const { return v.at(n); }
  s64 s(const char *n) const {
    for (auto &d : def)
      if (!strcmp(d.name, n)) return d.kind == 's' ? sext(v.at(n), d.w) : d.kind == 'm' ? smag(v.at(n), d.w) : (s64)v.at(n);
    abort();
  }
  Bytes enc() const {
    BitW w;
    for (auto &d : def) w.put(v.at(d.name), d.w);
    return w.b;
  }
  size_t nbits() const { size_t n = 0; for (auto &d : def) n += d.w; return n; }
  std::string str() const {
    std::string o;
    for (auto &d : def) if (d.kind != 'r') o += fmt("%s=%lld ", d.name, (long long)s(d.name));
    return o;
  }
};
inline Raw gen_raw(G &g, const std::vector<FieldDef> &def, const std::map<std::string, u64> &fixed) {
  Raw r;
  r.def = def;
  for (auto &d : def) {
    auto it = fixed.find(d.name);
    r.v[d.name] = it != fixed.end() ? it->second : g.bits(d.w);
  }
  return r;
}
static const std::vector<FieldDef> L1019 = {{"msg", 12, 'u'}, {"sat", 6, 'u'}, {"wn", 10, 'u'}, {"ura", 4, 'u'}, {"codeL2", 2, 'u'}, {"idot", 14, 's'}, {"iode", 8, 'u'}, {"toc", 16, 'u'}, {"af2", 8, 's'}, {"af1", 16, 's'}, {"af0", 22, 's'}, {"iodc", 10, 'u'}, {"crs", 16, 's'}, {"dn", 16, 's'}, {"m0", 32, 's'}, {"cuc", 16, 's'}, {"ecc", 32, 'u'}, {"cus", 16, 's'}, {"sqrta", 32, 'u'}, {"toe", 16, 'u'}, {"cic", 16, 's'}, {"omega0", 32, 's'}, {"cis", 16, 's'}, {"inc", 32, 's'}, {"crc", 16, 's'}, {"w", 32, 's'}, {"omegadot", 24, 's'}, {"tgd", 8, 's'}, {"health", 6, 'u'}, {"l2p", 1, 'u'}, {"fit", 1, 'u'}};
static const std::vector<FieldDef> L1044 = {{"msg", 12, 'u'}, {"sat", 4, 'u'}, {"toc", 16, 'u'}, {"af2", 8, 's'}, {"af1", 16, 's'}, {"af0", 22, 's'}, {"iode", 8, 'u'}, {"crs", 16, 's'}, {"dn", 16, 's'}, {"m0", 32, 's'}, {"cuc", 16, 's'}, {"ecc", 32, 'u'}, {"cus", 16, 's'}, {"sqrta", 32, 'u'}, {"toe", 16, 'u'}, {"cic", 16, 's'}, {"omega0", 32, 's'}, {"cis", 16, 's'}, {"inc", 32, 's'}, {"crc", 16, 's'}, {"w", 32, 's'}, {"omegadot", 24, 's'}, {"idot", 14, 's'}, {"codeL2", 2, 'r'}, {"wn", 10, 'u'}, {"ura", 4, 'u'}, {"health", 6, 'u'}, {"tgd", 8, 's'}, {"iodc", 10, 'u'}, {"fit", 1, 'u'}};
static const std::vector<FieldDef> L1042 = {{"msg", 12, 'u'}, {"sat", 6, 'u'}, {"wn", 13, 'u'}, {"ura", 4, 'u'}, {"idot", 14, 's'}, {"iode", 5, 'u'}, {"toc", 17, 'u'}, {"af2", 11, 's'}, {"af1", 22, 's'}, {"af0", 24, 's'}, {"iodc", 5, 'u'}, {"crs", 18, 's'}, {"dn", 16, 's'}, {"m0", 32, 's'}, {"cuc", 18, 's'}, {"ecc", 32, 'u'}, {"cus", 18, 's'}, {"sqrta", 32, 'u'}, {"toe", 17, 'u'}, {"cic", 18, 's'}, {"omega0", 32, 's'}, {"cis", 18, 's'}, {"inc", 32, 's'}, {"crc", 18, 's'}, {"w", 32, 's'}, {"omegadot", 24, 's'}, {"tgd1", 10, 's'}, {"tgd2", 10, 's'}, {"health", 1, 'u'}};
#define GAL_COMMON {"msg", 12, 'u'}, {"sat", 6, 'u'}, {"wn", 12, 'u'}, {"iode", 10, 'u'}, {"ura", 8, 'u'}, {"idot", 14, 's'}, {"toc", 14, 'u'}, {"af2", 6, 's'}, {"af1", 21, 's'}, {"af0", 31, 's'}, {"crs", 16, 's'}, {"dn", 16, 's'}, {"m0", 32, 's'}, {"cuc", 16, 's'}, {"ecc", 32, 'u'}, {"cus", 16, 's'}, {"sqrta", 32, 'u'}, {"toe", 14, 'u'}, {"cic", 16, 's'}, {"omega0", 32, 's'}, {"cis", 16, 's'}, {"inc", 32, 's'}, {"crc", 16, 's'}, {"w", 32, 's'}, {"omegadot", 24, 's'}
static const std::vector<FieldDef> L1045 = {GAL_COMMON, {"bgd0", 10, 's'}, {"health", 3, 'u'}, {"res", 7, 'r'}};
static const std::vector<FieldDef> L1046 = {GAL_COMMON, {"bgd0", 10, 's'}, {"bgd1", 10, 's'}, {"health", 6, 'u'}, {"res", 2, 'r'}};
static const std::vector<FieldDef> L1020 = {{"msg", 12, 'u'}, {"sat", 6, 'u'}, {"fcn", 5, 'u'}, {"almh", 1, 'r'}, {"almv", 1, 'r'}, {"p1", 2, 'u'}, {"tk", 12, 'r'}, {"bn", 1, 'u'}, {"p2", 1, 'r'}, {"tb", 7, 'u'}, {"vx", 24, 'm'}, {"px", 27, 'm'}, {"ax", 5, 'm'}, {"vy", 24, 'm'}, {"py", 27, 'm'}, {"ay", 5, 'm'}, {"vz", 24, 'm'}, {"pz", 27, 'm'}, {"az", 5, 'm'}, {"p3", 1, 'r'}, {"gamma", 11, 'm'}, {"p", 2, 'r'}, {"ln3", 1, 'u'}, {"tau", 22, 'm'}, {"dtau", 5, 'm'}, {"en", 5, 'r'}, {"p4", 1, 'r'}, {"ft", 4, 'u'}, {"nt", 11, 'r'}, {"m", 2, 'r'}, {"add", 1, 'u'}, {"na", 11, 'r'}, {"tauc", 32, 'r'}, {"n4", 5, 'r'}, {"taugps", 22, 'r'}, {"ln5", 1, 'u'}, {"res", 7, 'r'}};

// DF013-style lock time indicator, RTCM 10403.3 table 3.4-2
inline double lock7(unsigned i) {
  // segments of 24 indicators, slope doubling
  unsigned base = 0, step = 1, start = 0;
  for (int seg = 0; seg < 6; seg++) {
    unsigned n = seg < 5 ? 24 : 7;
    if (i < start + n) return base + (i - start) * step;
    base += n * step;
    start += n;
    step *= 2;
  }
  return 937;
}
// DF402
inline double lock4(unsigned i) { return i == 0 ? 0 : 0.032 * pow(2, i - 1); }
// DF407 (10 bit): first segment 64 wide with step 1 ms, then 32-wide segments doubling
inline double lock10(unsigned i) {
  if (i < 64) return i / 1000.0;
  if (i >= 704) return 67108.864;
  double base = 64, step = 2;
  unsigned start = 64;
  while (i >= start + 32) { base += 32 * step; step *= 2; start += 32; }
  return (base + (i - start) * step) / 1000.0;
}

// MSM ------------------------------------------------------------------
enum Cons { GPS, SBAS, GLO, BDS, QZS, GAL, NCONS };
static const u16 MSM_BASE[NCONS] = {1070, 1100, 1080, 1120, 1110, 1090};
struct MsmCell {
  u8 sat, sig;  // 1-based ids
  u64 pr, cp, lock, hca, cnr, dop;
};
struct MsmSat { u8 id; u64 rough_ms, info, rough_mod, rate; };
struct Msm {
  int cons, type;
  u64 stn, epoch, dow, multiple, iods, reserved, steering, ext, divf, smooth;
  u64 satmask;  // bit 63 = satellite 1
  u32 sigmask;  // bit 31 = signal 1
  std::vector<bool> cellmask;
  std::vector<MsmSat> sats;
  std::vector<u8> sigs;
  std::vector<MsmCell> cells;
  u16 num() const { return MSM_BASE[cons] + type; }
  Bytes enc(size_t *nbits = nullptr) const {
    BitW w;
    w.put(num(), 12); w.put(stn, 12);
    if (cons == GLO) { w.put(dow, 3); w.put(epoch, 27); } else w.put(epoch, 30);
    w.put(multiple, 1); w.put(iods, 3); w.put(reserved, 7); w.put(steering, 2); w.put(ext, 2); w.put(divf, 1); w.put(smooth, 3);
    w.put(satmask, 64); w.put(sigmask, 32);
    for (bool c : cellmask) w.put(c, 1);
    bool rates = type == 5 || type == 7, hi = type >= 6;
    for (auto &s : sats) w.put(s.rough_ms, 8);
    if (rates) for (auto &s : sats) w.put(s.info, 4);
    for (auto &s : sats) w.put(s.rough_mod, 10);
    if (rates) for (auto &s : sats) w.put(s.rate, 14);
    for (auto &c : cells) w.put(c.pr, hi ? 20 : 15);
    for (auto &c : cells) w.put(c.cp, hi ? 24 : 22);
    for (auto &c : cells) w.put(c.lock, hi ? 10 : 4);
    for (auto &c : cells) w.put(c.hca, 1);
    for (auto &c : cells) w.put(c.cnr, hi ? 10 : 6);
    if (rates) for (auto &c : cells) w.put(c.dop, 15);
    if (nbits) *nbits = w.n;
    return w.b;
  }
};
inline void msm_masks(G &g, Msm &m, int maxcells = 64) {
  // choose number of satellites and signals with product <= maxcells
  int nsat = 0, nsig = 0;
  switch (g.draw(6)) {
    default: nsat = (int)g.range(1, 8); nsig = (int)g.range(1, 4); break;
    case 3: nsat = (int)g.range(0, 2); nsig = (int)g.range(0, 32); break;
    case 4: nsat = (int)g.range(8, 64); nsig = (int)g.range(0, 3); break;
    case 5: nsig = (int)g.range(1, 32); nsat = maxcells / nsig - (g.coin() ? 0 : (int)g.draw(2)); break;
  }
  if (nsat > 64) nsat = 64;
  if (nsat < 0) nsat = 0;
  while (nsat * nsig > maxcells) { if (nsat > nsig) nsat--; else nsig--; }
  m.satmask = 0; m.sigmask = 0;
  // satellites: mostly plausible low ids, sometimes anywhere; fill rest in order
  int hi = g.chance(40) ? 64 : std::max(nsat, 36);
  for (int k = 0; k < nsat; k++) {
    int id = (int)g.draw(hi);
    while (m.satmask >> (63 - id) & 1) id = (id + 1) % hi;
    m.satmask |= 1ull << (63 - id);
  }
  for (int k = 0; k < nsig; k++) {
    int id = (int)g.draw(32);
    while (m.sigmask >> (31 - id) & 1) id = (id + 1) % 32;
    m.sigmask |= 1u << (31 - id);
  }
}
inline void msm_fill(G &g, Msm &m, bool all = false) {
  m.sats.clear(); m.sigs.clear(); m.cells.clear(); m.cellmask.clear();
  for (int i = 0; i < 64; i++) if (m.satmask >> (63 - i) & 1) m.sats.push_back({(u8)(i + 1), 0, 0, 0, 0});
  for (int i = 0; i < 32; i++) if (m.sigmask >> (31 - i) & 1) m.sigs.push_back(i + 1);
  int style = all ? 0 : (int)g.draw(3);
  bool hi = m.type >= 6;
  for (auto &s : m.sats) {
    s.rough_ms = g.chance(10) ? 255 : g.bits(8);
    s.info = g.bits(4);
    s.rough_mod = g.bits(10);
    s.rate = g.chance(10) ? 0x2000 : g.bits(14);
    for (u8 sg : m.sigs) {
      bool on = style == 0 ? true : style == 1 ? g.coin() : g.chance(20);
      m.cellmask.push_back(on);
      if (!on) continue;
      MsmCell c;
      c.sat = s.id; c.sig = sg;
      c.pr = g.chance(8) ? (hi ? 0x80000 : 0x4000) : g.bits(hi ? 20 : 15);
      c.cp = g.chance(8) ? (hi ? 0x800000 : 0x200000) : g.bits(hi ? 24 : 22);
      c.lock = g.bits(hi ? 10 : 4);
      c.hca = g.draw(2);
      c.cnr = g.bits(hi ? 10 : 6);
      c.dop = g.chance(8) ? 0x4000 : g.bits(15);
      m.cells.push_back(c);
    }
  }
}
struct MsmExp { bool vpr, vcp, vcnr, vdop; double pr, cp, lock, cnr, dop; bool hca; };
inline MsmExp msm_expect(const Msm &m, const MsmCell &c) {
  const MsmSat *s = nullptr;
  for (auto &x : m.sats) if (x.id == c.sat) s = &x;
  bool hi = m.type >= 6, rates = m.type == 5 || m.type == 7;
  MsmExp e;
  double rough = (double)s->rough_ms + (double)s->rough_mod / 1024.0;
  bool rv = s->rough_ms != 255;
  s64 pr = sext(c.pr, hi ? 20 : 15), cp = sext(c.cp, hi ? 24 : 22), dop = sext(c.dop, 15), rate = sext(s->rate, 14);
  e.vpr = rv && pr != (hi ? -524288 : -16384);
  e.vcp = rv && cp != (hi ? -8388608 : -2097152);
  e.vcnr = c.cnr != 0;
  e.vdop = rates && rate != -8192 && dop != -16384;
  e.pr = rough + (double)pr * (hi ? pow(2, -29) : pow(2, -24));
  e.cp = rough + (double)cp * (hi ? pow(2, -31) : pow(2, -29));
  e.lock = hi ? lock10((unsigned)c.lock) : lock4((unsigned)c.lock);
  e.hca = c.hca;
  e.cnr = hi ? c.cnr / 16.0 : (double)c.cnr;
  e.dop = (double)rate + (double)dop * 0.0001;
  return e;
}

// legacy observations (1001..1004, 1010, 1012) ---------------------------
struct LSat { u64 sv, code1, fcn, pr1, diff1, lock1, amb, cnr1, code2, pr2, diff2, lock2, cnr2; };
static const double C_LIGHT = 299792458.0;
struct LObs {
  int num;
  u64 stn, tow, sync, div, smooth;
  std::vector<LSat> sats;
  bool glo() const { return num == 1010 || num == 1012; }
  bool l2() const { return num == 1003 || num == 1004 || num == 1012; }
  bool ext() const { return num != 1001 && num != 1003; }
  double prunit() const { return glo() ? 599584.916 : 299792.458; }
  double freq(const LSat &s, int f) const {
    if (glo()) return f == 0 ? 1602e6 + ((double)s.fcn - 7) * 562500.0 : 1246e6 + ((double)s.fcn - 7) * 437500.0;
    return f == 0 ? 1575.42e6 : 1227.6e6;
  }
  Bytes enc(size_t *nbits = nullptr) const {
    BitW w;
    w.put(num, 12); w.put(stn, 12); w.put(tow, glo() ? 27 : 30); w.put(sync, 1); w.put(sats.size(), 5); w.put(div, 1); w.put(smooth, 3);
    for (auto &s : sats) {
      w.put(s.sv, 6); w.put(s.code1, 1);
      if (glo()) w.put(s.fcn, 5);
      w.put(s.pr1, glo() ? 25 : 24); w.put(s.diff1, 20); w.put(s.lock1, 7);
      if (ext()) { w.put(s.amb, glo() ? 7 : 8); w.put(s.cnr1, 8); }
      if (l2()) {
        w.put(s.code2, 2); w.put(s.pr2, 14); w.put(s.diff2, 20); w.put(s.lock2, 7);
        if (ext()) w.put(s.cnr2, 8);
      }
    }
    if (nbits) *nbits = w.n;
    return w.b;
  }
  double pr_l1(const LSat &s) const { return 0.02 * (double)s.pr1 + (ext() ? (double)s.amb * prunit() : 0); }
  double pr_l2(const LSat &s) const { return pr_l1(s) + 0.02 * (double)sext(s.pr2, 14); }
  double cp(const LSat &s, int f) const {
    return (pr_l1(s) + 0.0005 * (double)sext(f ? s.diff2 : s.diff1, 20)) / (C_LIGHT / freq(s, f));
  }
  bool vpr1(const LSat &s) const { return s.pr1 != 0x80000; }
  bool vpr2(const LSat &s) const { return s.pr2 != 0x2000; }
  bool vcp(const LSat &s, int f) const { return (f ? s.diff2 : s.diff1) != 0x80000 && (!glo() || f || s.fcn <= 20); }
};
inline LSat gen_lsat(G &g, const LObs &m, bool canonical) {
  LSat s;
  s.sv = g.bits(6);
  s.code1 = canonical && m.glo() ? 0 : g.draw(2);
  s.fcn = canonical || !g.chance(15) ? g.draw(21) : g.bits(5);
  // canonical: below the pseudorange modulus, invalid patterns avoided
  u64 lim = (u64)(m.prunit() / 0.02);
  if (canonical) {
    s.pr1 = 5 + g.below(lim - 10);
    if (s.pr1 == 0x80000) s.pr1++;
  } else s.pr1 = g.chance(8) ? 0x80000 : g.bits(m.glo() ? 25 : 24);
  s.diff1 = g.chance(10) && !canonical ? 0x80000 : g.bits(20);
  s.lock1 = g.bits(7);
  s.amb = m.ext() ? g.bits(m.glo() ? 7 : 8) : 0;
  s.cnr1 = g.bits(8);
  s.code2 = canonical && m.glo() ? 0 : g.draw(4);
  s.pr2 = g.chance(10) ? 0x2000 : g.bits(14);
  s.diff2 = g.chance(10) ? 0x80000 : g.bits(20);
  s.lock2 = g.bits(7);
  s.cnr2 = g.bits(8);
  if (canonical) {
    if (s.diff1 == 0x80000) s.diff1++;
    if (m.num == 1003) {
      if (s.pr2 == 0x2000) s.pr2++;
      if (s.diff2 == 0x80000) s.diff2++;
    }
    if (s.diff2 == 0x80000) s.lock2 = 0;  // lock is only sent with a valid phase
  }
  return s;
}
inline LObs gen_lobs(G &g, bool canonical = false) {
  LObs m;
  m.num = g.pick({1001, 1002, 1003, 1004, 1010, 1012});
  m.stn = g.bits(12);
  u64 max = m.glo() ? 86400000ull - 1 : 604800000ull - 1;
  m.tow = (u64)g.ival(0, (s64)max);
  m.sync = g.draw(2); m.div = g.draw(2); m.smooth = g.draw(8);
  int n = (int)(g.chance(15) ? g.range(0, 31) : g.range(0, 5));
  for (int i = 0; i < n; i++) m.sats.push_back(gen_lsat(g, m, canonical));
  return m;
}

// SSR --------------------------------------------------------------------
struct SsrSat {
  u8 id;
  u64 iode, iode2, rad, alo, cro, drad, dalo, dcro, c0, c1, c2;
  struct Sig { u64 id, cb, integer, wl, disc, pb; };
  std::vector<Sig> sigs;
  u64 yaw, yawrate;
};
enum SsrKind { ORBIT, CLOCK, COMBINED, CODE_BIAS, PHASE_BIAS };
inline u16 ssr_num(int cons, int kind) {
  static const u16 base[NCONS] = {1057, 0, 1063, 1258, 1246, 1240};
  static const u16 pb[NCONS] = {1265, 1269, 1266, 1270, 1268, 1267};
  if (kind == PHASE_BIAS) return pb[cons];
  int off = kind == ORBIT ? 0 : kind == CLOCK ? 1 : kind == CODE_BIAS ? 2 : 3;
  return base[cons] + off;
}
struct Ssr {
  int cons, kind;
  u64 epoch, upd, multi, datum, iod, prov, sol, disp, mw;
  std::vector<SsrSat> sats;
  u16 num() const { return ssr_num(cons, kind); }
  static unsigned satw(int c) { return c == GLO ? 5 : c == QZS ? 4 : 6; }
  static unsigned iodew(int c) { return c == GAL || c == BDS ? 10 : c == SBAS ? 9 : 8; }
  unsigned epochw() const { return cons == GLO ? 17 : 20; }
  Bytes enc(size_t *nbits = nullptr) const {
    BitW w;
    w.put(num(), 12);
    w.put(epoch, epochw());
    w.put(upd, 4); w.put(multi, 1);
    if (kind == ORBIT || kind == COMBINED) w.put(datum, 1);
    w.put(iod, 4); w.put(prov, 16); w.put(sol, 4);
    if (kind == PHASE_BIAS) { w.put(disp, 1); w.put(mw, 1); }
    w.put(sats.size(), 6);
    for (auto &s : sats) {
      w.put(s.id, satw(cons));
      if (kind == ORBIT || kind == COMBINED) {
        w.put(s.iode, iodew(cons));
        if (cons == BDS) w.put(s.iode2, 8);
        if (cons == SBAS) w.put(s.iode2, 24);
        w.put(s.rad, 22); w.put(s.alo, 20); w.put(s.cro, 20); w.put(s.drad, 21); w.put(s.dalo, 19); w.put(s.dcro, 19);
      }
      if (kind == CLOCK || kind == COMBINED) { w.put(s.c0, 22); w.put(s.c1, 21); w.put(s.c2, 27); }
      if (kind == CODE_BIAS) {
        w.put(s.sigs.size(), 5);
        for (auto &q : s.sigs) { w.put(q.id, 5); w.put(q.cb, 14); }
      }
      if (kind == PHASE_BIAS) {
        w.put(s.sigs.size(), 5); w.put(s.yaw, 9); w.put(s.yawrate, 8);
        for (auto &q : s.sigs) { w.put(q.id, 5); w.put(q.integer, 1); w.put(q.wl, 2); w.put(q.disc, 4); w.put(q.pb, 20); }
      }
    }
    if (nbits) *nbits = w.n;
    return w.b;
  }
};
inline SsrSat ssr_sat(G &g, int cons, int kind, int maxsig) {
  SsrSat s;
  s.id = (u8)g.bits(Ssr::satw(cons));
  s.iode = s.iode2 = s.rad = s.alo = s.cro = s.drad = s.dalo = s.dcro = s.c0 = s.c1 = s.c2 = s.yaw = s.yawrate = 0;
  if (kind == ORBIT || kind == COMBINED) {
    s.iode = g.bits(Ssr::iodew(cons));
    s.iode2 = g.bits(cons == SBAS ? 24 : 8);
    s.rad = g.bits(22); s.alo = g.bits(20); s.cro = g.bits(20); s.drad = g.bits(21); s.dalo = g.bits(19); s.dcro = g.bits(19);
  }
  if (kind == CLOCK || kind == COMBINED) { s.c0 = g.bits(22); s.c1 = g.bits(21); s.c2 = g.bits(27); }
  if (kind == CODE_BIAS || kind == PHASE_BIAS) {
    int n = (int)(g.chance(20) ? g.range(0, maxsig) : g.range(0, std::min(5, maxsig)));
    s.yaw = g.bits(9); s.yawrate = g.bits(8);
    for (int i = 0; i < n; i++) s.sigs.push_back({g.bits(5), g.bits(14), g.draw(2), g.bits(2), g.bits(4), g.bits(20)});
  }
  return s;
}
inline Ssr gen_ssr(G &g, int cons, int kind, int maxsat = 63) {
  Ssr m;
  m.cons = cons; m.kind = kind;
  m.epoch = g.bits(m.epochw());
  m.upd = g.bits(4); m.multi = g.draw(2); m.datum = g.draw(2); m.iod = g.bits(4); m.prov = g.bits(16); m.sol = g.bits(4); m.disp = g.draw(2); m.mw = g.draw(2);
  int n = (int)(g.chance(10) ? g.range(0, maxsat) : g.range(0, std::min(6, maxsat)));
  for (int i = 0; i < n; i++) {
    Ssr t = m;
    t.sats.push_back(ssr_sat(g, cons, kind, 31));
    size_t nb;
    t.enc(&nb);
    if (nb > 1023 * 8) break;
    m.sats = t.sats;
  }
  return m;
}

// station, descriptors, ephemeris layouts, MSM --------------------------
struct Sta { int num; u64 stn, itrf, gps, glo, gal, refs, x, osc, res, y, qc, z, h; };
inline Bytes enc_sta(const Sta &s, size_t *nb) {
  BitW w;
  w.put(s.num, 12); w.put(s.stn, 12); w.put(s.itrf, 6); w.put(s.gps, 1); w.put(s.glo, 1); w.put(s.gal, 1); w.put(s.refs, 1);
  w.put(s.x, 38); w.put(s.osc, 1); w.put(s.res, 1); w.put(s.y, 38); w.put(s.qc, 2); w.put(s.z, 38);
  if (s.num == 1006) w.put(s.h, 16);
  *nb = w.n;
  return w.b;
}
inline Sta gen_sta(G &g) {
  Sta s;
  s.num = g.coin() ? 1006 : 1005;
  s.stn = g.bits(12); s.itrf = g.bits(6); s.gps = g.draw(2); s.glo = g.draw(2); s.gal = g.draw(2); s.refs = g.draw(2); s.x = g.bits(38);
  s.osc = g.draw(2); s.res = g.draw(2); s.y = g.bits(38); s.qc = g.draw(4); s.z = g.bits(38); s.h = g.bits(16);
  return s;
}
// a descriptor string: length byte + bytes
struct Str { Bytes s; };
inline Str gen_str(G &g, size_t max) { return {g.bytes(g.chance(20) ? max : g.draw(max + 1))}; }
inline void put_str(BitW &w, const Str &s) { w.put(s.s.size(), 8); for (u8 c : s.s) w.put(c, 8); }
struct Desc { int num; u64 stn, setup; Str a, as, r, fw, rs; };
inline Desc gen_desc(G &g, size_t max) {
  Desc d;
  d.num = g.pick({1033, 1007, 1008});
  d.stn = g.bits(12); d.setup = g.bits(8);
  d.a = gen_str(g, max); d.as = gen_str(g, max); d.r = gen_str(g, max); d.fw = gen_str(g, max); d.rs = gen_str(g, max);
  return d;
}
inline Bytes enc_desc(const Desc &d, size_t *nb) {
  BitW w;
  w.put(d.num, 12); w.put(d.stn, 12); put_str(w, d.a); w.put(d.setup, 8);
  if (d.num != 1007) put_str(w, d.as);
  if (d.num == 1033) { put_str(w, d.r); put_str(w, d.fw); put_str(w, d.rs); }
  *nb = w.n;
  return w.b;
}
inline const std::vector<FieldDef> &eph_layout(int num) {
  switch (num) {
    case 1019: return L1019;
    case 1020: return L1020;
    case 1042: return L1042;
    case 1044: return L1044;
    case 1045: return L1045;
    default: return L1046;
  }
}
inline Msm gen_msm(G &g, int tlo = 4, int thi = 7) {
  Msm m;
  m.cons = (int)g.draw(NCONS);
  m.type = (int)g.range(tlo, thi);
  m.stn = g.bits(12);
  m.dow = g.draw(8);
  m.epoch = (u64)g.ival(0, m.cons == GLO ? 86400000 - 1 : 604800000 - 1);
  m.multiple = g.draw(2); m.iods = g.draw(8); m.reserved = g.bits(7); m.steering = g.draw(4); m.ext = g.draw(4); m.divf = g.draw(2); m.smooth = g.draw(8);
  msm_masks(g, m);
  msm_fill(g, m);
  return m;
}
}  // namespace ref
