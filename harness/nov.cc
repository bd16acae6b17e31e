// C04, C08, C09, C34, C35, C36 for the NovAtel parser and converter.
#include "common.h"
#include <cstddef>
#include <cstdarg>
#include "parser/novatel.h"
#include "parser/crc_checker.h"
#include "parser/read_little_endian.h"
extern "C" {
#include <libsbp/sbp.h>
#include <swiftnav/geoid_model.h>
int nov2sbp_main(int argc, char **argv, const char *help, int (*rd)(uint8_t *, uint32_t, void *), int (*wr)(uint8_t *, uint32_t, void *), void *ctx);
}
#ifndef PBT_GROUP_t_nov
extern "C" int quiet_fprintf(FILE *, const char *, ...) { return 0; }
#endif
using namespace pbt;
using namespace ref;
using namespace Novatel;

// ---- layouts (OEM7 manual): name, width, kind, offset in the parsed struct ----
enum Kind { U, F, NEG };
struct Fld { const char *name; int w; Kind k; size_t so; };
#define FL(T, n, w, k) {#n, w, k, offsetof(Message::T, n)}
static const std::vector<Fld> L_GPSEPHEM = {
    FL(GPSEPHEM_t, prn, 4, U), FL(GPSEPHEM_t, tow, 8, F), FL(GPSEPHEM_t, health, 4, U), FL(GPSEPHEM_t, iode1, 4, U),
    FL(GPSEPHEM_t, iode2, 4, U), FL(GPSEPHEM_t, week, 4, U), FL(GPSEPHEM_t, z_week, 4, U), FL(GPSEPHEM_t, toe, 8, F),
    FL(GPSEPHEM_t, A, 8, F), FL(GPSEPHEM_t, delta_N, 8, F), FL(GPSEPHEM_t, M0, 8, F), FL(GPSEPHEM_t, ecc, 8, F),
    FL(GPSEPHEM_t, omega, 8, F), FL(GPSEPHEM_t, cuc, 8, F), FL(GPSEPHEM_t, cus, 8, F), FL(GPSEPHEM_t, crc, 8, F),
    FL(GPSEPHEM_t, crs, 8, F), FL(GPSEPHEM_t, cic, 8, F), FL(GPSEPHEM_t, cis, 8, F), FL(GPSEPHEM_t, I0, 8, F),
    FL(GPSEPHEM_t, I_dot, 8, F), FL(GPSEPHEM_t, omega0, 8, F), FL(GPSEPHEM_t, omega_dot, 8, F), FL(GPSEPHEM_t, iodc, 4, U),
    FL(GPSEPHEM_t, toc, 8, F), FL(GPSEPHEM_t, tgd, 8, F), FL(GPSEPHEM_t, af0, 8, F), FL(GPSEPHEM_t, af1, 8, F),
    FL(GPSEPHEM_t, af2, 8, F), FL(GPSEPHEM_t, AS, 4, U), FL(GPSEPHEM_t, N, 8, F), FL(GPSEPHEM_t, URA, 8, F)};
static const std::vector<Fld> L_BESTPOS = {
    FL(BESTPOS_t, sol_stat, 4, U), FL(BESTPOS_t, pos_type, 4, U), FL(BESTPOS_t, lat, 8, F), FL(BESTPOS_t, lon, 8, F),
    FL(BESTPOS_t, hgt, 8, F), FL(BESTPOS_t, undulation, 4, F), FL(BESTPOS_t, datum_id, 4, U), FL(BESTPOS_t, lat_stddev, 4, F),
    FL(BESTPOS_t, lon_stddev, 4, F), FL(BESTPOS_t, hgt_stddev, 4, F), FL(BESTPOS_t, stn_id, 4, U), FL(BESTPOS_t, diff_age, 4, F),
    FL(BESTPOS_t, sol_age, 4, F), FL(BESTPOS_t, num_sv_tracked, 1, U), FL(BESTPOS_t, num_sv_in_soln, 1, U),
    FL(BESTPOS_t, num_sv_in_soln_L1, 1, U), FL(BESTPOS_t, num_sv_in_soln_multi, 1, U), FL(BESTPOS_t, reserved, 1, U),
    FL(BESTPOS_t, ext_sol_stat, 1, U), FL(BESTPOS_t, galileo_beidou_mask, 1, U), FL(BESTPOS_t, gps_glonass_mask, 1, U)};
static const std::vector<Fld> L_BESTVEL = {
    FL(BESTVEL_t, sol_stat, 4, U), FL(BESTVEL_t, vel_type, 4, U), FL(BESTVEL_t, latency, 4, F), FL(BESTVEL_t, diff_age, 4, F),
    FL(BESTVEL_t, hor_speed, 8, F), FL(BESTVEL_t, trk_gnd, 8, F), FL(BESTVEL_t, vert_speed, 8, F), FL(BESTVEL_t, reserved, 4, F)};
static const std::vector<Fld> L_INSATT = {FL(INSATT_t, gnss_week, 4, U), FL(INSATT_t, tow, 8, F), FL(INSATT_t, roll, 8, F),
                                          FL(INSATT_t, pitch, 8, F), FL(INSATT_t, azimuth, 8, F), FL(INSATT_t, status, 4, U)};
static const std::vector<Fld> L_GLOEPH = {
    FL(GLOEPHEMERIS_t, sloto, 2, U), FL(GLOEPHEMERIS_t, freqo, 2, U), FL(GLOEPHEMERIS_t, sat_type, 1, U), FL(GLOEPHEMERIS_t, reserved_1, 1, U),
    FL(GLOEPHEMERIS_t, e_week, 2, U), FL(GLOEPHEMERIS_t, e_time, 4, U), FL(GLOEPHEMERIS_t, t_offset, 4, U), FL(GLOEPHEMERIS_t, Nt, 2, U),
    FL(GLOEPHEMERIS_t, reserved_2, 2, U), FL(GLOEPHEMERIS_t, issue, 4, U), FL(GLOEPHEMERIS_t, health, 4, U), FL(GLOEPHEMERIS_t, pos_x, 8, F),
    FL(GLOEPHEMERIS_t, pos_y, 8, F), FL(GLOEPHEMERIS_t, pos_z, 8, F), FL(GLOEPHEMERIS_t, vel_x, 8, F), FL(GLOEPHEMERIS_t, vel_y, 8, F),
    FL(GLOEPHEMERIS_t, vel_z, 8, F), FL(GLOEPHEMERIS_t, LS_acc_x, 8, F), FL(GLOEPHEMERIS_t, LS_acc_y, 8, F), FL(GLOEPHEMERIS_t, LS_acc_z, 8, F),
    FL(GLOEPHEMERIS_t, tau_n, 8, F), FL(GLOEPHEMERIS_t, delta_tau_n, 8, F), FL(GLOEPHEMERIS_t, gamma, 8, F), FL(GLOEPHEMERIS_t, Tk, 4, U),
    FL(GLOEPHEMERIS_t, P, 4, U), FL(GLOEPHEMERIS_t, Ft, 4, U), FL(GLOEPHEMERIS_t, age, 4, U), FL(GLOEPHEMERIS_t, flags, 4, U)};
static const std::vector<Fld> L_RAWIMUSX = {
    FL(RAWIMUSX_t, imu_info, 1, U), FL(RAWIMUSX_t, imu_type, 1, U), FL(RAWIMUSX_t, gnss_week, 2, U), FL(RAWIMUSX_t, gnss_week_seconds, 8, F),
    FL(RAWIMUSX_t, imu_status, 4, U), FL(RAWIMUSX_t, z_accel, 4, U), FL(RAWIMUSX_t, y_accel, 4, NEG), FL(RAWIMUSX_t, x_accel, 4, U),
    FL(RAWIMUSX_t, z_gyro, 4, U), FL(RAWIMUSX_t, y_gyro, 4, NEG), FL(RAWIMUSX_t, x_gyro, 4, U)};
struct MType { u16 id; const std::vector<Fld> *l; size_t ssize; const char *name; };
static const MType TYPES[] = {{7, &L_GPSEPHEM, sizeof(Message::GPSEPHEM_t), "GPSEPHEM"},
                              {42, &L_BESTPOS, sizeof(Message::BESTPOS_t), "BESTPOS"},
                              {99, &L_BESTVEL, sizeof(Message::BESTVEL_t), "BESTVEL"},
                              {140, nullptr, sizeof(Message::RANGECMP_t), "RANGECMP"},
                              {263, &L_INSATT, sizeof(Message::INSATT_t), "INSATT"},
                              {723, &L_GLOEPH, sizeof(Message::GLOEPHEMERIS_t), "GLOEPHEMERIS"},
                              {1462, &L_RAWIMUSX, sizeof(Message::RAWIMUSX_t), "RAWIMUSX"}};
static const MType *mtype(u16 id) {
  for (auto &t : TYPES) if (t.id == id) return &t;
  return nullptr;
}
static size_t body_size(const MType &t) {
  size_t n = 0;
  for (auto &f : *t.l) n += (size_t)f.w;
  return n;
}
static u64 rdle(const Bytes &b, size_t o, int w) {
  u64 v = 0;
  for (int i = 0; i < w; i++) v |= (u64)b[o + (size_t)i] << (8 * i);
  return v;
}
static void putle(Bytes &b, u64 v, int w) { for (int i = 0; i < w; i++) b.push_back((u8)(v >> (8 * i))); }
static u64 fieldv(const Bytes &b, const std::vector<Fld> &l, const char *name) {
  size_t o = 0;
  for (auto &f : l) {
    if (!strcmp(f.name, name)) return rdle(b, o, f.w);
    o += (size_t)f.w;
  }
  abort();
}
static double fieldf(const Bytes &b, const std::vector<Fld> &l, const char *name) {
  size_t o = 0;
  for (auto &f : l) {
    if (!strcmp(f.name, name)) {
      u64 v = rdle(b, o, f.w);
      if (f.w == 8) { double d; memcpy(&d, &v, 8); return d; }
      u32 u = (u32)v;
      float x;
      memcpy(&x, &u, 4);
      return x;
    }
    o += (size_t)f.w;
  }
  abort();
}

struct NF {
  bool shrt = false;
  u16 id = 0, seq = 0, week = 0, reserved = 0, sw = 0;
  s32 ms = 0;
  u8 type = 0, port = 0, idle = 0, tstat = 0;
  u32 rx = 0;
  Bytes body;
  bool supported() const {
    const MType *t = mtype(id);
    if (!t) return false;
    if (t->l) return body.size() == body_size(*t);
    return body.size() >= 4 && rdle(body, 0, 4) * 24 + 4 == body.size();
  }
  Bytes frame() const {
    Bytes b;
    if (shrt) {
      b = {0xAA, 0x44, 0x13, (u8)body.size()};
      putle(b, id, 2); putle(b, week, 2); putle(b, (u32)ms, 4);
    } else {
      b = {0xAA, 0x44, 0x12, 28};
      putle(b, id, 2); b.push_back(type); b.push_back(port); putle(b, body.size(), 2); putle(b, seq, 2);
      b.push_back(idle); b.push_back(tstat); putle(b, week, 2); putle(b, (u32)ms, 4); putle(b, rx, 4);
      putle(b, reserved, 2); putle(b, sw, 2);
    }
    append(b, body);
    putle(b, novatel_crc(b.data(), b.size()), 4);
    return b;
  }
};
static double odd_double(G &g) {
  switch (g.draw(10)) {
    default: return g.real(-1000, 1000);
    case 3: return g.real(-1, 1) * 1e-9;
    case 4: return 0.0;
    case 5: return -0.0;
    case 6: return g.real(-1, 1) * 1e18;
    case 7: { u64 r = g.draw(0); double d; memcpy(&d, &r, 8); return d; }
    case 8: return g.pick<double>({NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324});
    case 9: return (double)g.ival(-(1ll << 33), 1ll << 33);
  }
}
static Bytes gen_record(G &g) {
  Bytes r;
  for (int i = 0; i < 24; i += 4) putle(r, g.bits(32), 4);
  return r;
}
static Bytes gen_body(G &g, u16 id, size_t maxrec) {
  const MType *t = mtype(id);
  Bytes b;
  if (!t) return g.bytes(g.range(0, 60));
  if (!t->l) {
    size_t n = (size_t)(g.chance(20) ? g.ival(0, (s64)maxrec) : g.range(0, std::min<s64>(6, (s64)maxrec)));
    putle(b, n, 4);
    for (size_t i = 0; i < n; i++) append(b, i < 8 ? gen_record(g) : Bytes(b.begin() + 4, b.begin() + 28));
    return b;
  }
  for (auto &f : *t->l) {
    if (f.k == F) {
      double d = odd_double(g);
      if (f.w == 8) le(b, d);
      else if (g.chance(20)) putle(b, g.bits(32), 4);
      else le(b, (float)d);
    } else if (f.k == NEG) {
      u64 v = g.bits(32);
      if (v == 0x80000000u) v = 0x80000001u;  // -INT_MIN has no value
      putle(b, v, 4);
    } else {
      putle(b, g.bits((unsigned)f.w * 8), f.w);
    }
  }
  return b;
}
static void real_body(G &g, NF &f);
static NF gen_frame(G &g) {
  NF f;
  f.shrt = g.coin();
  u64 k = g.draw(10);
  f.id = k < 8 ? TYPES[g.draw(7)].id : k == 8 ? (u16)g.bits(16) : (u16)(TYPES[g.draw(7)].id + g.range(-1, 1));
  f.body = gen_body(g, f.id, f.shrt ? 10 : 169);
  if (g.chance(40)) real_body(g, f);
  if (g.chance(8)) {  // wrong length
    if (g.coin() && !f.body.empty()) f.body.resize(g.below(f.body.size()));
    else append(f.body, g.bytes(g.range(1, 24)));
  }
  if (f.shrt && f.body.size() > 255) f.body.resize(255);
  if (f.body.size() > 4064) f.body.resize(4064);
  f.seq = (u16)g.bits(16); f.week = (u16)g.bits(16); f.ms = (s32)g.bits(32);
  f.type = (u8)g.bits(8); f.port = (u8)g.bits(8); f.idle = (u8)g.bits(8); f.tstat = (u8)g.bits(8);
  f.rx = (u32)g.bits(32); f.reserved = (u16)g.bits(16); f.sw = (u16)g.bits(16);
  return f;
}

// ---- chunked reader ----
struct Src {
  Bytes data;
  std::vector<u32> chunks;  // cyclic, 0 = whatever is asked for
  int eof = 0;
  size_t pos = 0, ci = 0, after = 0;
  Bytes out;                 // written SBP bytes
};
static int rd(uint8_t *b, uint32_t n, void *ctx) {
  Src *s = (Src *)ctx;
  if (s->pos >= s->data.size()) {
    if (++s->after > 64) pbt::fail("spin", "the reader was asked for more bytes 64 times after the end of input");
    return s->eof;
  }
  if (n == 0) pbt::fail("zero-read", "reader asked for zero bytes while input is left");
  size_t k = n;
  if (!s->chunks.empty()) {
    u32 c = s->chunks[s->ci++ % s->chunks.size()];
    if (c) k = std::min<size_t>(k, c);
  }
  k = std::min(k, s->data.size() - s->pos);
  memcpy(b, &s->data[s->pos], k);
  s->pos += k;
  return (int)k;
}
static int wr(uint8_t *b, uint32_t n, void *ctx) {
  Src *s = (Src *)ctx;
  s->out.insert(s->out.end(), b, b + n);
  return (int)n;
}
static std::vector<u32> gen_chunks(G &g) {
  std::vector<u32> c;
  switch (g.draw(6)) {
    case 0: break;
    case 1: c = {1}; break;
    case 2: c = {(u32)g.range(1, 40)}; break;
    case 3: c = {(u32)g.range(1, 4096)}; break;
    default: { size_t n = (size_t)g.range(2, 8); for (size_t i = 0; i < n; i++) c.push_back((u32)(g.coin() ? g.range(1, 8) : g.range(1, 600))); }
  }
  return c;
}

// ---- recording parser run ----
struct Ev {
  u16 id;
  int cb;
  BinaryHeader h;
  bool reg = false;
  BinaryHeaderRegular hr;
  Bytes body;
};
static std::vector<Ev> *g_ev;
static const std::vector<const NF *> *g_exp;  // expected frame of every event (may be null)
static int g_dup;
static void on_msg(int cb, u16 id, const BinaryHeader *h, const void *data) {
  Ev e;
  e.id = id; e.cb = cb; e.h = *h;
  size_t k = g_ev->size();
  if (g_exp && k < g_exp->size() && !(*g_exp)[k]->shrt && (*g_exp)[k]->id == h->message_id) {
    e.reg = true;
    e.hr = *(const BinaryHeaderRegular *)h;
  }
  const MType *t = mtype(id);
  e.body.assign((const u8 *)data, (const u8 *)data + t->ssize);
  g_ev->push_back(e);
}
static std::vector<int> run_parser(Src &s, const std::vector<int> &cbs, std::vector<Ev> &ev) {
  // cbs: index into TYPES per callback slot, -1 = none
  Message::CallbackArray a;
  std::vector<int> used;
  for (size_t i = 0; i < a.size(); i++) {
    int c = i < cbs.size() ? cbs[i] : -1;
    if (c < 0) { a[i].message_id = Message::kNoCallback; continue; }
    u16 id = TYPES[c].id;
    int slot = (int)i;
    a[i].message_id = (Message::Id)id;
    a[i].callfn = [slot, id](const BinaryHeader *h, const void *d) { on_msg(slot, id, h, d); };
  }
  g_ev = &ev;
  auto p = new Parser(rd, nullptr, a, &s);
  struct D { Parser *p; ~D() { delete p; } } d{p};
  p->process();
  return used;
}
static const std::vector<int> ALLCB = {0, 1, 2, 3, 4, 5, 6};

#define EQL(got, want, ...) PBT_CHECK((long long)(got) == (long long)(want), "%s: got %lld want %lld", fmt(__VA_ARGS__).c_str(), (long long)(got), (long long)(want))
static void check_ev(const Ev &e, const NF &f, size_t k) {
  const MType &t = *mtype(f.id);
  EQL(e.id, f.id, "event %zu message id", k);
  EQL(e.h.message_id, f.id, "event %zu header id", k);
  EQL(e.h.message_len, f.body.size(), "event %zu %s header length", k, t.name);
  EQL(e.h.week, f.week, "event %zu %s week", k, t.name);
  EQL(e.h.ms, f.ms, "event %zu %s ms", k, t.name);
  if (e.reg) {
    EQL(e.hr.header_len, 28, "event %zu %s header_len", k, t.name);
    EQL(e.hr.message_type, f.type, "event %zu %s message_type", k, t.name);
    EQL(e.hr.port_addr, f.port, "event %zu %s port", k, t.name);
    EQL(e.hr.sequence, f.seq, "event %zu %s sequence", k, t.name);
    EQL(e.hr.idle_time, f.idle, "event %zu %s idle", k, t.name);
    EQL(e.hr.time_status, f.tstat, "event %zu %s time_status", k, t.name);
    EQL(e.hr.rx_status, f.rx, "event %zu %s rx_status", k, t.name);
    EQL(e.hr.reserved, f.reserved, "event %zu %s reserved", k, t.name);
    EQL(e.hr.rx_software_version, f.sw, "event %zu %s sw", k, t.name);
  }
  if (t.l) {
    size_t o = 0;
    for (auto &d : *t.l) {
      u64 want = rdle(f.body, o, d.w), got = rdle(e.body, d.so, d.w);
      if (d.k == NEG) want = (u32)-(u32)want;
      PBT_CHECK(got == want, "event %zu %s.%s: got %llx want %llx", k, t.name, d.name, (unsigned long long)got, (unsigned long long)want);
      o += (size_t)d.w;
    }
    return;
  }
  Message::RANGECMP_t m;
  memcpy((void *)&m, e.body.data(), sizeof m);
  size_t n = rdle(f.body, 0, 4);
  EQL(m.n_records, std::min<size_t>(n, 63), "RANGECMP records");
  for (size_t i = 0; i < m.n_records; i++) {
    auto bits = [&](size_t off, int w) {
      u64 v = 0;
      for (int b = 0; b < w; b++) {
        size_t q = off + (size_t)b;
        v |= (u64)((f.body[4 + 24 * i + q / 8] >> (q % 8)) & 1) << b;
      }
      return v;
    };
    auto &r = m.records[i];
    EQL(r.tracking_status, bits(0, 32), "record %zu tracking_status", i);
    EQL(r.doppler, sext(bits(32, 28), 28), "record %zu doppler", i);
    EQL(r.pseudorange, bits(60, 36), "record %zu pseudorange", i);
    EQL(r.ADR, sext(bits(96, 32), 32), "record %zu ADR", i);
    EQL(r.stddev_psr, bits(128, 4), "record %zu stddev_psr", i);
    EQL(r.stddev_adr, bits(132, 4), "record %zu stddev_adr", i);
    EQL(r.prn_slot, bits(136, 8), "record %zu prn", i);
    EQL(r.lock_time, bits(144, 21), "record %zu lock_time", i);
    EQL(r.CN0, bits(165, 5), "record %zu CN0", i);
    EQL(r.glo_freq_no, bits(170, 6), "record %zu glo freq", i);
    EQL(r.reserved, bits(176, 16), "record %zu reserved", i);
  }
}
static Bytes clean_garbage(G &g, size_t maxn) {  // free of the sync byte
  Bytes b = g.bytes((size_t)g.range(0, (s64)maxn));
  for (u8 &x : b) if (x == 0xAA) x = 0x55;
  return b;
}
static void expect_events(const std::vector<Ev> &ev, const std::vector<const NF *> &exp) {
  for (size_t i = 0; i < std::min(ev.size(), exp.size()); i++) check_ev(ev[i], *exp[i], i);
  PBT_CHECK(ev.size() == exp.size(), "%zu events, want %zu", ev.size(), exp.size());
}

PBT_PROP(C34, messages, 240000, 3000000, "at least one supported message was reported") {
  std::vector<NF> fr((size_t)g.range(1, g.chance(20) ? 8 : 3));
  Src s;
  for (auto &f : fr) {
    f = gen_frame(g);
    if (g.coin()) append(s.data, clean_garbage(g, 12));
    append(s.data, f.frame());
    g.note(fmt("id %u %s len %zu", f.id, f.shrt ? "short" : "regular", f.body.size()));
  }
  if (g.coin()) append(s.data, clean_garbage(g, 40));
  s.chunks = gen_chunks(g);
  s.eof = g.coin() ? 0 : -1;
  std::vector<int> cbs = ALLCB;
  if (g.chance(30)) for (int &c : cbs) c = (int)g.range(-1, 6);
  std::vector<const NF *> exp;
  for (auto &f : fr)
    if (f.supported())
      for (int c : cbs) if (c >= 0 && TYPES[c].id == f.id) exp.push_back(&f);
  std::vector<Ev> ev;
  g_exp = &exp;
  run_parser(s, cbs, ev);
  expect_events(ev, exp);
  for (auto e : exp) g.label(mtype(e->id)->name);
  g.nontrivial_if(!exp.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C34, bits, 100000, 1000000, "more than 1 bit read") {
  Bytes b = g.bytes((size_t)g.range(8, 24));
  size_t w = (size_t)g.range(0, 64), off = g.below(b.size() * 8 - w + 1);
  u8 *p = (u8 *)malloc(b.size());
  memcpy(p, b.data(), b.size());
  auto want = [&](size_t n) {
    u64 v = 0;
    for (size_t i = 0; i < n; i++) v |= (u64)((b[(off + i) / 8] >> ((off + i) % 8)) & 1) << i;
    return v;
  };
  u64 g64 = Util::read_le_bits64(p, off, w), g32 = Util::read_le_bits32(p, off, std::min<size_t>(w, 32)),
      g16 = Util::read_le_bits16(p, off, std::min<size_t>(w, 16)), g8 = Util::read_le_bits8(p, off, std::min<size_t>(w, 8));
  size_t o = g.below(b.size() - 7);
  u16 a16 = Util::read_le_uint16(p + o);
  u32 a32 = Util::read_le_uint32(p + o);
  s32 i32 = Util::read_le_int32(p + o);
  double d = Util::read_le_double(p + o);
  float f = Util::read_le_float(p + o);
  u32 crc = CrcChecker::get_crc(p, (u32)b.size());
  free(p);
  PBT_CHECK(g64 == want(w), "read_le_bits64 off %zu n %zu of %s: %llx want %llx", off, w, hex(b.data(), b.size()).c_str(), (unsigned long long)g64, (unsigned long long)want(w));
  PBT_CHECK(g32 == want(std::min<size_t>(w, 32)), "read_le_bits32 off %zu n %zu", off, w);
  PBT_CHECK(g16 == want(std::min<size_t>(w, 16)), "read_le_bits16 off %zu n %zu", off, w);
  PBT_CHECK(g8 == want(std::min<size_t>(w, 8)), "read_le_bits8 off %zu n %zu", off, w);
  PBT_CHECK(a16 == rdle(b, o, 2), "read_le_uint16");
  PBT_CHECK(a32 == rdle(b, o, 4) && (u32)i32 == a32, "read_le_uint32/int32");
  u64 w8 = rdle(b, o, 8);
  PBT_CHECK(memcmp(&d, &w8, 8) == 0 && memcmp(&f, &a32, 4) == 0, "read_le_double/float");
  PBT_CHECK(crc == novatel_crc(b.data(), b.size()), "get_crc %08x want %08x", crc, novatel_crc(b.data(), b.size()));
  g.nontrivial_if(w > 1);
  g.fingerprint(b.data(), b.size());
  g.fingerprint(&off, 8);
}

// Damaged frames: the damage lies in the body or CRC (so the frame is parsed and
// rejected) or anywhere (then the bytes are free of further sync bytes only by
// construction: the frame is regenerated until it has none after its start).
static bool sync_inside(const Bytes &f) {
  for (size_t i = 1; i < f.size(); i++)
    if (f[i] == 0xAA) return true;
  return false;
}
PBT_PROP(C08, novatel, 160000, 2000000, "a damaged frame or garbage precedes an intact supported frame") {
  size_t n = (size_t)g.range(2, 6);
  Src s;
  std::vector<NF> fr(n);
  std::vector<const NF *> exp;
  bool dmg = false, nt = false;
  for (auto &f : fr) {
    f = gen_frame(g);
    Bytes b = f.frame();
    u64 what = g.draw(4);
    if (what == 0) { append(s.data, clean_garbage(g, 30)); dmg = true; }
    if (what == 1) {
      if (sync_inside(b)) {  // keep the damage unable to hide a later sync
        for (size_t i = 0; i < f.body.size(); i++) if (f.body[i] == 0xAA) f.body[i] = 0x2A;
        f.week &= 0x7F7F; f.ms &= 0x7F7F7F7F; f.rx &= 0x7F7F7F7F; f.seq &= 0x7F7F; f.sw &= 0x7F7F; f.reserved &= 0x7F7F;
        f.type &= 0x7F; f.port &= 0x7F; f.idle &= 0x7F; f.tstat &= 0x7F;
        b = f.frame();
      }
      size_t bit;
      Bytes c = b;
      size_t flips = (size_t)g.range(1, 4);
      size_t hl = f.shrt ? 12 : 28;
      for (size_t q = 0; q < flips; q++) {
        // not in the length field (a longer length would legitimately swallow what follows)
        do { bit = g.below(c.size() * 8); if (bit / 8 == 3 || (!f.shrt && (bit / 8 == 8 || bit / 8 == 9))) bit = (hl - 1) * 8 + bit % 8; } while (false);
        c[bit / 8] ^= (u8)(1 << (bit % 8));
      }
      if (c == b || sync_inside(c)) throw Discard{};
      if (memcmp(c.data(), b.data(), 4) == 0) {
        // a valid CRC by chance?
        u32 crc = (u32)rdle(c, c.size() - 4, 4);
        if (crc == novatel_crc(c.data(), c.size() - 4)) throw Discard{};
      } else if (c[0] == 0xAA && c[1] == 0x44 && (c[2] == 0x12 || c[2] == 0x13)) {
        throw Discard{};  // became the other header type: the length is read elsewhere
      }
      append(s.data, c);
      dmg = true;
      g.label("damaged");
      continue;
    }
    append(s.data, b);
    if (f.supported()) { exp.push_back(&f); nt |= dmg; }
  }
  s.chunks = gen_chunks(g);
  s.eof = g.coin() ? 0 : -1;
  std::vector<Ev> ev;
  g_exp = &exp;
  run_parser(s, ALLCB, ev);
  expect_events(ev, exp);
  g.nontrivial_if(nt);
  g.fingerprint(s.data.data(), s.data.size());
}

static Bytes gen_stream(G &g, bool hostile) {
  Bytes b;
  size_t n = (size_t)g.range(1, 8);
  for (size_t i = 0; i < n; i++) {
    switch (g.draw(hostile ? 8 : 6)) {
      case 0: append(b, g.bytes((size_t)g.range(0, 30))); break;
      case 1: b.push_back(0xAA); if (g.coin()) b.push_back(0x44); if (g.coin()) b.push_back(0x12 + (u8)g.draw(2)); if (g.coin()) append(b, g.bytes(4)); break;
      case 2: { Bytes f = gen_frame(g).frame(); if (!f.empty()) f[g.below(f.size())] ^= (u8)(1 << g.draw(8)); append(b, f); break; }
      case 6: {  // truncated
        Bytes f = gen_frame(g).frame(); f.resize(g.below(f.size() + 1)); append(b, f); break; }
      case 7: {  // a header with an arbitrary length
        Bytes f = gen_frame(g).frame();
        if (f.size() > 10) { if (f[2] == 0x13) f[3] = (u8)g.bits(8); else { f[8] = (u8)g.bits(8); f[9] = (u8)(g.coin() ? g.bits(8) : g.draw(17)); } }
        append(b, f); if (g.coin()) append(b, g.bytes((size_t)g.range(0, 300))); break; }
      default: append(b, gen_frame(g).frame());
    }
  }
  return b;
}
static std::string sbp_problem(const Bytes &o, std::vector<std::pair<u16, Bytes>> *msgs = nullptr) {
  size_t p = 0;
  while (p < o.size()) {
    if (o[p] != 0x55) return fmt("byte %zu of the output is %02x, not a preamble", p, o[p]);
    if (o.size() - p < 8) return "truncated SBP header";
    u16 type = (u16)(o[p + 1] | o[p + 2] << 8), sender = (u16)(o[p + 3] | o[p + 4] << 8);
    size_t len = o[p + 5];
    if (o.size() - p < len + 8) return "truncated SBP frame";
    u16 crc = (u16)(o[p + 6 + len] | o[p + 7 + len] << 8);
    if (crc != ref::crc16_ccitt(&o[p + 1], len + 5, 0)) return "bad SBP CRC";
    if (sender != 5000) return fmt("sender %u", sender);
    sbp_msg_t m;
    u8 nr = 0;
    if (sbp_message_decode(&o[p + 6], (u8)len, &nr, (sbp_msg_type_t)type, &m) != SBP_OK || nr != len)
      return fmt("message type %u of %zu bytes does not decode", type, len);
    if (msgs) msgs->push_back({type, Bytes(&o[p + 6], &o[p + 6] + len)});
    p += len + 8;
  }
  return "";
}
static void run_main(Src &s) {
  char a0[] = "nov2sbp";
  char *argv[] = {a0, nullptr};
  extern int optind;
  optind = 1;
  int rc = nov2sbp_main(1, argv, "", rd, wr, &s);
  PBT_CHECK(rc == 0, "nov2sbp_main returned %d", rc);
}
PBT_PROP(C04, parser, 160000, 3000000, "a message was reported from the hostile stream") {
  Src s;
  s.data = gen_stream(g, true);
  s.chunks = gen_chunks(g);
  s.eof = g.coin() ? 0 : -1;
  std::vector<Ev> ev;
  g_exp = nullptr;
  run_parser(s, ALLCB, ev);
  PBT_CHECK(s.pos == s.data.size(), "parser stopped before the end of input");
  for (auto &e : ev) {
    const MType *t = mtype(e.h.message_id);
    PBT_CHECK(t != nullptr, "reported an unsupported message %u", e.h.message_id);
    if (t->l) EQL(e.h.message_len, body_size(*t), "%s reported with length", t->name);
    else {
      Message::RANGECMP_t m;
      memcpy((void *)&m, e.body.data(), sizeof m);
      PBT_CHECK(m.n_records <= 63, "n_records %zu", m.n_records);
      PBT_CHECK(e.h.message_len >= 4 + 24 * m.n_records, "RANGECMP with %zu records in %u bytes", m.n_records, e.h.message_len);
    }
  }
  g.nontrivial_if(!ev.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C04, converter, 160000, 3000000, "the converter wrote a message") {
  Src s;
  s.data = gen_stream(g, true);
  s.chunks = gen_chunks(g);
  s.eof = g.coin() ? 0 : -1;
  run_main(s);
  std::vector<std::pair<u16, Bytes>> m;
  std::string e = sbp_problem(s.out, &m);
  PBT_CHECK(e.empty(), "%s", e.c_str());
  PBT_CHECK(s.pos == s.data.size(), "converter stopped before the end of input");
  for (auto &x : m) if (x.first == 0x8A) g.label("ephemeris"); else if (x.first == 0x4A) g.label("obs");
  g.nontrivial_if(!m.empty());
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C09, novatel, 80000, 1000000, "both runs produced output") {
  Src a;
  a.data = gen_stream(g, g.coin());
  Src b = a;
  a.chunks = gen_chunks(g);
  b.chunks = g.coin() ? std::vector<u32>{1} : gen_chunks(g);
  a.eof = g.coin() ? 0 : -1;
  b.eof = g.coin() ? 0 : -1;
  run_main(a);
  run_main(b);
  PBT_CHECK(a.out == b.out, "%zu bytes of output with one chunking, %zu with the other (or they differ)", a.out.size(), b.out.size());
  std::vector<Ev> ea, eb;
  a.pos = b.pos = a.ci = b.ci = a.after = b.after = 0;
  g_exp = nullptr;
  run_parser(a, ALLCB, ea);
  run_parser(b, ALLCB, eb);
  PBT_CHECK(ea.size() == eb.size(), "parser reported %zu and %zu messages", ea.size(), eb.size());
  for (size_t i = 0; i < ea.size(); i++) {
    PBT_CHECK(ea[i].id == eb[i].id && ea[i].h.ms == eb[i].h.ms && ea[i].h.message_len == eb[i].h.message_len, "event %zu differs", i);
  }
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, novatel, 80000, 1000000, "the run wrote a message") {
  Src a, x;
  a.data = gen_stream(g, g.coin());
  x.data = gen_stream(g, true);
  a.chunks = gen_chunks(g);
  Src b = a;
  run_main(a);
  run_main(x);  // another run in between
  run_main(b);
  PBT_CHECK(a.out == b.out, "the same bytes gave %zu, then %zu bytes of output (or different ones)", a.out.size(), b.out.size());
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(a.data.data(), a.data.size());
}

// ---- C35: reference model of the conversion ----
struct Fx { int w; char k; double v, tol; u64 raw; };  // k: 'i' signed int, 'u' unsigned, 'f'/'d' floats, 'b' raw bits
struct Ex {
  u16 type;
  std::vector<Fx> f;
  std::string what;
  Ex &u(int w, double v, double tol = 0) { f.push_back({w, 'u', v, tol, 0}); return *this; }
  Ex &i(int w, double v, double tol = 0) { f.push_back({w, 'i', v, tol, 0}); return *this; }
  Ex &flt(double v) { f.push_back({4, 'f', v, 0, 0}); return *this; }
  Ex &dbl(double v, double tol = 0) { f.push_back({8, 'd', v, tol, 0}); return *this; }
  Ex &any(int w) { f.push_back({w, 'x', 0, 0, 0}); return *this; }
};
static double sat(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static double rtol(double v) { return 0.501 + fabs(v) * 1e-9; }
static void cmp_ex(const Ex &e, const std::pair<u16, Bytes> &m, size_t k) {
  EQL(m.first, e.type, "message %zu type (want %s)", k, e.what.c_str());
  size_t len = 0;
  for (auto &f : e.f) len += (size_t)f.w;
  EQL(m.second.size(), len, "message %zu %s payload length", k, e.what.c_str());
  size_t o = 0, fi = 0;
  for (auto &f : e.f) {
    u64 raw = rdle(m.second, o, f.w);
    double got;
    if (f.k == 'i') got = (double)sext(raw, (unsigned)f.w * 8);
    else if (f.k == 'f') { u32 u = (u32)raw; float x; memcpy(&x, &u, 4); got = x; }
    else if (f.k == 'd') memcpy(&got, &raw, 8);
    else got = (double)raw;
    if (f.k != 'x') PBT_CHECK(fabs(got - f.v) <= f.tol || got == f.v, "message %zu %s field %zu (offset %zu): got %.17g want %.17g", k, e.what.c_str(), fi, o, got, f.v);
    o += (size_t)f.w;
    fi++;
  }
}
struct Model {
  bool time_sent = false, pos_set = false;
  u16 twn = 0;
  u32 ttow = 0, pos_tow = 0;
  u8 pos_flags = 0;
  u16 imu_wn = 0, aux_wn = 0;
  u32 imu_tow = 0, aux_tow = 0;
  std::vector<Ex> out;
  Ex &add(u16 t, const char *w) { out.push_back({t, {}, w}); return out.back(); }
  void time(const NF &f) {
    if (!time_sent || twn != f.week || ttow != (u32)f.ms) add(0x0102, "GPS_TIME").u(2, f.week).u(4, (u32)f.ms).i(4, 0).u(1, 1);
    time_sent = true; twn = f.week; ttow = (u32)f.ms;
  }
  static u8 pflags(u32 t) {
    switch (t) {
      case 0: return 0;
      case 16: return 1;
      case 17: return 2;
      case 18: return 6;
      case 34: return 3;
      case 48: case 49: case 50: return 4;
      case 52: return 6 | 8;
      case 53: return 1 | 8;
      case 54: return 2 | 8;
      case 55: return 3 | 8;
      case 56: return 4 | 8;
      default: return 1;
    }
  }
  void feed(const NF &f) {
    if (!f.supported()) return;
    const Bytes &b = f.body;
    switch (f.id) {
      case 7: ephem(b); break;
      case 42: {
        time(f);
        auto &l = L_BESTPOS;
        double lat = fieldf(b, l, "lat"), lon = fieldf(b, l, "lon"), h = fieldf(b, l, "hgt");
        double hs = 1000.0 * std::max(fieldf(b, l, "lat_stddev"), fieldf(b, l, "lon_stddev")), vs = 1000.0 * fieldf(b, l, "hgt_stddev");
        u8 fl = pflags((u32)fieldv(b, l, "pos_type"));
        double geo = get_geoid_offset(lat * M_PI / 180, lon * M_PI / 180);
        hs = sat(hs, 0, 65535); vs = sat(vs, 0, 65535);
        add(0x020A, "POS_LLH").u(4, (u32)f.ms).dbl(lat).dbl(lon).dbl(h + geo, 1e-5 + fabs(h) * 1e-15).u(2, hs, 0.51 + hs * 1e-6).u(2, vs, 0.51 + vs * 1e-6)
            .u(1, (double)fieldv(b, l, "num_sv_in_soln")).u(1, fl);
        pos_set = true; pos_tow = (u32)f.ms; pos_flags = fl;
        break;
      }
      case 99: {
        time(f);
        auto &l = L_BESTVEL;
        double sp = fieldf(b, l, "hor_speed"), tr = fieldf(b, l, "trk_gnd") * M_PI / 180, vv = fieldf(b, l, "vert_speed");
        double n = sat(1000 * sp * cos(tr), INT32_MIN, INT32_MAX), e = sat(1000 * sp * sin(tr), INT32_MIN, INT32_MAX), d = sat(-1000 * vv, INT32_MIN, INT32_MAX);
        add(0x020E, "VEL_NED").u(4, (u32)f.ms).i(4, n, rtol(1000 * sp)).i(4, e, rtol(1000 * sp)).i(4, d, rtol(d)).u(2, 0).u(2, 0).u(1, 0)
            .u(1, pos_set && pos_tow == (u32)f.ms ? pos_flags : 0);
        break;
      }
      case 140: obs(f); break;
      case 263: {
        auto &l = L_INSATT;
        Ex &x = add(0x0221, "ORIENT_EULER").u(4, (u32)f.ms);
        for (const char *n : {"roll", "pitch", "azimuth"}) {
          double v = sat(1e6 * fieldf(b, l, n), INT32_MIN, INT32_MAX);
          x.i(4, v, rtol(v));
        }
        x.flt(0).flt(0).flt(0).u(1, fieldv(b, l, "status") == 3);
        break;
      }
      case 1462: imu(f); break;
      default: break;
    }
  }
  void ephem(const Bytes &b) {
    auto &l = L_GPSEPHEM;
    auto d = [&](const char *n) { return fieldf(b, l, n); };
    u64 prn = fieldv(b, l, "prn"), week = fieldv(b, l, "week");
    if (prn > 255 || week > 65535 || !(d("toe") >= 0 && d("toe") <= 4294967295.0) || !(d("toc") >= 0 && d("toc") <= 4294967295.0)) return;
    Ex &x = add(0x008A, "EPHEMERIS_GPS");
    x.u(1, (double)prn).u(1, 0).u(4, floor(d("toe"))).u(2, (double)week).flt((float)sqrt(d("URA"))).u(4, 14400).u(1, 1).u(1, (double)(fieldv(b, l, "health") & 0xFF));
    for (const char *n : {"tgd", "crs", "crc", "cuc", "cus", "cic", "cis"}) x.flt((float)d(n));
    x.dbl(d("delta_N")).dbl(d("M0")).dbl(d("ecc")).dbl(sqrt(d("A"))).dbl(d("omega0")).dbl(d("omega_dot")).dbl(d("omega")).dbl(d("I0")).dbl(d("I_dot"));
    x.flt((float)d("af0")).flt((float)d("af1")).flt((float)d("af2")).u(4, floor(d("toc"))).u(2, (double)week).u(1, (double)(fieldv(b, l, "iode1") & 0xFF)).u(2, (double)(fieldv(b, l, "iodc") & 0xFFFF));
  }
  void obs(const NF &f) {
    size_t n = std::min<size_t>(rdle(f.body, 0, 4), 63);
    if (n == 0) { add(0x004A, "OBS header").u(4, (u32)f.ms).i(4, 0, 1).u(2, f.week).u(1, 0x10); return; }
    size_t total = (n + 13) / 14, r = 0;
    for (size_t c = 0; c < total; c++) {
      Ex &x = add(0x004A, "OBS");
      x.u(4, (u32)f.ms).i(4, 0, 1).u(2, f.week).u(1, (double)(total << 4 | c));
      for (size_t q = 0; q < 14 && r < n; q++, r++) {
        auto bits = [&](size_t off, int w) {
          u64 v = 0;
          for (int k = 0; k < w; k++) v |= (u64)((f.body[4 + 24 * r + (off + (size_t)k) / 8] >> ((off + (size_t)k) % 8)) & 1) << k;
          return v;
        };
        u32 ts = (u32)bits(0, 32);
        s64 dop = sext(bits(32, 28), 28), adr = sext(bits(96, 32), 32);
        u64 psr = bits(60, 36), prn = bits(136, 8), lk = bits(144, 21), cn0 = bits(165, 5);
        unsigned sys = ts >> 16 & 7, sig = ts >> 21 & 31;
        int code = sys == 0 ? (sig == 0 ? 0 : sig == 5 ? 6 : -1) : sys == 1 ? (sig == 0 ? 3 : sig == 1 ? 4 : -1) : -1;
        if (code < 0 || prn < 1 || prn > (sys == 0 ? 32u : 28u)) continue;
        u64 P = (psr * 50 + 64) / 128;
        s64 L = -adr;
        s64 Di = dop >= 0 ? dop / 256 : -((-dop + 255) / 256);
        if (P > 0xFFFFFFFFull || Di < -32768 || Di > 32767) continue;
        s64 Li = L >= 0 ? L / 256 : -((-L + 255) / 256);
        unsigned lock = 0;
        double ms = lk * 1000.0 / 32;
        for (unsigned k = 0; k < 15; k++) if (ms >= (double)(32ull << k)) lock = k + 1;
        bool cl = ts & 0x1000, ph = ts & 0xC00, hc = ts & 0x10000000;
        x.u(4, (double)P).i(4, (double)Li).u(1, (double)(L - Li * 256)).i(2, (double)Di).u(1, (double)(dop - Di * 256)).u(1, cl ? (double)(cn0 + 20) * 4 : 0)
            .u(1, lock).u(1, (cl ? 1 + 8 : 0) + (ph ? 2 : 0) + (hc ? 4 : 0)).u(1, (double)prn).u(1, code);
      }
    }
  }
  void imu(const NF &f) {
    const Bytes &b = f.body;
    auto &l = L_RAWIMUSX;
    u32 tow = (u32)f.ms;
    unsigned type = (unsigned)fieldv(b, l, "imu_type"), info = (unsigned)fieldv(b, l, "imu_info");
    double rate = 0;
    if (imu_wn && f.week && imu_tow && tow) {
      if (f.week == imu_wn && tow > imu_tow) rate = 1000.0 / (tow - imu_tow);
      else if (f.week == imu_wn + 1 && tow < imu_tow) rate = 1000.0 / (604800000.0 - imu_tow + tow);
    }
    if (rate == 0) {
      switch (type) {
        case 1: case 4: case 11: case 12: case 5: case 27: case 20: case 28: case 58: rate = 100; break;
        case 32: case 56: case 41: rate = 125; break;
        case 26: case 13: case 8: case 33: case 31: case 61: case 62: rate = 200; break;
      }
    }
    const double deg = M_PI / 180, ft = 0.3048, mg = 9.806 / 1000;
    double gs = 0, as = 0;  // per count: rad, m/s
    switch (type) {
      case 11: case 5: case 27: case 20: case 28: gs = exp2(-33); as = ft * exp2(-27); break;
      case 12: gs = exp2(-33); as = ft * exp2(-26); break;
      case 58: gs = exp2(-33); as = exp2(-29); break;
      case 33: gs = 0.1 / (3600.0 * 256); as = 0.05 * exp2(-15); break;
      case 13: gs = 0.1 * exp2(-8) / 3600 * deg; as = 0.05 * exp2(-15); break;
      case 8: gs = exp2(-19); as = exp2(-14); break;
      case 26: gs = 1e-9; as = 2e-8; break;
      case 31: gs = 720 * exp2(-31) * deg; as = 200 * exp2(-31); break;
      case 32: case 56: gs = exp2(-21) * deg; as = exp2(-22); break;
      case 41: case 62: gs = rate ? 0.008 / 65536 / rate * deg : 0; as = rate ? 0.2 / 65536 / rate * mg : 0; break;
      case 61: gs = 0.0151515 / 65536 / 200 * deg; as = 0.4 / 65536 / 200 * mg; break;
    }
    auto v = [&](const char *n) { return (double)(s32)fieldv(b, l, n); };
    if (!(info & 3) && rate != 0 && gs != 0) {
      Ex &x = add(0x0222, "ANGULAR_RATE").u(4, tow);
      for (const char *n : {"x_gyro", "y_gyro", "z_gyro"}) { double w = sat(v(n) * gs * rate / deg * 1e6, INT32_MIN, INT32_MAX); x.i(4, w, rtol(w)); }
      x.u(1, 1);
      Ex &y = add(0x0900, "IMU_RAW").u(4, tow).u(1, 0);
      for (const char *n : {"x_accel", "y_accel", "z_accel"}) { double w = sat(v(n) * as * rate * 32768 / (8 * 9.806), -32768, 32767); y.i(2, w, rtol(w)); }
      for (const char *n : {"x_gyro", "y_gyro", "z_gyro"}) { double w = sat(v(n) * gs * rate / deg * 32768 / 125, -32768, 32767); y.i(2, w, rtol(w)); }
    }
    if (!(aux_wn && aux_tow && tow && f.week == aux_wn && tow < aux_tow + 1000)) {
      add(0x0901, "IMU_AUX").u(1, 1).i(2, 0).u(1, 0x42);
      aux_wn = f.week; aux_tow = tow;
    }
    imu_wn = f.week; imu_tow = tow;
  }
};
// overwrite a field of a body
static void setf(Bytes &b, const std::vector<Fld> &l, const char *name, u64 v) {
  size_t o = 0;
  for (auto &f : l) {
    if (!strcmp(f.name, name)) { for (int i = 0; i < f.w; i++) b[o + (size_t)i] = (u8)(v >> (8 * i)); return; }
    o += (size_t)f.w;
  }
  abort();
}
static void setd(Bytes &b, const std::vector<Fld> &l, const char *name, double d) {
  for (auto &f : l)
    if (!strcmp(f.name, name)) {
      u64 v = 0;
      if (f.w == 8) memcpy(&v, &d, 8); else { float x = (float)d; memcpy(&v, &x, 4); }
      setf(b, l, name, v);
    }
}
static void real_body(G &g, NF &f) {
  // realistic (finite) values with edges
  const MType *t = mtype(f.id);
  Bytes &b = f.body;
  if (!t || !f.supported()) return;
  auto D = [&](const char *n, double lo, double hi) { setd(b, *t->l, n, g.chance(10) ? g.pick({lo, hi, 0.0}) : g.real(lo, hi)); };
  switch (f.id) {
    case 42:
      D("lat", -90, 90); D("lon", -180, 180); D("hgt", -1000, 20000); D("lat_stddev", 0, 80); D("lon_stddev", 0, 80); D("hgt_stddev", 0, 80);
      if (g.chance(20)) D("lat_stddev", 0, 1);
      if (g.chance(90)) setf(b, *t->l, "pos_type", g.coin() ? g.draw(81) : g.pick({0, 16, 17, 18, 34, 48, 49, 50, 52, 53, 54, 55, 56}));
      break;
    case 99: D("hor_speed", 0, g.chance(5) ? 3e6 : 100); D("trk_gnd", -360, 360); D("vert_speed", g.chance(5) ? -3e6 : -50, 50); break;
    case 263: D("roll", -180, 180); D("pitch", -90, 90); D("azimuth", 0, 360); if (g.coin()) setf(b, *t->l, "status", g.draw(13)); break;
    case 7: {
      setf(b, *t->l, "prn", (u64)(g.chance(95) ? g.range(1, 32) : g.range(0, 300)));
      setf(b, *t->l, "week", (u64)(g.chance(95) ? g.range(0, 4000) : g.range(65000, 66000)));
      for (const char *n : {"toe", "toc"}) setd(b, *t->l, n, g.chance(95) ? (double)g.range(0, 604800) + (g.chance(10) ? 0.5 : 0) : g.real(-1, 5e9));
      D("A", 2.6e7, 2.7e7); D("URA", 0, 100);
      for (const char *n : {"delta_N", "M0", "ecc", "omega", "I0", "I_dot", "omega0", "omega_dot"}) D(n, -4, 4);
      for (const char *n : {"cuc", "cus", "cic", "cis", "tgd", "af0", "af1", "af2"}) D(n, -1e-4, 1e-4);
      for (const char *n : {"crc", "crs"}) D(n, -1e3, 1e3);
      break;
    }
    case 140: {
      size_t n = rdle(b, 0, 4);
      for (size_t i = 0; i < n; i++) {
        u8 *r = &b[4 + 24 * i];
        auto put = [&](size_t off, int w, u64 v) { for (int k = 0; k < w; k++) { size_t q = off + (size_t)k; r[q / 8] = (u8)((r[q / 8] & ~(1 << (q % 8))) | ((v >> k) & 1) << (q % 8)); } };
        if (i < 16 || g.chance(20)) {
          unsigned sys = (unsigned)(g.chance(90) ? g.draw(2) : g.draw(8)), sig = sys == 0 ? (g.chance(90) ? (g.coin() ? 0 : 5) : (unsigned)g.draw(32)) : (g.chance(90) ? (unsigned)g.draw(2) : (unsigned)g.draw(32));
          put(16, 3, sys); put(21, 5, sig);
          put(136, 8, g.chance(90) ? (u64)g.range(1, sys ? 28 : 32) : g.bits(8));
          if (g.chance(90)) put(60, 36, (u64)g.real(1.9e7 * 128, 2.6e7 * 128));
          if (g.chance(90)) put(32, 28, (u64)g.ival(-32768 * 256, 32767 * 256));
        }
      }
      break;
    }
    case 1462:
      setf(b, *t->l, "imu_type", g.chance(95) ? (u64)g.pick({1, 4, 5, 8, 11, 12, 13, 16, 20, 26, 27, 28, 31, 32, 33, 41, 52, 56, 58, 61, 62, 0}) : g.bits(8));
      setf(b, *t->l, "imu_info", g.chance(85) ? g.draw(64) << 2 : g.bits(8));
      for (const char *n : {"x_accel", "y_accel", "z_accel", "x_gyro", "y_gyro", "z_gyro"}) if (g.chance(80)) setf(b, *t->l, n, (u32)(s32)g.ival(-200000, 200000));
      break;
  }
}
static void model_run(G &g, int minn) {
  size_t n = minn ? (size_t)g.range(minn, 2 * minn) : (size_t)g.range(1, g.chance(30) ? 12 : 5);
  Src s;
  Model m;
  u16 week = (u16)g.range(0, 3000);
  s64 ms = g.ival(0, 604799999);
  u32 step = (u32)g.pick({0, 1, 5, 8, 10, 50, 200, 999, 1000, 1001, 5000});
  bool imu_run = g.chance(30);
  u8 itype = (u8)g.pick({5, 8, 12, 13, 26, 31, 32, 33, 41, 58, 61, 62});
  for (size_t i = 0; i < n; i++) {
    NF f;
    f.shrt = g.coin();
    f.id = imu_run && g.chance(80) ? 1462 : TYPES[g.draw(7)].id;
    f.body = gen_body(g, f.id, f.shrt ? 10 : 169);
    real_body(g, f);
    if (imu_run && f.id == 1462) setf(f.body, L_RAWIMUSX, "imu_type", itype);
    f.week = week; f.ms = (s32)ms;
    f.seq = (u16)g.bits(16); f.tstat = (u8)g.bits(8); f.rx = (u32)g.bits(32);
    append(s.data, f.frame());
    m.feed(f);
    g.note(fmt("%s week %u ms %d body %s", mtype(f.id)->name, f.week, f.ms, hex(f.body.data(), std::min<size_t>(f.body.size(), 80)).c_str()));
    if (g.chance(60)) ms += step;
    if (g.chance(3)) ms = g.ival(0, 604799999);
    if (g.chance(2)) week = (u16)g.range(0, 3000);
    if (ms >= 604800000) { ms -= 604800000; week++; }
  }
  s.chunks = gen_chunks(g);
  run_main(s);
  std::vector<std::pair<u16, Bytes>> got;
  std::string e = sbp_problem(s.out, &got);
  PBT_CHECK(e.empty(), "%s", e.c_str());
  for (size_t i = 0; i < std::min(got.size(), m.out.size()); i++) cmp_ex(m.out[i], got[i], i);
  PBT_CHECK(got.size() == m.out.size(), "%zu messages, want %zu", got.size(), m.out.size());
  for (auto &x : m.out) g.label(x.what.c_str()[0] ? (x.type == 0x0102 ? "GPS_TIME" : x.type == 0x020A ? "POS_LLH" : x.type == 0x020E ? "VEL_NED" : x.type == 0x0221 ? "ORIENT_EULER" : x.type == 0x0222 ? "ANGULAR_RATE" : x.type == 0x0900 ? "IMU_RAW" : x.type == 0x0901 ? "IMU_AUX" : x.type == 0x8A ? "EPHEMERIS_GPS" : "OBS") : "?");
  g.nontrivial_if(m.out.size() >= 2);
  g.fingerprint(s.data.data(), s.data.size());
}
PBT_PROP(C35, model, 240000, 3000000, "at least two SBP messages were expected") {
  model_run(g, 0);
}
PBT_PROP(C35, long, 300, 20000, "hundreds of messages, of which at least two become SBP messages") {
  model_run(g, 300);
}
