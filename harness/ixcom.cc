// C03, C08, C09, C33, C36 for iXCOM: codec, converter, framing.
#include "conv.h"
#include <memory>
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
#include <ixcom/encode.h>
void alt_ixcom_sbp_init(struct ixcom_sbp_state *, void (*)(u16, sbp_msg_type_t, const sbp_msg_t *, void *), void *);
int alt_ixcom_sbp_process(struct ixcom_sbp_state *, int (*)(u8 *, size_t, void *));
}
SCH(ixcom_sbp_init) SCH(ixcom_sbp_process)
using namespace conv;

namespace {
void cb(u16 sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { sched::step(); ((Source *)ctx)->out.push_back({sender, (int)t, *m}); }
int rd(u8 *b, size_t n, void *ctx) { return ((Source *)ctx)->rd(b, n); }

struct Inst {
  std::unique_ptr<ixcom_sbp_state> st{new ixcom_sbp_state};
  Source *s;
  int alt;
  explicit Inst(Source *src, int a = 0, u8 fill = 0x5A, const Inst *worn = nullptr) : s(src), alt(a) {
    memset(st.get(), fill, sizeof(ixcom_sbp_state));
    if (worn) memcpy(st.get(), worn->st.get(), sizeof *st);  // memory that another instance has used
    PICK(alt, ixcom_sbp_init)(st.get(), cb, s);
  }
  int step() {
    size_t before = s->pos;
    int r = PICK(alt, ixcom_sbp_process)(st.get(), rd);
    if (r > 0) PBT_CHECK(s->pos > before, "call returned %d without consuming input", r);
    else PBT_CHECK(s->eof, "end of input reported (%d) with %zu of %zu bytes read", r, s->pos, s->data.size());
    return r;
  }
  void run() {
    while (step() > 0) {}
    PBT_CHECK(s->pos == s->data.size(), "stopped after %zu of %zu bytes", s->pos, s->data.size());
  }
};
void run(Source &s, int alt = 0, u8 fill = 0x5A, const Inst *worn = nullptr) { s.pos = s.ci = s.calls = 0; s.eof = false; s.out.clear(); Inst(&s, alt, fill, worn).run(); }

float gen_float(G &g, double typical) {
  u32 raw;
  float f;
  switch (g.below(6)) {
    case 0: raw = (u32)g.bits(32); memcpy(&f, &raw, 4); return f;
    case 1: return (float)(g.real(-1, 1) * typical * 100);
    case 2: return 0.f;
    default: return (float)(g.real(-1, 1) * typical);
  }
}
struct Hdr { u8 id, fc, trig; u16 len, week; u32 sec, usec; };
Hdr gen_hdr(G &g, u8 id, u16 len) {
  return {id, (u8)g.below(256), (u8)g.below(256), len, (u16)g.bits(16),
          g.chance(70) ? (u32)g.ival(0, 604799) : (u32)g.bits(32), g.chance(70) ? (u32)g.ival(0, 999999) : (u32)g.bits(32)};
}
Bytes put_hdr(const Hdr &h) {
  Bytes b;
  b.push_back(0x7E); b.push_back(h.id); b.push_back(h.fc); b.push_back(h.trig);
  le<u16>(b, h.len); le<u16>(b, h.week); le<u32>(b, h.sec); le<u32>(b, h.usec);
  return b;
}
void finish(Bytes &b, u16 status) {
  le<u16>(b, status);
  le<u16>(b, crc16_ccitt(b.data(), b.size(), 0));
}
struct Frame {
  int kind;  // 0 imu, 1 wheel, 2 other
  Hdr h;
  float f[6];
  s32 ticks;
  u16 status;
  Bytes b;
};
Frame gen_frame(G &g, int kind) {
  Frame f;
  f.kind = kind;
  memset(f.f, 0, sizeof f.f);
  f.ticks = 0;
  f.status = (u16)g.bits(16);
  if (kind == 0) {
    f.h = gen_hdr(g, 0x00, 44);
    f.b = put_hdr(f.h);
    for (int i = 0; i < 6; i++) { f.f[i] = gen_float(g, i < 3 ? 40 : 2.2); le<float>(f.b, f.f[i]); }
  } else if (kind == 1) {
    f.h = gen_hdr(g, 0x16, 28);
    f.b = put_hdr(f.h);
    f.f[0] = gen_float(g, 40);
    f.ticks = (s32)g.bits(32);
    le<float>(f.b, f.f[0]);
    le<s32>(f.b, f.ticks);
  } else {
    u8 id = (u8)g.below(256);
    if (id == 0 || id == 0x16) id = 3;
    u16 n = g.chance(10) ? (u16)g.range(4000, 4075) : g.chance(20) ? 0 : (u16)g.range(1, 60);
    f.h = gen_hdr(g, id, (u16)(20 + n));
    f.b = put_hdr(f.h);
    append(f.b, g.bytes(n));
  }
  finish(f.b, f.status);
  return f;
}
Bytes clean_garbage(G &g, size_t n) {
  Bytes b = g.bytes(n);
  for (auto &x : b) if (x == 0x7E) x = 0x7D;
  return b;
}
s64 clampd(double v, s64 lo, s64 hi) { return v <= lo ? lo : v >= hi ? hi : 0; }
void check_scaled(const char *what, double x, double got) {  // x: ideal value in units of the SBP field
  if (std::isnan(x)) return;
  if (x >= 32767.6) { PBT_CHECK(got == 32767, "%s: %.6g should saturate, got %g", what, x, got); return; }
  if (x <= -32768.6) { PBT_CHECK(got == -32768, "%s: %.6g should saturate, got %g", what, x, got); return; }
  PBT_CHECK(fabs(got - x) < 0.6 , "%s: %.6g expected, got %g", what, x, got);
}
// the messages one intact frame must yield, checked against out[i...]
void check_frame(const Frame &f, const std::vector<Out> &out, size_t &i, int &imu_count, u16 sender) {
  auto next = [&](int type, const char *n) -> const sbp_msg_t & {
    PBT_CHECK(i < out.size(), "%s missing (only %zu messages)", n, out.size());
    PBT_CHECK(out[i].type == type, "message %zu is of type %d, expected %s", i, out[i].type, n);
    PBT_CHECK(out[i].sender == sender, "sender %u", out[i].sender);
    return out[i++].msg;
  };
  u32 ms = f.h.sec * 1000u + f.h.usec / 1000u;
  if (f.kind == 0) {
    const auto &m = next(SbpMsgImuRaw, "IMU_RAW").imu_raw;
    PBT_CHECK(m.tow == ms, "imu tow %u, expected %u", m.tow, ms);
    PBT_CHECK(m.tow_f == (f.h.usec % 1000) * 256 / 1000, "imu tow_f %u for %u us", m.tow_f, f.h.usec);
    const double a = 4 * 9.80665 / 32768, w = 125.0 / 32768;
    check_scaled("acc_x", f.f[0] / a, m.acc_x);
    check_scaled("acc_y", f.f[1] / a, m.acc_y);
    check_scaled("acc_z", f.f[2] / a, m.acc_z);
    check_scaled("gyr_x", f.f[3] * 180 / M_PI / w, m.gyr_x);
    check_scaled("gyr_y", f.f[4] * 180 / M_PI / w, m.gyr_y);
    check_scaled("gyr_z", f.f[5] * 180 / M_PI / w, m.gyr_z);
    if (imu_count++ % 100 == 0) {
      const auto &x = next(SbpMsgImuAux, "IMU_AUX").imu_aux;
      PBT_CHECK(x.imu_type == 255 && x.temp == 0 && x.imu_conf == 0x41, "imu aux %u %d %u", x.imu_type, x.temp, x.imu_conf);
    }
  } else if (f.kind == 1) {
    const auto &o = next(SbpMsgOdometry, "ODOMETRY").odometry;
    PBT_CHECK(o.tow == ms, "odometry tow %u, expected %u", o.tow, ms);
    PBT_CHECK(o.flags == 1, "odometry flags %u", o.flags);
    double v = (double)f.f[0] * 1000;
    if (v >= 2147483647.0) PBT_CHECK(o.velocity == INT32_MAX, "speed %g should saturate, got %d", f.f[0], o.velocity);
    else if (v <= -2147483648.0) PBT_CHECK(o.velocity == INT32_MIN, "speed %g should saturate, got %d", f.f[0], o.velocity);
    else if (!std::isnan(v)) PBT_CHECK(fabs(o.velocity - v) <= 1.0 + 2e-7 * fabs(v), "speed %g gives %d mm/s", f.f[0], o.velocity);
    const auto &t = next(SbpMsgWheeltick, "WHEELTICK").wheeltick;
    PBT_CHECK(t.time == (u64)f.h.sec * 1000000u + f.h.usec, "wheeltick time %llu for %u s %u us", (unsigned long long)t.time, f.h.sec, f.h.usec);
    PBT_CHECK(t.flags == 1 && t.source == 0, "wheeltick flags %u source %u", t.flags, t.source);
    PBT_CHECK(t.ticks == f.ticks, "wheeltick ticks %d, expected %d", t.ticks, f.ticks);
  }
}
Bytes hostile(G &g) {  // near-valid streams
  Bytes b;
  size_t n = (size_t)g.range(1, 8);
  for (size_t k = 0; k < n; k++) {
    switch (g.below(8)) {
      case 0: append(b, g.bytes(g.below(40))); break;
      case 1: {  // arbitrary length field
        Hdr h = gen_hdr(g, g.pick<u8>({0, 0x16, 3, 0x7E}), (u16)g.pick<int>({0, 1, 2, 15, 16, 17, 18, 19, 20, 21, 27, 28, 29, 43, 44, 45, 4094, 4095, 4096, 4097, 65535, (int)g.below(65536)}));
        append(b, put_hdr(h));
        append(b, g.bytes(g.below(64)));
        break;
      }
      case 2: {  // right checksum where the header says it is, wrong length for the type
        Hdr h = gen_hdr(g, g.pick<u8>({0, 0x16}), 0);
        u16 n2 = (u16)g.range(0, 60);
        h.len = (u16)(20 + n2);
        Bytes f = put_hdr(h);
        append(f, g.bytes(n2));
        finish(f, (u16)g.below(65536));
        append(b, f);
        break;
      }
      case 3: { Frame f = gen_frame(g, (int)g.below(3)); f.b.resize(g.below(f.b.size())); append(b, f.b); break; }
      case 4: { Frame f = gen_frame(g, (int)g.below(3)); f.b[g.below(f.b.size())] ^= (u8)g.range(1, 255); append(b, f.b); break; }
      default: append(b, gen_frame(g, (int)g.below(3)).b);
    }
  }
  if (g.chance(5)) append(b, g.bytes(5000));
  return b;
}
}  // namespace

PBT_PROP(C33, codec, 300000, 6000000, "a message decoded, compared and re-encoded") {
  Frame f = gen_frame(g, (int)g.below(2));
  g.nontrivial();
  g.fingerprint(f.b.data(), f.b.size());
  std::unique_ptr<u8, decltype(&free)> p((u8 *)malloc(f.b.size()), free);
  memcpy(p.get(), f.b.data(), f.b.size());
  PBT_CHECK(ixcom_checksum(p.get(), f.b.size() - 2) == crc16_ccitt(f.b.data(), f.b.size() - 2, 0), "checksum");
  Bytes o(f.b.size() + 32, 0xA5);
  size_t n;
  auto hdr = [&](const XCOMHeader &h) {
    PBT_CHECK(h.sync == 0x7E && h.msg_id == f.h.id && h.frame_counter == f.h.fc && h.trigger_source == f.h.trig && h.msg_len == f.h.len &&
                  h.gps_week == f.h.week && h.gps_time_sec == f.h.sec && h.gps_time_usec == f.h.usec, "header fields of %s", hex(f.b.data(), 16).c_str());
  };
  XCOMHeader h;
  memset(&h, 0xEE, sizeof h);
  PBT_CHECK(ixcom_decode_header(p.get(), &h) == IXCOM_RC_OK, "header refused");
  hdr(h);
  u16 crc;
  memcpy(&crc, &f.b[f.b.size() - 2], 2);
  XCOMFooter ft;
  PBT_CHECK(ixcom_decode_footer(p.get() + f.b.size() - 4, &ft) == IXCOM_RC_OK, "footer refused");
  PBT_CHECK(ft.global_status.value == f.status && ft.crc16 == crc, "footer");
  if (f.kind == 0) {
    XCOMmsg_IMURAW m;
    memset(&m, 0xEE, sizeof m);
    PBT_CHECK(ixcom_decode_imuraw(p.get(), &m) == IXCOM_RC_OK, "intact IMURAW refused");
    hdr(m.header);
    for (int i = 0; i < 3; i++) {
      float a = m.acc[i], w = m.omg[i];
      PBT_CHECK(!memcmp(&a, &f.f[i], 4) && !memcmp(&w, &f.f[3 + i], 4), "axis %d acc %g omg %g, expected %g %g", i, a, w, f.f[i], f.f[3 + i]);
    }
    PBT_CHECK(m.footer.global_status.value == f.status && m.footer.crc16 == crc, "footer");
    n = ixcom_encode_imuraw(&m, o.data());
  } else {
    XCOMmsg_WHEELDATA m;
    memset(&m, 0xEE, sizeof m);
    PBT_CHECK(ixcom_decode_wheeldata(p.get(), &m) == IXCOM_RC_OK, "intact WHEELDATA refused");
    hdr(m.header);
    float s = m.speed;
    PBT_CHECK(!memcmp(&s, &f.f[0], 4) && m.ticks == f.ticks, "speed %g ticks %d, expected %g %d", s, m.ticks, f.f[0], f.ticks);
    PBT_CHECK(m.footer.global_status.value == f.status && m.footer.crc16 == crc, "footer");
    n = ixcom_encode_wheeldata(&m, o.data());
  }
  PBT_CHECK(n == f.b.size(), "encoded length %zu, expected %zu", n, f.b.size());
  for (size_t i = 0; i < o.size(); i++)
    PBT_CHECK(o[i] == (i < n ? f.b[i] : 0xA5), "encoded byte %zu is %02x", i, o[i]);
  // a wrong type, sync, or any changed bit is refused
  XCOMmsg_IMURAW mi;
  XCOMmsg_WHEELDATA mw;
  if (f.kind == 0) PBT_CHECK(ixcom_decode_header(p.get(), &h) == IXCOM_RC_OK, "hdr");
  size_t k = g.below(f.b.size());
  p.get()[k] ^= (u8)(1u << g.below(8));
  int rc = f.kind == 0 ? ixcom_decode_imuraw(p.get(), &mi) : ixcom_decode_wheeldata(p.get(), &mw);
  PBT_CHECK(rc != IXCOM_RC_OK, "accepted with byte %zu changed", k);
}

PBT_PROP(C33, convert, 150000, 3000000, "at least one IMU and one wheel message converted") {
  Source s;
  std::vector<Frame> fs;
  size_t n = g.chance(8) ? (size_t)g.range(95, 260) : g.chance(1) ? (size_t)g.range(500, 900) : (size_t)g.range(1, 6);
  int bias = (int)g.below(3), k[3] = {0, 0, 0};
  for (size_t i = 0; i < n; i++) {
    int kind = g.chance(50) ? (bias == 2 ? 0 : bias) : (int)g.below(3);
    fs.push_back(gen_frame(g, kind));
    k[kind]++;
    append(s.data, fs.back().b);
    if (g.chance(20)) append(s.data, clean_garbage(g, g.below(20)));
  }
  s.chunks = gen_chunks(g);
  u16 sender = 4711;
  Inst in(&s);
  if (g.chance(30)) ixcom_set_sender_id(in.st.get(), sender = (u16)g.below(65536));
  in.run();
  size_t i = 0;
  int cnt = 0;
  for (auto &f : fs) check_frame(f, s.out, i, cnt, sender);
  PBT_CHECK(i == s.out.size(), "%zu messages beyond the %zu expected; first extra: %s", s.out.size() - i, i, dump(s.out[i]).c_str());
  for (auto &o : s.out) check_wellformed(o);
  if (cnt > 100) g.label("over-100-imu");
  g.nontrivial_if(k[0] && k[1]);
  g.fingerprint(s.data.data(), s.data.size());
}

PBT_PROP(C08, ixcom, 150000, 3000000, "a damaged frame or garbage precedes an intact supported frame") {
  Source all, good;
  all.chunks = gen_chunks(g);
  size_t n = (size_t)g.range(2, 8);
  bool dam = false, nt = false;
  for (size_t i = 0; i < n; i++) {
    switch (g.below(4)) {
      case 0: append(all.data, clean_garbage(g, g.range(1, 50))); dam = true; break;
      case 1: {  // damage that leaves sync and length alone
        Frame f = gen_frame(g, (int)g.below(2));
        int hits = (int)g.range(1, 3);
        Bytes was = f.b;
        for (int j = 0; j < hits; j++) {
          size_t p = (size_t)g.range(1, (s64)f.b.size() - 1);
          if (p == 4 || p == 5) p = 6;
          f.b[p] ^= g.coin() ? (u8)(1u << g.below(8)) : (u8)g.range(1, 255);
        }
        // the checksum detects every burst of up to 16 bits, so one damaged byte always; it may miss wider damage
        u16 c;
        memcpy(&c, &f.b[f.b.size() - 2], 2);
        if (f.b == was || c == crc16_ccitt(f.b.data(), f.b.size() - 2, 0)) throw Discard{};
        append(all.data, f.b);
        dam = true;
        break;
      }
      case 2: {  // sync byte lost
        Frame f = gen_frame(g, (int)g.below(2));
        f.b[0] = 0x55;
        for (auto &x : f.b) if (x == 0x7E) x = 0x11;
        append(all.data, f.b);
        dam = true;
        break;
      }
      default: {
        Frame f = gen_frame(g, (int)g.below(3));
        append(all.data, f.b);
        append(good.data, f.b);
        nt |= dam && f.kind < 2;
      }
    }
  }
  run(all);
  run(good);
  std::string a = all.render(), b = good.render();
  if (a != b) PBT_FAIL("framing", "intact frames alone convert differently:%s", first_diff(a, b).c_str());
  g.nontrivial_if(nt);
  g.fingerprint(all.data.data(), all.data.size());
}

PBT_PROP(C03, stream, 200000, 4000000, "messages came out of a hostile stream") {
  Source s;
  s.data = hostile(g);
  s.chunks = gen_chunks(g);
  Inst in(&s);
  in.run();
  // more input may follow the end of input; the converter carries on
  if (g.chance(30)) {
    Bytes more = hostile(g);
    append(s.data, more);
    s.eof = false;
    in.run();
    g.label("resumed");
  }
  for (auto &o : s.out) check_wellformed(o);
  g.nontrivial_if(!s.out.empty());
  g.fingerprint(s.data.data(), s.data.size());
}

PBT_PROP(C09, ixcom, 100000, 2000000, "output was produced and the chunkings differ") {
  Source a, b;
  a.data = b.data = hostile(g);
  a.chunks = gen_chunks(g);
  b.chunks = gen_chunks(g);
  run(a);
  run(b);
  std::string x = a.render(), y = b.render();
  if (x != y) PBT_FAIL("chunking", "output depends on the chunking:%s", first_diff(x, y).c_str());
  g.nontrivial_if(!a.out.empty() && a.chunks != b.chunks);
  g.fingerprint(a.data.data(), a.data.size());
}

PBT_PROP(C36, ixcom, 100000, 2000000, "the run produced messages") {
  Source a, b, c, x;
  a.data = hostile(g);
  if (g.chance(4)) {  // long enough for what happens every hundred samples
    Bytes f = gen_frame(g, 0).b;
    for (int n = (int)g.range(90, 330); n; n--) append(a.data, f);
    for (int n = (int)g.range(1, 330); n; n--) append(x.data, f);
  } else if (g.coin()) share(g, x.data, a.data, 0x7E);  // the other has seen the beginning of it
  else x.data = hostile(g);
  b.data = c.data = a.data;
  a.chunks = b.chunks = c.chunks = gen_chunks(g);
  run(a, false, (u8)g.below(256));
  {  // b interleaved with x
    Inst ib(&b, false, (u8)g.below(256)), ix(&x);
    bool db = false, dx = false;
    while (!db || !dx) {
      if (!dx && (db || g.coin())) dx = ix.step() <= 0;
      else if (!db) db = ib.step() <= 0;
    }
    run(c, true, 0, g.coin() ? &ix : g.coin() ? &ib : nullptr);
  }
  std::string ra = a.render(), rb = b.render(), rc = c.render();
  if (ra != rb) PBT_FAIL("instances", "another instance changed the output:%s", first_diff(rb, ra).c_str());
  if (ra != rc) PBT_FAIL("memory", "output depends on memory contents:%s", first_diff(rc, ra).c_str());
  g.nontrivial_if(!a.out.empty());
  g.fingerprint(a.data.data(), a.data.size());
}
PBT_PROP(C36, ixcom_threads, 12000, 600000, "both threads produced messages and took turns") {
  Source a, x;
  a.data = hostile(g);
  if (g.chance(30)) x.data = a.data; else x.data = hostile(g);
  a.chunks = gen_chunks(g);
  x.chunks = gen_chunks(g);
  Source b, y;
  b.data = a.data; b.chunks = a.chunks;
  y.data = x.data; y.chunks = x.chunks;
  run(a);
  run(x);
  auto r = sched::run(sched::gen_plan(g, 12, g.coin() ? 12 : 3000, 20000), {}, {[&] { run(b, 2); }, [&] { run(y, 2); }});
  std::string ra = a.render(), rb = b.render(), rx = x.render(), ry = y.render();
  if (ra != rb) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(rb, ra).c_str());
  if (rx != ry) PBT_FAIL("threads", "another thread changed the output:%s", first_diff(ry, rx).c_str());
  g.nontrivial_if(!a.out.empty() && !x.out.empty() && r.switches);
  g.fingerprint(a.data.data(), a.data.size());
}
