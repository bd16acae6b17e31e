// C37, C39: the command-line tools. Their main() is run in this process with read(), write(),
// exit(), time() and the printing functions replaced; the expected bytes come from the second
// copy of the library, driven with options parsed here.
#if defined(PBT_GROUP_t_rtcm)
#include "rtcm3sbp.cc"
#elif defined(PBT_GROUP_t_ubx)
#include "ubx.cc"
#elif defined(PBT_GROUP_t_ixcom)
#include "ixcom.cc"
#elif defined(PBT_GROUP_t_out)
#include "out.cc"
#elif defined(PBT_GROUP_t_nov)
#include "nov.cc"
#endif
#include <getopt.h>
#include <unistd.h>
#include <ctime>

namespace {
struct ToolExit { int rc; };
struct Io {
  std::vector<u8> in, out;
  std::vector<u32> sizes;  // of the reads, cycled; 0: as much as asked for
  size_t pos = 0, ci = 0, after = 0, writes = 0;
  long long now = 0;
  bool end_error = false;
  size_t fail_at = (size_t)-1;  // the write which fails
  size_t cut = 0;       // how: 0 with an error, otherwise after (cut - 1) % n bytes
  bool failed = false;
  std::string text;
  long fetch(void *buf, size_t n) {
    if (n > (1u << 20)) PBT_FAIL("hugeread", "reader asked for %zu bytes", n);
    size_t k = std::min(n, in.size() - pos);
    if (!sizes.empty()) { u32 c = sizes[ci++ % sizes.size()]; if (c && c < k) k = c; }
    memcpy(buf, in.data() + pos, k);
    pos += k;
    if (!k && n) {
      if (++after > 200) PBT_FAIL("spin", "the tool goes on reading behind the end of its input");
      if (end_error) return -1;
    }
    return (long)k;
  }
  long put(const void *buf, size_t n) {
    PBT_CHECK(!failed, "the tool went on writing after a write had failed");
    if (writes++ == fail_at) {  // nothing, or only the beginning gets through
      failed = true;
      if (!n || !cut) return -1;
      size_t k = (cut - 1) % n;
      out.insert(out.end(), (const u8 *)buf, (const u8 *)buf + k);
      return (long)k;
    }
    out.insert(out.end(), (const u8 *)buf, (const u8 *)buf + n);
    return (long)n;
  }
};
Io *io;
}  // namespace
extern "C" {
int tool_main(int argc, char **argv);
long tool_read(int fd, void *b, size_t n) { PBT_CHECK(fd == 0, "read from descriptor %d", fd); return io->fetch(b, n); }
long tool_write(int fd, const void *b, size_t n) { if (fd == 2) return (long)n; PBT_CHECK(fd == 1, "write to descriptor %d", fd); return io->put(b, n); }
[[noreturn]] void tool_exit(int rc) { throw ToolExit{rc}; }
long long tool_time(long long *p) { if (p) *p = io->now; return io->now; }
int tool_printf(const char *f, ...) {
  char buf[512];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  io->text += buf;
  return n;
}
int tool_fprintf(FILE *, const char *, ...) { return 0; }
int tool_feof(FILE *) { return io->after > 0; }
size_t tool_fread(void *b, size_t s, size_t n, FILE *f) { PBT_CHECK(f == stdin, "other input"); long k = io->fetch(b, s * n); return s && k > 0 ? (size_t)k / s : 0; }
size_t tool_fwrite(const void *b, size_t s, size_t n, FILE *f) {
  if (f == stderr) return n;
  PBT_CHECK(f == stdout, "other output");
  long k = io->put(b, s * n);
  return s && k > 0 ? (size_t)k / s : 0;
}
}
namespace {
// runs f(argc, argv) the way a fresh process would
template <class F> int tool(const char *name, const std::vector<std::string> &args, F f) {
  std::vector<std::vector<char>> store;
  store.push_back(std::vector<char>(name, name + strlen(name) + 1));
  for (auto &a : args) store.push_back(std::vector<char>(a.c_str(), a.c_str() + a.size() + 1));
  std::vector<char *> argv;
  for (auto &s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  optind = 0;
  opterr = 0;
  optarg = nullptr;
  try {
    return f((int)store.size(), argv.data());
  } catch (ToolExit &e) { return e.rc; }
}
std::vector<u32> tool_chunks(G &g) {
  std::vector<u32> v;
  switch (g.below(4)) {
    case 0: break;
    case 1: v.push_back((u32)g.range(1, 40)); break;
    case 2: v.push_back(1); break;
    default: for (int n = (int)g.range(1, 6); n; n--) v.push_back((u32)(g.chance(20) ? 0 : g.range(1, 300)));
  }
  return v;
}
[[maybe_unused]] u16 sbp_crc(const u8 *p, size_t n) {
  u32 c = 0;
  while (n--) { c ^= (u32)*p++ << 8; for (int k = 0; k < 8; k++) c = c & 0x8000 ? (c << 1) ^ 0x1021 : c << 1; }
  return (u16)c;
}
[[maybe_unused]] std::vector<u8> sbp_frame(u16 type, u16 sender, const u8 *p, size_t n) {
  std::vector<u8> f = {0x55, (u8)type, (u8)(type >> 8), (u8)sender, (u8)(sender >> 8), (u8)n};
  f.insert(f.end(), p, p + n);
  u16 c = sbp_crc(&f[1], f.size() - 1);
  f.push_back((u8)c);
  f.push_back((u8)(c >> 8));
  return f;
}
void same_bytes(const std::vector<u8> &got, const std::vector<u8> &want) {
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  PBT_FAIL("bytes", "the tool wrote %zu bytes, the library makes %zu; first difference at %zu: tool %s library %s", got.size(), want.size(), i,
           hex(got.data() + i, std::min<size_t>(24, got.size() - i)).c_str(), hex(want.data() + i, std::min<size_t>(24, want.size() - i)).c_str());
}
#if defined(PBT_GROUP_t_rtcm) || defined(PBT_GROUP_t_ubx) || defined(PBT_GROUP_t_ixcom)
std::vector<u8> wire(const Out &o) {
  u8 b[256], n = 0;
  PBT_CHECK(sbp_message_encode(b, 255, &n, (sbp_msg_type_t)o.type, &o.msg) == SBP_OK, "unserialisable");
  return sbp_frame((u16)o.type, o.sender, b, n);
}
#endif
int no_ctx;  // its address is a context
int ctx_read(u8 *b, size_t n, void *c) { PBT_CHECK(c == &no_ctx, "the reader got another context"); return (int)io->fetch(b, n); }
[[maybe_unused]] int ctx_write(u8 *b, u32 n, void *c) { PBT_CHECK(c == &no_ctx, "the writer got another context"); return (int)io->put(b, n); }
}  // namespace

#ifdef PBT_GROUP_t_rtcm
extern "C" {
int rtcm3tosbp_main(int, char **, const char *, int (*)(u8 *, size_t, void *), s32 (*)(u8 *, u32, void *), void *);
void alt_time_truth_get(time_truth_t *, enum time_truth_state *, gps_time_t *);
extern float alt_sbp_signal_biases[CODE_COUNT], alt_sbp_glo_code_bias[2], alt_sbp_glo_phase_bias[2];
extern bool alt_constellation_mask[CONSTELLATION_COUNT];
}
namespace {
const s64 UNIX = 315964800;  // of the GPS epoch
struct Opts {
  float bias[CODE_COUNT] = {}, code[2] = {}, phase[2] = {};
  bool mask[CONSTELLATION_COUNT] = {};
  bool timed = false, obs = false;
  int stop = 0;             // 1: returns 0 at once; 2: fails
  bool print = false;
  std::vector<s64> cand;    // GPS seconds the time option may mean
};
struct Ref {
  std::unique_ptr<rtcm3_sbp_state> st{new rtcm3_sbp_state};
  time_truth_t tt;
  Source s;
  bool obs;
  static void cb(u16 sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) {
    Ref *r = (Ref *)ctx;
    r->s.out.push_back({sender, (int)t, *m});
    if (!r->obs) alt_time_truth_update_from_sbp(&r->tt, t, m);
    else if (t == SbpMsgObs && m->obs.header.t.tow > 0 && m->obs.header.t.tow < WEEK && m->obs.header.t.wn < 32768) {
      r->st->time_from_input_data.wn = (s16)m->obs.header.t.wn;
      r->st->time_from_input_data.tow = m->obs.header.t.tow / 1000.0;
    }
  }
  static int rd(u8 *b, size_t n, void *ctx) { return ((Ref *)ctx)->s.rd(b, n); }
  static void bad(double, void *) {}
  Bytes run(const Opts &o, const Bytes &in, s64 t) {
    memcpy(alt_sbp_signal_biases, o.bias, sizeof o.bias);
    memcpy(alt_sbp_glo_code_bias, o.code, sizeof o.code);
    memcpy(alt_sbp_glo_phase_bias, o.phase, sizeof o.phase);
    memcpy(alt_constellation_mask, o.mask, sizeof o.mask);
    memset(st.get(), 0, sizeof *st);
    s.data = in;
    obs = o.obs;
    alt_time_truth_init(&tt);
    if (t >= 0) alt_time_truth_update(&tt, TIME_TRUTH_EPH_GAL, gt(t * 1000));
    alt_rtcm2sbp_init(st.get(), &tt, cb, bad, this);
    if (obs) {
      st->use_time_from_input_obs = true;
      alt_time_truth_get(&tt, nullptr, &st->time_from_input_data);
    }
    while (alt_rtcm2sbp_process(st.get(), rd) > 0) {}
    Bytes b;
    for (auto &m : s.out) append(b, wire(m));
    return b;
  }
};
void civil(s64 days, int &y, int &m, int &d) {  // days since 1 January 1970
  y = 1970; m = 1;
  for (;;) { s64 n = y % 4 == 0 && (y % 100 || y % 400 == 0) ? 366 : 365; if (days < n) break; days -= n; y++; }
  const int L[] = {31, y % 4 == 0 && (y % 100 || y % 400 == 0) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  while (days >= L[m - 1]) days -= L[m++ - 1];
  d = (int)days + 1;
}
// one option: appends its words and does to o what the help text says
void gen_opt(G &g, Opts &o, std::vector<std::string> &w, s64 t0, bool times) {
  auto put = [&](char c, std::string v) {
    if (!g.chance(80)) v = "=" + v;
    if (g.coin()) w.push_back(fmt("-%c%s", c, v.c_str()));
    else { w.push_back(fmt("-%c", c)); w.push_back(v); }
  };
  auto bias_list = [&](bool glo) {
    std::string s;
    std::vector<std::pair<int, float>> r;
    bool end = false;
    for (int n = (int)g.range(1, 5); n; n--) {
      if (!s.empty()) s += g.chance(90) ? "," : ",,";
      int code = glo && g.chance(85) ? g.pick({CODE_GLO_L1OF, CODE_GLO_L2OF}) : g.chance(60) ? g.pick({CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2P, CODE_GPS_L1P, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GAL_E1X, CODE_GAL_E1B, CODE_GAL_E7I, CODE_BDS2_B1, CODE_BDS2_B2, CODE_SBAS_L1CA, CODE_GPS_L5X}) : (int)g.below(CODE_COUNT);
      if (!glo && g.chance(12)) code = g.pick({(int)CODE_COUNT, CODE_COUNT + 1, 255, 100000, -1, -2, -64, -100000, 2147483647});
      std::string v = fmt(g.chance(10) ? "%+.3f" : "%.3f", (double)g.range(-400000, 400000) / 1000);
      if (g.chance(15)) v = fmt("%d", (int)g.range(-500, 500));
      if (g.chance(6)) { s += g.pick<const char *>({"x", "3", "5:", ":1.5", "4:y", "a:1"}); end = true; continue; }
      s += fmt("%d:%s", code, v.c_str());
      if (!glo && (code < 0 || code >= CODE_COUNT)) end = true;
      if (!end) r.push_back({code, strtof(v.c_str(), nullptr)});
    }
    return std::make_pair(s, r);
  };
  switch (g.below(times ? 9 : 5)) {
    case 0: case 1: {
      auto r = bias_list(false);
      put('b', r.first);
      for (auto &x : r.second) o.bias[x.first] = x.second;
      break;
    }
    case 2: case 3: {
      char c = g.coin() ? 'c' : 'l';
      auto r = bias_list(true);
      put(c, r.first);
      for (auto &x : r.second) {
        float *d = c == 'c' ? o.code : o.phase;
        if (x.first == CODE_GLO_L1OF) d[0] = x.second;
        if (x.first == CODE_GLO_L2OF) d[1] = x.second;
      }
      break;
    }
    case 4: {
      std::string s = "-";
      for (int n = (int)g.range(1, 3); n; n--) {
        static const struct { char c; int m; } F[] = {{'G', CONSTELLATION_GPS}, {'R', CONSTELLATION_GLO}, {'E', CONSTELLATION_GAL}, {'C', CONSTELLATION_BDS}, {'J', CONSTELLATION_QZS}, {'S', CONSTELLATION_SBAS}, {'v', -1}};
        auto &f = F[g.below(7)];
        s += f.c;
        if (f.m >= 0) o.mask[f.m] = true;
      }
      w.push_back(s);
      break;
    }
    case 5: case 6: {  // -w
      if (g.chance(12)) {
        const char *bad = g.pick<const char *>({"x", "2000", "2000:", "2000:x", "-5:100", "2000:604800", "2000:-1", "2000:nan", "2000:inf", ":5", ""});
        if (!*bad) { w.push_back("-w"); w.push_back(""); } else put('w', bad);
        o.stop = 2;
        break;
      }
      s64 ms = std::max<s64>(0, t0 + g.range(-5, 5) * 1000);
      put('w', fmt("%d:%.3f", (int)(ms / WEEK), (double)(ms % WEEK) / 1000));
      o.timed = true;
      s64 t = ms / 1000;
      o.cand.clear();
      for (s64 a : {t, t + (ms % 1000 ? 1 : 0)}) for (s64 l : {(s64)leap_at(ms), (s64)0, -(s64)leap_at(ms)}) o.cand.push_back(a + l);
      break;
    }
    case 7: {  // -d
      if (g.chance(12)) {
        const char *bad = g.pick<const char *>({"x", "2020", "2020:1", "2020:1:1", "2020:1:1:x", "2020-1-1-0"});
        put('d', bad);
        o.stop = 2;
        break;
      }
      s64 h = (t0 / 1000 + UNIX) / 3600;
      int y, m, d;
      civil(h / 24, y, m, d);
      put('d', fmt("%d:%d:%d:%d", y, m, d, (int)(h % 24)));
      o.timed = true;
      o.cand.clear();
      for (s64 l : {2, 1, 0}) o.cand.push_back(h * 3600 - UNIX + l * leap_at(t0));
      break;
    }
    default:
      w.push_back("-s");
      o.timed = true;
      o.cand = {io->now - UNIX + leap_at((io->now - UNIX) * 1000), io->now - UNIX};
  }
}
Bytes clean(G &g, const Cfg &c) {
  Bytes b;
  Model md = gen_model(c);
  for (int n = (int)g.range(1, 8); n; n--) {
    Bytes p = (g.chance(70) ? g.coin() ? gen_legacy(g, md) : gen_msm_any(g, md) : g.pick(all_gens)(g, md)).p;
    if (!p.empty() && p.size() <= 1023) append(b, rtcm_frame(p));
  }
  return b;
}
void fresh() {
  Options::reset();
  verbosity_level = VERB_NORMAL;
}
void rtcm_tool(G &g, bool options) {
  struct Reset { ~Reset() { fresh(); io = nullptr; } } reset;
  fresh();
  Io x;
  io = &x;
  Cfg c = options && g.chance(80) ? gen_cfg(g) : wild_cfg(g);
  if (c.t0 < 0 || c.t0 > 32000 * WEEK) c.t0 = gen_time(g);
  c.t0 -= c.t0 % 1000;
  if (llabs(c.t0 - 1876 * WEEK) < 60000) throw Discard{};  // times before that are not believed
  leap_at(c.t0 + 5000);
  leap_at(c.t0 - 5000);
  x.now = c.t0 / 1000 + UNIX - leap_at(c.t0);
  Opts o;
  std::vector<std::string> w;
  bool want_time = g.chance(92);
  if (g.chance(want_time ? 30 : 20)) { o.obs = true; w.push_back("-o"); }
  for (int n = (int)g.range(options ? 1 : 0, options ? 6 : 2); n && !o.stop; n--) gen_opt(g, o, w, c.t0, false);
  if (want_time && !o.stop) do gen_opt(g, o, w, c.t0, true); while (!o.timed && !o.stop);
  if (!o.stop && g.chance(6)) { w.push_back("-h"); o.stop = 1; }
  else if (!o.stop && options && g.chance(3)) { w.push_back("-t"); o.stop = 1; o.print = true; }
  if (o.stop && g.coin()) gen_opt(g, *std::make_unique<Opts>(), w, c.t0, true);
  if (!o.stop && o.obs && (!o.timed || c.t0 < 1876 * WEEK)) o.stop = 2;
  std::string line;
  for (auto &a : w) line += a + " ";
  g.note(line);
  g.fingerprint(line.data(), line.size());
  x.in = options && g.chance(80) ? clean(g, c) : hostile(g, c);
  g.fingerprint(x.in.data(), x.in.size());
  x.sizes = tool_chunks(g);
  x.end_error = g.chance(20);
  bool whole = g.coin();
  // what to expect
  Bytes want;
  std::vector<Bytes> wants;
  if (!o.stop) wants.push_back(Ref().run(o, x.in, o.timed ? o.cand[0] : -1));
  int fail = !o.stop && !options && g.chance(15) ? (int)g.below(6) : -1;
  if (fail >= 0) { x.fail_at = (size_t)fail; x.cut = (size_t)g.below(40); }
  int rc = tool("rtcm3tosbp", w, [&](int argc, char **argv) {
    return whole ? tool_main(argc, argv) : rtcm3tosbp_main(argc, argv, "", ctx_read, ctx_write, &no_ctx);
  });
  if (o.stop) {
    PBT_CHECK(x.out.empty() && x.pos == 0, "%zu bytes read and %zu written though the options ask for nothing: %s", x.pos, x.out.size(), line.c_str());
    if (o.stop == 1) PBT_CHECK(rc == 0, "exit status %d: %s", rc, line.c_str());
    else PBT_CHECK(rc != 0, "invalid options were not refused: %s", line.c_str());
    if (o.print) {
      int wn = -1;
      double tow = -1;
      PBT_CHECK(sscanf(x.text.c_str(), "%d:%lf", &wn, &tow) == 2, "-t printed '%s'", x.text.c_str());
      double d = wn * 604800.0 + tow - (double)(x.now - UNIX);
      PBT_CHECK(fabs(d - leap_at(c.t0)) < 0.01, "-t is off by %g s", d - leap_at(c.t0));
      g.label("-t");
    }
    g.label(o.stop == 1 ? "help or time" : "refused");
    g.nontrivial();
    return;
  }
  if (x.failed) {
    PBT_CHECK(rc != 0, "exit status 0 though a write failed");
    PBT_CHECK(x.out.size() < wants[0].size() && std::equal(x.out.begin(), x.out.end(), wants[0].begin()), "output before the failed write differs");
    g.label("write failed");
    g.nontrivial();
    return;
  }
  PBT_CHECK(rc == 0, "exit status %d: %s", rc, line.c_str());
  PBT_CHECK(x.pos == x.in.size(), "%zu of %zu bytes read: %s", x.pos, x.in.size(), line.c_str());
  for (size_t i = 1; i < o.cand.size() && x.out != wants.back(); i++) wants.push_back(Ref().run(o, x.in, o.cand[i]));
  if (x.out != wants.back()) same_bytes(x.out, wants[0]);
  g.nontrivial_if(!x.out.empty());
}
}  // namespace
PBT_PROP(C37, tool, 60000, 2500000, "messages came out, or the options had to be refused or asked for no conversion") { rtcm_tool(g, true); }
PBT_PROP(C39, rtcm3tosbp, 40000, 2000000, "messages came out, a write failed or the options had to be refused") { rtcm_tool(g, false); }
#endif

#if defined(PBT_GROUP_t_ubx) || defined(PBT_GROUP_t_ixcom)
#ifdef PBT_GROUP_t_ubx
#define TOOL "ubx2sbp"
extern "C" int ubx2sbp_main(int, char **, const char *, int (*)(u8 *, size_t, void *), int (*)(u8 *, u32, void *), void *);
extern "C" void alt_ubx_set_sender_id(struct ubx_sbp_state *, u16);
#else
#define TOOL "ixcom2sbp"
extern "C" int ixcom2sbp_main(int, char **, const char *, int (*)(u8 *, size_t, void *), int (*)(u8 *, u32, void *), void *);
extern "C" void alt_ixcom_set_sender_id(struct ixcom_sbp_state *, u16);
#endif
static void sbp_tool(G &g) {
  struct Reset { ~Reset() { io = nullptr; } } reset;
  Io x;
  io = &x;
  std::vector<std::string> w;
  bool hnr = false, help = false;
  int sender = -1;
  for (int n = (int)g.below(4); n && !help; n--) {
    switch (g.below(4)) {
      default: {
        sender = (int)g.bits(16);
        std::string v = g.coin() ? fmt("%d", sender) : fmt(g.coin() ? "0x%x" : "0x%04X", sender);
        switch (g.below(5)) {
          case 0: w.push_back("-s"); w.push_back(v); break;
          case 1: w.push_back("-s" + v); break;
          case 2: w.push_back("--sender_id"); w.push_back(v); break;
          case 3: w.push_back("--sender_id=" + v); break;
          default: w.push_back("--sender"); w.push_back(v);
        }
        break;
      }
#ifdef PBT_GROUP_t_ubx
      case 2: hnr = true; w.push_back("--hnr"); break;
#endif
      case 3: if (g.chance(12)) { w.push_back("-h"); help = true; }
    }
  }
  std::string line;
  for (auto &a : w) line += a + " ";
  g.note(line);
  g.fingerprint(line.data(), line.size());
  x.in = hostile(g);
  g.fingerprint(x.in.data(), x.in.size());
  x.sizes = tool_chunks(g);
  x.end_error = g.chance(20);
  Source s;
  s.data = x.in;
  {
#ifdef PBT_GROUP_t_ubx
    Inst in(&s, true, 0, hnr);
    if (sender >= 0) alt_ubx_set_sender_id(in.st.get(), (u16)sender);
#else
    Inst in(&s, true, 0);
    if (sender >= 0) alt_ixcom_set_sender_id(in.st.get(), (u16)sender);
#endif
    in.run();
  }
  Bytes want;
  for (auto &m : s.out) append(want, wire(m));
  for (auto &m : s.out) if (sender >= 0) PBT_CHECK(m.sender == sender, "sender %u though %d was asked for", m.sender, sender);
  bool whole = g.coin();
  int rc = tool(TOOL, w, [&](int argc, char **argv) {
    if (whole) return tool_main(argc, argv);
#ifdef PBT_GROUP_t_ubx
    return ubx2sbp_main(argc, argv, "", ctx_read, ctx_write, &no_ctx);
#else
    return ixcom2sbp_main(argc, argv, "", ctx_read, ctx_write, &no_ctx);
#endif
  });
  PBT_CHECK(rc == 0, "exit status %d: %s", rc, line.c_str());
  if (help) {
    PBT_CHECK(x.pos == 0 && x.out.empty(), "help was asked for, but %zu bytes were read", x.pos);
    return;
  }
  PBT_CHECK(x.pos == x.in.size(), "%zu of %zu bytes read: %s", x.pos, x.in.size(), line.c_str());
  same_bytes(x.out, want);
  g.nontrivial_if(!x.out.empty());
}
#ifdef PBT_GROUP_t_ubx
PBT_PROP(C39, ubx2sbp, 40000, 2000000, "messages came out") { sbp_tool(g); }
#else
PBT_PROP(C39, ixcom2sbp, 60000, 2000000, "messages came out") { sbp_tool(g); }
#endif
#endif

#ifdef PBT_GROUP_t_out
extern "C" int sbp2rtcm_main(int, char **, const char *, int (*)(u8 *, u32, void *), int (*)(u8 *, u16, void *), void *);
namespace {
int ctx_read32(u8 *b, u32 n, void *c) { int k = ctx_read(b, n, c); if (n && k <= 0) throw ToolExit{0}; return k; }
int ctx_write16(u8 *b, u16 n, void *c) { PBT_CHECK(c == &no_ctx, "the writer got another context"); return (int)io->put(b, n); }
}  // namespace
PBT_PROP(C39, sbp2rtcm, 40000, 2000000, "frames came out") {
  struct Reset { ~Reset() { io = nullptr; } } reset;
  Io x;
  io = &x;
  std::vector<std::string> w;
  bool help = g.chance(2);
  if (help) w.push_back("-h");
  static const struct { s64 from, to; int leap; } L[] = {{1483315200, 1900000000, 18}, {1435795200, 1483142400, 17}, {1341187200, 1435622400, 16}, {1230854400, 1341014400, 15}};
  auto &l = L[g.chance(70) ? 0 : g.below(4)];
  x.now = g.range(l.from, l.to);
  Inst ref(true, 0);
  ref.apply(ev_set(SET_LEAP, l.leap));
  Model md;
  md.set(ev_set(SET_LEAP, l.leap));
  std::vector<u16> senders;
  s64 t = g.ival(0, WEEK - 1);
  for (int n = (int)g.range(1, 25); n; n--) {
    switch (g.below(12)) {
      case 0: {  // between the messages
        Bytes junk = g.bytes(g.below(20));
        for (auto &b : junk) if (b == 0x55) b = 0x54;
        append(x.in, junk);
        break;
      }
      case 1: {  // damaged, or of no interest
        Ev e = wild(g, md, senders, t, false);
        u16 type = TYPE[e.op];
        bool other = g.coin();
        if (other) type = g.pick<u16>({0xFFFF, 0x0102, 0x020A, 0x0044, 0x008C, 0x008E, 0x0010, 0x0190, 0x05FB, 0x05FC});
        Bytes f = sbp_frame(type, e.sender, e.p.data(), e.p.size());
        if (!other) f[g.coin() || e.p.empty() ? f.size() - 1 - g.below(2) : 6 + g.below(e.p.size())] ^= (u8)g.range(1, 255);
        append(x.in, f);
        break;
      }
      default: {
        Ev e = wild(g, md, senders, t, false);
        ref.apply(e);
        append(x.in, sbp_frame(TYPE[e.op], e.sender, e.p.data(), e.p.size()));
      }
    }
  }
  g.fingerprint(x.in.data(), x.in.size());
  if (g.chance(10)) append(x.in, {0x55, 0x4A, 0, 1});  // ends within a message
  x.sizes = tool_chunks(g);
  bool whole = g.coin();
  x.end_error = whole && g.chance(20);
  Bytes want;
  for (auto &f : ref.out) append(want, f);
  if (whole && g.chance(15)) { x.fail_at = g.below(4); x.cut = (size_t)g.below(40); }
  int rc = tool("sbp2rtcm", w, [&](int argc, char **argv) {
    return whole ? tool_main(argc, argv) : sbp2rtcm_main(argc, argv, "", ctx_read32, ctx_write16, &no_ctx);
  });
  if (help) {
    PBT_CHECK(rc == 0 && x.pos == 0 && x.out.empty(), "help was asked for, but %zu bytes were read", x.pos);
    return;
  }
  if (x.failed) {
    PBT_CHECK(rc != 0, "exit status 0 though a write failed");
    PBT_CHECK(x.out.size() < want.size() && std::equal(x.out.begin(), x.out.end(), want.begin()), "output before the failed write differs");
    return;
  }
  PBT_CHECK((rc != 0) == x.end_error, "exit status %d at the end of input%s", rc, x.end_error ? " after a read error" : "");
  PBT_CHECK(x.pos == x.in.size(), "%zu of %zu bytes read", x.pos, x.in.size());
  same_bytes(x.out, want);
  g.nontrivial_if(!x.out.empty());
}
#endif

#ifdef PBT_GROUP_t_nov
static int ctx_read_nov(u8 *b, u32 n, void *c) { return ctx_read(b, n, c); }
PBT_PROP(C39, nov2sbp, 80000, 1000000, "messages came out") {
  struct Reset { ~Reset() { io = nullptr; } } reset;
  Io x;
  x.in = gen_stream(g, g.coin());
  x.sizes = tool_chunks(g);
  Io y = x;
  y.sizes = tool_chunks(g);
  g.fingerprint(x.in.data(), x.in.size());
  io = &x;
  int rc = tool("nov2sbp", {}, [&](int argc, char **argv) { return tool_main(argc, argv); });
  io = &y;
  int rc2 = tool("nov2sbp", {}, [&](int argc, char **argv) { return nov2sbp_main(argc, argv, "", ctx_read_nov, ctx_write, &no_ctx); });
  PBT_CHECK(rc == 0 && rc2 == 0, "exit status %d %d", rc, rc2);
  PBT_CHECK(x.pos == x.in.size() && y.pos == y.in.size(), "%zu and %zu of %zu bytes read", x.pos, y.pos, x.in.size());
  same_bytes(x.out, y.out);
  std::string e = sbp_problem(x.out, nullptr);
  PBT_CHECK(e.empty(), "%s", e.c_str());
  g.nontrivial_if(!x.out.empty());
}
#endif
