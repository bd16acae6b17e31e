// Engine: random + coverage-guided case generation in worker processes,
// crash/hang capture, shrinking, replay.
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <exception>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=1024:"
         "handle_abort=0:symbolize=0:detect_stack_use_after_return=0:malloc_context_size=3";
}
extern "C" const char *__ubsan_default_options() { return "exitcode=77:print_stacktrace=0:halt_on_error=1"; }

// coverage of the code under test (inline 8-bit counters)
// (runs before static constructors, so plain storage)
struct CovRegion { u_char *first, *second; };
struct CovRegions {
  CovRegion r[8];
  size_t n;
  CovRegion *begin() { return r; }
  CovRegion *end() { return r + n; }
};
static CovRegions cov_regions;
extern "C" void __sanitizer_cov_8bit_counters_init(char *s, char *e) {
  for (auto &r : cov_regions) if (r.first == (u_char *)s) return;
  if (s != e && cov_regions.n < 8) cov_regions.r[cov_regions.n++] = {(u_char *)s, (u_char *)e};
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));  // tools/cov.sh
namespace pbt {
std::string fmt(const char *f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) {
    u8 c = ((const u8 *)p)[i];
    s += d[c >> 4];
    s += d[c & 15];
  }
  return s;
}
void fail(const char *key, const std::string &msg) { throw Fail{key, msg}; }
u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}
static std::vector<Sub> &subs() {
  static std::vector<Sub> s;
  return s;
}
void add(const Sub &s) { subs().push_back(s); }

static u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  u64 next() {
    u64 r = mix(s);
    s += 0x9e3779b97f4a7c15ull;
    return r;
  }
  u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : next(); }
};

// shared between a worker and the parent ----------------------------------
enum { CAP = 1 << 17, RING = 1 << 20, NLAB = 96, NSAMP = 4 };
struct Shm {
  volatile u64 n;           // choices recorded for the running case
  u64 rec[CAP];
  volatile u64 ring_w;      // ring of past cases: [len, choices...]
  u64 ring[RING];
  volatile int failed;
  char key[256];
  char msg[8192];
  char notes[8192];
  u64 evals, discards, known, nontriv, corpus;
  struct { char name[48]; u64 count; } lab[NLAB];
  char samp[NSAMP][1600];
  char knownmsg[512];
  volatile u64 case_no;
};

struct ReplayG : G {
  Shm *shm;
  const u64 *pre = nullptr;
  size_t npre = 0, pos = 0;
  bool zero_tail = false;
  Rng rng{0};
  u64 fresh(u64 n) {  // wide ranges: now and then one of the ends (or the middle)
    u64 v = rng.below(n);
    if ((n >= 200 || n == 0) && rng.below(32) == 0) {
      u64 e = rng.below(5);
      v = e < 2 ? e : e < 4 ? n - 1 - (e - 2) : (n ? n / 2 : 1ull << 63);
    }
    return v;
  }
  u64 draw(u64 n) override {
    u64 v;
    if (n == 1) return 0;
    if (pos < npre) {
      v = pre[pos];
      if (n && v >= n) v %= n;
    } else v = zero_tail ? 0 : fresh(n);
    pos++;
    if (shm->n >= CAP) throw Discard{};
    shm->rec[shm->n] = v;
    shm->n = shm->n + 1;
    return v;
  }
};

typedef std::vector<u64> Case;
typedef std::vector<Case> Cases;
static std::set<std::string> known_keys;
enum Outcome { OK, DISCARD, FAILED, KNOWN };

static void arm(int secs) {
  struct itimerval it = {{0, 0}, {secs, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static Outcome run_one(const Sub &sub, ReplayG &g) {
  Shm *s = g.shm;
  s->n = 0;
  arm(10);
  try {
    sub.fn(g);
  } catch (Discard &) {
    return DISCARD;
  } catch (Fail &f) {
    snprintf(s->key, sizeof s->key, "%s", f.key.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
    snprintf(s->notes, sizeof s->notes, "%s", g.notes.c_str());
    if (known_keys.count(f.key)) return KNOWN;
    s->failed = 1;
    return FAILED;
  } catch (std::exception &e) {
    snprintf(s->key, sizeof s->key, "exception");
    snprintf(s->msg, sizeof s->msg, "uncaught C++ exception: %s", e.what());
    s->failed = 1;
    return FAILED;
  }
  if (g.want_notes) snprintf(s->notes, sizeof s->notes, "%s", g.notes.c_str());
  return OK;
}
static void quiet_stdio(const std::string &errfile) {
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) { dup2(n, 1); close(n); }
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) { dup2(e, 2); close(e); }
  int z = open("/dev/null", O_RDONLY);
  if (z >= 0) { dup2(z, 0); close(z); }
}
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void ring_push(Shm *s) {
  // [choices..., n] so that it can be walked backwards
  u64 w = s->ring_w;
  for (u64 i = 0; i < s->n; i++) s->ring[(w + i) % RING] = s->rec[i];
  s->ring[(w + s->n) % RING] = s->n;
  s->ring_w = w + s->n + 1;
}
static Cases ring_read(Shm *s, size_t max) {
  Cases out;
  u64 w = s->ring_w, lim = w > RING ? w - RING : 0;
  while (out.size() < max && w > lim) {
    u64 n = s->ring[(w - 1) % RING];
    if (n + 1 > w - lim) break;
    Case c(n);
    for (u64 i = 0; i < n; i++) c[i] = s->ring[(w - 1 - n + i) % RING];
    out.push_back(c);
    w -= n + 1;
  }
  std::reverse(out.begin(), out.end());
  return out;
}

static u_char bucket(u_char c) {
  return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}

static const size_t HMAX = 1 << 19;
struct HashSet {  // open addressing set in shared memory
  u64 count;
  u64 h[HMAX * 2];
};

static void worker(const Sub &sub, int w, int nw, u64 seed, u64 cases, double deadline, Shm *s, HashSet *hs) {
  std::vector<u_char> seen;
  size_t tot = 0;
  for (auto &r : cov_regions) tot += r.second - r.first;
  seen.assign(tot, 0);
  std::vector<Case> corpus;
  std::map<const char *, int> labidx;
  u64 subh = hash_bytes(sub.name, strlen(sub.name), hash_bytes(sub.prop, strlen(sub.prop), seed * 77 + 5));
  Rng wr{mix(subh ^ (u64)w * 1000003ull)};
  u64 mine = 0;
  for (u64 i = w; i < cases; i += nw, mine++) {
    if ((mine & 15) == 0 && now() > deadline) break;
    s->case_no = i;
    ReplayG g;
    g.shm = s;
    g.rng.s = mix(subh ^ mix(i + 1));
    Case pre;
    if (!corpus.empty() && wr.below(100) < 45) {
      pre = corpus[corpus.size() > 8 && wr.below(2) ? corpus.size() - 1 - wr.below(corpus.size() / 2) : wr.below(corpus.size())];
      int ops = 1 + wr.below(4);
      for (int k = 0; k < ops && !pre.empty(); k++) {
        size_t p = wr.below(pre.size());
        switch (wr.below(7)) {
          case 0: pre[p] = wr.next(); break;
          case 1: pre[p] += 1; break;
          case 2: if (pre[p]) pre[p] -= 1; break;
          case 3: pre[p] = wr.below(1 + wr.below(256)); break;
          case 4: {
            size_t l = 1 + wr.below(std::min<size_t>(pre.size() - p, 16));
            pre.erase(pre.begin() + p, pre.begin() + p + l);
            break;
          }
          case 5: {
            size_t l = 1 + wr.below(std::min<size_t>(pre.size() - p, 32));
            Case d(pre.begin() + p, pre.begin() + p + l);
            if (pre.size() < 4000) pre.insert(pre.begin() + p, d.begin(), d.end());
            break;
          }
          case 6: {
            const Case &o = corpus[wr.below(corpus.size())];
            if (!o.empty()) {
              size_t q = wr.below(o.size());
              pre.resize(p);
              pre.insert(pre.end(), o.begin() + q, o.end());
            }
            break;
          }
        }
      }
      g.pre = pre.data();
      g.npre = pre.size();
    }
    bool sample = false;
    int sl = -1;
    for (int k = 0; k < NSAMP; k++)
      if (!s->samp[k][0] && mine >= (u64)(k * 37)) { sl = k; sample = true; break; }
    g.want_notes = sample;
    for (auto &r : cov_regions) memset(r.first, 0, r.second - r.first);
    Outcome o = run_one(sub, g);
    if (o == FAILED) {
      arm(0);
      _exit(3);
    }
    s->evals++;
    if (o == DISCARD) { s->discards++; continue; }
    if (o == KNOWN) {
      s->known++;
      snprintf(s->knownmsg, sizeof s->knownmsg, "%s", s->key);
      ring_push(s);
      continue;
    }
    // coverage
    bool fresh = false;
    size_t k = 0;
    for (auto &r : cov_regions) {
      u_char *p = r.first;
      size_t n = r.second - r.first, j = 0;
      for (; j < n;) {
        if (j + 8 <= n) {
          u64 x;
          memcpy(&x, p + j, 8);
          if (!x) { j += 8; continue; }
        }
        size_t e = std::min(n, j + 8);
        for (; j < e; j++)
          if (p[j]) {
            u_char b = bucket(p[j]);
            if (b & ~seen[k + j]) { seen[k + j] |= b; fresh = true; }
          }
      }
      k += n;
    }
    if (fresh && s->n < 20000 && corpus.size() < 3000) {
      corpus.push_back(Case(s->rec, s->rec + s->n));
      s->corpus = corpus.size();
    }
    ring_push(s);
    for (auto l : g.labels) {
      auto it = labidx.find(l);
      int ix = it == labidx.end() ? -1 : it->second;
      if (ix < 0) {
        for (int q = 0; q < NLAB; q++) {
          if (!s->lab[q].name[0]) { snprintf(s->lab[q].name, 48, "%s", l); ix = q; break; }
          if (!strncmp(s->lab[q].name, l, 47)) { ix = q; break; }
        }
        if (ix < 0) ix = NLAB - 1;
        labidx[l] = ix;
      }
      s->lab[ix].count++;
    }
    if (g.nontriv) {
      s->nontriv++;
      u64 f = g.has_fp ? g.fp : hash_bytes(s->rec, s->n * 8, 99);
      if (!f) f = 1;
      if (hs->count < HMAX) {
        size_t q = f % (HMAX * 2);
        while (hs->h[q] && hs->h[q] != f) q = (q + 1) % (HMAX * 2);
        if (!hs->h[q]) { hs->h[q] = f; hs->count++; }
      }
      if (sample && g.notes.size()) {
        snprintf(s->samp[sl], sizeof s->samp[sl], "%s", g.notes.c_str());
      }
    }
  }
  arm(0);
  if (__llvm_profile_write_file) __llvm_profile_write_file();
  _exit(0);
}

static void *shalloc(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}
static std::string slurp(const std::string &f, size_t max) {
  std::string s;
  FILE *fp = fopen(f.c_str(), "r");
  if (!fp) return s;
  s.resize(max);
  s.resize(fread(&s[0], 1, max, fp));
  fclose(fp);
  return s;
}
static std::string tmpdir;

// run a list of cases in a fresh process; true if the LAST outcome was a failure
struct RunResult { bool failed; std::string key, msg, notes; size_t at; Case used; };
static Shm *rs;
static RunResult run_cases(const Sub &sub, const Cases &cs, bool notes = false) {
  rs->failed = 0; rs->key[0] = rs->msg[0] = rs->notes[0] = 0;
  std::string ef = tmpdir + "/replay.err";
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    quiet_stdio(ef);
    for (size_t i = 0; i < cs.size(); i++) {
      ReplayG g;
      g.shm = rs;
      g.pre = cs[i].data();
      g.npre = cs[i].size();
      g.zero_tail = true;
      g.want_notes = notes;
      rs->case_no = i;
      if (run_one(sub, g) == FAILED) { arm(0); _exit(3); }
    }
    arm(0);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  RunResult r{false, "", "", "", 0, {}};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.notes = rs->notes; return r; }
  r.failed = true;
  r.at = rs->case_no;
  r.used.assign(rs->rec, rs->rec + rs->n);
  r.notes = rs->notes;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.key = rs->key; r.msg = rs->msg; return r; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { r.key = "hang"; r.msg = "did not finish within 10 s of CPU time"; return r; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.failed = false; return r; }  // killed from outside (memory guard)
  r.key = "crash";
  r.msg = fmt("crashed (%s %d):\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + slurp(ef, 3000);
  return r;
}

// what the checks print is plain ASCII whatever the code under test produced
static std::string ascii(const std::string &s) {
  std::string o;
  for (unsigned char c : s) o += (c < 32 && c != '\n' && c != '\t') || c > 126 ? fmt("\\x%02x", c) : std::string(1, (char)c);
  return o;
}
static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

static Cases shrink(const Sub &sub, Cases cs, double budget) {
  double end = now() + budget;
  auto bad = [&](const Cases &c, Cases &got) {
    RunResult r = run_cases(sub, c);
    if (!r.failed) return false;
    got.assign(c.begin(), c.begin() + std::min(c.size(), r.at + 1));
    if (!got.empty()) got.back() = r.used;
    return true;
  };
  Cases got;
  if (!bad(cs, got)) return cs;
  cs = got;
  // drop whole cases
  for (size_t k = cs.size() / 2; k >= 1; k /= 2)
    for (size_t i = 0; i + k <= cs.size() && cs.size() > 1 && now() < end;) {
      Cases t = cs;
      t.erase(t.begin() + i, t.begin() + i + k);
      if (bad(t, got)) cs = got; else i += k;
    }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t ci = 0; ci < cs.size(); ci++) {
      auto better = [&](const Case &a, const Case &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
      };
      auto attempt = [&](Case c) {
        Cases t = cs;
        t[ci] = c;
        if (!bad(t, got)) return false;
        if (got.size() <= ci || got.size() < cs.size()) { cs = got; return true; }
        if (better(got[ci], cs[ci])) { cs = got; return true; }
        return false;
      };
      // delete spans
      for (size_t k = std::min<size_t>(cs[ci].size(), 4096); k >= 1 && now() < end; k /= 2)
        for (size_t i = cs[ci].size(); i >= k && i > 0 && now() < end && ci < cs.size();) {
          if (i > cs[ci].size()) { i = cs[ci].size(); if (i < k) break; }
          Case c = cs[ci];
          c.erase(c.begin() + (i - k), c.begin() + i);
          if (attempt(c)) progress = true;
          if (ci >= cs.size()) break;
          i -= std::min(i, k);
        }
      if (ci >= cs.size()) break;
      // zero spans
      for (size_t k = std::min<size_t>(cs[ci].size(), 1024); k >= 1 && now() < end; k /= 4)
        for (size_t i = 0; ci < cs.size() && i + k <= cs[ci].size() && now() < end; i += k) {
          Case c = cs[ci];
          bool nz = false;
          for (size_t j = i; j < i + k; j++) { nz |= c[j] != 0; c[j] = 0; }
          if (nz && attempt(c)) progress = true;
        }
      // lower values
      for (size_t i = 0; ci < cs.size() && i < cs[ci].size() && now() < end; i++) {
        u64 hi = cs[ci][i], lo = 0;
        if (!hi) continue;
        while (hi - lo > 1 && now() < end && ci < cs.size() && i < cs[ci].size()) {
          u64 m = lo + (hi - lo) / 2;
          Case c = cs[ci];
          c[i] = m;
          if (attempt(c)) { hi = m; progress = true; } else lo = m;
          if (ci >= cs.size() || i >= cs[ci].size() || cs[ci][i] < hi) break;
        }
      }
    }
  }
  return cs;
}

static void save_cases(const std::string &file, const Sub &sub, const Cases &cs, const RunResult &r) {
  FILE *f = fopen(file.c_str(), "w");
  if (!f) { perror(file.c_str()); return; }
  fprintf(f, "property %s\nsub %s\n", sub.prop, sub.name);
  for (auto &c : cs) {
    fprintf(f, "case %zu", c.size());
    for (u64 v : c) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n");
  }
  fprintf(f, "# failed: %s\n", r.key.c_str());
  std::string m = ascii(r.msg + "\ncase: " + r.notes);
  std::string line;
  for (char ch : m + "\n")
    if (ch == '\n') { fprintf(f, "# %s\n", line.c_str()); line.clear(); } else line += ch;
  fclose(f);
}
}  // namespace pbt

using namespace pbt;
int main(int argc, char **argv) {
  std::string prop, tier = "quick", out, replaydir = ".", replay, knownf, only;
  u64 seed = 1;
  double maxsecs = 0, scale = 1;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--known") knownf = val();
    else if (a == "--max-secs") maxsecs = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--list") list = true;
  }
  if (list) {
    for (auto &s : subs()) printf("%s %s quick=%llu thorough=%llu\n", s.prop, s.name, (unsigned long long)s.quick, (unsigned long long)s.thorough);
    return 0;
  }
  char td[] = "/tmp/pbt.XXXXXX";
  tmpdir = mkdtemp(td);
  auto cleanup = [&]() {
    for (int w = 0; w < 16; w++) unlink((tmpdir + fmt("/w%d.err", w)).c_str());
    unlink((tmpdir + "/replay.err").c_str());
    rmdir(tmpdir.c_str());
  };
  if (!knownf.empty()) {
    std::string s = slurp(knownf, 1 << 20), line;
    for (char c : s + "\n")
      if (c == '\n') { if (!line.empty()) known_keys.insert(line); line.clear(); } else line += c;
  }
  rs = (Shm *)shalloc(sizeof(Shm));
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    char p[64], n[64];
    if (fscanf(f, "property %63s sub %63s", p, n) != 2) return 2;
    Cases cs;
    size_t k;
    while (fscanf(f, " case %zu", &k) == 1) {
      Case c(k);
      for (auto &v : c) { unsigned long long x = 0; if (fscanf(f, "%llu", &x) != 1) break; v = x; }
      cs.push_back(c);
    }
    fclose(f);
    for (auto &s : subs())
      if (!strcmp(s.prop, p) && !strcmp(s.name, n)) {
        known_keys.clear();
        RunResult r = run_cases(s, cs, true);
        printf("%s/%s: %s %s\n%s\n%s\n", p, n, r.failed ? "FAILS" : "passes", r.key.c_str(), ascii(r.msg).c_str(), ascii(r.notes).c_str());
        cleanup();
        return r.failed ? 1 : 0;
      }
    fprintf(stderr, "unknown sub %s/%s\n", p, n);
    cleanup();
    return 2;
  }
  const int NW = 8;
  bool thorough = tier == "thorough";
  std::vector<const Sub *> todo;
  double weight = 0;
  for (auto &s : subs())
    if (prop == s.prop && (only.empty() || only == s.name)) { todo.push_back(&s); weight++; }
  if (todo.empty()) { fprintf(stderr, "no such property %s\n", prop.c_str()); cleanup(); return 2; }
  double t0 = now();
  if (maxsecs <= 0) maxsecs = thorough ? 600 : 150;
  std::string js = "{\"subs\":[";
  bool violated = false;
  std::string vio_sub, vio_file, vio_msg;
  std::set<std::string> known_hit;
  u64 T_evals = 0, T_dist = 0;
  Shm *shm[NW];
  HashSet *hs[NW];
  for (int w = 0; w < NW; w++) {
    shm[w] = (Shm *)shalloc(sizeof(Shm));
    hs[w] = (HashSet *)shalloc(sizeof(HashSet));
  }
  size_t done = 0;
  for (const Sub *sp : todo) {
    const Sub &sub = *sp;
    u64 cases = (u64)((thorough ? sub.thorough : sub.quick) * scale);
    double left = t0 + maxsecs - now();
    double deadline = now() + std::max(1.0, left / (double)(todo.size() - done)) * (thorough ? 1.0 : 1.0);
    done++;
    pid_t pid[NW];
    for (int w = 0; w < NW; w++) {
      memset((void *)shm[w], 0, sizeof(Shm));
      madvise(hs[w], sizeof(HashSet), MADV_REMOVE);
      memset(hs[w], 0, 64);
    }
    double ts = now();
    fflush(nullptr);
    for (int w = 0; w < NW; w++) {
      pid[w] = fork();
      if (pid[w] == 0) {
        quiet_stdio(tmpdir + fmt("/w%d.err", w));
        worker(sub, w, NW, seed, cases, deadline, shm[w], hs[w]);
      }
    }
    int bad = -1, alive = NW, badst = 0;
    while (alive) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      int w = -1;
      for (int k = 0; k < NW; k++) if (pid[k] == p) w = k;
      if (w < 0) continue;
      alive--;
      pid[w] = -1;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
        bad = w;
        badst = st;
        for (int k = 0; k < NW; k++) if (pid[k] > 0) kill(pid[k], SIGKILL);
      }
    }
    u64 ev = 0, disc = 0, kn = 0, nt = 0, corp = 0;
    std::map<std::string, u64> labs;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    for (int w = 0; w < NW; w++) {
      ev += shm[w]->evals; disc += shm[w]->discards; kn += shm[w]->known; nt += shm[w]->nontriv; corp += shm[w]->corpus;
      for (auto &l : shm[w]->lab) if (l.name[0]) labs[l.name] += l.count;
      if (hs[w]->count)
        for (size_t q = 0; q < HMAX * 2; q++) if (hs[w]->h[q]) distinct.insert(hs[w]->h[q]);
      if (shm[w]->known) known_hit.insert(shm[w]->knownmsg);
      for (int k = 0; k < NSAMP; k++) if (shm[w]->samp[k][0] && samples.size() < 3 && (k + w) % 3 == 0) samples.push_back(shm[w]->samp[k]);
    }
    T_evals += ev; T_dist += distinct.size();
    if (js.back() == '}') js += ",";
    js += fmt("{\"name\":\"%s\",\"planned\":%llu,\"evaluations\":%llu,\"discarded\":%llu,\"known\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"corpus\":%llu,\"secs\":%.2f,\"rule\":", sub.name, (unsigned long long)cases,
              (unsigned long long)ev, (unsigned long long)disc, (unsigned long long)kn, (unsigned long long)nt, distinct.size(), (unsigned long long)corp, now() - ts);
    js += json_str(sub.rule) + ",\"labels\":{";
    bool first = true;
    for (auto &l : labs) { js += (first ? "" : ",") + json_str(l.first) + fmt(":%llu", (unsigned long long)l.second); first = false; }
    js += "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); k++) js += (k ? "," : "") + json_str(samples[k]);
    js += "]}";
    fprintf(stderr, "  %s/%s: %llu cases, %llu non-trivial, %zu distinct, %llu discarded, corpus %llu, %.1fs", sub.prop, sub.name, (unsigned long long)ev, (unsigned long long)nt, distinct.size(), (unsigned long long)disc, (unsigned long long)corp, now() - ts);
    for (auto &l : labs) fprintf(stderr, " %s=%llu", l.first.c_str(), (unsigned long long)l.second);
    fprintf(stderr, "\n");
    if (bad >= 0) {
      Cases cs{Case(shm[bad]->rec, shm[bad]->rec + shm[bad]->n)};
      RunResult r = run_cases(sub, cs);
      if (!r.failed) {
        // may need the cases that ran before it in the same process
        for (size_t k = 1; k <= 4096 && !r.failed; k *= 4) {
          Cases h = ring_read(shm[bad], k);
          h.push_back(cs[0]);
          r = run_cases(sub, h);
          if (r.failed) { cs = h; break; }
          if (h.size() < k) break;
        }
      }
      if (!r.failed) {
        fprintf(stderr, "  NOTE %s/%s: a failure did not reproduce and is not reported (status %x): %s %s\n%s\n", sub.prop, sub.name, badst, shm[bad]->key, ascii(shm[bad]->msg).c_str(), slurp(tmpdir + fmt("/w%d.err", bad), 2000).c_str());
      } else {
        cs = shrink(sub, cs, thorough ? 60 : 20);
        int again = 0;
        for (int k = 0; k < 3; k++) { r = run_cases(sub, cs, true); again += r.failed; }
        if (again == 3) {
          violated = true;
          mkdir(replaydir.c_str(), 0755);
          vio_file = replaydir + "/" + sub.prop + "-" + sub.name + ".case";
          save_cases(vio_file, sub, cs, r);
          vio_sub = sub.name;
          vio_msg = r.key + ": " + r.msg + "\n   case: " + r.notes;
          break;
        }
        fprintf(stderr, "  NOTE %s/%s: failure reproduced only %d/3 times\n", sub.prop, sub.name, again);
      }
    }
  }
  js += fmt("],\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"secs\":%.2f,\"violations\":%d,\"known\":[", (unsigned long long)T_evals, (unsigned long long)T_dist, now() - t0, violated ? 1 : 0);
  bool first = true;
  for (auto &k : known_hit) { js += (first ? "" : ",") + json_str(k); first = false; }
  js += "],\"message\":" + json_str(vio_msg) + ",\"sub\":" + json_str(vio_sub) + ",\"replay\":" + json_str(vio_file) + "}";
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (f) { fputs(js.c_str(), f); fclose(f); }
  }
  if (violated) fprintf(stderr, "FAILED %s/%s\n%s\n", prop.c_str(), vio_sub.c_str(), ascii(vio_msg).c_str());
  cleanup();
  return violated ? 1 : 0;
}
