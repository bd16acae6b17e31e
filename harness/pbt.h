// Small choice-sequence property-testing engine (header only).
//
// A property is a function of a choice source G.  Every random decision is
// drawn through G and recorded, so a failing case IS its list of choices: it
// can be replayed, mutated (coverage guided) and shrunk without any knowledge
// of what the property generates.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>

namespace pbt {
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;

struct Fail {
  std::string key, msg;
};
struct Discard {};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *p, size_t n);
[[noreturn]] void fail(const char *key, const std::string &msg);
#define PBT_FAIL(key, ...) ::pbt::fail(key, ::pbt::fmt(__VA_ARGS__))
#define PBT_CHECK(c, ...)                                                     \
  do {                                                                        \
    if (!(c)) ::pbt::fail(#c, ::pbt::fmt("%s:%d: (%s) ", __FILE_NAME__, __LINE__, #c) + ::pbt::fmt(__VA_ARGS__)); \
  } while (0)

u64 hash_bytes(const void *p, size_t n, u64 h);

class G {
 public:
  virtual ~G() {}
  // a choice in [0,n); n==0 means any 64-bit value
  virtual u64 draw(u64 n) = 0;

  u64 below(u64 n) { return draw(n ? n : 1); }
  s64 range(s64 lo, s64 hi) { return lo + (s64)draw((u64)(hi - lo) + 1); }
  bool chance(u32 pct) { return draw(100) >= 100 - pct; }  // 0 => false
  bool coin() { return draw(2) == 1; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  // w-bit raw field, biased to the edges of unsigned and signed readings
  u64 bits(unsigned w) {
    u64 mask = w >= 64 ? ~0ull : ((1ull << w) - 1);
    switch (draw(8)) {
      default: return draw(w >= 64 ? 0 : 1ull << w) & mask;
      case 4: return draw(4) & mask;
      case 5: return (mask - draw(4)) & mask;
      case 6: return ((1ull << (w - 1)) + draw(4) - 2) & mask;
      case 7: return (1ull << draw(w)) & mask;
    }
  }
  // edge-biased signed/unsigned value in [lo,hi]
  s64 ival(s64 lo, s64 hi) {
    switch (draw(8)) {
      default: return range(lo, hi);
      case 5: return std::min(hi, lo + (s64)draw(3));
      case 6: return std::max(lo, hi - (s64)draw(3));
      case 7: {
        s64 z = lo <= 0 && hi >= 0 ? 0 : lo;
        s64 v = z + (s64)draw(5) - 2;
        return std::min(hi, std::max(lo, v));
      }
    }
  }
  double real(double lo, double hi) { return lo + (hi - lo) * ((double)draw(1ull << 40) / (double)((1ull << 40) - 1)); }
  std::vector<u8> bytes(size_t n) {
    std::vector<u8> v(n);
    size_t i = 0;
    for (; i + 4 <= n; i += 4) { u32 x = (u32)draw(1ull << 32); memcpy(&v[i], &x, 4); }
    for (; i < n; i++) v[i] = (u8)draw(256);
    return v;
  }
  // bookkeeping ------------------------------------------------------------
  void label(const char *l) { labels.push_back(l); }
  void nontrivial() { nontriv = true; }
  void nontrivial_if(bool b) { nontriv |= b; }
  void fingerprint(const void *p, size_t n) { fp = hash_bytes(p, n, fp); has_fp = true; }
  void note(const std::string &s) {
    if (want_notes && notes.size() < 6000) { notes += s; notes += "; "; }
  }
  std::vector<const char *> labels;
  bool nontriv = false, has_fp = false, want_notes = false;
  u64 fp = 1469598103934665603ull;
  std::string notes;
};

typedef void (*PropFn)(G &);
struct Sub {
  const char *prop, *name;
  u64 quick, thorough;  // case counts
  PropFn fn;
  const char *rule;
};
void add(const Sub &s);
struct Reg { Reg(const Sub &s) { add(s); } };
#define PBT_PROP(ID, NAME, QUICK, THOROUGH, RULE)                              \
  static void prop_##ID##_##NAME(::pbt::G &g);                                 \
  static ::pbt::Reg reg_##ID##_##NAME({#ID, #NAME, QUICK, THOROUGH, prop_##ID##_##NAME, RULE}); \
  static void prop_##ID##_##NAME(::pbt::G &g)
}  // namespace pbt
