// Helpers shared by the converter harnesses: chunked input, recorded SBP output.
#pragma once
#include "common.h"
#include "turns.h"
extern "C" {
#include <libsbp/sbp.h>
#include <libsbp/v4/sbp_msg.h>
}
#include <string>
#include <vector>

namespace conv {
using namespace pbt;
using namespace ref;

struct Out {
  u16 sender;
  int type;
  sbp_msg_t msg;
};
inline std::string dump(const Out &o) {
  static char buf[65536];
  shim_sbp_dump(buf, sizeof buf, o.type, &o.msg);
  return fmt("sender=%u type=%u %s", o.sender, o.type, buf);
}
// every message handed out must be well formed: counts fit, it serialises to at most 255
// bytes, and it reads back as the same message
inline void check_wellformed(const Out &o) {
  u8 b[256 + 64], n = 0;
  memset(b, 0xC3, sizeof b);
  s8 rc = sbp_message_encode(b, 255, &n, (sbp_msg_type_t)o.type, &o.msg);
  if (rc != SBP_OK) PBT_FAIL("unserialisable", "message cannot be serialised (rc %d): %s", rc, dump(o).substr(0, 600).c_str());
  for (size_t i = 255; i < sizeof b; i++) PBT_CHECK(b[i] == 0xC3, "serialiser overran");
  Out p = o;
  u8 nr = 0;
  memset(&p.msg, 0, sizeof p.msg);
  rc = sbp_message_decode(b, n, &nr, (sbp_msg_type_t)o.type, &p.msg);
  if (rc != SBP_OK) PBT_FAIL("unreadable", "serialised message does not read back (rc %d): %s", rc, dump(o).substr(0, 600).c_str());
  u8 b2[256], n2 = 0;
  rc = sbp_message_encode(b2, 255, &n2, (sbp_msg_type_t)o.type, &p.msg);
  if (rc != SBP_OK || n2 != n || memcmp(b, b2, n)) PBT_FAIL("unstable", "message does not survive serialisation: %s", dump(o).substr(0, 600).c_str());
}

// input bytes and the way they are handed out
struct Chunks {
  std::vector<u8> sizes;  // cycled; 0 = everything asked for
  size_t i = 0;
};
// for two instances that have something to do with each other: one stream cut in two (at a sync byte, mostly),
// the first part for the one and the second for the other
inline void share(G &g, Bytes &first, Bytes &second, u8 sync) {
  std::vector<size_t> at;
  for (size_t i = 1; i < second.size(); i++) if (second[i] == sync) at.push_back(i);
  if (at.empty()) return;
  size_t k = g.pick(at);
  first.assign(second.begin(), second.begin() + (long)k);
  second.erase(second.begin(), second.begin() + (long)k);
}
inline std::vector<u8> gen_chunks(G &g) {
  std::vector<u8> v;
  switch (g.below(5)) {
    case 0: return v;
    case 1: return {1};
    case 2: v.push_back((u8)g.range(1, 40)); return v;
    default: {
      size_t n = (size_t)g.range(1, 8);
      for (size_t k = 0; k < n; k++) v.push_back((u8)(g.chance(20) ? 0 : g.range(1, g.coin() ? 6 : 80)));
      return v;
    }
  }
}
struct Source {
  Bytes data;
  std::vector<u8> chunks;
  size_t pos = 0, ci = 0, calls = 0;
  bool eof = false;
  std::vector<Out> out;
  int rd(u8 *buf, size_t len) {
    sched::step();  // another thread may run while this one waits for input
    calls++;
    if (calls > 64 + 6 * data.size() + 4096) PBT_FAIL("spin", "the converter keeps reading without consuming (%zu calls, %zu of %zu bytes)", calls, pos, data.size());
    size_t n = std::min(len, data.size() - pos);
    if (!chunks.empty()) {
      u8 c = chunks[ci++ % chunks.size()];
      if (c && c < n) n = c;
    }
    if (len > (1u << 20)) PBT_FAIL("hugeread", "reader asked for %zu bytes", len);
    // the whole requested range must be writable
    memcpy(buf, data.data() + pos, n);
    pos += n;
    if (!n) eof = true;
    return (int)n;
  }
  std::string render() const {
    std::string s;
    for (auto &o : out) { s += dump(o); s += '\n'; }
    return s;
  }
};
inline std::string first_diff(const std::string &a, const std::string &b) {
  size_t i = 0, ls = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') ls = i + 1; i++; }
  auto line = [&](const std::string &s) { size_t e = s.find('\n', ls); return ls >= s.size() ? std::string("<end>") : s.substr(ls, std::min<size_t>(e - ls, 700)); };
  return "\n  got:      " + line(a) + "\n  expected: " + line(b);
}
inline bool has(const Bytes &b, u8 c) { return std::find(b.begin(), b.end(), c) != b.end(); }
}  // namespace conv
