// Bit writer, checksums and other independent reference helpers.
#pragma once
#include "pbt.h"
#include <map>
#include <string>
#include <vector>

namespace ref {
using namespace pbt;
typedef std::vector<u8> Bytes;

struct BitW {  // MSB-first bit writer
  Bytes b;
  size_t n = 0;
  void put(u64 v, unsigned w) {
    for (unsigned i = 0; i < w; i++) {
      if (n % 8 == 0) b.push_back(0);
      if ((v >> (w - 1 - i)) & 1) b[n / 8] |= (u8)(0x80 >> (n % 8));
      n++;
    }
  }
  void puts(s64 v, unsigned w) { put((u64)v, w); }
  void putsm(s64 v, unsigned w) {  // sign-magnitude
    put(v < 0 ? 1 : 0, 1);
    put((u64)(v < 0 ? -v : v), w - 1);
  }
};
inline u64 getu(const Bytes &b, size_t pos, unsigned w) {
  u64 v = 0;
  for (unsigned i = 0; i < w; i++, pos++) v = v << 1 | (pos / 8 < b.size() ? (b[pos / 8] >> (7 - pos % 8)) & 1 : 0);
  return v;
}
inline s64 sext(u64 v, unsigned w) {
  if (w >= 64) return (s64)v;
  u64 m = 1ull << (w - 1);
  v &= (1ull << w) - 1;
  return (s64)(v ^ m) - (s64)m;
}
inline s64 smag(u64 v, unsigned w) {
  s64 mag = (s64)(v & ((1ull << (w - 1)) - 1));
  return (v >> (w - 1)) & 1 ? -mag : mag;
}
inline u32 crc24q(const u8 *p, size_t n) {
  u32 c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= (u32)p[i] << 16;
    for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x1000000) c ^= 0x1864CFB; }
  }
  return c & 0xFFFFFF;
}
inline Bytes rtcm_frame(const Bytes &payload) {
  Bytes f = {0xD3, (u8)(payload.size() >> 8), (u8)payload.size()};
  f.insert(f.end(), payload.begin(), payload.end());
  u32 c = crc24q(f.data(), f.size());
  f.push_back(c >> 16); f.push_back(c >> 8); f.push_back(c);
  return f;
}
inline u32 novatel_crc(const u8 *p, size_t n) {
  u32 c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= p[i];
    for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1;
  }
  return c;
}
inline u16 crc16_ccitt(const u8 *p, size_t n, u16 c) {
  for (size_t i = 0; i < n; i++) {
    c ^= (u16)(p[i] << 8);
    for (int k = 0; k < 8; k++) c = c & 0x8000 ? (u16)(c << 1 ^ 0x1021) : (u16)(c << 1);
  }
  return c;
}
template <class T> inline void le(Bytes &b, T v) {
  u8 t[sizeof(T)];
  memcpy(t, &v, sizeof(T));  // host is little endian
  b.insert(b.end(), t, t + sizeof(T));
}
inline void append(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline bool near(double a, double b, double tol) { return fabs(a - b) <= tol; }
}  // namespace ref
