#ifndef SHIM_SWIFTNAV_SID_SET_H
#define SHIM_SWIFTNAV_SID_SET_H
#include <string.h>
#include <swiftnav/common.h>
#include <swiftnav/signal.h>
typedef struct { u8 bits[256 * 256 / 8]; } gnss_sid_set_t;
static inline void sid_set_init(gnss_sid_set_t *s) { memset(s, 0, sizeof *s); }
static inline bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid) {
  u32 k = (u32)((u8)sid.code) * 256u + (u8)sid.sat;
  return (s->bits[k / 8] >> (k % 8)) & 1;
}
static inline void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid) {
  u32 k = (u32)((u8)sid.code) * 256u + (u8)sid.sat;
  s->bits[k / 8] = (u8)(s->bits[k / 8] | (1u << (k % 8)));
}
#endif
