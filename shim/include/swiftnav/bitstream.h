#ifndef SHIM_SWIFTNAV_BITSTREAM_H
#define SHIM_SWIFTNAV_BITSTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const u8 *data;
  u32 len;    /* bits */
  u32 offset; /* bits */
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *bs, const u8 *buf, u32 len_bits);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *bs);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *bs, u32 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *bs, s32 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *bs, u64 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *bs, s64 *out, u32 pos, u8 len);
void swiftnav_bitstream_remove(swiftnav_bitstream_t *bs, u32 len);
#ifdef __cplusplus
}
#endif
#endif
