#ifndef SHIM_SWIFTNAV_MEMCPY_S_H
#define SHIM_SWIFTNAV_MEMCPY_S_H
#include <assert.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
s32 memcpy_s(void *dest, size_t n_dest, const void *src, size_t n_src);
#define MEMCPY_S(dst, dst_sz, src, src_sz)        \
  do {                                            \
    if (memcpy_s(dst, dst_sz, src, src_sz) != 0) { \
      assert(!"memcpy_s failed");                 \
    }                                             \
  } while (0)
#ifdef __cplusplus
}
#endif
#endif
