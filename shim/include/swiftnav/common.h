/* Stand-in for the subset of libswiftnav used by gnss-converters (the real
 * library is an empty submodule in this sandbox).  Written from the public
 * interface control documents and from the call sites in /repo. */
#ifndef SHIM_SWIFTNAV_COMMON_H
#define SHIM_SWIFTNAV_COMMON_H
#include <assert.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <swiftnav/macros.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#ifndef MIN
#define MIN(x, y) (((x) < (y)) ? (x) : (y))
#endif
#ifndef MAX
#define MAX(x, y) (((x) > (y)) ? (x) : (y))
#endif
#ifndef ABS
#define ABS(x) ((x) < 0 ? -(x) : (x))
#endif
#ifndef FLOAT_EQUALITY_EPS
#define FLOAT_EQUALITY_EPS (1e-12)
#endif
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#endif
#ifdef __cplusplus
}
#endif
#endif
