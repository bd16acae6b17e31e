#ifndef SHIM_SWIFTNAV_SWIFT_STRNLEN_H
#define SHIM_SWIFTNAV_SWIFT_STRNLEN_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t swift_strnlen(const char *s, size_t n);
#ifdef __cplusplus
}
#endif
#endif
