#ifndef SHIM_SWIFTNAV_FLOAT_EQUALITY_H
#define SHIM_SWIFTNAV_FLOAT_EQUALITY_H
#include <float.h>
#include <math.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
static inline bool float_equal(float a, float b) { return fabsf(a - b) < (float)FLOAT_EQUALITY_EPS; }
static inline bool double_equal(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
static inline bool double_within(double a, double b, double e) { return fabs(a - b) < e; }
static inline bool double_approx_eq(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
#ifdef __cplusplus
}
#endif
#endif
