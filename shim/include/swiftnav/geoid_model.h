#ifndef SHIM_SWIFTNAV_GEOID_MODEL_H
#define SHIM_SWIFTNAV_GEOID_MODEL_H
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#ifdef __cplusplus
extern "C" {
#endif
/* A smooth analytic stand-in for the EGM table of libswiftnav. */
float get_geoid_offset(double lat_rad, double lon_rad);
#ifdef __cplusplus
}
#endif
#endif
