#ifndef SHIM_SWIFTNAV_PVT_RESULT_H
#define SHIM_SWIFTNAV_PVT_RESULT_H
#include <swiftnav/common.h>
#define POSITION_MODE_NONE 0
#define POSITION_MODE_SPP 1
#define POSITION_MODE_DGNSS 2
#define POSITION_MODE_FLOAT 3
#define POSITION_MODE_FIXED 4
#define POSITION_MODE_DEAD_RECKONING 5
#define POSITION_MODE_SBAS 6
#define VELOCITY_MODE_MASK 0x7
#define VELOCITY_MODE_NONE 0
#define VELOCITY_MODE_MEASURED 1
#define VELOCITY_MODE_COMPUTED 2
#define VELOCITY_MODE_DEAD_RECKONING 3
#endif
