#ifndef SHIM_SWIFTNAV_CONSTANTS_H
#define SHIM_SWIFTNAV_CONSTANTS_H
#include <math.h>
#include <swiftnav/signal.h>
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_PI 3.1415926535898
#define GPS_C 299792458.0
#define GPS_L1_LAMBDA (GPS_C / GPS_L1_HZ)
#define STD_GRAVITY_ACCELERATION 9.80665
#define C_1_2P4 0.0625
#define C_1_2P5 0.03125
#define C_1_2P6 0.015625
#define C_1_2P8 0.00390625
#define C_1_2P10 0.0009765625
#define C_1_2P11 0.00048828125
#define C_1_2P19 1.9073486328125e-06
#define C_1_2P20 9.5367431640625e-07
#define C_1_2P24 5.960464477539063e-08
#define C_1_2P29 1.862645149230957e-09
#define C_1_2P30 9.313225746154785e-10
#define C_1_2P31 4.656612873077393e-10
#define C_1_2P32 2.3283064365386963e-10
#define C_1_2P33 1.1641532182693481e-10
#define C_1_2P34 5.820766091346741e-11
#define C_1_2P40 9.094947017729282e-13
#define C_1_2P43 1.1368683772161603e-13
#define C_1_2P46 1.4210854715202004e-14
#define C_1_2P50 8.881784197001252e-16
#define C_1_2P55 2.7755575615628914e-17
#define C_1_2P59 1.734723475976807e-18
#define C_1_2P66 1.3552527156068805e-20
#endif
