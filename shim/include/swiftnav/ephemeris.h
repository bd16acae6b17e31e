#ifndef SHIM_SWIFTNAV_EPHEMERIS_H
#define SHIM_SWIFTNAV_EPHEMERIS_H
#include <swiftnav/common.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/constants.h>
#include <swiftnav/logging.h>
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
#define EPH_SOURCE_GAL_INAV 0
#define EPH_SOURCE_GAL_FNAV 1
#define GAL_INAV_CONTENT_BYTE ((128 + 8 - 1) / 8)
#define GPS_LNAV_FIT_INTERVAL_SEC (4 * 60 * 60)
#define INVALID_GPS_URA_VALUE -1.0f
#define INVALID_URA_VALUE -1.0f
#define MAX_ALLOWED_GPS_URA_IDX 15
typedef struct {
  union { double gps_s[2]; double qzss_s[2]; double bds_s[2]; double gal_s[2]; } tgd;
  double crc, crs, cuc, cus, cic, cis;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1, af2;
  gps_time_t toc;
  u16 iodc;
  u16 iode;
} ephemeris_kepler_t;
typedef struct {
  double pos[3];
  double rate[2];
  double acc[2];
  double a_gf0, a_gf1;
} ephemeris_xyz_t;
typedef struct {
  double gamma, tau, d_tau;
  double pos[3], vel[3], acc[3];
  u16 fcn;
  u8 iod;
} ephemeris_glo_t;
typedef struct {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
  u8 source;
  struct { ephemeris_kepler_t kepler; ephemeris_xyz_t xyz; ephemeris_glo_t glo; } data;
} ephemeris_t;
extern const float g_bds_ura_table[16];
void decode_ephemeris(const u32 frame_words[3][8], ephemeris_t *e, double tot_tow);
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
#define GLO_MAX_STRING_NUM 5
typedef struct { u32 word[GLO_NAV_STR_WORDS]; } glo_string_t;
#define BDS_FIT_INTERVAL_SECONDS (3 * 60 * 60)
#define GAL_FIT_INTERVAL_SECONDS (4 * 60 * 60)
void decode_glo_ephemeris(const glo_string_t strings[5], gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e);
#ifdef __cplusplus
}
#endif
#endif
