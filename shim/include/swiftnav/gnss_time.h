#ifndef SHIM_SWIFTNAV_GNSS_TIME_H
#define SHIM_SWIFTNAV_GNSS_TIME_H
#include <swiftnav/common.h>
#include <math.h>
#include <swiftnav/logging.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MINUTE_SECS (60)
#define HOUR_MINUTES (60)
#define HOUR_SECS (MINUTE_SECS * HOUR_MINUTES)
#define DAY_HOURS (24)
#define DAY_SECS (DAY_HOURS * HOUR_MINUTES * MINUTE_SECS)
#define WEEK_DAYS (7)
#define WEEK_SECS (WEEK_DAYS * DAY_SECS)
#define YEAR_DAYS (365)
#define YEAR_MONTHS (12)
#define LEAP_YEAR_DAYS (366)
#define SECS_MS (1000)
#define SECS_US (1000000)
#define SECS_NS (1000000000)
#define MS_TO_US 1000
#define DAY_MS (DAY_SECS * SECS_MS)
#define WEEK_MS (WEEK_SECS * SECS_MS)
#define GPS_EPOCH (315964800)
#define UTC_SU_OFFSET (3)
#define BDS_WEEK_TO_GPS_WEEK (1356)
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK_ (1024)
#define GPS_WEEK_CYCLE (1024)
#define GPS_WEEK_REFERENCE (1876)
#define GPS_MAX_WEEK (32767)
#define WN_UNKNOWN (-1)
#define TOW_UNKNOWN (-1)
#define GPS_MINUS_UTC_SECS (18)
#define GPS_TIME_JIFFY (1e-9)

typedef struct {
  double tow;
  s16 wn;
} gps_time_t;
#ifdef __cplusplus
#define GPS_TIME_UNKNOWN (gps_time_t{(double)TOW_UNKNOWN, (s16)WN_UNKNOWN})
#else
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
#endif

typedef struct {
  double a0, a1;
  gps_time_t tot;
  gps_time_t t_lse;
  s8 dt_ls;
  s8 dt_lsf;
} utc_params_t;

typedef struct {
  u16 year;
  u16 year_day;
  u8 month;
  u8 month_day;
  u8 week_day;
  u8 hour;
  u8 minute;
  u8 second_int;
  double second_frac;
} utc_tm;

bool gps_time_valid(const gps_time_t *t);
bool gps_current_time_valid(const gps_time_t *t);
void normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
void unsafe_normalize_gps_time(gps_time_t *t);
void add_secs(gps_time_t *t, double secs);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p);
double get_utc_gps_offset(const gps_time_t *t, const utc_params_t *p);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p);
gps_time_t time2gps_t(time_t t);
time_t gps2time(const gps_time_t *t);
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min, s32 sec);
void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p);
bool is_leap_year(s32 year);
u8 days_in_month(u16 year, u8 month);
#ifdef __cplusplus
}
#endif
#endif
