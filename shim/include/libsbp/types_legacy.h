/* generated by gen_sbp.py */
#ifndef SHIM_SBP_LEGACY_H
#define SHIM_SBP_LEGACY_H
#include <stdint.h>
#include <libsbp/sbp_msg_type.h>
#pragma pack(push, 1)
typedef struct {
  uint8_t sat;
  uint8_t code;
} sbp_gnss_signal_t;
typedef struct {
  uint32_t tow;
  uint16_t wn;
} gps_time_sec_t;
typedef struct {
  uint32_t tow;
  int32_t ns_residual;
  uint16_t wn;
} sbp_gps_time_t;
typedef struct {
  int32_t i;
  uint8_t f;
} carrier_phase_t;
typedef struct {
  int16_t i;
  uint8_t f;
} doppler_t;
typedef struct {
  sbp_gps_time_t t;
  uint8_t n_obs;
} observation_header_t;
typedef struct {
  uint32_t P;
  carrier_phase_t L;
  doppler_t D;
  uint8_t cn0;
  uint8_t lock;
  uint8_t flags;
  sbp_gnss_signal_t sid;
} packed_obs_content_t;
typedef struct {
  sbp_gnss_signal_t sid;
  gps_time_sec_t toe;
  float ura;
  uint32_t fit_interval;
  uint8_t valid;
  uint8_t health_bits;
} ephemeris_common_content_t;
typedef struct {
  uint8_t code;
  int16_t value;
} code_biases_content_t;
typedef struct {
  uint8_t code;
  uint8_t integer_indicator;
  uint8_t widelane_integer_indicator;
  uint8_t discontinuity_counter;
  int32_t bias;
} phase_biases_content_t;
typedef struct {
  sbp_gnss_signal_t mesid;
  uint8_t cn0;
} measurement_state_t;
typedef struct {
  sbp_gnss_signal_t sid;
  uint8_t az;
  int8_t el;
} sv_az_el_t;
typedef struct {
  uint8_t sensor_type;
  uint8_t flags;
} solution_input_type_t;
typedef struct {
  observation_header_t header;
  packed_obs_content_t obs[0];
} msg_obs_t;
typedef struct {
  double x;
  double y;
  double z;
} msg_base_pos_ecef_t;
typedef struct {
  ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} msg_ephemeris_gps_t;
typedef struct {
  ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} msg_ephemeris_qzss_t;
typedef struct {
  ephemeris_common_content_t common;
  float tgd1;
  float tgd2;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} msg_ephemeris_bds_t;
typedef struct {
  ephemeris_common_content_t common;
  float bgd_e1e5a;
  float bgd_e1e5b;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  double af1;
  float af2;
  gps_time_sec_t toc;
  uint16_t iode;
  uint16_t iodc;
  uint8_t source;
} msg_ephemeris_gal_t;
typedef struct {
  ephemeris_common_content_t common;
  float gamma;
  float tau;
  float d_tau;
  double pos[3];
  double vel[3];
  float acc[3];
  uint8_t fcn;
  uint8_t iod;
} msg_ephemeris_glo_t;
typedef struct {
  uint8_t mask;
  int16_t l1ca_bias;
  int16_t l1p_bias;
  int16_t l2ca_bias;
  int16_t l2p_bias;
} msg_glo_biases_t;
typedef struct {
  sv_az_el_t azel[0];
} msg_sv_az_el_t;
typedef struct {
  measurement_state_t states[0];
} msg_measurement_state_t;
typedef struct {
  uint8_t level;
  char text[0];
} msg_log_t;
typedef struct {
  uint8_t source;
  uint8_t protocol;
  uint8_t fwd_payload[0];
} msg_fwd_t;
typedef struct {
  uint16_t wn;
  uint32_t tow;
  int32_t ns_residual;
  uint8_t flags;
} msg_gps_time_t;
typedef struct {
  uint16_t wn;
  uint32_t tow;
  int32_t ns_residual;
  uint8_t flags;
} msg_gps_time_gnss_t;
typedef struct {
  uint8_t flags;
  uint32_t tow;
  uint16_t year;
  uint8_t month;
  uint8_t day;
  uint8_t hours;
  uint8_t minutes;
  uint8_t seconds;
  uint32_t ns;
} msg_utc_time_t;
typedef struct {
  uint8_t flags;
  uint32_t tow;
  uint16_t year;
  uint8_t month;
  uint8_t day;
  uint8_t hours;
  uint8_t minutes;
  uint8_t seconds;
  uint32_t ns;
} msg_utc_time_gnss_t;
typedef struct {
  uint32_t tow;
  uint16_t gdop;
  uint16_t pdop;
  uint16_t tdop;
  uint16_t hdop;
  uint16_t vdop;
  uint8_t flags;
} msg_dops_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} msg_pos_llh_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} msg_pos_llh_gnss_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  uint8_t n_sats;
  uint8_t flags;
} msg_pos_llh_cov_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  uint8_t n_sats;
  uint8_t flags;
} msg_pos_llh_cov_gnss_t;
typedef struct {
  uint32_t tow;
  int32_t n;
  int32_t e;
  int32_t d;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} msg_vel_ned_t;
typedef struct {
  uint32_t tow;
  int32_t n;
  int32_t e;
  int32_t d;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} msg_vel_ned_gnss_t;
typedef struct {
  uint32_t tow;
  int32_t x;
  int32_t y;
  int32_t z;
  uint16_t accuracy;
  uint8_t n_sats;
  uint8_t flags;
} msg_vel_ecef_t;
typedef struct {
  uint32_t tow;
  uint32_t heading;
  uint8_t n_sats;
  uint8_t flags;
} msg_baseline_heading_t;
typedef struct {
  uint32_t tow;
  uint16_t age;
} msg_age_corrections_t;
typedef struct {
  uint32_t tow;
  int32_t roll;
  int32_t pitch;
  int32_t yaw;
  float roll_accuracy;
  float pitch_accuracy;
  float yaw_accuracy;
  uint8_t flags;
} msg_orient_euler_t;
typedef struct {
  uint32_t tow;
  int32_t x;
  int32_t y;
  int32_t z;
  uint8_t flags;
} msg_angular_rate_t;
typedef struct {
  uint32_t tow;
  uint8_t tow_f;
  int16_t acc_x;
  int16_t acc_y;
  int16_t acc_z;
  int16_t gyr_x;
  int16_t gyr_y;
  int16_t gyr_z;
} msg_imu_raw_t;
typedef struct {
  uint8_t imu_type;
  int16_t temp;
  uint8_t imu_conf;
} msg_imu_aux_t;
typedef struct {
  uint32_t tow;
  int32_t velocity;
  uint8_t flags;
} msg_odometry_t;
typedef struct {
  uint64_t time;
  uint8_t flags;
  uint8_t source;
  int32_t ticks;
} msg_wheeltick_t;
typedef struct {
  sbp_gnss_signal_t sid;
  uint32_t tow;
  uint8_t message_type;
  uint8_t data[27];
} msg_sbas_raw_t;
typedef struct {
  uint32_t tow;
  uint16_t pdop;
  uint16_t hdop;
  uint16_t vdop;
  uint16_t age_corrections;
  uint32_t age_gnss;
  solution_input_type_t sol_in[0];
} msg_soln_meta_t;
typedef struct {
  uint8_t group_id;
  uint8_t flags;
  uint8_t n_group_msgs;
  uint16_t group_msgs[0];
} msg_group_meta_t;
typedef struct {
  int16_t weeks;
  int32_t milliseconds;
  int16_t microseconds;
  uint8_t flags;
} msg_gnss_time_offset_t;
typedef struct {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  uint32_t iod;
  int32_t radial;
  int32_t along;
  int32_t cross;
  int32_t dot_radial;
  int32_t dot_along;
  int32_t dot_cross;
  int32_t c0;
  int32_t c1;
  int32_t c2;
} msg_ssr_orbit_clock_t;
typedef struct {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  code_biases_content_t biases[0];
} msg_ssr_code_biases_t;
typedef struct {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  uint8_t dispersive_bias;
  uint8_t mw_consistency;
  uint16_t yaw;
  int8_t yaw_rate;
  phase_biases_content_t biases[0];
} msg_ssr_phase_biases_t;
#pragma pack(pop)
#endif
