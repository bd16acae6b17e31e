/* generated by gen_sbp.py */
#ifndef SHIM_SBP_V4_H
#define SHIM_SBP_V4_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { size_t encoded_len; char data[256]; } sbp_string_t;
typedef struct {
  uint8_t sat;
  uint8_t code;
} sbp_v4_gnss_signal_t;
typedef struct {
  uint32_t tow;
  uint16_t wn;
} sbp_gps_time_sec_t;
typedef struct {
  uint32_t tow;
  int32_t ns_residual;
  uint16_t wn;
} sbp_v4_gps_time_t;
typedef struct {
  int32_t i;
  uint8_t f;
} sbp_carrier_phase_t;
typedef struct {
  int16_t i;
  uint8_t f;
} sbp_doppler_t;
typedef struct {
  sbp_v4_gps_time_t t;
  uint8_t n_obs;
} sbp_observation_header_t;
typedef struct {
  uint32_t P;
  sbp_carrier_phase_t L;
  sbp_doppler_t D;
  uint8_t cn0;
  uint8_t lock;
  uint8_t flags;
  sbp_v4_gnss_signal_t sid;
} sbp_packed_obs_content_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  sbp_gps_time_sec_t toe;
  float ura;
  uint32_t fit_interval;
  uint8_t valid;
  uint8_t health_bits;
} sbp_ephemeris_common_content_t;
typedef struct {
  uint8_t code;
  int16_t value;
} sbp_code_biases_content_t;
typedef struct {
  uint8_t code;
  uint8_t integer_indicator;
  uint8_t widelane_integer_indicator;
  uint8_t discontinuity_counter;
  int32_t bias;
} sbp_phase_biases_content_t;
typedef struct {
  sbp_v4_gnss_signal_t mesid;
  uint8_t cn0;
} sbp_measurement_state_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  uint8_t az;
  int8_t el;
} sbp_sv_az_el_t;
typedef struct {
  uint8_t sensor_type;
  uint8_t flags;
} sbp_solution_input_type_t;
#define SBP_MSG_OBS_OBS_MAX 14u
typedef struct {
  sbp_observation_header_t header;
  sbp_packed_obs_content_t obs[14];
  uint8_t n_obs;
} sbp_msg_obs_t;
typedef struct {
  double x;
  double y;
  double z;
} sbp_msg_base_pos_ecef_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} sbp_msg_ephemeris_gps_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} sbp_msg_ephemeris_qzss_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd1;
  float tgd2;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  uint8_t iode;
  uint16_t iodc;
} sbp_msg_ephemeris_bds_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float bgd_e1e5a;
  float bgd_e1e5b;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  double af1;
  float af2;
  sbp_gps_time_sec_t toc;
  uint16_t iode;
  uint16_t iodc;
  uint8_t source;
} sbp_msg_ephemeris_gal_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float gamma;
  float tau;
  float d_tau;
  double pos[3];
  double vel[3];
  float acc[3];
  uint8_t fcn;
  uint8_t iod;
} sbp_msg_ephemeris_glo_t;
typedef struct {
  uint8_t mask;
  int16_t l1ca_bias;
  int16_t l1p_bias;
  int16_t l2ca_bias;
  int16_t l2p_bias;
} sbp_msg_glo_biases_t;
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63u
typedef struct {
  sbp_sv_az_el_t azel[63];
  uint8_t n_azel;
} sbp_msg_sv_az_el_t;
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85u
typedef struct {
  sbp_measurement_state_t states[85];
  uint8_t n_states;
} sbp_msg_measurement_state_t;
#define SBP_MSG_LOG_TEXT_MAX 254u
typedef struct {
  uint8_t level;
  sbp_string_t text;
} sbp_msg_log_t;
#define SBP_MSG_FWD_FWD_PAYLOAD_MAX 253u
typedef struct {
  uint8_t source;
  uint8_t protocol;
  uint8_t fwd_payload[253];
  uint8_t n_fwd_payload;
} sbp_msg_fwd_t;
typedef struct {
  uint16_t wn;
  uint32_t tow;
  int32_t ns_residual;
  uint8_t flags;
} sbp_msg_gps_time_t;
typedef struct {
  uint16_t wn;
  uint32_t tow;
  int32_t ns_residual;
  uint8_t flags;
} sbp_msg_gps_time_gnss_t;
typedef struct {
  uint8_t flags;
  uint32_t tow;
  uint16_t year;
  uint8_t month;
  uint8_t day;
  uint8_t hours;
  uint8_t minutes;
  uint8_t seconds;
  uint32_t ns;
} sbp_msg_utc_time_t;
typedef struct {
  uint8_t flags;
  uint32_t tow;
  uint16_t year;
  uint8_t month;
  uint8_t day;
  uint8_t hours;
  uint8_t minutes;
  uint8_t seconds;
  uint32_t ns;
} sbp_msg_utc_time_gnss_t;
typedef struct {
  uint32_t tow;
  uint16_t gdop;
  uint16_t pdop;
  uint16_t tdop;
  uint16_t hdop;
  uint16_t vdop;
  uint8_t flags;
} sbp_msg_dops_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_pos_llh_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_pos_llh_gnss_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_pos_llh_cov_t;
typedef struct {
  uint32_t tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_pos_llh_cov_gnss_t;
typedef struct {
  uint32_t tow;
  int32_t n;
  int32_t e;
  int32_t d;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_vel_ned_t;
typedef struct {
  uint32_t tow;
  int32_t n;
  int32_t e;
  int32_t d;
  uint16_t h_accuracy;
  uint16_t v_accuracy;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_vel_ned_gnss_t;
typedef struct {
  uint32_t tow;
  int32_t x;
  int32_t y;
  int32_t z;
  uint16_t accuracy;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_vel_ecef_t;
typedef struct {
  uint32_t tow;
  uint32_t heading;
  uint8_t n_sats;
  uint8_t flags;
} sbp_msg_baseline_heading_t;
typedef struct {
  uint32_t tow;
  uint16_t age;
} sbp_msg_age_corrections_t;
typedef struct {
  uint32_t tow;
  int32_t roll;
  int32_t pitch;
  int32_t yaw;
  float roll_accuracy;
  float pitch_accuracy;
  float yaw_accuracy;
  uint8_t flags;
} sbp_msg_orient_euler_t;
typedef struct {
  uint32_t tow;
  int32_t x;
  int32_t y;
  int32_t z;
  uint8_t flags;
} sbp_msg_angular_rate_t;
typedef struct {
  uint32_t tow;
  uint8_t tow_f;
  int16_t acc_x;
  int16_t acc_y;
  int16_t acc_z;
  int16_t gyr_x;
  int16_t gyr_y;
  int16_t gyr_z;
} sbp_msg_imu_raw_t;
typedef struct {
  uint8_t imu_type;
  int16_t temp;
  uint8_t imu_conf;
} sbp_msg_imu_aux_t;
typedef struct {
  uint32_t tow;
  int32_t velocity;
  uint8_t flags;
} sbp_msg_odometry_t;
typedef struct {
  uint64_t time;
  uint8_t flags;
  uint8_t source;
  int32_t ticks;
} sbp_msg_wheeltick_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  uint32_t tow;
  uint8_t message_type;
  uint8_t data[27];
} sbp_msg_sbas_raw_t;
#define SBP_MSG_SOLN_META_SOL_IN_MAX 119u
typedef struct {
  uint32_t tow;
  uint16_t pdop;
  uint16_t hdop;
  uint16_t vdop;
  uint16_t age_corrections;
  uint32_t age_gnss;
  sbp_solution_input_type_t sol_in[119];
  uint8_t n_sol_in;
} sbp_msg_soln_meta_t;
#define SBP_MSG_GROUP_META_GROUP_MSGS_MAX 126u
typedef struct {
  uint8_t group_id;
  uint8_t flags;
  uint8_t n_group_msgs;
  uint16_t group_msgs[126];
} sbp_msg_group_meta_t;
typedef struct {
  int16_t weeks;
  int32_t milliseconds;
  int16_t microseconds;
  uint8_t flags;
} sbp_msg_gnss_time_offset_t;
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  uint32_t iod;
  int32_t radial;
  int32_t along;
  int32_t cross;
  int32_t dot_radial;
  int32_t dot_along;
  int32_t dot_cross;
  int32_t c0;
  int32_t c1;
  int32_t c2;
} sbp_msg_ssr_orbit_clock_t;
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  sbp_code_biases_content_t biases[81];
  uint8_t n_biases;
} sbp_msg_ssr_code_biases_t;
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  uint8_t update_interval;
  uint8_t iod_ssr;
  uint8_t dispersive_bias;
  uint8_t mw_consistency;
  uint16_t yaw;
  int8_t yaw_rate;
  sbp_phase_biases_content_t biases[30];
  uint8_t n_biases;
} sbp_msg_ssr_phase_biases_t;
typedef union {
  sbp_msg_obs_t obs;
  sbp_msg_base_pos_ecef_t base_pos_ecef;
  sbp_msg_ephemeris_gps_t ephemeris_gps;
  sbp_msg_ephemeris_qzss_t ephemeris_qzss;
  sbp_msg_ephemeris_bds_t ephemeris_bds;
  sbp_msg_ephemeris_gal_t ephemeris_gal;
  sbp_msg_ephemeris_glo_t ephemeris_glo;
  sbp_msg_glo_biases_t glo_biases;
  sbp_msg_sv_az_el_t sv_az_el;
  sbp_msg_measurement_state_t measurement_state;
  sbp_msg_log_t log;
  sbp_msg_fwd_t fwd;
  sbp_msg_gps_time_t gps_time;
  sbp_msg_gps_time_gnss_t gps_time_gnss;
  sbp_msg_utc_time_t utc_time;
  sbp_msg_utc_time_gnss_t utc_time_gnss;
  sbp_msg_dops_t dops;
  sbp_msg_pos_llh_t pos_llh;
  sbp_msg_pos_llh_gnss_t pos_llh_gnss;
  sbp_msg_pos_llh_cov_t pos_llh_cov;
  sbp_msg_pos_llh_cov_gnss_t pos_llh_cov_gnss;
  sbp_msg_vel_ned_t vel_ned;
  sbp_msg_vel_ned_gnss_t vel_ned_gnss;
  sbp_msg_vel_ecef_t vel_ecef;
  sbp_msg_baseline_heading_t baseline_heading;
  sbp_msg_age_corrections_t age_corrections;
  sbp_msg_orient_euler_t orient_euler;
  sbp_msg_angular_rate_t angular_rate;
  sbp_msg_imu_raw_t imu_raw;
  sbp_msg_imu_aux_t imu_aux;
  sbp_msg_odometry_t odometry;
  sbp_msg_wheeltick_t wheeltick;
  sbp_msg_sbas_raw_t sbas_raw;
  sbp_msg_soln_meta_t soln_meta;
  sbp_msg_group_meta_t group_meta;
  sbp_msg_gnss_time_offset_t gnss_time_offset;
  sbp_msg_ssr_orbit_clock_t ssr_orbit_clock;
  sbp_msg_ssr_code_biases_t ssr_code_biases;
  sbp_msg_ssr_phase_biases_t ssr_phase_biases;
} sbp_msg_t;
#ifdef __cplusplus
}
#endif
#endif
