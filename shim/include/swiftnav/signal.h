#ifndef SHIM_SWIFTNAV_SIGNAL_H
#define SHIM_SWIFTNAV_SIGNAL_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
#define GPS_FIRST_PRN 1
#define NUM_SATS_GPS 32
#define SBAS_FIRST_PRN 120
#define NUM_SATS_SBAS 39
#define GLO_FIRST_PRN 1
#define NUM_SATS_GLO 28
#define BDS_FIRST_PRN 1
#define NUM_SATS_BDS 64
#define QZS_FIRST_PRN 193
#define NUM_SATS_QZS 10
#define GAL_FIRST_PRN 1
#define NUM_SATS_GAL 36
#define NUM_SATS (NUM_SATS_GPS + NUM_SATS_SBAS + NUM_SATS_GLO + NUM_SATS_BDS + NUM_SATS_QZS + NUM_SATS_GAL)

typedef enum constellation_e {
  CONSTELLATION_INVALID = -1,
  CONSTELLATION_GPS,
  CONSTELLATION_SBAS,
  CONSTELLATION_GLO,
  CONSTELLATION_BDS,
  CONSTELLATION_QZS,
  CONSTELLATION_GAL,
  CONSTELLATION_COUNT
} constellation_t;

typedef enum code_e {
  CODE_INVALID = -1,
  CODE_GPS_L1CA = 0,
  CODE_GPS_L2CM = 1,
  CODE_SBAS_L1CA = 2,
  CODE_GLO_L1OF = 3,
  CODE_GLO_L2OF = 4,
  CODE_GPS_L1P = 5,
  CODE_GPS_L2P = 6,
  CODE_GPS_L2CL = 7,
  CODE_GPS_L2CX = 8,
  CODE_GPS_L5I = 9,
  CODE_GPS_L5Q = 10,
  CODE_GPS_L5X = 11,
  CODE_BDS2_B1 = 12,
  CODE_BDS2_B2 = 13,
  CODE_GAL_E1B = 14,
  CODE_GAL_E1C = 15,
  CODE_GAL_E1X = 16,
  CODE_GAL_E6B = 17,
  CODE_GAL_E6C = 18,
  CODE_GAL_E6X = 19,
  CODE_GAL_E7I = 20,
  CODE_GAL_E7Q = 21,
  CODE_GAL_E7X = 22,
  CODE_GAL_E8I = 23,
  CODE_GAL_E8Q = 24,
  CODE_GAL_E8X = 25,
  CODE_GAL_E5I = 26,
  CODE_GAL_E5Q = 27,
  CODE_GAL_E5X = 28,
  CODE_GLO_L1P = 29,
  CODE_GLO_L2P = 30,
  CODE_QZS_L1CA = 31,
  CODE_QZS_L1CI = 32,
  CODE_QZS_L1CQ = 33,
  CODE_QZS_L1CX = 34,
  CODE_QZS_L2CM = 35,
  CODE_QZS_L2CL = 36,
  CODE_QZS_L2CX = 37,
  CODE_QZS_L5I = 38,
  CODE_QZS_L5Q = 39,
  CODE_QZS_L5X = 40,
  CODE_SBAS_L5I = 41,
  CODE_SBAS_L5Q = 42,
  CODE_SBAS_L5X = 43,
  CODE_BDS3_B1CI = 44,
  CODE_BDS3_B1CQ = 45,
  CODE_BDS3_B1CX = 46,
  CODE_BDS3_B5I = 47,
  CODE_BDS3_B5Q = 48,
  CODE_BDS3_B5X = 49,
  CODE_BDS3_B7I = 50,
  CODE_BDS3_B7Q = 51,
  CODE_BDS3_B7X = 52,
  CODE_BDS3_B3I = 53,
  CODE_BDS3_B3Q = 54,
  CODE_BDS3_B3X = 55,
  CODE_GPS_L1CI = 56,
  CODE_GPS_L1CQ = 57,
  CODE_GPS_L1CX = 58,
  CODE_AUX_GPS = 59,
  CODE_AUX_SBAS = 60,
  CODE_AUX_GAL = 61,
  CODE_AUX_QZS = 62,
  CODE_AUX_BDS = 63,
  CODE_COUNT = 64
} code_t;

typedef struct {
  u16 sat;
  code_t code;
} gnss_signal_t;

#define SID_STR_LEN_MAX 16

#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define SBAS_L1_HZ GPS_L1_HZ
#define SBAS_L5_HZ GPS_L5_HZ
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define GAL_E1_HZ 1.57542e9
#define GAL_E6_HZ 1.27875e9
#define GAL_E7_HZ 1.20714e9
#define GAL_E8_HZ 1.191795e9
#define GAL_E5_HZ 1.17645e9
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B2_HZ 1.20714e9
#define BDS3_B1C_HZ 1.57542e9
#define BDS3_B3_HZ 1.26852e9
#define BDS3_B5_HZ 1.17645e9
#define BDS3_B7_HZ 1.20714e9
#define QZS_L1_HZ GPS_L1_HZ
#define QZS_L2_HZ GPS_L2_HZ
#define QZS_L5_HZ GPS_L5_HZ

constellation_t code_to_constellation(code_t code);
static inline constellation_t sid_to_constellation(gnss_signal_t sid) {
  return code_to_constellation(sid.code);
}
static inline gnss_signal_t construct_sid(code_t code, u16 sat) {
  gnss_signal_t sid;
  sid.sat = sat;
  sid.code = code;
  return sid;
}
bool code_valid(code_t code);
bool constellation_valid(constellation_t c);
bool sid_valid(gnss_signal_t sid);
int sid_to_string(char *s, int n, gnss_signal_t sid);
const char *code_to_string(code_t code);
code_t constellation_to_l1_code(constellation_t c);
u16 constellation_to_sat_count(constellation_t c);
u16 code_to_sat_start(code_t c);
u16 code_to_sat_count(code_t c);
int sid_compare(gnss_signal_t a, gnss_signal_t b);
bool sid_is_equal(gnss_signal_t a, gnss_signal_t b);
static inline bool is_gps(code_t c) { return code_to_constellation(c) == CONSTELLATION_GPS; }
static inline bool is_glo(code_t c) { return code_to_constellation(c) == CONSTELLATION_GLO; }
static inline bool is_gal(code_t c) { return code_to_constellation(c) == CONSTELLATION_GAL; }
static inline bool is_qzss(code_t c) { return code_to_constellation(c) == CONSTELLATION_QZS; }
static inline bool is_sbas(code_t c) { return code_to_constellation(c) == CONSTELLATION_SBAS; }
static inline bool is_bds2(code_t c) { return code_to_constellation(c) == CONSTELLATION_BDS; }
#define IS_GPS(sid) (CONSTELLATION_GPS == code_to_constellation((code_t)(sid).code))
#define IS_SBAS(sid) (CONSTELLATION_SBAS == code_to_constellation((code_t)(sid).code))
#define IS_GLO(sid) (CONSTELLATION_GLO == code_to_constellation((code_t)(sid).code))
#define IS_BDS2(sid) (CONSTELLATION_BDS == code_to_constellation((code_t)(sid).code))
#define IS_GAL(sid) (CONSTELLATION_GAL == code_to_constellation((code_t)(sid).code))
#define IS_QZSS(sid) (CONSTELLATION_QZS == code_to_constellation((code_t)(sid).code))
#ifdef __cplusplus
}
#endif
#endif
