/* generated by gen_sbp.py */
#ifndef SHIM_SBP_IDS_H
#define SHIM_SBP_IDS_H
#define SBP_MSG_OBS 0x004A
#define SBP_MSG_BASE_POS_ECEF 0x0048
#define SBP_MSG_EPHEMERIS_GPS 0x008A
#define SBP_MSG_EPHEMERIS_QZSS 0x008E
#define SBP_MSG_EPHEMERIS_BDS 0x0089
#define SBP_MSG_EPHEMERIS_GAL 0x008D
#define SBP_MSG_EPHEMERIS_GLO 0x008B
#define SBP_MSG_GLO_BIASES 0x0075
#define SBP_MSG_SV_AZ_EL 0x0097
#define SBP_MSG_MEASUREMENT_STATE 0x0061
#define SBP_MSG_LOG 0x0401
#define SBP_MSG_FWD 0x0402
#define SBP_MSG_GPS_TIME 0x0102
#define SBP_MSG_GPS_TIME_GNSS 0x0104
#define SBP_MSG_UTC_TIME 0x0103
#define SBP_MSG_UTC_TIME_GNSS 0x0105
#define SBP_MSG_DOPS 0x0208
#define SBP_MSG_POS_LLH 0x020A
#define SBP_MSG_POS_LLH_GNSS 0x022A
#define SBP_MSG_POS_LLH_COV 0x0211
#define SBP_MSG_POS_LLH_COV_GNSS 0x0231
#define SBP_MSG_VEL_NED 0x020E
#define SBP_MSG_VEL_NED_GNSS 0x022E
#define SBP_MSG_VEL_ECEF 0x020D
#define SBP_MSG_BASELINE_HEADING 0x020F
#define SBP_MSG_AGE_CORRECTIONS 0x0210
#define SBP_MSG_ORIENT_EULER 0x0221
#define SBP_MSG_ANGULAR_RATE 0x0222
#define SBP_MSG_IMU_RAW 0x0900
#define SBP_MSG_IMU_AUX 0x0901
#define SBP_MSG_ODOMETRY 0x0903
#define SBP_MSG_WHEELTICK 0x0904
#define SBP_MSG_SBAS_RAW 0x7777
#define SBP_MSG_SOLN_META 0xFF0E
#define SBP_MSG_GROUP_META 0xFF0A
#define SBP_MSG_GNSS_TIME_OFFSET 0xFF07
#define SBP_MSG_SSR_ORBIT_CLOCK 0x05DD
#define SBP_MSG_SSR_CODE_BIASES 0x05E1
#define SBP_MSG_SSR_PHASE_BIASES 0x05E6
#define SBP_MSG_OSR 0x0640
#define SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A 0x05F0
#define SBP_MSG_SSR_GRID_DEFINITION_DEP_A 0x05F5
#define SBP_MSG_SSR_STEC_CORRECTION_DEP_A 0x05EB
typedef enum {
  SbpMsgObs = 0x004A,
  SbpMsgBasePosEcef = 0x0048,
  SbpMsgEphemerisGps = 0x008A,
  SbpMsgEphemerisQzss = 0x008E,
  SbpMsgEphemerisBds = 0x0089,
  SbpMsgEphemerisGal = 0x008D,
  SbpMsgEphemerisGlo = 0x008B,
  SbpMsgGloBiases = 0x0075,
  SbpMsgSvAzEl = 0x0097,
  SbpMsgMeasurementState = 0x0061,
  SbpMsgLog = 0x0401,
  SbpMsgFwd = 0x0402,
  SbpMsgGpsTime = 0x0102,
  SbpMsgGpsTimeGnss = 0x0104,
  SbpMsgUtcTime = 0x0103,
  SbpMsgUtcTimeGnss = 0x0105,
  SbpMsgDops = 0x0208,
  SbpMsgPosLlh = 0x020A,
  SbpMsgPosLlhGnss = 0x022A,
  SbpMsgPosLlhCov = 0x0211,
  SbpMsgPosLlhCovGnss = 0x0231,
  SbpMsgVelNed = 0x020E,
  SbpMsgVelNedGnss = 0x022E,
  SbpMsgVelEcef = 0x020D,
  SbpMsgBaselineHeading = 0x020F,
  SbpMsgAgeCorrections = 0x0210,
  SbpMsgOrientEuler = 0x0221,
  SbpMsgAngularRate = 0x0222,
  SbpMsgImuRaw = 0x0900,
  SbpMsgImuAux = 0x0901,
  SbpMsgOdometry = 0x0903,
  SbpMsgWheeltick = 0x0904,
  SbpMsgSbasRaw = 0x7777,
  SbpMsgSolnMeta = 0xFF0E,
  SbpMsgGroupMeta = 0xFF0A,
  SbpMsgGnssTimeOffset = 0xFF07,
  SbpMsgSsrOrbitClock = 0x05DD,
  SbpMsgSsrCodeBiases = 0x05E1,
  SbpMsgSsrPhaseBiases = 0x05E6,
  SbpMsgAll = 0xFFFF
} sbp_msg_type_t;
#endif
