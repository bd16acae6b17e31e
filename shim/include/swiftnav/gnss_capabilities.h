#ifndef SHIM_SWIFTNAV_GNSS_CAPABILITIES_H
#define SHIM_SWIFTNAV_GNSS_CAPABILITIES_H
#include <swiftnav/common.h>
/* BDS PRNs transmitting the D2 message: 1-5 and 59-63 (GEO) */
#define GNSS_CAPB_BDS_D2NAV ((u64)0x7c0000000000001fULL)
#endif
