#ifndef SHIM_LIBSBP_EDC_H
#define SHIM_LIBSBP_EDC_H
#include <libsbp/sbp.h>
#endif
