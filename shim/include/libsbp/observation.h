#include <libsbp/types_legacy.h>
#include <libsbp/sbp.h>
