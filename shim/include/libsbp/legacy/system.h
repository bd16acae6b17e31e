#include <libsbp/sbp_msg_type.h>
#include <libsbp/types_legacy.h>
