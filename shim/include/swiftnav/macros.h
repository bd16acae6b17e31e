#ifndef SHIM_SWIFTNAV_MACROS_H
#define SHIM_SWIFTNAV_MACROS_H
#define SWIFT_ATTR_FORMAT(f, a) __attribute__((format(printf, f, a)))
#define SWIFT_ATTR_FORMAT_STRING
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_DEPRECATED __attribute__((deprecated))
#define SWIFT_ATTR_WEAK __attribute__((weak))
#define SWIFT_ATTR_UNUSED __attribute__((unused))
#define SWIFT_ATTR_FALLTHROUGH __attribute__((fallthrough))
#endif
