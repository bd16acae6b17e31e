#ifndef SHIM_SWIFTNAV_LOGGING_H
#define SHIM_SWIFTNAV_LOGGING_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
void shim_log(int level, const char *fmt, ...) SWIFT_ATTR_FORMAT(2, 3);
void logging_set_implementation(void (*a)(int, const char *, ...),
                                void (*b)(int, const char *, const int, const char *, ...));
extern unsigned long shim_log_count[8];
#define LOG_EMERG 0
#define LOG_ALERT 1
#define LOG_CRIT 2
#define LOG_ERROR 3
#define LOG_WARN 4
#define LOG_NOTICE 5
#define LOG_INFO 6
#define LOG_DEBUG 7
#define log_emerg(...) shim_log(LOG_EMERG, __VA_ARGS__)
#define log_alert(...) shim_log(LOG_ALERT, __VA_ARGS__)
#define log_crit(...) shim_log(LOG_CRIT, __VA_ARGS__)
#define log_error(...) shim_log(LOG_ERROR, __VA_ARGS__)
#define log_warn(...) shim_log(LOG_WARN, __VA_ARGS__)
#define log_notice(...) shim_log(LOG_NOTICE, __VA_ARGS__)
#define log_info(...) shim_log(LOG_INFO, __VA_ARGS__)
#define log_debug(...) shim_log(LOG_DEBUG, __VA_ARGS__)
#ifdef __cplusplus
}
#endif
#endif
