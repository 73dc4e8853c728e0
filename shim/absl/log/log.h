// Stand-in for absl/log/log.h: logging has an empty body, LOG(FATAL) aborts.
#ifndef SHIM_ABSL_LOG_LOG_H_
#define SHIM_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define SHIM_LOG_INFO ::shim_log::NullStream()
#define SHIM_LOG_WARNING ::shim_log::NullStream()
#define SHIM_LOG_ERROR ::shim_log::NullStream()
#define SHIM_LOG_DFATAL ::shim_log::NullStream()
#define SHIM_LOG_FATAL SHIM_FATAL("LOG(FATAL)")
#define SHIM_LOG_QFATAL SHIM_FATAL("LOG(QFATAL)")
#define LOG(s) SHIM_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : ::shim_log::Voidify() & SHIM_LOG_##s
#define DLOG(s) SHIM_LOG_##s
#define VLOG(n) ::shim_log::NullStream()
#define LOG_EVERY_N(s, n) SHIM_LOG_##s
#define LOG_FIRST_N(s, n) SHIM_LOG_##s
#endif
