#ifndef NSIM_GLOG_RAW_H
#define NSIM_GLOG_RAW_H
#include "nsim.h"
#define RAW_LOG_INFO(...) nsim::log("INFO", __VA_ARGS__)
#define RAW_LOG_WARNING(...) nsim::log("WARNING", __VA_ARGS__)
#define RAW_LOG_ERROR(...) nsim::log("ERROR", __VA_ARGS__)
#define RAW_LOG_FATAL(...) nsim::fatal("fatal-log", __VA_ARGS__)
#define RAW_LOG(severity, ...) RAW_LOG_##severity(__VA_ARGS__)
#define RAW_DLOG(severity, ...) RAW_LOG_##severity(__VA_ARGS__)
#define RAW_VLOG(level, ...) do { } while (0)
#define RAW_CHECK(condition, message) do { if (!(condition)) nsim::fatal("fatal-log", "Check %s failed: %s", #condition, message); } while (0)
#endif
