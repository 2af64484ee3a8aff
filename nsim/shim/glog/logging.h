#ifndef NSIM_GLOG_H
#define NSIM_GLOG_H
#include <sstream>
#include "nsim.h"
namespace nsim
{
struct LogLine
{
    LogLine(const char *s) : severity(s) {}
    ~LogLine()
    {
        if (severity[0] == 'F')
            fatal("fatal-log", "%s", text.str().c_str());
        log(severity, "%s", text.str().c_str());
    }
    const char *severity;
    std::ostringstream text;
};
struct LogVoid { void operator&(std::ostream &) {} };
} // namespace nsim
#define LOG(severity) nsim::LogLine(#severity).text
#define LOG_IF(severity, condition) !(condition) ? (void)0 : nsim::LogVoid() & LOG(severity)
#define DLOG(severity) LOG(severity)
#define VLOG(level) true ? (void)0 : nsim::LogVoid() & LOG(INFO)
#define CHECK(condition) (condition) ? (void)0 : nsim::LogVoid() & LOG(FATAL) << "Check failed: " #condition " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define DCHECK(condition) CHECK(condition)
#endif
