#pragma once
// Stand-in for glog used only when extracting functions for verification:
// log statements have no effect, a FATAL log does not return.
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <iostream>
#include <string>
namespace google {
enum { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
inline void InitGoogleLogging(const char*) {}
inline void InstallFailureSignalHandler() {}
} // namespace google
namespace vstub {
struct null_log {
    template<class T> const null_log& operator<<(T&&) const { return *this; }
    const null_log& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
    const null_log& operator<<(std::ios_base& (*)(std::ios_base&)) const { return *this; }
};
struct voidify { void operator&(const null_log&) const {} };
[[noreturn]] void fatal_log();
} // namespace vstub
#define VSTUB_SEV_INFO 0
#define VSTUB_SEV_WARNING 0
#define VSTUB_SEV_ERROR 0
#define VSTUB_SEV_FATAL 1
#define LOG(s) (VSTUB_SEV_##s ? ::vstub::fatal_log() : (void) 0), true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define LOG_IF(s, c) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define LOG_FIRST_N(s, n) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define LOG_EVERY_N(s, n) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define VLOG(n) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define VLOG_IF(n, c) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define VLOG_IS_ON(n) false
#define DLOG(s) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define DVLOG(s) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define CHECK(c) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define DCHECK(c) true ? (void) 0 : ::vstub::voidify() & ::vstub::null_log()
#define FLAGS_stderrthreshold vstub_flag
inline int vstub_flag;
