#pragma once
#include <cerrno>
#include <cstring>
#include <ctime>
#include <ostream>
#include <sstream>
#include <string>
#include "gflags/gflags.h"
DECLARE_bool(logtostderr); DECLARE_bool(alsologtostderr); DECLARE_bool(logtostdout); DECLARE_bool(colorlogtostdout); DECLARE_bool(colorlogtostderr);
DECLARE_int32(stderrthreshold); DECLARE_int32(minloglevel); DECLARE_int32(v); DECLARE_int32(logbuflevel); DECLARE_int32(logbufsecs);
DECLARE_string(log_dir); DECLARE_bool(stop_logging_if_full_disk); DECLARE_string(vmodule); DECLARE_bool(log_prefix);
DECLARE_uint32(max_log_size);
extern bool sim_log_on;                                   // print log lines (off in checks)
[[noreturn]] void sim_log_fatal(const std::string& where_and_what);
void sim_log_line(int sev, const char* file, int line, const std::string& s);
namespace google {
typedef int LogSeverity;
const int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3, NUM_SEVERITIES = 4;
struct LogMessageTime { int year() const { return 100; } int month() const { return 0; } int day() const { return 1; } int hour() const { return 0; } int min() const { return 0; } int sec() const { return 0; } int usec() const { return 0; } };
struct LogMessageInfo { const char* severity = "I"; const char* filename = ""; int line_number = 0; unsigned long thread_id = 0; LogMessageTime time; };
typedef void (*CustomPrefixCallback)(std::ostream&, const LogMessageInfo&, void*);
inline void InitGoogleLogging(const char*) {}
inline void InitGoogleLogging(const char*, CustomPrefixCallback, void* = nullptr) {}
inline void ShutdownGoogleLogging() {}
inline void SetLogDestination(LogSeverity, const char*) {}
inline void SetLogSymlink(LogSeverity, const char*) {}
inline void SetStderrLogging(LogSeverity) {}
inline void FlushLogFiles(LogSeverity) {}
inline void InstallFailureSignalHandler() {}
inline void InstallFailureFunction(void (*)()) {}
inline void EnableLogCleaner(unsigned) {}
inline bool IsGoogleLoggingInitialized() { return true; }
}
namespace sim_glog {
class Msg {
 public:
  Msg(int sev, const char* f, int l) : sev_(sev), f_(f), l_(l) {}
  ~Msg() noexcept(false) { if (sev_ == 3) { sim_log_fatal(std::string(f_) + ":" + std::to_string(l_) + " " + os_.str()); } sim_log_line(sev_, f_, l_, os_.str()); }
  std::ostream& stream() { return os_; }
 private:
  int sev_; const char* f_; int l_; std::ostringstream os_;
};
bool Begin(); void End();   // printing must not change the schedule
struct Voidify { ~Voidify() { End(); } void operator&&(std::ostream&) {} };
}
#define SIM_LOG_SEV_INFO 0
#define SIM_LOG_SEV_WARNING 1
#define SIM_LOG_SEV_ERROR 2
#define SIM_LOG_SEV_FATAL 3
#define SIM_LOG_SEV_DEBUG 0
#define SIM_LOG_SEV_TRACE 0
#define SIM_LOG_SEV_DFATAL 2
#define SIM_LOG_STREAM(sev) ::sim_glog::Msg(sev, __FILE__, __LINE__).stream()
#define SIM_LOG_IF(sev, cond) !(((sev) == 3 || sim_log_on) && (cond) && ::sim_glog::Begin()) ? (void)0 : ::sim_glog::Voidify() && SIM_LOG_STREAM(sev)
#define LOG(s) SIM_LOG_IF(SIM_LOG_SEV_##s, true)
#define PLOG(s) SIM_LOG_IF(SIM_LOG_SEV_##s, true)
#define LOG_IF(s, c) SIM_LOG_IF(SIM_LOG_SEV_##s, c)
#define PLOG_IF(s, c) SIM_LOG_IF(SIM_LOG_SEV_##s, c)
#define LOG_EVERY_N(s, n) LOG(s)
#define LOG_FIRST_N(s, n) LOG(s)
#define LOG_EVERY_T(s, n) LOG(s)
#define LOG_IF_EVERY_N(s, c, n) LOG_IF(s, c)
#define LOG_EVERY_SECOND(s) LOG(s)
#define LOG_ONCE(s) LOG(s)
#define DLOG(s) LOG(s)
#define DLOG_IF(s, c) LOG_IF(s, c)
#define LOG_AT_LEVEL(s) SIM_LOG_IF(s, true)
#define VLOG_IS_ON(l) (sim_log_on && FLAGS_v >= (l))
#define VLOG(l) SIM_LOG_IF(0, VLOG_IS_ON(l))
#define VLOG_IF(l, c) SIM_LOG_IF(0, VLOG_IS_ON(l) && (c))
#define DVLOG(l) VLOG(l)
#define RPC_VLOG VLOG(99)
#define CHECK(c) SIM_LOG_IF(3, !(c)) << "Check failed: " #c " "
#define PCHECK(c) CHECK(c)
#define SIM_CHECK_OP(op, a, b) SIM_LOG_IF(3, !((a) op (b))) << "Check failed: " #a " " #op " " #b " (" << (a) << " vs. " << (b) << ") "
#define CHECK_EQ(a, b) SIM_CHECK_OP(==, a, b)
#define CHECK_NE(a, b) SIM_CHECK_OP(!=, a, b)
#define CHECK_LE(a, b) SIM_CHECK_OP(<=, a, b)
#define CHECK_LT(a, b) SIM_CHECK_OP(<, a, b)
#define CHECK_GE(a, b) SIM_CHECK_OP(>=, a, b)
#define CHECK_GT(a, b) SIM_CHECK_OP(>, a, b)
#define CHECK_NOTNULL(p) (p)
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
// debug-only assertions are compiled out in the shipped (NDEBUG) build
#define SIM_DCHECK_OFF true ? (void)0 : ::sim_glog::Voidify() && SIM_LOG_STREAM(0)
#define DCHECK(c) SIM_DCHECK_OFF << !!(c)
#define DCHECK_EQ(a, b) SIM_DCHECK_OFF << ((a) == (b))
#define DCHECK_NE(a, b) SIM_DCHECK_OFF << ((a) != (b))
#define DCHECK_LE(a, b) SIM_DCHECK_OFF << ((a) <= (b))
#define DCHECK_LT(a, b) SIM_DCHECK_OFF << ((a) < (b))
#define DCHECK_GE(a, b) SIM_DCHECK_OFF << ((a) >= (b))
#define DCHECK_GT(a, b) SIM_DCHECK_OFF << ((a) > (b))
#define DCHECK_NOTNULL(p) (p)
#define RAW_LOG(s, ...) do {} while (0)
#define RAW_CHECK(c, ...) do {} while (0)
