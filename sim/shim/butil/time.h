#pragma once
#include <sys/time.h>
#include <time.h>
#include <cstdint>
#include "sim_clock.h"
namespace butil {
inline int64_t gettimeofday_us() { return sim_clock_wall_us(); }
inline int64_t gettimeofday_ms() { return gettimeofday_us() / 1000; }
inline int64_t gettimeofday_s() { return gettimeofday_us() / 1000000; }
inline int64_t monotonic_time_us() { return sim_clock_mono_us(); }
inline int64_t monotonic_time_ms() { return sim_clock_mono_us() / 1000; }
inline int64_t monotonic_time_s() { return sim_clock_mono_us() / 1000000; }
inline int64_t monotonic_time_ns() { return sim_clock_mono_us() * 1000; }
inline int64_t cpuwide_time_us() { return sim_clock_mono_us(); }
inline int64_t cpuwide_time_ns() { return sim_clock_mono_us() * 1000; }
inline timespec microseconds_to_timespec(int64_t us) { timespec t; t.tv_sec = us / 1000000; t.tv_nsec = us % 1000000 * 1000; return t; }
inline int64_t timespec_to_microseconds(const timespec& t) { return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
inline timespec microseconds_from(timespec t, int64_t us) { return microseconds_to_timespec(timespec_to_microseconds(t) + us); }
// absolute real time
inline timespec microseconds_from_now(int64_t us) { return microseconds_to_timespec(gettimeofday_us() + us); }
inline timespec milliseconds_from_now(int64_t ms) { return microseconds_from_now(ms * 1000); }
inline timespec seconds_from_now(int64_t s) { return microseconds_from_now(s * 1000000); }
class Timer {
 public:
  enum TimerType { STARTED };
  Timer() : start_(0), stop_(0) {}
  explicit Timer(TimerType) { start(); }
  void start() { start_ = stop_ = sim_clock_mono_us(); }
  void stop() { stop_ = sim_clock_mono_us(); }
  int64_t n_elapsed() const { return (stop_ - start_) * 1000; }
  int64_t u_elapsed() const { return stop_ - start_; }
  int64_t m_elapsed() const { return u_elapsed() / 1000; }
  int64_t s_elapsed() const { return m_elapsed() / 1000; }
 private:
  int64_t start_, stop_;
};
}
