#pragma once
#include "bthread/mutex.h"
#include "bthread/condition_variable.h"
namespace bthread {
class CountdownEvent {
 public:
  explicit CountdownEvent(int n = 1) : n_(n) {}
  int add_count(int v = 1) { n_ += v; return 0; }
  int reset(int v = 1) { n_ = v; return 0; }
  void signal(int s = 1, bool = false) { std::unique_lock<Mutex> l(m_); n_ -= s; if (n_ <= 0) c_.notify_all(); }
  int wait() { std::unique_lock<Mutex> l(m_); while (n_ > 0) c_.wait(l); return 0; }
  int timed_wait(const timespec& t) { std::unique_lock<Mutex> l(m_); while (n_ > 0) { int r = c_.wait_until(l, t); if (r) return r; } return 0; }
 private: int n_; Mutex m_; ConditionVariable c_;
};
}
