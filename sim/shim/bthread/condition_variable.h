#pragma once
#include "bthread/mutex.h"
#include "butil/time.h"
namespace bthread {
class ConditionVariable {
 public:
  typedef bthread_cond_t* native_handler_type;
  ConditionVariable() { bthread_cond_init(&c_, nullptr); }
  ~ConditionVariable() { bthread_cond_destroy(&c_); }
  ConditionVariable(const ConditionVariable&) = delete;
  native_handler_type native_handler() { return &c_; }
  void wait(std::unique_lock<bthread::Mutex>& l) { bthread_cond_wait(&c_, l.mutex()->native_handler()); }
  void wait(std::unique_lock<bthread_mutex_t>& l) { bthread_cond_wait(&c_, l.mutex()); }
  template <class P> void wait(std::unique_lock<bthread::Mutex>& l, P p) { while (!p()) wait(l); }
  template <class P> void wait(std::unique_lock<bthread_mutex_t>& l, P p) { while (!p()) wait(l); }
  int wait_for(std::unique_lock<bthread::Mutex>& l, long us) { return wait_until(l, butil::microseconds_from_now(us)); }
  int wait_for(std::unique_lock<bthread_mutex_t>& l, long us) { return wait_until(l, butil::microseconds_from_now(us)); }
  int wait_until(std::unique_lock<bthread::Mutex>& l, timespec t) { return bthread_cond_timedwait(&c_, l.mutex()->native_handler(), &t); }
  int wait_until(std::unique_lock<bthread_mutex_t>& l, timespec t) { return bthread_cond_timedwait(&c_, l.mutex(), &t); }
  void notify_one() { bthread_cond_signal(&c_); }
  void notify_all() { bthread_cond_broadcast(&c_); }
 private: bthread_cond_t c_;
};
}
