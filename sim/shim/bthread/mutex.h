#pragma once
#include <mutex>
#include "bthread/bthread.h"
#include "butil/scoped_lock.h"
#include "butil/macros.h"
namespace bthread {
class Mutex {
 public:
  typedef bthread_mutex_t* native_handler_type;
  Mutex() { bthread_mutex_init(&m_, nullptr); }
  ~Mutex() { bthread_mutex_destroy(&m_); }
  native_handler_type native_handler() { return &m_; }
  void lock() { bthread_mutex_lock(&m_); }
  void unlock() { bthread_mutex_unlock(&m_); }
  bool try_lock() { return bthread_mutex_trylock(&m_) == 0; }
  Mutex(const Mutex&) = delete;
  void operator=(const Mutex&) = delete;
 private:
  bthread_mutex_t m_;
};
namespace internal { typedef pthread_mutex_t FastPthreadMutex; }
}
namespace std {
template <> class lock_guard<bthread_mutex_t> {
 public:
  explicit lock_guard(bthread_mutex_t& m) : m_(&m) { bthread_mutex_lock(m_); }
  ~lock_guard() { bthread_mutex_unlock(m_); }
  lock_guard(const lock_guard&) = delete; void operator=(const lock_guard&) = delete;
 private: bthread_mutex_t* m_;
};
template <> class unique_lock<bthread_mutex_t> {
 public:
  typedef bthread_mutex_t mutex_type;
  unique_lock() = default;
  explicit unique_lock(mutex_type& m) : m_(&m) { lock(); }
  unique_lock(mutex_type& m, defer_lock_t) : m_(&m) {}
  unique_lock(mutex_type& m, try_to_lock_t) : m_(&m), o_(bthread_mutex_trylock(&m) == 0) {}
  unique_lock(mutex_type& m, adopt_lock_t) : m_(&m), o_(true) {}
  ~unique_lock() { if (o_) unlock(); }
  void lock() { bthread_mutex_lock(m_); o_ = true; }
  bool try_lock() { o_ = bthread_mutex_trylock(m_) == 0; return o_; }
  void unlock() { if (o_) { bthread_mutex_unlock(m_); o_ = false; } }
  mutex_type* release() { auto* m = m_; m_ = nullptr; o_ = false; return m; }
  mutex_type* mutex() { return m_; }
  bool owns_lock() const { return o_; }
  operator bool() const { return o_; }
  unique_lock(const unique_lock&) = delete; void operator=(const unique_lock&) = delete;
 private: mutex_type* m_ = nullptr; bool o_ = false;
};
}
