#pragma once
// Stand-in for butil::DoublyBufferedData with the same protocol: readers pin the foreground copy; Modify()
// changes the background copy, flips, waits until no reader pins the old copy, then changes the other one.
#include <mutex>
#include "bthread/mutex.h"
#include "bthread/bthread.h"
#include "butil/macros.h"
#include "sim_clock.h"
namespace butil {
struct Void {};
template <typename T, typename TLS = Void, bool AllowBthreadSuspended = false>
class DoublyBufferedData {
 public:
  class ScopedPtr {
   public:
    ScopedPtr() = default;
    ~ScopedPtr() { if (d_) { d_->pins_[i_]--; } sim_point(); }
    const T* get() const { return p_; }
    const T& operator*() const { return *p_; }
    const T* operator->() const { return p_; }
    TLS& tls() { return tls_; }
   private:
    friend class DoublyBufferedData;
    DISALLOW_COPY_AND_ASSIGN(ScopedPtr);
    const T* p_ = nullptr; DoublyBufferedData* d_ = nullptr; int i_ = 0; TLS tls_;
  };
  DoublyBufferedData() { bthread_mutex_init(&mu_, nullptr); }
  ~DoublyBufferedData() { bthread_mutex_destroy(&mu_); }
  int Read(ScopedPtr* p) { sim_point(); p->d_ = this; p->i_ = fg_; pins_[fg_]++; p->p_ = &data_[fg_]; sim_point(); return 0; }
  template <typename Fn> size_t Modify(Fn&& fn) {
    std::lock_guard<bthread_mutex_t> l(mu_);
    int bg = 1 - fg_;
    const size_t ret = fn(data_[bg]);
    if (!ret) return 0;
    fg_ = bg; sim_point();
    bg = 1 - bg;
    while (pins_[bg]) bthread_usleep(1);
    return fn(data_[bg]);
  }
  template <typename Fn, typename A1> size_t Modify(Fn&& fn, const A1& a1) { return Modify([&](T& t) { return fn(t, a1); }); }
  template <typename Fn, typename A1, typename A2> size_t Modify(Fn&& fn, const A1& a1, const A2& a2) { return Modify([&](T& t) { return fn(t, a1, a2); }); }
  template <typename Fn, typename A1, typename A2, typename A3> size_t Modify(Fn&& fn, const A1& a1, const A2& a2, const A3& a3) { return Modify([&](T& t) { return fn(t, a1, a2, a3); }); }
  template <typename Fn> size_t ModifyWithForeground(Fn&& fn) {
    std::lock_guard<bthread_mutex_t> l(mu_);
    int bg = 1 - fg_;
    const size_t ret = fn(data_[bg], const_cast<const T&>(data_[1 - bg]));
    if (!ret) return 0;
    fg_ = bg; sim_point();
    bg = 1 - bg;
    while (pins_[bg]) bthread_usleep(1);
    return fn(data_[bg], const_cast<const T&>(data_[1 - bg]));
  }
  template <typename Fn, typename A1> size_t ModifyWithForeground(Fn&& fn, const A1& a1) { return ModifyWithForeground([&](T& b, const T& f) { return fn(b, f, a1); }); }
 private:
  T data_[2]{}; int fg_ = 0; int pins_[2] = {0, 0}; bthread_mutex_t mu_;
};
}
