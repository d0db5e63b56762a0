#pragma once
#include <atomic>
#include <utility>
namespace butil {
template <class T> class RefCountedThreadSafe { public: void AddRef() const { n_++; } bool Release() const { if (--n_ == 0) { delete static_cast<const T*>(this); return true; } return false; } bool HasOneRef() const { return n_ == 1; }
 protected: RefCountedThreadSafe() : n_(0) {} ~RefCountedThreadSafe() = default; private: mutable std::atomic<int> n_; };
template <class T> class RefCounted : public RefCountedThreadSafe<T> {};
}
template <class T> class scoped_refptr {
 public:
  scoped_refptr() : p_(nullptr) {}
  scoped_refptr(T* p) : p_(p) { if (p_) p_->AddRef(); }
  scoped_refptr(const scoped_refptr& r) : p_(r.p_) { if (p_) p_->AddRef(); }
  template <class U> scoped_refptr(const scoped_refptr<U>& r) : p_(r.get()) { if (p_) p_->AddRef(); }
  ~scoped_refptr() { if (p_) p_->Release(); }
  T* get() const { return p_; }
  operator T*() const { return p_; }
  T* operator->() const { return p_; }
  T& operator*() const { return *p_; }
  T* release() { T* r = p_; p_ = nullptr; return r; }
  scoped_refptr& operator=(T* p) { if (p) p->AddRef(); T* o = p_; p_ = p; if (o) o->Release(); return *this; }
  scoped_refptr& operator=(const scoped_refptr& r) { return *this = r.p_; }
  void swap(scoped_refptr& r) { std::swap(p_, r.p_); }
  void reset(T* p = nullptr) { *this = p; }
 protected: T* p_;
};
template <typename T> scoped_refptr<T> make_scoped_refptr(T* t) { return scoped_refptr<T>(t); }
