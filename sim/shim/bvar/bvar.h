#pragma once
// Metrics carry no behaviour the properties depend on; counters keep their value, the rest is inert.
#include <cstdint>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
#include "butil/strings/string_piece.h"
#include "butil/macros.h"
#include "gflags/gflags.h"
DECLARE_int32(sim_bvar_unused);
namespace bvar {
extern int FLAGS_bvar_latency_p1, FLAGS_bvar_latency_p2, FLAGS_bvar_latency_p3;
extern int FLAGS_bvar_max_dump_multi_dimension_metric_number;
struct DumpOptions { bool quote_string = true; std::string white_wildcards; };
class Dumper { public: virtual ~Dumper() = default; virtual bool dump(const std::string&, const butil::StringPiece&) = 0; virtual bool dump_comment(const std::string&, const std::string&) { return true; } virtual bool dump_mvar(const std::string&, const butil::StringPiece&) { return true; } };
class Variable {
 public:
  virtual ~Variable() = default;
  virtual void describe(std::ostream&, bool = false) const {}
  int expose(const butil::StringPiece&) { return 0; }
  int expose_as(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
  bool hide() { return true; }
  std::string get_description() const { return ""; }
  const std::string& name() const { static const std::string s; return s; }
  static int dump_exposed(Dumper*, const DumpOptions*) { return 0; }
  static std::string describe_exposed(const std::string&) { return ""; }
};
template <typename T> class Adder : public Variable {
 public:
  Adder() = default;
  explicit Adder(const butil::StringPiece&) {}
  Adder(const butil::StringPiece&, const butil::StringPiece&) {}
  Adder& operator<<(T v) { v_ += v; return *this; }
  T get_value() const { return v_; }
  T reset() { T v = v_; v_ = T(); return v; }
 private: T v_ = T();
};
template <typename T> class Maxer : public Variable { public: Maxer() = default; explicit Maxer(const butil::StringPiece&) {} Maxer& operator<<(T v) { if (v > v_) v_ = v; return *this; } T get_value() const { return v_; } T reset() { T v = v_; v_ = T(); return v; } private: T v_ = T(); };
template <typename T> class Miner : public Variable { public: Miner() = default; explicit Miner(const butil::StringPiece&) {} Miner& operator<<(T v) { if (v < v_) v_ = v; return *this; } T get_value() const { return v_; } private: T v_ = T(); };
template <typename T> class Status : public Variable {
 public:
  Status() = default;
  explicit Status(const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const butil::StringPiece&, const T& v) : v_(v) {}
  void set_value(const T& v) { v_ = v; }
  T get_value() const { return v_; }
 private: T v_ = T();
};
template <> class Status<std::string> : public Variable { public: Status() = default; template <class... A> explicit Status(A&&...) {} void set_value(const char*, ...) {} void set_value(const std::string& s) { v_ = s; } std::string get_value() const { return v_; } private: std::string v_; };
template <typename T> class PassiveStatus : public Variable { public: PassiveStatus(T (*f)(void*), void* a) : f_(f), a_(a) {} PassiveStatus(const butil::StringPiece&, T (*f)(void*), void* a) : f_(f), a_(a) {} PassiveStatus(const butil::StringPiece&, const butil::StringPiece&, T (*f)(void*), void* a) : f_(f), a_(a) {} T get_value() const { return f_(a_); } private: T (*f_)(void*); void* a_; };
template <typename T> class Window : public Variable { public: template <class... A> explicit Window(A&&...) {} int64_t get_value() const { return 0; } };
template <typename T> class PerSecond : public Variable { public: template <class... A> explicit PerSecond(A&&...) {} int64_t get_value() const { return 0; } };
template <typename T> class PerSecondEx : public Variable { public: template <class... A> explicit PerSecondEx(A&&...) {} template <class V> PerSecondEx& operator<<(V) { return *this; } int64_t get_value() const { return 0; } };
template <typename T> class WindowEx : public Variable { public: template <class... A> explicit WindowEx(A&&...) {} template <class V> WindowEx& operator<<(V) { return *this; } int64_t get_value() const { return 0; } };
class IntRecorder : public Variable { public: IntRecorder() = default; explicit IntRecorder(const butil::StringPiece&) {} IntRecorder& operator<<(int64_t) { return *this; } int64_t average() const { return 0; } };
class LatencyRecorder : public Variable {
 public:
  LatencyRecorder() = default;
  explicit LatencyRecorder(long) {}
  explicit LatencyRecorder(const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, long) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&, long) {}
  LatencyRecorder& operator<<(int64_t v) { ++n_; max_ = std::max(max_, v); sum_ += v; return *this; }
  int64_t latency(long = 0) const { return n_ ? sum_ / n_ : 0; }
  int64_t latency_percentile(double) const { return latency(); }
  int64_t max_latency() const { return max_; }
  int64_t count() const { return n_; }
  int64_t qps(long = 0) const { return 0; }
  int expose(const butil::StringPiece&) { return 0; }
  int expose(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
 private: int64_t n_ = 0, max_ = 0, sum_ = 0;
};
template <typename KeyType> class MVariable {
 public:
  using key_type = KeyType;
  explicit MVariable(const key_type& k) : labels_(k) {}
  virtual ~MVariable() = default;
  const key_type& labels() const { return labels_; }
  size_t count_labels() const { return labels_.size(); }
  int expose(const butil::StringPiece&) { return 0; }
  int expose_as(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
  bool hide() { return true; }
  template <class D, class O> static int dump_exposed(D*, const O*) { return 0; }
  template <class D> static int dump_exposed(D*, std::nullptr_t) { return 0; }
 private: key_type labels_;
};
template <typename T, typename K = std::list<std::string>> class MultiDimension : public MVariable<K> {
 public:
  using key_type = K;
  explicit MultiDimension(const key_type& k) : MVariable<K>(k) {}
  MultiDimension(const butil::StringPiece&, const key_type& k) : MVariable<K>(k) {}
  MultiDimension(const butil::StringPiece&, const butil::StringPiece&, const key_type& k) : MVariable<K>(k) {}
  T* get_stats(const key_type& k) { auto& p = m_[k]; if (!p) p = std::make_unique<T>(); return p.get(); }
  void delete_stats(const key_type& k) { m_.erase(k); }
  void delete_stats() { m_.clear(); }
  bool has_stats(const key_type& k) { return m_.count(k); }
  size_t count_stats() { return m_.size(); }
  void list_stats(std::vector<key_type>* v) { for (auto& x : m_) v->push_back(x.first); }
 private: std::map<key_type, std::unique_ptr<T>> m_;
};
}
