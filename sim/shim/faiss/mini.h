#pragma once
// Exact (flat) stand-in for the part of faiss the flat index uses; the faiss submodule is absent.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
namespace faiss {
typedef int64_t idx_t;
enum MetricType { METRIC_INNER_PRODUCT = 0, METRIC_L2 = 1, METRIC_L1, METRIC_Linf, METRIC_Lp };
struct IDSelector { virtual ~IDSelector() = default; virtual bool is_member(idx_t id) const = 0; };
struct IDSelectorBatch : IDSelector {
  std::vector<idx_t> ids;
  IDSelectorBatch(size_t n, const idx_t* p) : ids(p, p + n) { std::sort(ids.begin(), ids.end()); }
  bool is_member(idx_t id) const override { return std::binary_search(ids.begin(), ids.end(), id); }
};
struct IDSelectorRange : IDSelector { idx_t a, b; IDSelectorRange(idx_t x, idx_t y, bool = false) : a(x), b(y) {} bool is_member(idx_t i) const override { return i >= a && i < b; } };
struct SearchParameters { IDSelector* sel = nullptr; virtual ~SearchParameters() = default; };
struct RangeSearchResult {
  size_t nq; size_t* lims; idx_t* labels = nullptr; float* distances = nullptr;
  explicit RangeSearchResult(size_t n, bool = true) : nq(n), lims(new size_t[n + 1]()) {}
  ~RangeSearchResult() { delete[] lims; delete[] labels; delete[] distances; }
};
struct FaissException : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename E, typename D>
struct BaseIndex {
  using component_t = E; using distance_t = D;
  int d; idx_t ntotal = 0; bool verbose = false, is_trained = true; MetricType metric_type; std::vector<E> xs;
  explicit BaseIndex(idx_t dim = 0, MetricType m = METRIC_L2) : d((int)dim), metric_type(m) {}
  virtual ~BaseIndex() = default;
  int width() const { return std::is_same<E, uint8_t>::value ? d / 8 : d; }
  D dist(const E* a, const E* b) const {
    if constexpr (std::is_same<E, uint8_t>::value) { D s = 0; for (int i = 0; i < width(); i++) s += __builtin_popcount(a[i] ^ b[i]); return s; }
    else { D s = 0; for (int i = 0; i < d; i++) s += metric_type == METRIC_INNER_PRODUCT ? a[i] * b[i] : (a[i] - b[i]) * (a[i] - b[i]); return s; }
  }
  bool better(D a, D b) const { return metric_type == METRIC_INNER_PRODUCT && !std::is_same<E, uint8_t>::value ? a > b : a < b; }
  virtual idx_t label(idx_t i) const { return i; }
  virtual const BaseIndex* data() const { return this; }
  virtual void train(idx_t, const E*) {}
  virtual void add(idx_t n, const E* x) { xs.insert(xs.end(), x, x + n * width()); ntotal += n; }
  virtual void add_with_ids(idx_t, const E*, const idx_t*) { throw FaissException("not supported"); }
  virtual void reset() { xs.clear(); ntotal = 0; }
  virtual size_t remove_ids(const IDSelector&) { throw FaissException("not supported"); }
  virtual void reconstruct(idx_t key, E* out) const { std::memcpy(out, xs.data() + key * width(), width() * sizeof(E)); }
  virtual void search(idx_t n, const E* x, idx_t k, D* dis, idx_t* lab, const SearchParameters* p = nullptr) const {
    const BaseIndex* b = data();
    for (idx_t q = 0; q < n; q++) {
      std::vector<std::pair<D, idx_t>> r;
      for (idx_t i = 0; i < b->ntotal; i++) { idx_t l = label(i); if (p && p->sel && !p->sel->is_member(l)) continue; r.push_back({b->dist(x + q * width(), b->xs.data() + i * width()), l}); }
      std::sort(r.begin(), r.end(), [&](auto& u, auto& v) { return u.first == v.first ? u.second < v.second : better(u.first, v.first); });
      for (idx_t j = 0; j < k; j++) { bool ok = j < (idx_t)r.size(); dis[q * k + j] = ok ? r[j].first : D(-1); lab[q * k + j] = ok ? r[j].second : -1; }
    }
  }
  virtual void range_search(idx_t n, const E* x, D radius, RangeSearchResult* res, const SearchParameters* p = nullptr) const {
    const BaseIndex* b = data(); std::vector<idx_t> l; std::vector<float> ds;
    for (idx_t q = 0; q < n; q++) {
      res->lims[q] = l.size();
      for (idx_t i = 0; i < b->ntotal; i++) { idx_t id = label(i); if (p && p->sel && !p->sel->is_member(id)) continue; D v = b->dist(x + q * width(), b->xs.data() + i * width()); if (better(v, radius)) { l.push_back(id); ds.push_back((float)v); } }
    }
    res->lims[n] = l.size(); res->labels = new idx_t[l.size() + 1]; res->distances = new float[l.size() + 1];
    std::copy(l.begin(), l.end(), res->labels); std::copy(ds.begin(), ds.end(), res->distances);
  }
};
struct Index : BaseIndex<float, float> { using BaseIndex::BaseIndex; };
struct IndexBinary : BaseIndex<uint8_t, int32_t> { int code_size = 0; explicit IndexBinary(idx_t dim = 0, MetricType m = METRIC_L2) : BaseIndex(dim, m), code_size((int)dim / 8) {} };
struct IndexFlat : Index { using Index::Index; };
struct IndexFlatL2 : IndexFlat { explicit IndexFlatL2(idx_t d = 0) : IndexFlat(d, METRIC_L2) {} };
struct IndexFlatIP : IndexFlat { explicit IndexFlatIP(idx_t d = 0) : IndexFlat(d, METRIC_INNER_PRODUCT) {} };
struct IndexBinaryFlat : IndexBinary { explicit IndexBinaryFlat(idx_t d = 0) : IndexBinary(d) {} };
template <class B>
struct IndexIDMap2Template : B {
  using E = typename B::component_t; using D = typename B::distance_t;
  B* index; bool own_fields = false; std::vector<idx_t> id_map; std::unordered_map<idx_t, idx_t> rev_map;
  explicit IndexIDMap2Template(B* i) : B(i->d, i->metric_type), index(i) {}
  IndexIDMap2Template() : B(0), index(nullptr) {}
  ~IndexIDMap2Template() override { if (own_fields) delete index; }
  idx_t label(idx_t i) const override { return id_map[i]; }
  const BaseIndex<E, D>* data() const override { return index; }
  void add(idx_t, const E*) override { throw FaissException("add does not make sense with IndexIDMap"); }
  void add_with_ids(idx_t n, const E* x, const idx_t* ids) override { index->add(n, x); for (idx_t i = 0; i < n; i++) { rev_map[ids[i]] = id_map.size(); id_map.push_back(ids[i]); } this->ntotal = index->ntotal; }
  void reset() override { index->reset(); id_map.clear(); rev_map.clear(); this->ntotal = 0; }
  size_t remove_ids(const IDSelector& s) override {
    std::vector<E> nx; std::vector<idx_t> nm; size_t removed = 0; int w = index->width();
    for (size_t i = 0; i < id_map.size(); i++) { if (s.is_member(id_map[i])) { removed++; continue; } nx.insert(nx.end(), index->xs.begin() + i * w, index->xs.begin() + (i + 1) * w); nm.push_back(id_map[i]); }
    index->xs = nx; index->ntotal = this->ntotal = nm.size(); id_map = nm; construct_rev_map(); return removed;
  }
  void construct_rev_map() { rev_map.clear(); for (size_t i = 0; i < id_map.size(); i++) rev_map[id_map[i]] = i; }
  void reconstruct(idx_t key, E* out) const override { auto it = rev_map.find(key); if (it == rev_map.end()) throw FaissException("key not found"); index->reconstruct(it->second, out); }
};
typedef IndexIDMap2Template<Index> IndexIDMap2; typedef IndexIDMap2Template<Index> IndexIDMap;
typedef IndexIDMap2Template<IndexBinary> IndexBinaryIDMap2; typedef IndexIDMap2Template<IndexBinary> IndexBinaryIDMap;
struct IndexIVF : Index { using Index::Index; }; struct IndexIVFFlat : IndexIVF { using IndexIVF::IndexIVF; }; struct IndexIVFPQ : IndexIVF { using IndexIVF::IndexIVF; };
struct IndexBinaryIVF : IndexBinary { using IndexBinary::IndexBinary; };
template <class I> void mini_write(const I* idx, const char* fname) {
  auto* m = dynamic_cast<const IndexIDMap2Template<typename std::remove_const<I>::type>*>(idx); if (!m) throw FaissException("write");
  std::ofstream f(fname, std::ios::binary | std::ios::trunc); int64_t h[3] = {m->d, m->metric_type, (int64_t)m->id_map.size()}; f.write((char*)h, sizeof h);
  f.write((char*)m->id_map.data(), 8 * m->id_map.size()); f.write((char*)m->index->xs.data(), m->index->xs.size() * sizeof(m->index->xs[0])); f.flush(); if (!f) throw FaissException("write failed");
}
template <class I, class F> I* mini_read(const char* fname) {
  std::ifstream f(fname, std::ios::binary); int64_t h[3]; if (!f.read((char*)h, sizeof h)) throw FaissException("could not open or read");
  auto* flat = new I(h[0], (MetricType)h[1]); flat->xs.resize(h[2] * flat->width()); flat->ntotal = h[2]; auto* m = new IndexIDMap2Template<I>(flat); m->own_fields = true; m->id_map.resize(h[2]); m->ntotal = h[2];
  f.read((char*)m->id_map.data(), 8 * h[2]); f.read((char*)flat->xs.data(), flat->xs.size() * sizeof(flat->xs[0])); if (!f) throw FaissException("truncated"); m->construct_rev_map(); return m;
}
inline void write_index(const Index* i, const char* f) { mini_write(i, f); }
inline void write_index_binary(const IndexBinary* i, const char* f) { mini_write(i, f); }
inline Index* read_index(const char* f, int = 0) { return mini_read<Index, IndexFlat>(f); }
inline IndexBinary* read_index_binary(const char* f, int = 0) { return mini_read<IndexBinary, IndexBinaryFlat>(f); }
template <class F> void set_fvec_L2sqr_hook(F) {}
template <class F> void set_fvec_inner_product_hook(F) {}
}
