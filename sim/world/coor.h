// Coordinator worlds: three coordinators, clients that follow leader hints, fault plans.
#pragma once
#include "store.h"
#include "rocksdb/db.h"
namespace co {
using namespace dingodb;
using cl::S;
constexpr int64_t kMeta = 0, kKv = 1, kTso = 2, kInc = 3;
inline int Leader(int64_t group) { return st::LeaderMachine(group); }
struct Meta { int machine = 0; bool solid = false; int64_t code = 0; uint64_t t0 = 0, t1 = 0; };
struct Caller { cl::Cluster& c; int64_t group; int guess = 0; Caller(cl::Cluster& x, int64_t g) : c(x), group(g) {}
  template <class Q, class R> st::Res Once(const google::protobuf::ServiceDescriptor* sd, const char* method, const Q& q, R& r, Meta* m = nullptr, int timeout_ms = 2500) {
    int at = guess ? guess : cl::kCoorBase + 1; int l0 = Leader(group); Meta mm; mm.t0 = sim::NowUs(); bool ok = cl::Call(sd, method, cl::Addr(at), q, r, timeout_ms); int l1 = Leader(group); mm.t1 = sim::NowUs(); mm.machine = at; mm.solid = ok && l0 == at && l1 == at; mm.code = ok ? r.error().errcode() : -1; if (m) *m = mm;
    if (!ok) { Next(); return st::kUnknown; }
    if (!mm.code) return st::kOk;
    if (mm.code == pb::error::ERAFT_NOTLEADER) { int h = 0; if (r.error().has_leader_location()) for (int i = 1; i <= c.conf.coords; i++) { auto l = cl::Loc(cl::kCoorBase + i); if (l.host() == r.error().leader_location().host() && l.port() == r.error().leader_location().port()) h = cl::kCoorBase + i; } if (h && h != at) guess = h; else Next(); return st::kNo; }
    return st::kUnknown;
  }
  void Next() { guess = cl::kCoorBase + 1 + ((guess ? guess : cl::kCoorBase + 1) - cl::kCoorBase) % c.conf.coords; }
};
inline const google::protobuf::ServiceDescriptor* MetaSvc() { return pb::meta::MetaService::descriptor(); }
inline const google::protobuf::ServiceDescriptor* CoorSvc() { return pb::coordinator::CoordinatorService::descriptor(); }
inline const google::protobuf::ServiceDescriptor* VerSvc() { return pb::version::VersionService::descriptor(); }
// Boots the cluster, runs body under faults, ends the faults, runs after.
struct Base {
  sim::Ctx& c; cl::Cluster k; st::Faults f; bool quiet = false; std::vector<int64_t> groups;
  explicit Base(sim::Ctx& x) : c(x), k(x) {}
  void Setup(std::vector<int64_t> gs, uint64_t span = 0);
  bool Up();                                     // boots, waits for leaders
  void Ticks(std::function<void(cl::Proc*)> fn, uint64_t every_us, std::shared_ptr<bool> stop);
  void Under(std::function<void()> clients);     // runs clients while faults happen, then recovers
  bool Settle(int64_t group, uint64_t us = 30000000);
};
}
