// For demonstrations: a small cluster with one region and plain sequential calls against it, in one fiber.
#pragma once
#include "store.h"
#include "coor.h"
#include "mvcc/codec.h"
#include "proto/raft.pb.h"
namespace kit {
using namespace dingodb; using st::Reg; using std::string; using std::vector; namespace ps = pb::store;
inline string Key(const string& prefix, int i) { return prefix + "00000001" + char('b' + i); }
struct Store { sim::Ctx& c; cl::Cluster k; Reg r; string pre; std::unique_ptr<st::Caller> ca;
  explicit Store(sim::Ctx& x) : c(x), k(x) {}
  string K(int i) { return Key(pre, i); }
  int64_t Now() { return k.fake->Ts(1); }
  static int64_t Ms(int64_t ts) { return ts >> 18; }
  static int64_t Ts(int64_t ms) { return ms << 18; }
  template <class Q, class R> bool Do(const char* m, Q q, R& p, int64_t* code = nullptr) { for (int i = 0; i < 40 && !sim::Failed(); i++) { st::SetCtx(q, r); if (std::is_same<Q, ps::TxnGetRequest>::value || std::is_same<Q, ps::TxnScanRequest>::value) q.mutable_context()->set_isolation_level(ps::SnapshotIsolation); st::Caller::Meta mm; auto res = ca->Once(m, r, q, p, &mm); if (code) *code = mm.code; sim::Log(string(m) + " -> " + cl::S(mm.code) + " " + p.ShortDebugString()); if (res == st::kOk) return true; sim::SleepUs(100000); } return false; }
  // body runs with the region up. sep: several clients may be spawned by body.
  void Go(const string& prefix, int stores, std::function<void()> body) {
    auto cfg = c.Swarm(); cfg.max_steps = 5000000; sim::Start(cfg); pre = prefix; k.conf.stores = stores; k.conf.inplace_apply = true;
    r.id = 80001; r.start = prefix + "00000001"; r.end = prefix + "00000002"; for (int i = 1; i <= stores; i++) r.peers.push_back(i);
    sim::Spawn([this, body] { k.Start(); if (sim::Failed()) return; if (!st::CreateRegion(k, r) || !st::WaitLeader(k, r.id)) { sim::Fatal("demo: no region"); } rocksdb::simdisk::SyncAll(); ca = std::make_unique<st::Caller>(k); ca->guess = st::LeaderMachine(r.id); body(); if (!sim::Failed()) sim::Stop(); }, "main", 1);
    sim::Run();
  }
  // transactions
  ps::TxnPrewriteResponse Prewrite(int64_t start, int64_t ttl, vector<std::pair<string, string>> kvs, bool async = false, ps::Op op = ps::Put, bool pess = false) { ps::TxnPrewriteRequest q; ps::TxnPrewriteResponse p; int n = 0; for (auto& x : kvs) { auto* m = q.add_mutations(); m->set_op(op); m->set_key(x.first); m->set_value(x.second); if (pess) { q.add_pessimistic_checks(ps::TxnPrewriteRequest::DO_PESSIMISTIC_CHECK); } n++; } q.set_primary_lock(kvs[0].first); q.set_start_ts(start); q.set_lock_ttl(ttl); q.set_txn_size(kvs.size()); if (async) { q.set_use_async_commit(true); q.set_min_commit_ts(start + 1); for (size_t i = 1; i < kvs.size(); i++) q.add_secondaries(kvs[i].first); } Do("TxnPrewrite", q, p); return p; }
  ps::TxnCommitResponse Commit(int64_t start, int64_t commit, vector<string> keys) { ps::TxnCommitRequest q; ps::TxnCommitResponse p; q.set_start_ts(start); q.set_commit_ts(commit); for (auto& x : keys) q.add_keys(x); Do("TxnCommit", q, p); return p; }
  ps::TxnGetResponse Get(const string& key, int64_t ts) { ps::TxnGetRequest q; ps::TxnGetResponse p; q.set_key(key); q.set_start_ts(ts); Do("TxnGet", q, p); return p; }
  ps::TxnBatchRollbackResponse Rollback(int64_t start, vector<string> keys) { ps::TxnBatchRollbackRequest q; ps::TxnBatchRollbackResponse p; q.set_start_ts(start); for (auto& x : keys) q.add_keys(x); Do("TxnBatchRollback", q, p); return p; }
  ps::TxnCheckTxnStatusResponse Check(const string& primary, int64_t start, int64_t caller, int64_t now, bool rb = true) { ps::TxnCheckTxnStatusRequest q; ps::TxnCheckTxnStatusResponse p; q.set_primary_key(primary); q.set_lock_ts(start); q.set_caller_start_ts(caller); q.set_current_ts(now); q.set_rollback_if_not_exist(rb); Do("TxnCheckTxnStatus", q, p); return p; }
  ps::TxnPessimisticLockResponse Lock(int64_t start, int64_t fut, int64_t ttl, const string& primary, vector<string> keys, bool values = false) { ps::TxnPessimisticLockRequest q; ps::TxnPessimisticLockResponse p; for (auto& x : keys) { auto* m = q.add_mutations(); m->set_op(ps::Lock); m->set_key(x); } q.set_primary_lock(primary); q.set_start_ts(start); q.set_lock_ttl(ttl); q.set_for_update_ts(fut); q.set_return_values(values); Do("TxnPessimisticLock", q, p); return p; }
  ps::TxnPessimisticRollbackResponse PessRollback(int64_t start, int64_t fut, vector<string> keys) { ps::TxnPessimisticRollbackRequest q; ps::TxnPessimisticRollbackResponse p; q.set_start_ts(start); q.set_for_update_ts(fut); for (auto& x : keys) q.add_keys(x); Do("TxnPessimisticRollback", q, p); return p; }
  ps::TxnHeartBeatResponse Beat(const string& primary, int64_t start, int64_t ttl) { ps::TxnHeartBeatRequest q; ps::TxnHeartBeatResponse p; q.set_primary_lock(primary); q.set_start_ts(start); q.set_advise_lock_ttl(ttl); Do("TxnHeartBeat", q, p); return p; }
  void Gc(int64_t sp) { k.fake->safe_point = sp; for (int m = 1; m <= k.conf.stores; m++) cl::OnProc(k.procs[m], "gc", [sp] { Server::GetInstance().GetStoreMetaManager()->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{Constant::kDefaultTenantId, sp}}, false); }); ps::TxnGcRequest q; ps::TxnGcResponse p; q.set_safe_point_ts(sp); Do("TxnGc", q, p); }
  // a committed version
  void Put(const string& key, const string& val, int64_t* commit = nullptr) { int64_t s = Now(); Prewrite(s, Ms(s) + 3000, {{key, val}}); int64_t ct = Now(); Commit(s, ct, {key}); if (commit) *commit = ct; }
  void Del(const string& key) { int64_t s = Now(); Prewrite(s, Ms(s) + 3000, {{key, ""}}, false, ps::Delete); Commit(s, Now(), {key}); }
};
// coordinators: one group, sequential calls
struct Coor { sim::Ctx& c; cl::Cluster k; int64_t g; std::unique_ptr<co::Caller> ca; std::shared_ptr<bool> stop = std::make_shared<bool>(false);
  Coor(sim::Ctx& x, int64_t group) : c(x), k(x), g(group) {}
  void Go(int coords, std::function<void()> body) {
    auto cfg = c.Swarm(); cfg.max_steps = 5000000; cfg.stall_p = 0; sim::Start(cfg); k.conf.stores = 0; k.conf.coords = coords;
    sim::Spawn([this, body] { k.Start(); if (sim::Failed()) return; if (!st::WaitLeader(k, g)) sim::Fatal("demo: no leader"); rocksdb::simdisk::SyncAll(); ca = std::make_unique<co::Caller>(k, g); body(); *stop = true; sim::Stop(); }, "main", 1);
    sim::Run();
  }
  template <class R, class Q> R Ask(const google::protobuf::ServiceDescriptor* sd, const char* method, const Q& q, int timeout_ms = 2500) { R p; for (int i = 0; i < 60 && !sim::Failed(); i++) { if (ca->Once(sd, method, q, p, nullptr, timeout_ms) == st::kOk) return p; sim::SleepUs(200000); } if (!sim::Failed()) sim::Fatal(string("demo: no answer to ") + method + ": " + p.ShortDebugString()); return p; }
  int Leader() { return st::LeaderMachine(g); }
  bool MoveLeader() { int l = Leader(); for (int t = 0; t < 60; t++) { sim_raft::StepDown(st::Group(g)); st::WaitLeader(k, g); if (Leader() > 0 && Leader() != l) return true; } return false; }
  void Every(uint64_t us, std::function<void(cl::Proc*)> fn) { for (auto& x : k.procs) { int m = x.first; if (m < cl::kCoorBase || m == cl::kFakeCoor) continue; sim::Spawn([=, this] { while (!*stop) { sim::SleepUs(us); if (k.Up(m)) cl::OnProc(k.procs[m], "tick", [=, this] { fn(k.procs[m]); }); } }, "tick", 1); } }
};
}  // namespace kit
