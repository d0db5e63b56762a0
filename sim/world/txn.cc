// Distributed transactions: clients run the Percolator protocol (optimistic, pessimistic, one-phase and async commit) over replicated
// regions, die at any stage, and resolve each other's locks, while replicas crash, partition, change leader and truncate logs.
#include "store.h"
#include "mvcc/codec.h"
#include "proto/raft.pb.h"
#include "rocksdb/db.h"
using namespace dingodb;
namespace dingodb { DECLARE_int64(gc_delete_batch_count); }
namespace {
using st::Reg; using st::Res; using cl::S; using std::string; using std::vector; using std::map; using std::set;
namespace ps = pb::store;
string Kn(int i) { return string("x") + "00000001" + char('b' + i); }
string Sk(const string& k) { return k.size() ? "k" + S(k.back() - 'b') : "-"; }
string Sv(const string& v) { return v.empty() ? "-" : v.substr(0, v.find('~')); }
struct Write { bool del = false, absent = false; string val; };
struct Txn {
  int id = 0, client = 0; int64_t start = 0, commit = 0; bool pess = false, async = false, onepc = false, unk = false; string primary; map<string, Write> w; map<string, int64_t> base;   // base: no other commit may lie between it and this commit
  int outcome = 0;                              // 0 unknown, 1 reported committed, 2 reported aborted
  bool give_up = false, acked = false; int64_t ttl = 0; int64_t fut = 0;   // give_up: its client began to roll back; acked: the primary lock was acknowledged, alive until ttl (ms)
  map<string, int64_t> held;                    // key -> ttl of an acknowledged lock
  struct LR { string val; bool on = false; }; map<string, LR> lread;
  string Name() const { return "t" + S(id) + "@" + S(start & 0xfffffff) + (pess ? "p" : "") + (async ? "a" : "") + (onepc ? "1" : ""); }
};
using TxnP = std::shared_ptr<Txn>;
struct Ver { int64_t start = 0; int op = 0; string sv; };
struct Read { int client = 0; string key, val; int64_t ts = 0; const char* how = ""; };
string Ts(int64_t t) { return S((t >> 18) % 1000000) + "." + S(t & 0x3ffff); }

struct World {
  sim::Ctx& c; cl::Cluster k; vector<Reg> regs; int nk = 3; vector<TxnP> txns; map<int64_t, TxnP> by_start; map<string, map<int64_t, Ver>> W; map<string, map<int64_t, string>> D; vector<Read> reads; int vals = 0;
  std::multiset<int64_t> active; int64_t floor = 0; bool gc = false, batch_resolve = true; int64_t last_gc = 0; bool two = false;
  explicit World(sim::Ctx& x) : c(x), k(x) {}
  void Bad(const char* prop, const string& text) { if (c.Oracle(prop)) sim::Fail(string(prop) + ": " + text); else sim::Count("other_property_failed"); }
  bool ttl = false;   // many heartbeats
  int64_t Now() { return k.fake->Ts(1); }
  Reg& Of(const string& key) { for (auto& r : regs) if (key >= r.start && key < r.end) return r; sim::Fatal("harness: key outside"); }
  map<int64_t, vector<string>> Split(const vector<string>& ks) { map<int64_t, vector<string>> m; for (auto& x : ks) m[Of(x).id].push_back(x); return m; }
  Reg& ById(int64_t id) { for (auto& r : regs) if (r.id == id) return r; sim::Fatal("harness: region"); }

  // what the replicated log commits
  void OnCommit(const string& data) {
    pb::raft::RaftCmdRequest q; if (!q.ParseFromString(data)) return; int64_t now = sim::WallUs() / 1000; now = std::max(now, k.fake->phys);
    for (auto& r : q.requests()) { if (!r.has_txn_raft_req()) continue; for (auto& cf : r.txn_raft_req().multi_cf_put_and_delete().puts_with_cf()) for (auto& kv : cf.kvs()) {
      string key; int64_t ts = 0; if (!mvcc::Codec::DecodeKey(kv.key(), key, ts)) continue;
      if (cf.cf_name() == "data") { D[key][ts] = kv.value(); continue; }
      if (cf.cf_name() != "write") continue;
      ps::WriteInfo wi; wi.ParseFromString(kv.value()); Ver v; v.start = wi.start_ts(); v.op = wi.op(); v.sv = wi.short_value();
      auto old = W[key].find(ts); bool had = old != W[key].end(); bool same = had && old->second.start == v.start && old->second.op == v.op && old->second.sv == v.sv;
      if (had && !same && old->second.op != ps::Rollback) Bad("T01", "the commit record of " + N(old->second.start) + " on " + Sk(key) + " at " + Ts(ts) + " is overwritten by a " + (v.op == ps::Rollback ? "rollback" : "commit") + " record of " + N(v.start));
      if (same) continue;
      W[key][ts] = v; auto it = by_start.find(v.start); TxnP x = it == by_start.end() ? nullptr : it->second;
      sim::Log("write " + Sk(key) + " at " + Ts(ts) + " op " + S(v.op) + " of " + N(v.start));
      if (v.op == ps::Rollback) { sim::Count("probe_rollback_record"); if (x && x->acked && !x->give_up && now <= x->ttl) Bad("T04", N(v.start) + " is rolled back on " + Sk(key) + " at " + S(now % 1000000) + " ms although its primary lock is alive until " + S(x->ttl % 1000000) + " ms"); continue; }
      for (auto& y : txns) if (y->start != v.start && !y->give_up && !y->outcome && y->held.count(key) && now <= y->held[key] && !Done(key, y->start)) Bad("T06", N(v.start) + " commits a write on " + Sk(key) + " while " + y->Name() + " holds its lock");
    } }
  }
  bool Done(const string& key, int64_t start) { for (auto& v : W[key]) if (v.second.start == start) return true; return false; }
  string N(int64_t start) { auto it = by_start.find(start); return it == by_start.end() ? "unknown transaction " + Ts(start) : it->second->Name(); }
  string Val(const string& key, const Ver& v) { if (v.op == ps::Delete) return ""; if (!v.sv.empty()) return v.sv; auto it = D[key].find(v.start); return it == D[key].end() ? "<missing data>" : it->second; }
  const Ver* At(const string& key, int64_t ts, int64_t* cts = nullptr) { auto& m = W[key]; for (auto it = m.upper_bound(ts); it != m.begin();) { --it; if (it->second.op == ps::Rollback) continue; if (cts) *cts = it->first; return &it->second; } return nullptr; }

  struct Client {
    World& w; int id; sim::Rng rng; map<int64_t, std::unique_ptr<st::Caller>> ca;
    Client(World& x, int i) : w(x), id(i), rng(sim::Mix(x.c.seed, 9000 + i)) { for (auto& r : w.regs) { ca[r.id] = std::make_unique<st::Caller>(w.k); ca[r.id]->guess = r.peers[i % r.peers.size()]; } }
    void Nap() { if (rng.Chance(0.4)) sim::SleepUs(rng.Chance(0.8) ? rng.Below(3000) : rng.Below(200000)); }
    // retried until answered
    template <class Q, class R> Res Do(const char* method, Reg& r, const Q& q, R& p, st::Caller::Meta* m = nullptr, int tries = 8) {
      bool unk = false;
      for (int i = 0; i < tries && !sim::Failed(); i++) { st::Caller::Meta mm; Q qq = q; st::SetCtx(qq, r); Res res = ca[r.id]->Once(method, r, qq, p, &mm); if (m) *m = mm; sim::Log("c" + S(id) + " " + method + " region " + S(r.id) + " at " + S(mm.machine) + " -> " + (res == st::kOk ? "ok" : res == st::kNo ? "no" : "?") + " " + S(mm.code)); if (res == st::kOk) return res; if (mm.code == pb::error::ETXN_MEMORY_LOCK_CONFLICT) return res; unk |= res == st::kUnknown; sim::SleepUs(rng.Below(i < 2 ? 60000 : 400000)); }
      return unk ? st::kUnknown : st::kNo;
    }
    // ---- lock resolution; true: the caller may try again at once
    bool Settle(const string& key, int64_t start, int64_t commit, bool pess, int64_t fut) {   // apply a decided outcome to one key
      Reg& r = w.Of(key);
      if (pess) { ps::TxnPessimisticRollbackRequest q; ps::TxnPessimisticRollbackResponse p; q.set_start_ts(start); q.set_for_update_ts(fut); q.add_keys(key); return Do("TxnPessimisticRollback", r, q, p) == st::kOk; }
      ps::TxnResolveLockRequest q; ps::TxnResolveLockResponse p; if (w.batch_resolve && rng.Chance(0.25)) { auto* i = q.add_txn_infos(); i->set_start_ts(start); i->set_commit_ts(commit); sim::Count("ops_batch_resolve"); } else { q.add_keys(key); q.set_start_ts(start); q.set_commit_ts(commit); sim::Count("ops_resolve"); }
      return Do("TxnResolveLock", r, q, p) == st::kOk && !p.txn_result().has_locked();
    }
    bool Resolve(const ps::LockInfo& l, int64_t caller, set<int64_t>* bypass) {
      sim::Count("probe_lock_met"); int64_t start = l.lock_ts(); bool force = false; int64_t now = w.Now();
      for (int round = 0; round < 3; round++) {
        ps::TxnCheckTxnStatusRequest q; ps::TxnCheckTxnStatusResponse p; q.set_primary_key(l.primary_lock()); q.set_lock_ts(start); now = w.Now(); q.set_caller_start_ts(caller > 0 ? caller : rng.Chance(0.5) ? 1 : now); q.set_current_ts(now); q.set_force_sync_commit(force); q.set_rollback_if_not_exist(l.lock_ttl() < (now >> 18));
        if (Do("TxnCheckTxnStatus", w.Of(l.primary_lock()), q, p) != st::kOk) return false;
        auto& tr = p.txn_result(); sim::Log("c" + S(id) + " status of " + w.N(start) + ": action " + S(p.action()) + " commit " + Ts(p.commit_ts()) + " ttl " + S(p.lock_ttl() % 1000000) + " now " + S((now >> 18) % 1000000));
        if (tr.has_locked() && tr.locked().use_async_commit() && !force) {
          auto& pl = tr.locked(); if (pl.lock_ttl() >= (now >> 18)) return false;
          sim::Count("probe_async_commit_resolved_by_other"); int64_t ct = pl.min_commit_ts(); bool rolled = false, sync = false; int64_t fixed = 0; vector<string> sec(pl.secondaries().begin(), pl.secondaries().end());
          for (auto& g : w.Split(sec)) { ps::TxnCheckSecondaryLocksRequest sq; ps::TxnCheckSecondaryLocksResponse sp; for (auto& x : g.second) sq.add_keys(x); sq.set_start_ts(start); if (Do("TxnCheckSecondaryLocks", w.ById(g.first), sq, sp) != st::kOk) return false;
            if (sp.commit_ts() > 0) { fixed = sp.commit_ts(); break; } if (sp.txn_result().has_locked()) { auto& pk = sp.txn_result().locked(); if (pk.lock_ts() == start && pk.lock_type() == ps::Lock) { Settle(pk.key(), start, 0, true, pk.for_update_ts()); sim::Count("probe_unprewritten_secondary_released"); } return false; } if (sp.txn_result().has_txn_not_found() || sp.locks_size() < (int)g.second.size()) { rolled = true; break; } for (auto& x : sp.locks()) { if (!x.use_async_commit()) sync = true; ct = std::max(ct, x.min_commit_ts()); } }
          if (!fixed && !rolled && sync) { force = true; continue; }
          int64_t out = fixed ? fixed : rolled ? 0 : ct; sec.push_back(l.primary_lock()); for (size_t i = sec.size(); i > 1; i--) std::swap(sec[i - 1], sec[rng.Below(i)]);
          bool ok = true; for (auto& x : sec) ok = Settle(x, start, out, false, 0) && ok; return ok;
        }
        if (tr.has_primary_mismatch() || tr.has_txn_not_found()) return false;
        if (p.action() == ps::LockNotExistDoNothing && p.commit_ts() > 0) return Settle(l.key(), start, p.commit_ts(), l.lock_type() == ps::Lock, l.for_update_ts());
        if (p.action() == ps::TTLExpireRollback || p.action() == ps::LockNotExistRollback) { sim::Count("probe_dead_transaction_rolled_back"); return Settle(l.key(), start, 0, l.lock_type() == ps::Lock, l.for_update_ts()); }
        if (p.action() == ps::MinCommitTSPushed && bypass) { bypass->insert(start); sim::Count("probe_min_commit_ts_pushed"); return true; }
        return false;
      }
      return false;
    }
    template <class T> void Ctx(T& q, const set<int64_t>& bypass) { q.mutable_context()->set_isolation_level(ps::SnapshotIsolation); for (auto x : bypass) q.mutable_context()->add_resolved_locks(x); }
    // ---- snapshot reads; false: gave up
    bool ReadKeys(const vector<string>& keys, int64_t ts, int how, map<string, string>* out = nullptr) {
      set<int64_t> bypass; bool all = true;
      auto rec = [&](const string& key, const string& v, const char* h) { if (out) (*out)[key] = v; Read r; r.client = id; r.key = key; r.val = v; r.ts = ts; r.how = h; w.reads.push_back(r); sim::Log("c" + S(id) + " reads " + Sk(key) + "=" + Sv(v) + " at " + Ts(ts) + " by " + h); sim::Count("ops_read"); };
      auto groups = w.Split(keys);
      for (auto& g : groups) {
        Reg& r = w.ById(g.first); bool done = false;
        if (how == 0) { for (auto& key : g.second) { done = false; for (int i = 0; i < 14 && !done && !sim::Failed(); i++) { ps::TxnGetRequest q; ps::TxnGetResponse p; q.set_key(key); q.set_start_ts(ts); Ctx(q, bypass); st::Caller::Meta m; Res res = Do("TxnGet", r, q, p, &m, 4); if (res == st::kOk && p.txn_result().has_locked()) { if (!Resolve(p.txn_result().locked(), ts, &bypass)) sim::SleepUs(20000 + rng.Below(200000)); continue; } if (res != st::kOk) { sim::SleepUs(rng.Below(30000)); continue; } done = true; if (m.solid) rec(key, p.value(), "get"); } all = all && done; } continue; }
        for (int i = 0; i < 14 && !done && !sim::Failed(); i++) {
          st::Caller::Meta m; map<string, string> got;
          if (how == 1) { ps::TxnBatchGetRequest q; ps::TxnBatchGetResponse p; for (auto& x : g.second) q.add_keys(x); q.set_start_ts(ts); Ctx(q, bypass); Res res = Do("TxnBatchGet", r, q, p, &m, 4); if (res == st::kOk && p.txn_result().has_locked()) { if (!Resolve(p.txn_result().locked(), ts, &bypass)) sim::SleepUs(20000 + rng.Below(200000)); continue; } if (res != st::kOk) { sim::SleepUs(rng.Below(30000)); continue; } for (auto& kv : p.kvs()) got[kv.key()] = kv.value(); done = true; }
          else { bool bad = false, lk = false, more = true; string from = r.start, last, sid; int lim = rng.Chance(0.5) ? 100 : 1 + rng.Below(3); int pages = 0;
            while (more && !bad && pages++ < 40) { ps::TxnScanRequest q; ps::TxnScanResponse p; auto* rg = q.mutable_range(); rg->mutable_range()->set_start_key(r.start); rg->mutable_range()->set_end_key(r.end); rg->set_with_start(true); rg->set_with_end(false); q.set_start_ts(ts); q.set_limit(lim); q.mutable_stream_meta()->set_limit(lim); if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid); Ctx(q, bypass);
              st::Caller::Meta m1; st::SetCtx(q, r); Ctx(q, {}); Res res = sid.empty() ? Do("TxnScan", r, q, p, &m1, 4) : ca[r.id]->Once("TxnScan", r, q, p, &m1); if (res != st::kOk) { bad = true; break; } if (sid.empty()) m = m1; else if (!m1.solid || m1.machine != m.machine) { bad = true; break; }
              if (p.txn_result().has_locked()) { lk = true; if (!Resolve(p.txn_result().locked(), ts, &bypass)) sim::SleepUs(20000 + rng.Below(200000)); break; }
              for (auto& kv : p.kvs()) { if (!last.empty() && kv.key() <= last) w.Bad("T02", "a scan at " + Ts(ts) + " returns " + Sk(kv.key()) + " after " + Sk(last)); last = kv.key(); got[kv.key()] = kv.value(); }
              more = p.stream_meta().has_more(); sid = p.stream_meta().stream_id(); if (more) { sim::Count("probe_scan_continued"); Nap(); if (sid.empty()) { bad = true; break; } } }
            if (bad) { sim::SleepUs(rng.Below(30000)); continue; } if (lk) continue; done = true; }
          if (done && m.solid) { if (how == 1) for (auto& x : g.second) rec(x, got[x], "batch get"); else for (int z = 0; z < w.nk; z++) if (&w.Of(Kn(z)) == &r) { rec(Kn(z), got.count(Kn(z)) ? got[Kn(z)] : "", "scan"); got.erase(Kn(z)); } if (how == 2) for (auto& x : got) w.Bad("T02", "a scan returns a key nobody wrote: " + st::Show(x.first)); }
        }
        all = all && done;
      }
      return all;
    }
    bool Die() { if (!dying || !rng.Chance(die_p)) return false; sim::Count("fault.client_died_mid_transaction"); sim::Log("c" + S(id) + " dies"); return true; }
    bool dying = true; double die_p = 0.05;
    // the client's own rollback
    void Rollback(TxnP t) {
      t->give_up = true; vector<string> ks; for (auto& x : t->w) ks.push_back(x.first); if (ks.empty()) { t->outcome = 2; return; } if (Die()) return; bool prim = false;
      auto gs = w.Split(ks); vector<int64_t> ord; int64_t pr = w.Of(t->primary).id; ord.push_back(pr); for (auto& g : gs) if (g.first != pr) ord.push_back(g.first);
      for (auto rid : ord) { if (!gs.count(rid)) continue; Reg& r = w.ById(rid);
        if (t->pess) { ps::TxnPessimisticRollbackRequest q; ps::TxnPessimisticRollbackResponse p; q.set_start_ts(t->start); q.set_for_update_ts(std::max(t->fut, t->start)); for (auto& x : gs[rid]) q.add_keys(x); Do("TxnPessimisticRollback", r, q, p); }
        ps::TxnBatchRollbackRequest q; ps::TxnBatchRollbackResponse p; q.set_start_ts(t->start); for (auto& x : gs[rid]) q.add_keys(x); Res res = Do("TxnBatchRollback", r, q, p); if (res == st::kOk && !p.txn_result().has_locked() && rid == pr) prim = true; if (rid == pr && !prim) break; if (Die()) break; }
      if (prim && !(t->unk && (t->async || t->onepc))) t->outcome = 2; sim::Log("c" + S(id) + " " + t->Name() + (prim ? " aborted" : " abort unfinished"));
    }
    // Heartbeats, some of them late ones that advise less than an earlier one, and then perhaps a wait within the lifetime they promised, with somebody else looking at the lock.
    void Beat(TxnP t, int64_t& ttl) {
      for (int n = 1 + rng.Below(3); n > 0; n--) { ps::TxnHeartBeatRequest q; ps::TxnHeartBeatResponse p; int64_t adv = rng.Chance(0.4) ? w.Now() / (1 << 18) + rng.Below(200) : Ttl() + rng.Below(2000); q.set_primary_lock(t->primary); q.set_start_ts(t->start); q.set_advise_lock_ttl(adv); if (Do("TxnHeartBeat", w.Of(t->primary), q, p) != st::kOk || p.txn_result().has_txn_not_found()) return; if (adv < t->ttl) sim::Count("probe_shorter_heartbeat"); t->ttl = std::max(t->ttl, adv); ttl = std::max(ttl, adv); sim::Count("ops_heartbeat"); }
      if (!rng.Chance(0.5)) return; int64_t rest = t->ttl - (w.Now() >> 18); if (rest < 20) return; sim::SleepUs(rng.Below(std::min<int64_t>(rest, 3000)) * 900);
      ps::TxnCheckTxnStatusRequest q; ps::TxnCheckTxnStatusResponse p; q.set_primary_key(t->primary); q.set_lock_ts(t->start); int64_t now = w.Now(); q.set_caller_start_ts(now); q.set_current_ts(now); q.set_rollback_if_not_exist(false); Do("TxnCheckTxnStatus", w.Of(t->primary), q, p); sim::Count("probe_status_within_lifetime");
    }
    int64_t Ttl() { return w.Now() / (1 << 18) + 30 + rng.Below(rng.Chance(0.5) ? 300 : 3000); }
    void RunTxn(int tid, int kind) {
      auto t = std::make_shared<Txn>(); t->id = tid; t->client = id; t->start = w.Now(); w.active.insert(t->start); struct Out { World& w; int64_t s; ~Out() { w.active.erase(w.active.find(s)); } } out{w, t->start};
      t->pess = kind & 1; bool want_async = kind & 2, want_1pc = kind & 4; w.by_start[t->start] = t; w.txns.push_back(t); sim::Count("ops_txn");
      vector<string> ks; for (int i = 0; i < w.nk; i++) if (rng.Chance(0.55)) ks.push_back(Kn(i)); if (ks.empty()) ks.push_back(Kn(rng.Below(w.nk)));
      for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.Below(i)]);
      if (rng.Chance(0.5)) { Nap(); vector<string> rk; for (int i = 0; i < w.nk; i++) if (rng.Chance(0.5)) rk.push_back(Kn(i)); ReadKeys(rk, t->start, rng.Below(3)); Nap(); }
      if (sim::Failed()) return;
      t->primary = ks[0]; int64_t ttl = Ttl(); if (rng.Chance(0.2)) ttl += 4000;
      bool noabs = rng.Chance(0.7);
      for (auto& x : ks) { Write q; q.del = rng.Chance(0.15); q.absent = !noabs && !q.del && !t->pess && rng.Chance(0.4); q.val = "c" + S(id) + "." + S(tid) + "v" + S(++w.vals) + "~"; if (rng.Chance(0.25)) q.val += string(300, 'p'); t->w[x] = q; t->base[x] = t->start; }
      // ---- pessimistic locks
      if (t->pess) for (size_t i = 0; i < ks.size();) {
        size_t n = rng.Chance(0.3) ? ks.size() - i : 1; vector<string> part(ks.begin() + i, ks.begin() + i + n); 
        for (auto& g : w.Split(part)) for (int again_p = rng.Chance(0.2) ? 2 : 1; again_p > 0; again_p--) { bool got = false; for (int tr = 0; tr < 6 && !got && !sim::Failed(); tr++) {
          t->fut = w.Now(); if (rng.Chance(0.2)) Nap(); ps::TxnPessimisticLockRequest q; ps::TxnPessimisticLockResponse p; for (auto& x : g.second) { auto* m = q.add_mutations(); m->set_op(ps::Lock); m->set_key(x); } q.set_primary_lock(t->primary); q.set_start_ts(t->start); q.set_lock_ttl(ttl); q.set_for_update_ts(t->fut); bool rv = rng.Chance(0.6); q.set_return_values(rv);
          st::Caller::Meta m; Res res = Do("TxnPessimisticLock", w.ById(g.first), q, p, &m, 1); sim::Count("ops_pessimistic_lock"); if (Die()) return;
          if (res != st::kOk) { if (rng.Chance(0.3)) break; continue; }
          bool wait = false, again = false; for (auto& x : p.txn_result()) { if (x.has_locked()) { wait = true; if (Resolve(x.locked(), 0, nullptr)) wait = false; again = true; } else if (x.has_write_conflict()) again = true; }
          if (wait) sim::SleepUs(10000 + rng.Below(150000)); if (again) continue;
          got = true; for (auto& x : g.second) { t->base[x] = t->fut; t->held[x] = ttl; if (x == t->primary) { t->acked = true; t->ttl = std::max(t->ttl, ttl); } } if (rv) { map<string, string> gv; for (auto& kv : p.kvs()) gv[kv.key()] = kv.value(); for (auto& x : g.second) { t->lread[x].on = true; t->lread[x].val = gv.count(x) ? gv[x] : ""; } }
        } if (!got) { Rollback(t); return; }
          if (again_p > 1) {   // the statement runs again at a newer timestamp while the rollback of its first run is still on its way
            for (auto& x : g.second) { t->held.erase(x); t->lread.erase(x); if (x == t->primary) t->acked = false; } sim::Count("probe_late_pessimistic_rollback");
            sim::Spawn([this, keys = g.second, rid = g.first, start = t->start, fut = t->fut, d = rng.Chance(0.6) ? rng.Below(6000) : rng.Below(400000)] { sim::SleepUs(d); Reg& r = w.ById(rid); ps::TxnPessimisticRollbackRequest q; ps::TxnPessimisticRollbackResponse p; st::SetCtx(q, r); q.set_start_ts(start); q.set_for_update_ts(fut); for (auto& x : keys) q.add_keys(x); auto res = ca[rid]->Once("TxnPessimisticRollback", r, q, p); sim::Log("c" + S(id) + " late rollback of locks at " + Ts(fut) + " -> " + S(res)); }, "late rollback", cl::kClientBase + id); } }
        i += n; if (Die()) return; Nap();
      }
      if (t->acked && rng.Chance(w.ttl ? 0.5 : 0.2)) { Beat(t, ttl); Nap(); }
      // ---- prewrite
      auto gs = w.Split(ks); vector<int64_t> ord; ord.push_back(w.Of(t->primary).id); for (auto& g : gs) if (g.first != ord[0]) ord.push_back(g.first); if (want_async && ord.size() > 1 && rng.Chance(0.3)) std::swap(ord[0], ord[1]);
      bool one = want_1pc && ord.size() == 1; bool async = want_async && ks.size() > 1; t->async = async; t->onepc = one; int64_t mct = 0; bool conflict = false; bool unk_any = false; int64_t maxc = (async || one) && rng.Chance(0.1) ? w.Now() + rng.Below(5) : 0; ttl = std::max(ttl, Ttl());
      vector<vector<string>> batches; for (auto rid : ord) { auto& v = gs[rid]; if (!one && v.size() > 1 && rng.Chance(0.4)) { size_t cut = 1 + rng.Below(v.size() - 1); batches.push_back(vector<string>(v.begin(), v.begin() + cut)); batches.push_back(vector<string>(v.begin() + cut, v.end())); } else batches.push_back(v); }
      int64_t minc = async || one ? w.Now() : 0;
      for (auto& b : batches) {
        Reg& r = w.Of(b[0]); bool ok = false; bool had_unk = false;
        for (int tr = 0; tr < 7 && !ok && !conflict && !sim::Failed(); tr++) {
          ps::TxnPrewriteRequest q; ps::TxnPrewriteResponse p; int i = 0;
          for (auto& x : b) { auto* m = q.add_mutations(); auto& wr = t->w[x]; m->set_op(wr.del ? ps::Delete : wr.absent ? ps::PutIfAbsent : ps::Put); m->set_key(x); if (!wr.del) m->set_value(wr.val); if (t->pess) { q.add_pessimistic_checks(ps::TxnPrewriteRequest::DO_PESSIMISTIC_CHECK); auto* f = q.add_for_update_ts_checks(); f->set_index(i); f->set_expected_for_update_ts(t->base[x]); } i++; }
          q.set_primary_lock(t->primary); q.set_start_ts(t->start); q.set_lock_ttl(ttl); q.set_txn_size(ks.size()); q.set_try_one_pc(one); q.set_min_commit_ts(minc); q.set_max_commit_ts(maxc); if (async) { q.set_use_async_commit(true); for (auto& x : ks) if (x != t->primary) q.add_secondaries(x); }
          st::Caller::Meta m; Res res = Do("TxnPrewrite", r, q, p, &m, 1); sim::Count("ops_prewrite"); if (sim::Failed()) return;
          if (Die()) return;
          if (res != st::kOk) { if (res == st::kUnknown) { had_unk = unk_any = t->unk = true; sim::Count("probe_prewrite_outcome_unknown"); } sim::SleepUs(rng.Below(300000)); if (rng.Chance(0.1)) break; continue; }
          if (p.keys_already_exist_size()) { conflict = true; sim::Count("probe_key_already_exists"); break; }
          bool wait = false, again = false; for (auto& x : p.txn_result()) { if (x.has_write_conflict()) { conflict = true; sim::Count("probe_write_conflict"); } else if (x.has_locked()) { again = true; if (x.locked().lock_ts() == t->start) { conflict = true; break; } if (!Resolve(x.locked(), 0, nullptr)) wait = true; } else { conflict = true; } }
          if (conflict) break; if (again) { if (wait) sim::SleepUs(10000 + rng.Below(250000)); continue; }
          ok = true; if (one && p.one_pc_commit_ts() > 0) { t->outcome = 1; t->commit = p.one_pc_commit_ts(); sim::Count("ops_one_phase_commit"); sim::Log("c" + S(id) + " " + t->Name() + " committed in one phase at " + Ts(t->commit)); return; }
          for (auto& x : b) { t->held[x] = std::max(t->held[x], ttl); if (x == t->primary) { t->acked = true; t->ttl = std::max(t->ttl, ttl); } }
          if (async) { if (p.min_commit_ts() > 0) mct = std::max(mct, p.min_commit_ts()); else { async = false; sim::Count("probe_async_fell_back"); } }
        }
        if (!ok) { Rollback(t); return; }
        Nap(); if (Die()) return;
      }
      t->async = async; t->onepc = false;
      if (rng.Chance(w.ttl ? 0.6 : 0.25)) { sim::SleepUs(rng.Below(400000)); if (rng.Chance(0.5)) Beat(t, ttl); }
      // ---- commit
      int64_t ct = 0; vector<string> sec; for (auto& x : ks) if (x != t->primary) sec.push_back(x);
      if (async) { t->outcome = 1; t->commit = ct = mct; sim::Count("ops_async_commit"); sim::Log("c" + S(id) + " " + t->Name() + " committed asynchronously at " + Ts(ct)); if (Die()) return; Nap(); }
      else ct = w.Now();
      Nap(); bool done = async;
      for (int tr = 0; tr < 8 && !sim::Failed(); tr++) {
        ps::TxnCommitRequest q; ps::TxnCommitResponse p; q.set_start_ts(t->start); q.set_commit_ts(ct); q.add_keys(t->primary); if (rng.Chance(0.3)) { for (auto& x : sec) if (&w.Of(x) == &w.Of(t->primary)) q.add_keys(x); }
        Res res = Do("TxnCommit", w.Of(t->primary), q, p, nullptr, 1); sim::Count("ops_commit"); if (sim::Failed()) return;
        if (res != st::kOk) { if (Die()) return; sim::SleepUs(rng.Below(200000)); continue; }
        auto& tr1 = p.txn_result();
        if (tr1.has_commit_ts_expired()) { if (async) { w.Bad("T05", t->Name() + " was committed asynchronously at " + Ts(ct) + " but its primary demands at least " + Ts(tr1.commit_ts_expired().min_commit_ts())); return; } sim::Count("probe_commit_ts_expired"); ct = w.Now(); continue; }
        if (tr1.has_write_conflict()) { if (async) w.Bad("T05", t->Name() + " was committed asynchronously at " + Ts(ct) + " but is rolled back"); else t->outcome = 2; sim::Log("c" + S(id) + " " + t->Name() + " found itself rolled back"); return; }
        if (tr1.has_txn_not_found() || tr1.has_locked()) { sim::Log("c" + S(id) + " " + t->Name() + " primary lock gone"); return; }
        if (!async) { t->outcome = 1; t->commit = ct; sim::Log("c" + S(id) + " " + t->Name() + " committed at " + Ts(ct)); } done = true; break;
      }
      if (!done) return; if (Die()) return;
      for (auto& g : w.Split(sec)) { Nap(); ps::TxnCommitRequest q; ps::TxnCommitResponse p; q.set_start_ts(t->start); q.set_commit_ts(ct); for (auto& x : g.second) q.add_keys(x); Res res = Do("TxnCommit", w.ById(g.first), q, p); if (Die()) return;
        if (res == st::kOk && (p.txn_result().has_write_conflict() || p.txn_result().has_txn_not_found() || p.txn_result().has_commit_ts_expired())) { if (!w.gc) w.Bad(async ? "T05" : "T01", t->Name() + " is committed at " + Ts(ct) + " but a secondary cannot be committed: " + p.txn_result().ShortDebugString().substr(0, 60)); return; } }
    }
    void Go(int ntxn, const vector<int>& kinds, const vector<bool>& on) {
      for (int i = 0; i < ntxn && !sim::Failed(); i++) {
        sim::Rng keep(rng.Next()); if (!on[i]) continue; rng = keep; sim::SleepUs(rng.Chance(0.7) ? rng.Below(4000) : rng.Below(400000));
        if (kinds[i] >= 8) { int64_t ts = w.Now(); if (rng.Chance(0.35) && w.floor < ts) { vector<int64_t> past; for (auto& x : w.W) for (auto& v : x.second) if (v.first > w.floor && v.first < ts) past.push_back(v.first); if (!past.empty()) { ts = past[rng.Below(past.size())] + rng.Range(-1, 1); if (ts <= w.floor) ts = w.floor + 1; } } w.active.insert(ts); Nap(); vector<string> rk; for (int z = 0; z < w.nk; z++) if (rng.Chance(0.6)) rk.push_back(Kn(z)); ReadKeys(rk, ts, rng.Below(3)); w.active.erase(w.active.find(ts)); }
        else RunTxn(id * 100 + i, kinds[i]);
        rng = sim::Rng(sim::Mix(w.c.seed, 9000 + id * 131 + i));
      }
    }
    // resolve every lock older than ts; true when none is left
    bool Sweep(int64_t ts) {
      bool clean = true;
      for (auto& r : w.regs) { ps::TxnScanLockRequest q; ps::TxnScanLockResponse p; q.set_max_ts(ts); q.set_limit(1000); q.set_start_key(r.start); q.set_end_key(r.end); q.mutable_stream_meta()->set_limit(1000); st::Caller::Meta m; if (Do("TxnScanLock", r, q, p, &m, 3) != st::kOk || !m.solid) { clean = false; continue; } for (auto& l : p.locks()) { clean = false; Resolve(l, 0, nullptr); } }
      return clean;
    }
    void Gc(int rounds) {
      for (int i = 0; i < rounds && !sim::Failed(); i++) {
        sim::SleepUs(rng.Below(700000)); int64_t sp = w.Now(); if (!w.active.empty()) sp = std::min(sp, *w.active.begin() - 1); if (sp <= w.floor) continue; w.floor = sp;
        bool clean = false; for (int j = 0; j < 12 && !clean && !sim::Failed(); j++) { clean = Sweep(sp); if (!clean) sim::SleepUs(200000); } if (!clean) continue; w.Publish(sp, rng, false);
        for (auto& r : w.regs) { ps::TxnGcRequest q; ps::TxnGcResponse p; q.set_safe_point_ts(sp); if (Do("TxnGc", r, q, p, nullptr, 2) == st::kOk) { sim::Count("ops_gc"); sim::Log("gc at " + Ts(sp) + " region " + S(r.id)); } }
      }
    }
  };


  // what the stores' crontab does with the coordinator's safe point
  void Publish(int64_t sp, sim::Rng& rng, bool all) {
    k.fake->safe_point = sp;
    for (int m = 1; m <= k.conf.stores; m++) if (k.Up(m) && (all || rng.Chance(0.8))) cl::OnProc(k.procs[m], "gc", [sp] { Server::GetInstance().GetStoreMetaManager()->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{Constant::kDefaultTenantId, sp}}, false); });
  }

  bool Judge() {
    // reads
    for (auto& r : reads) { int64_t ct = 0; auto* v = At(r.key, r.ts, &ct); string e = v ? Val(r.key, *v) : ""; if (e == r.val) continue;
      auto it = v ? by_start.find(v->start) : by_start.end(); bool ap = it != by_start.end() && (it->second->async || it->second->onepc);
      string text = string("client ") + S(r.client) + " read " + Sk(r.key) + "=" + Sv(r.val) + " at " + Ts(r.ts) + " by " + r.how + ", but the newest version committed at or before it is " + Sv(e) + (v ? " of " + N(v->start) + " at " + Ts(ct) : "");
      if (ap) Bad("T05", text); if (last_gc && !sim::Failed()) Bad("T07", text); if (!sim::Failed()) Bad("T02", text); if (sim::Failed()) return false; }
    for (auto& t : txns) {
      set<int64_t> at; size_t n = 0; 
      for (auto& x : W) for (auto& v : x.second) if (v.second.start == t->start && v.second.op != ps::Rollback) { if (!t->w.count(x.first)) { Bad("T01", t->Name() + " has a commit record on " + Sk(x.first) + ", which it never wrote"); return false; } at.insert(v.first); n++; auto& wr = t->w[x.first]; if ((v.second.op == ps::Delete) != wr.del || (!wr.del && Val(x.first, v.second) != wr.val)) { Bad("T01", t->Name() + " wrote " + Sv(wr.val) + " to " + Sk(x.first) + " but the committed version is " + Sv(Val(x.first, v.second))); return false; } }
      bool ap = t->async || t->onepc; auto Bad1 = [&](const string& x) { if (ap) Bad("T05", x); if (!sim::Failed()) Bad("T01", x); }; string where; for (auto& x : t->w) { where += " " + Sk(x.first) + ":"; for (auto& v : W[x.first]) if (v.second.start == t->start) where += (v.second.op == ps::Rollback ? "rollback" : Ts(v.first)); }
      if (t->outcome == 1 && (n != t->w.size() || at.size() != 1 || *at.begin() != t->commit)) { Bad1(t->Name() + " was reported committed at " + Ts(t->commit) + " but its keys end as" + where); return false; }
      if (t->outcome == 2 && n) { Bad1(t->Name() + " was reported aborted but its keys end as" + where); return false; }
      if (n && (n != t->w.size() || at.size() != 1)) { Bad1(t->Name() + " took effect in part:" + where); return false; }
      if (n) { int64_t ct = *at.begin(); sim::Count("ops_txn_committed"); if (ct <= t->start) { Bad("T03", t->Name() + " commits at " + Ts(ct) + ", not after its start"); return false; }
        for (auto& x : t->w) { for (auto& v : W[x.first]) if (v.second.op != ps::Rollback && v.second.start != t->start && v.first > t->base[x.first] && v.first < ct) { Bad("T03", "lost update on " + Sk(x.first) + ": " + t->Name() + " read it as of " + Ts(t->base[x.first]) + " and committed at " + Ts(ct) + " over " + N(v.second.start) + " committed at " + Ts(v.first)); return false; }
          auto* prev = At(x.first, ct - 1); string pv = prev ? Val(x.first, *prev) : ""; if (x.second.absent && prev && prev->op != ps::Delete) { Bad("T03", t->Name() + " inserted " + Sk(x.first) + " at " + Ts(ct) + " although it existed"); return false; }
          if (t->lread.count(x.first) && t->lread[x.first].val != pv) { Bad("T06", t->Name() + " locked " + Sk(x.first) + " and was given " + Sv(t->lread[x.first].val) + ", but the version below its commit is " + Sv(pv)); return false; } } }
    }
    return !sim::Failed();
  }
  void Go() {
    auto cfg = c.Swarm(); cfg.max_steps = 4000000; sim::Start(cfg); auto& rng = c.rng;
    k.conf.stores = 3; k.conf.inplace_apply = rng.Chance(0.5); k.conf.read_workers = rng.Range(1, 4); k.conf.write_workers = rng.Range(1, 4); k.conf.apply_workers = rng.Range(1, 3);
    nk = rng.Range(1, 5); two = nk > 1 && rng.Chance(0.5); int cut = two ? 1 + rng.Below(nk - 1) : nk;
    Reg a; a.id = 80001; a.start = "x00000001"; a.end = two ? Kn(cut) : "x00000002"; a.peers = {1, 2, 3}; regs.push_back(a); if (two) { Reg b = a; b.id = 80002; b.start = Kn(cut); b.end = "x00000002"; regs.push_back(b); }
    int nc = rng.Range(2, 4), nt = rng.Range(2, 6); gc = c.params.count("gc") ? true : rng.Chance(0.15); batch_resolve = rng.Chance(0.5); ttl = c.params.count("ttl"); FLAGS_gc_delete_batch_count = rng.Chance(0.5) ? rng.Range(1, 4) : 32768;
    int mode = rng.Below(6); // emphasis
    if (c.params.count("mode") && rng.Chance(0.7)) { string m = c.params.at("mode"); mode = m[rng.Below(m.size())] - '0'; }
    vector<vector<int>> kinds(nc); vector<vector<bool>> on(nc);
    for (int i = 0; i < nc; i++) for (int j = 0; j < nt; j++) { int kd = 0; if (rng.Chance(0.3)) kd = 8; else { if (mode == 1 || rng.Chance(0.25)) kd |= 1; if (mode == 2 || mode == 3 || rng.Chance(0.25)) kd |= 2; if (mode == 4 || (mode != 3 && rng.Chance(0.2))) kd |= 4; } kinds[i].push_back(kd); on[i].push_back(c.On("client " + S(i) + " transaction " + S(j) + " kind " + S(kd))); }
    st::Faults f; f.max = rng.Chance(0.3) ? 0 : 5; f.span_us = rng.Chance(0.5) ? 1500000 : 5000000; for (auto& r : regs) f.regions.push_back(r.id); f.skew = rng.Chance(0.2);
    double die = rng.Chance(0.3) ? 0 : rng.Chance(0.5) ? 0.03 : 0.12; bool ok_end = false;
    sim_raft::on_commit = [this](const string&, int64_t, const string& d) { OnCommit(d); };
    sim::Spawn([&] {
      k.Start(); if (sim::Failed()) return;
      for (auto& r : regs) { if (!st::CreateRegion(k, r)) { sim::Fail("region cannot be created"); return; } }
      for (auto& r : regs) if (!st::WaitLeader(k, r.id)) { sim::Fail("T04: no leader elected 20 s after the region was created"); return; }
      rocksdb::simdisk::SyncAll(); auto plan = st::StartFaults(k, f);
      vector<std::unique_ptr<Client>> cs; for (int i = 0; i <= nc; i++) { cs.push_back(std::make_unique<Client>(*this, i)); cs.back()->die_p = die; }
      vector<uint64_t> ids; for (int i = 0; i < nc; i++) ids.push_back(sim::Spawn([&, i] { cs[i]->Go(nt, kinds[i], on[i]); }, "client", cl::kClientBase + i));
      if (gc) ids.push_back(sim::Spawn([&] { cs[nc]->Gc(4); }, "gc", cl::kClientBase + nc));
      for (auto x : ids) sim::Join(x); if (sim::Failed()) return;
      while (plan->pending > 0) sim::SleepUs(50000);
      st::Recover(k, f); if (sim::Failed()) return;
      // faults are over: every lock must become resolvable and every key readable
      Client fin(*this, 90); fin.dying = false; uint64_t end = sim::NowUs() + 40000000; bool clean = false; int nclean = 0;
      while (!sim::Failed() && sim::NowUs() < end && nclean < 2) { clean = fin.Sweep(Now()); if (clean) nclean++; else nclean = 0; sim::SleepUs(clean ? 100000 : 300000); }
      if (sim::Failed()) return; if (nclean < 2) { Bad("T04", "locks remain 40 s after the last fault ended"); if (sim::Failed()) return; sim::Stop(); return; }
      vector<string> all; for (int i = 0; i < nk; i++) all.push_back(Kn(i));
      for (int how = 0; how < 3; how++) if (!fin.ReadKeys(all, Now(), how)) { if (sim::Failed()) return; Bad("T04", "keys cannot be read 40 s after the last fault ended"); if (sim::Failed()) return; }
      if (gc) { int64_t sp = Now(); if (sp > floor) floor = sp; bool cl = fin.Sweep(sp); if (cl) Publish(sp, fin.rng, true); if (cl) for (auto& r : regs) { ps::TxnGcRequest q; ps::TxnGcResponse p; q.set_safe_point_ts(sp); if (fin.Do("TxnGc", r, q, p) == st::kOk) sim::Count("ops_gc"); } last_gc = sp + 1; fin.ReadKeys(all, sp, 0); fin.ReadKeys(all, sp, 2); last_gc = Now(); fin.ReadKeys(all, last_gc, 0); }
      for (auto& r : regs) if (!st::Quiesce(k, r.id, r.peers)) { Bad("T04", "replicas do not catch up 30 s after the last fault ended"); if (sim::Failed()) return; sim::Stop(); return; }
      auto d1 = st::Dump(k, 1, "x", "y", false); for (int m = 2; m <= 3; m++) { auto d = st::Dump(k, m, "x", "y", false); if (d != d1) { string what; for (auto& cf : d1) for (auto& kv : cf.second) if (!d[cf.first].count(kv.first) || d[cf.first][kv.first] != kv.second) { what = cf.first + " " + st::Show(kv.first); break; } Bad("T01", "replicas 1 and " + S(m) + " applied the same log but differ: " + what); if (sim::Failed()) return; } }
      if (!Judge()) { if (!sim::Failed()) sim::Stop(); return; }
      // the stored versions are the committed ones
      map<string, map<int64_t, Ver>> st; for (auto& kv : d1["write"]) { string key; int64_t ts; if (!mvcc::Codec::DecodeKey(kv.first, key, ts)) continue; ps::WriteInfo wi; wi.ParseFromString(kv.second); Ver v; v.start = wi.start_ts(); v.op = wi.op(); v.sv = wi.short_value(); st[key][ts] = v; auto it = W[key].find(ts); if (it == W[key].end() || it->second.start != v.start || it->second.op != v.op) { Bad("T01", "stored version of " + Sk(key) + " at " + Ts(ts) + " was never committed"); if (sim::Failed()) return; } }
      if (!gc) for (auto& x : W) for (auto& v : x.second) if (!st[x.first].count(v.first)) { Bad("T01", "the version of " + Sk(x.first) + " at " + Ts(v.first) + " of " + N(v.second.start) + " is gone"); if (sim::Failed()) return; }
      ok_end = true; sim::Count("txn_checked"); sim::Stop();
    }, "main", 1);
    sim::Run(); sim_raft::on_commit = nullptr;
    if (!sim::Failed() && !ok_end) sim::Count("run_cut");
  }
};
static void TxnW(sim::Ctx& c) { auto* w = new World(c); w->Go(); }
static sim::World w1("txn", TxnW);
}
