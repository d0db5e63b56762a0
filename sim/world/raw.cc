// Raw key-value API on a replicated region under crashes, partitions, leader changes, snapshots and stalls.
#include "store.h"
#include "mvcc/codec.h"
#include "rocksdb/db.h"
using namespace dingodb;
namespace {
using st::Op; using st::Reg; using cl::S;
std::string A() { return "\x01none"; }
std::string Kname(int i) { return std::string("w") + "00000001" + char('b' + i); }
struct Raw {
  sim::Ctx& c; cl::Cluster k; Reg r; int nk; std::vector<Op> hist; int running = 0; int vals = 0;
  explicit Raw(sim::Ctx& x) : c(x), k(x) {}
  void Client(int id, int nops, std::vector<int> plan, std::vector<bool> on) {
    st::Caller ca(k); ca.guess = r.peers[id % r.peers.size()]; sim::Rng rng(sim::Mix(c.seed, 7000 + id));
    for (int i = 0; i < nops; i++) {
      sim::Rng q1(rng.Next()); if (!on[i]) continue; sim::SleepUs(q1.Chance(0.7) ? q1.Below(3000) : q1.Below(700000)); if (sim::Failed()) return;
      Op o; o.client = id; int kind = plan[i]; auto val = [&] { return "c" + S(id) + "." + S(i) + "v" + S(++vals); };
      auto some = [&](int lo) { std::vector<int> v; while (v.empty()) for (int j = 0; j < nk; j++) if (q1.Chance(0.55)) v.push_back(j); return v; };
      st::Caller::Meta m; st::Res res; int key = q1.Below(nk); o.t0 = sim::NowUs(); sim::Count("ops_raw");
      std::string kk = Kname(key);
      auto last_seen = [&](int x) { for (int j = (int)hist.size() - 1; j >= 0; j--) for (size_t z = 0; z < hist[j].keys.size(); z++) if (hist[j].keys[z] == x && z < hist[j].val.size() && hist[j].val[z] != A()) return hist[j].val[z]; return std::string(); };
      switch (kind) {
        case 0: { pb::store::KvPutRequest q; pb::store::KvPutResponse p; st::SetCtx(q, r); std::string v = val(); q.mutable_kv()->set_key(kk); q.mutable_kv()->set_value(v); o.kind = Op::kPut; o.keys = {key}; o.val = {v}; res = ca.Once("KvPut", r, q, p, &m); break; }
        case 1: { pb::store::KvGetRequest q; pb::store::KvGetResponse p; st::SetCtx(q, r); q.set_key(kk); o.kind = Op::kGet; o.keys = {key}; res = ca.Once("KvGet", r, q, p, &m); o.val = {p.value().empty() ? A() : p.value()}; break; }
        case 2: { pb::store::KvBatchDeleteRequest q; pb::store::KvBatchDeleteResponse p; st::SetCtx(q, r); o.kind = Op::kDel; o.keys = q1.Chance(0.6) ? std::vector<int>{key} : some(1); for (int x : o.keys) q.add_keys(Kname(x)); res = ca.Once("KvBatchDelete", r, q, p, &m); o.res.assign(o.keys.size(), -1); break; }
        case 3: { pb::store::KvCompareAndSetRequest q; pb::store::KvCompareAndSetResponse p; st::SetCtx(q, r); std::string v = q1.Chance(0.15) ? "" : val(), e = q1.Chance(0.3) ? "" : last_seen(key); q.mutable_kv()->set_key(kk); q.mutable_kv()->set_value(v); q.set_expect_value(e); o.kind = Op::kCas; o.keys = {key}; o.val = {v}; o.exp = {e}; res = ca.Once("KvCompareAndSet", r, q, p, &m); o.res = {p.key_state()}; if (m.code == pb::error::EKEY_NOT_FOUND) { res = st::kOk; o.res = {0}; } break; }
        case 4: { pb::store::KvPutIfAbsentRequest q; pb::store::KvPutIfAbsentResponse p; st::SetCtx(q, r); std::string v = val(); q.mutable_kv()->set_key(kk); q.mutable_kv()->set_value(v); o.kind = Op::kPia; o.keys = {key}; o.val = {v}; res = ca.Once("KvPutIfAbsent", r, q, p, &m); o.res = {p.key_state()}; break; }
        case 5: { pb::store::KvBatchPutRequest q; pb::store::KvBatchPutResponse p; st::SetCtx(q, r); o.kind = Op::kPut; o.keys = some(2); for (int x : o.keys) { o.val.push_back(val()); auto* kv = q.add_kvs(); kv->set_key(Kname(x)); kv->set_value(o.val.back()); } res = ca.Once("KvBatchPut", r, q, p, &m); break; }
        case 6: { pb::store::KvBatchPutIfAbsentRequest q; pb::store::KvBatchPutIfAbsentResponse p; st::SetCtx(q, r); o.atomic = q1.Chance(0.5); q.set_is_atomic(o.atomic); o.kind = Op::kPia; o.keys = some(2); for (int x : o.keys) { o.val.push_back(val()); auto* kv = q.add_kvs(); kv->set_key(Kname(x)); kv->set_value(o.val.back()); } res = ca.Once("KvBatchPutIfAbsent", r, q, p, &m); o.res.assign(o.keys.size(), 0); for (int z = 0; z < p.key_states_size() && z < (int)o.res.size(); z++) o.res[z] = p.key_states(z); break; }
        case 7: { pb::store::KvBatchCompareAndSetRequest q; pb::store::KvBatchCompareAndSetResponse p; st::SetCtx(q, r); o.atomic = q1.Chance(0.5); q.set_is_atomic(o.atomic); o.kind = Op::kCas; o.keys = some(2); for (int x : o.keys) { o.val.push_back(val()); o.exp.push_back(q1.Chance(0.3) ? "" : last_seen(x)); auto* kv = q.add_kvs(); kv->set_key(Kname(x)); kv->set_value(o.val.back()); q.add_expect_values(o.exp.back()); } res = ca.Once("KvBatchCompareAndSet", r, q, p, &m); o.res.assign(o.keys.size(), 0); for (int z = 0; z < p.key_states_size() && z < (int)o.res.size(); z++) o.res[z] = p.key_states(z); if (m.code == pb::error::EKEY_NOT_FOUND) { res = st::kOk; o.res.assign(o.keys.size(), 0); } break; }
        case 8: { pb::store::KvScanBeginRequest q; pb::store::KvScanBeginResponse p; st::SetCtx(q, r); q.mutable_range()->mutable_range()->set_start_key(Kname(0)); q.mutable_range()->mutable_range()->set_end_key(Kname(nk)); q.mutable_range()->set_with_start(true); q.mutable_range()->set_with_end(false); q.set_max_fetch_cnt(100); q.set_disable_coprocessor(true); o.kind = Op::kScan; for (int x = 0; x < nk; x++) { o.keys.push_back(x); o.val.push_back(A()); } res = ca.Once("KvScanBegin", r, q, p, &m);
          std::string prev; for (auto& kv : p.kvs()) { if (!prev.empty() && kv.key() <= prev && res == st::kOk) sim::Fail("K01: scan returns keys out of order or twice: " + st::Show(prev) + " then " + st::Show(kv.key())); prev = kv.key(); int z = kv.key().size() == Kname(0).size() ? kv.key().back() - 'b' : -1; if (z < 0 || z >= nk || kv.key() != Kname(z)) { if (res == st::kOk) sim::Fail("K01: scan returns a key nobody wrote: " + st::Show(kv.key())); } else o.val[z] = kv.value(); } break; }
        case 9: { pb::store::KvBatchGetRequest q; pb::store::KvBatchGetResponse p; st::SetCtx(q, r); auto ks = some(2); for (int x : ks) q.add_keys(Kname(x)); res = ca.Once("KvBatchGet", r, q, p, &m); uint64_t t1 = sim::NowUs();
          if (res == st::kOk && m.solid) { std::map<std::string, std::string> got; for (auto& kv : p.kvs()) got[kv.key()] = kv.value(); for (int x : ks) { Op g; g.kind = Op::kGet; g.client = id; g.t0 = o.t0; g.t1 = t1; g.keys = {x}; auto it = got.find(Kname(x)); g.val = {it == got.end() || it->second.empty() ? A() : it->second}; g.text = "c" + S(id) + " bget k" + S(x) + "=" + g.val[0]; hist.push_back(g); } }
          continue; }
        default: { pb::store::KvDeleteRangeRequest q; pb::store::KvDeleteRangeResponse p; st::SetCtx(q, r); int a = q1.Below(nk), b = a + 1 + q1.Below(nk - a); q.mutable_range()->mutable_range()->set_start_key(Kname(a)); q.mutable_range()->mutable_range()->set_end_key(Kname(b)); q.mutable_range()->set_with_start(true); q.mutable_range()->set_with_end(false); o.kind = Op::kDelRange; for (int x = a; x < b; x++) o.keys.push_back(x); res = ca.Once("KvDeleteRange", r, q, p, &m); break; }
      }
      o.t1 = sim::NowUs(); bool rd = o.kind == Op::kGet || o.kind == Op::kScan;
      static const char* nm[] = {"put", "get", "del", "cas", "bput-if-absent", "scan", "delrange"};
      o.text = "c" + S(id) + " " + nm[o.kind]; for (size_t z = 0; z < o.keys.size(); z++) { o.text += " k" + S(o.keys[z]); if (o.exp.size() > z) o.text += ":" + o.exp[z]; if (o.val.size() > z) o.text += "=" + (o.val[z] == A() ? "-" : o.val[z]); if (o.res.size() > z) o.text += "?" + S(o.res[z]); } if (o.kind == Op::kCas || o.kind == Op::kPia) o.text += o.atomic ? " atomic" : "";
      sim::Log(o.text + " at " + S(m.machine) + " -> " + (res == st::kOk ? "ok" : res == st::kNo ? "no" : "?") + " code " + S(m.code) + (m.solid ? " solid" : "") + " [" + S(o.t0) + "," + S(o.t1) + "]");
      if (res == st::kOk) sim::Count("ops_ok");
      if (res == st::kNo || (rd && !(res == st::kOk && m.solid))) { if (res != st::kOk) sim::SleepUs(q1.Below(300000)); continue; }
      o.known = res == st::kOk; hist.push_back(o); if (!o.known) sim::Count("probe_unknown_outcome");
    }
  }
  void Go(int mode) {
    auto cfg = c.Swarm(); cfg.max_steps = 3000000; sim::Start(cfg); auto& rng = c.rng;
    k.conf.stores = 3; k.conf.inplace_apply = rng.Chance(0.5); k.conf.read_workers = rng.Range(1, 4); k.conf.write_workers = rng.Range(1, 4); k.conf.apply_workers = rng.Range(1, 3);
    nk = rng.Range(1, 4); int nc = rng.Range(2, 5), nops = rng.Range(4, nc > 3 ? 10 : 14);
    r.id = 80001; r.start = std::string("w") + "00000001"; r.end = std::string("w") + "00000002"; r.peers = {1, 2, 3};
    std::vector<int> w; auto ad = [&](int kd, int n) { for (int i = 0; i < n; i++) w.push_back(kd); };
    ad(0, 4); ad(1, 4); ad(2, rng.Below(3)); ad(3, rng.Below(4)); ad(4, rng.Below(3)); ad(5, rng.Below(3)); ad(6, rng.Below(2)); ad(7, rng.Below(2)); ad(8, rng.Below(4)); ad(9, rng.Below(2)); ad(10, rng.Below(2));
    if (c.params.count("sep")) { bool dr = rng.Chance(0.3); std::vector<int> w2; for (int x : w) if (dr ? (x != 3 && x != 4 && x != 6 && x != 7) : x != 10) w2.push_back(x); w = w2; }   // range deletes and conditional writes in different runs
    std::vector<std::vector<int>> pl(nc); std::vector<std::vector<bool>> on(nc); for (int i = 0; i < nc; i++) for (int j = 0; j < nops; j++) { pl[i].push_back(w[rng.Below(w.size())]); on[i].push_back(c.On("client " + S(i) + " operation " + S(j) + " kind " + S(pl[i].back()))); }
    st::Faults f; f.max = rng.Chance(0.2) ? 0 : 6; f.span_us = rng.Chance(0.5) ? 1500000 : 6000000; f.regions = {r.id}; f.skew = rng.Chance(0.3); f.from_us = 0;
    bool quiet_seed = rng.Chance(0.15);
    sim::Spawn([&] {
      k.Start(); if (sim::Failed()) return;
      if (!st::CreateRegion(k, r)) { sim::Fail("region cannot be created"); return; }
      if (!st::WaitLeader(k, r.id)) { sim::Fail("R01: no leader elected 20 s after the region was created"); return; }
      rocksdb::simdisk::SyncAll(); auto plan = quiet_seed ? std::make_shared<st::Plan>() : st::StartFaults(k, f);
      std::vector<uint64_t> cs; for (int i = 0; i < nc; i++) cs.push_back(sim::Spawn([&, i] { Client(i, nops, pl[i], on[i]); }, "client", cl::kClientBase + i)); for (auto x : cs) sim::Join(x);
      while (plan->pending > 0) sim::SleepUs(50000);
      st::Recover(k, f); if (sim::Failed()) return;
      // liveness: with faults over, every key can be read again within a bounded time
      st::Caller ca(k); 
      for (int x = 0; x < nk; x++) {
        bool ok = false; uint64_t end = sim::NowUs() + 30000000;
        while (!ok && sim::NowUs() < end) { Op o; o.kind = Op::kGet; o.keys = {x}; o.client = 99; o.t0 = sim::NowUs(); pb::store::KvGetRequest q; pb::store::KvGetResponse p; st::SetCtx(q, r); q.set_key(Kname(x)); st::Caller::Meta m; if (ca.Once("KvGet", r, q, p, &m) == st::kOk && m.solid) { ok = true; o.t1 = sim::NowUs(); o.val = {p.value().empty() ? A() : p.value()}; o.text = "final get k" + S(x) + "=" + o.val[0]; sim::Log(o.text); hist.push_back(o); } else sim::SleepUs(200000); }
        if (!ok) { sim::Fail("R01: key " + S(x) + " cannot be read 30 s after the last fault ended: " + sim_raft::Describe(sim_raft::Groups().empty() ? "" : sim_raft::Groups()[0])); return; }
      }
      if (!st::Quiesce(k, r.id, r.peers)) { sim::Fail("R01: replicas do not catch up within 30 s after the last fault ended: " + sim_raft::Describe(sim_raft::Groups()[0])); return; }
      auto d1 = st::Dump(k, 1, "w", "x", false);
      for (int m = 2; m <= 3; m++) { auto d = st::Dump(k, m, "w", "x", false); if (d != d1) { std::string what; for (auto& cf : d1) for (auto& kv : cf.second) if (!d[cf.first].count(kv.first)) { what = "store 1 has " + st::Show(kv.first) + " in " + cf.first + ", store " + S(m) + " not"; break; } for (auto& cf : d) for (auto& kv : cf.second) if (!d1[cf.first].count(kv.first)) { what = "store " + S(m) + " has " + st::Show(kv.first) + " in " + cf.first + ", store 1 not"; break; } sim::Fail("R02: replicas that applied the same log differ: " + what); return; } }
      bool gave = false; std::string why; if (!st::Linear(hist, nk, 400000, gave, why)) { bool g2 = false; std::string w2; if (st::Linear(hist, nk, 400000, g2, w2, {}, true)) sim::Fail("K01: a range delete took effect between a conditional write's check and its write: " + why); else sim::Fail("K01: " + why); return; }
      sim::Count(gave ? "lin_gave_up" : "lin_checked"); sim::Stop();
    }, "main", 1);
    sim::Run();
    if (!sim::Failed() && !sim::S().n.count("lin_checked") && !sim::S().n.count("lin_gave_up")) sim::Count("run_cut");
  }
};
static void RawW(sim::Ctx& c) { auto* r = new Raw(c); r->Go(0); }
static sim::World w1("raw", RawW);
}
