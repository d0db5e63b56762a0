// Component worlds: latches, worker sets, timestamps, lock primitives, concurrent maps, driven by many clients at once.
#include <functional>
#include <memory>
#include <set>
#include "runner.h"
#include "sim_net.h"
#include "common/latch.h"
#include "common/runnable.h"
#include "common/safe_map.h"
#include "common/synchronization.h"
#include "coordinator/coordinator_interaction.h"
#include "meta/store_meta_manager.h"
#include "mvcc/ts_provider.h"
#include "server/service_helper.h"
#include "brpc/server.h"
#include "gflags/gflags.h"
DECLARE_uint32(ts_provider_batch_size); DECLARE_uint32(ts_provider_batch_ts_stale_interval_ms);
using namespace dingodb;
namespace dingodb { DECLARE_uint32(latch_slot_num); }

namespace inst { void SetMinValidTs(mvcc::TsProvider& p, int64_t ts); }
static std::string S(uint64_t x) { return std::to_string(x); }
static void Progress(const std::string& p, uint64_t left) { if (!sim::Failed() && left) sim::Fail(p + ": no progress: " + S(left) + " clients never finish; blocked: " + sim::BlockedReport()); }

// ------------------------------------------------------------------ U01 latches
static void Latch_(sim::Ctx& c) {
  auto cfg = c.Swarm(); sim::Start(cfg);
  int keys = 1 + c.rng.Below(8), clients = 2 + c.rng.Below(9); FLAGS_latch_slot_num = 1u << c.rng.Below(5);
  auto region = store::Region::New(1);
  auto inside = std::make_shared<std::map<std::string, int>>(); auto left = std::make_shared<uint64_t>(0);
  for (int i = 0; i < clients; i++) {
    int ops = 1 + c.rng.Below(6); struct Op { std::vector<std::string> k; uint64_t hold; bool on; }; std::vector<Op> plan;
    for (int j = 0; j < ops; j++) { Op o; int n = 1 + c.rng.Below(4); for (int k = 0; k < n; k++) o.k.push_back("k" + S(c.rng.Below(keys))); o.hold = c.rng.Chance(0.3) ? 1 + c.rng.Below(50) : 0; std::string d; for (auto& x : o.k) d += x + " "; o.on = c.On("client " + S(i) + " latches " + d + "for " + S(o.hold) + "us"); plan.push_back(o); }
    ++*left;
    sim::Spawn([=] {
      for (auto& o : plan) {
        if (!o.on) continue;
        LatchContext ctx(region, o.k);
        ServiceHelper::LatchesAcquire(ctx, true);
        std::set<std::string> u(o.k.begin(), o.k.end()); std::string who;
        for (auto& k : u) { int& h = (*inside)[k]; if (h) sim::Fail("two requests hold the latch of key " + k + ": clients " + S(h - 1) + " and " + S(i)); h = i + 1; who += k + " "; }
        sim::Log("in " + S(i) + " " + who); sim::Count("ops_latch");
        if (u.size() > 1) sim::Count("probe_multi_key");
        if (o.hold) sim::SleepUs(o.hold); else sim::Yield();
        for (auto& k : u) { if ((*inside)[k] != i + 1) sim::Fail("latch of key " + k + " taken over while held by client " + S(i)); (*inside)[k] = 0; }
        sim::Log("out " + S(i)); ServiceHelper::LatchesRelease(ctx);
      }
      --*left;
    }, "client" + S(i), 0);
  }
  sim::Run(); Progress("U01", *left);
}
static sim::World w_latch("latch", Latch_);

// ------------------------------------------------------------------ U02 concurrent maps against an atomic map
template <class M, bool kStd> static void MapWorld(sim::Ctx& c) {
  auto cfg = c.Swarm(); sim::Start(cfg);
  auto m = std::make_shared<M>(); if constexpr (!kStd) m->Init(16);
  int keys = 1 + c.rng.Below(4), clients = 2 + c.rng.Below(4);
  struct Ev { int client, kind, key, val, ret, out; uint64_t inv, res; std::map<int, int> all; };
  auto h = std::make_shared<std::vector<Ev>>(); auto left = std::make_shared<uint64_t>(0); auto clk = std::make_shared<uint64_t>(0);
  int total = 0;
  for (int i = 0; i < clients; i++) {
    std::vector<std::array<int, 4>> plan; int ops = 1 + c.rng.Below(4);
    for (int j = 0; j < ops && total < 14; j++, total++) { std::array<int, 4> o{(int)c.rng.Below(kStd ? 11 : 10), (int)c.rng.Below(keys), i * 100 + j + 1, 0}; o[3] = c.On("client " + S(i) + " op " + S(o[0]) + " key " + S(o[1])); plan.push_back(o); }
    ++*left;
    sim::Spawn([=] {
      for (auto& o : plan) {
        if (!o[3]) continue;
        Ev e{i, o[0], o[1], o[2], 0, 0, ++*clk, 0, {}}; sim::Yield();
        switch (e.kind) {
          case 0: case 1: e.kind = 0; e.ret = m->Put(e.key, e.val); break;
          case 2: e.ret = m->Get(e.key, e.out); if (e.ret < 0) e.out = 0; break;
          case 3: e.ret = m->Erase(e.key); break;
          case 4: e.ret = m->PutIfAbsent(e.key, e.val); break;
          case 5: e.ret = m->PutIfExists(e.key, e.val); break;
          case 6: { typename M::TypeRawMap r; e.ret = m->GetRawMapCopy(r); for (auto& x : r) e.all[x.first] = x.second; break; }
          case 7: { std::vector<int> k{e.key, (e.key + 1) % keys}, v{e.val, e.val}; e.ret = m->MultiPut(k, v); break; }
          case 8: e.ret = 1; e.out = m->Exists(e.key); break;
          case 9: { std::vector<int> k{e.key, (e.key + 1) % keys}; e.ret = m->MultiErase(k); break; }
          case 10: if constexpr (kStd) { std::vector<int> k{e.key}, p{(e.key + 1) % keys}, v{e.val}; e.ret = m->MultiEraseThenPut(k, p, v); } break;
        }
        sim::Yield(); e.res = ++*clk; h->push_back(e); sim::Count("ops_map");
        sim::Log("c" + S(i) + " kind " + S(e.kind) + " key " + S(e.key) + " ret " + std::to_string(e.ret) + " out " + S(e.out));
      }
      --*left;
    }, "client" + S(i), 0);
  }
  sim::Run(); Progress("U02", *left); if (sim::Failed()) return;
  // Wing & Gong search with memo
  auto& H = *h; size_t n = H.size(); std::set<std::pair<uint64_t, std::map<int, int>>> seen;
  std::function<bool(uint64_t, std::map<int, int>)> go = [&](uint64_t done, std::map<int, int> s) -> bool {
    if (done == (1ull << n) - 1) return true;
    if (!seen.insert({done, s}).second) return false;
    uint64_t mn = ~0ull; for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) mn = std::min(mn, H[i].res);
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1 || H[i].inv > mn) continue;
      auto t = s; auto& e = H[i]; bool ok = true; int k2 = (e.key + 1) % keys;
      switch (e.kind) {
        case 0: t[e.key] = e.val; ok = e.ret == 1; break;
        case 2: ok = s.count(e.key) ? (e.ret == 1 && e.out == s[e.key]) : e.ret == -1; break;
        case 3: t.erase(e.key); break;
        case 4: if (s.count(e.key)) ok = e.ret == -1; else { t[e.key] = e.val; ok = e.ret == 1; } break;
        case 5: if (s.count(e.key)) { t[e.key] = e.val; ok = e.ret == 1; } else ok = e.ret == -1; break;
        case 6: ok = e.all == s; break;
        case 7: t[e.key] = e.val; t[k2] = e.val; break;
        case 8: ok = (bool)e.out == (bool)s.count(e.key); break;
        case 9: t.erase(e.key); t.erase(k2); break;
        case 10: t.erase(e.key); t[k2] = e.val; break;
      }
      if (ok && go(done | 1ull << i, t)) return true;
    }
    return false;
  };
  if (!go(0, {})) sim::Fail("U02: concurrent map history of " + S(n) + " operations has no atomic order");
}
static sim::World w_map1("smap", MapWorld<DingoSafeMap<int, int>, false>);
static sim::World w_map2("stdmap", MapWorld<DingoSafeStdMap<int, int>, true>);

// ------------------------------------------------------------------ U03 worker sets
struct Task_ : TaskRunnable {
  std::function<void()> f; Task_(std::function<void()> x, int p) : f(x) { SetPriority(p); }
  std::string Type() override { return "SIM"; } std::string Trace() override { return "t" + std::to_string(Id()); } void Run() override { f(); }
};
static void Wset(sim::Ctx& c) {
  auto cfg = c.Swarm(); cfg.max_steps = 100000; sim::Start(cfg);
  int kind = c.rng.Below(3), workers = 1 + c.rng.Below(4), clients = 1 + c.rng.Below(5); int64_t limit = c.rng.Chance(0.4) ? 1 + c.rng.Below(8) : 0; bool pth = c.rng.Chance(0.3), inplace = c.rng.Chance(0.3);
  auto gate = std::make_shared<bool>(false);
  struct T { int ran = 0, accepted = 0, region = -1, prio = 0; uint64_t seq = 0, start = 0, end = 0, added = 0; };
  auto ts = std::make_shared<std::vector<T>>(); auto left = std::make_shared<uint64_t>(1); auto running = std::make_shared<std::map<int, int>>(); auto clk = std::make_shared<uint64_t>(0); auto conc = std::make_shared<int>(0);
  struct P { int mode, region, prio; uint64_t work; bool on; int id; }; std::vector<std::vector<P>> plans; int total = 0;
  for (int i = 0; i < clients; i++) { plans.emplace_back(); int n = 1 + c.rng.Below(8); for (int j = 0; j < n; j++) { P p{(int)c.rng.Below(3), (int)c.rng.Below(5), (int)c.rng.Below(4), c.rng.Chance(0.5) ? 0 : 1 + c.rng.Below(300), true, total++}; p.on = c.On("client " + S(i) + " submits task " + S(p.id) + " mode " + S(p.mode) + " region " + S(p.region) + " priority " + S(p.prio)); plans.back().push_back(p); } }
  ts->resize(total); bool late = c.rng.Chance(0.5), paced = c.rng.Chance(0.3); uint64_t destroy_at = c.rng.Chance(0.5) ? c.rng.Below(300) : c.rng.Below(2000);
  sim::Spawn([=] {
    WorkerSetPtr ws = kind == 0 ? ExecqWorkerSet::New("sim", workers, limit) : kind == 1 ? SimpleWorkerSet::New("sim", workers, limit, pth, inplace) : PriorWorkerSet::New("sim", workers, limit, pth, inplace);
    if (!ws->Init()) { sim::Fail("U03: worker set does not start"); return; }
    std::vector<uint64_t> fs; auto reg_seq = std::make_shared<std::map<int, std::vector<int>>>();
    for (auto& pl : plans) fs.push_back(sim::Spawn([=] {
      for (auto& p : pl) {
        if (!p.on) continue;
        T& t = (*ts)[p.id]; t.prio = p.prio; t.region = p.mode == 2 ? p.region : -1; uint64_t me = sim::SelfId();
        auto task = std::make_shared<Task_>([=] {
          T& t = (*ts)[p.id]; t.ran++; t.start = ++*clk; if (sim::SelfId() != me) ++*conc;
          if (t.region >= 0 && kind == 0) { if ((*running)[t.region]++) sim::Fail("U03: two tasks of region " + S(t.region) + " run at the same time in a hash-ordered worker set"); }
          if (*conc > workers) sim::Fail("U03: more tasks run at once than there are workers");
          if (p.work) sim::SleepUs(p.work); else sim::Yield();
          if (t.region >= 0 && kind == 0) (*running)[t.region]--;
          if (sim::SelfId() != me) --*conc; t.end = ++*clk; sim::Log("ran " + S(p.id));
        }, p.prio);
        uint64_t b = ++*clk; if (t.region >= 0) (*ts)[p.id].seq = b;
        bool ok = p.mode == 0 ? ws->Execute(task) : p.mode == 1 ? ws->ExecuteRR(task) : ws->ExecuteHashByRegionId(p.region, task);
        t.added = ++*clk; t.accepted = ok; sim::Log("submit " + S(p.id) + (ok ? " ok" : " refused")); sim::Count("ops_task"); if (!ok) { sim::Count("probe_refused"); if (!limit) sim::Fail("U03: a task was refused although no limit is set"); }
        if (paced) sim::SleepUs(p.work);
      }
    }, "client", 0));
    for (auto f : fs) sim::Join(f);
    if (late) sim::SleepUs(destroy_at); else for (int i = 0; i < 100000; i++) { bool all = true; for (auto& t : *ts) if (t.accepted && !t.end) all = false; if (all) break; sim::SleepUs(100); }
    if (kind == 0 || !late) { for (auto& t : *ts) if (t.accepted && !t.end && !late) sim::Fail("U03: an accepted task was never run"); if (!late) { for (int i = 0; i < 2000 && ws->PendingTaskCount() != 0; i++) sim::SleepUs(1000); if (ws->PendingTaskCount() != 0) sim::Fail("U03: pending count is " + S(ws->PendingTaskCount()) + " after every task finished"); } }
    { int q = 0, w = 0; for (auto& t : *ts) { if (t.accepted && !t.start) q++; if (t.start && !t.end) w++; } if (q) sim::Count(kind ? "probe_destroy_with_queue" : "probe_destroy_with_queue_execq"); if (w && kind) sim::Count("probe_destroy_while_running"); }
    ws->Destroy();
    for (size_t i = 0; i < ts->size(); i++) {
      T& t = (*ts)[i]; if (t.ran > 1) sim::Fail("U03: task " + S(i) + " ran " + S(t.ran) + " times");
      if (t.accepted && t.ran == 0 && (kind != 0 || !late)) sim::Fail("U03: accepted task " + S(i) + " was not run before the worker set was destroyed");
      if (!t.accepted && t.ran) sim::Fail("U03: refused task " + S(i) + " ran");
      if (t.ran && !t.end) sim::Fail("U03: task " + S(i) + " still running after destroy");
      for (size_t j = 0; j < ts->size(); j++) { T& u = (*ts)[j]; if (kind == 0 && t.region >= 0 && t.region == u.region && t.ran && u.ran && t.added < u.seq && t.start > u.start) sim::Fail("U03: tasks " + S(i) + " and " + S(j) + " of region " + S(t.region) + " ran out of submission order"); }
    }
    --*left;
  }, "main", 0);
  sim::Run(); Progress("U03", *left);
}
static sim::World w_wset("wset", Wset);
// Priority order: one worker is kept busy while tasks queue up; then the highest priority comes first.
static void Wprio(sim::Ctx& c) {
  auto cfg = c.Swarm(); sim::Start(cfg); int n = 2 + c.rng.Below(7); std::vector<int> pr; std::vector<bool> on; for (int i = 0; i < n; i++) { pr.push_back(c.rng.Below(5)); on.push_back(c.On("task " + S(i) + " priority " + S(pr[i]))); }
  bool pth = c.rng.Chance(0.5); auto left = std::make_shared<int>(1);
  sim::Spawn([=] {
    auto ws = PriorWorkerSet::New("simp", 1, 0, pth, false); ws->Init(); auto order = std::make_shared<std::vector<int>>(); auto open = std::make_shared<bool>(false); auto in = std::make_shared<bool>(false);
    ws->Execute(std::make_shared<Task_>([=] { *in = true; while (!*open) sim::SleepUs(50); }, 9)); while (!*in) sim::SleepUs(10);
    std::vector<uint64_t> fs; for (int i = 0; i < n; i++) if (on[i]) fs.push_back(sim::Spawn([=] { ws->Execute(std::make_shared<Task_>([=] { order->push_back(pr[i]); sim::Log("ran priority " + S(pr[i])); }, pr[i])); sim::Count("ops_task"); }, "c", 0));
    for (auto f : fs) sim::Join(f); *open = true; ws->Destroy();
    if (order->size() != fs.size()) sim::Fail("U03: " + S(fs.size()) + " tasks queued, " + S(order->size()) + " ran");
    for (size_t i = 1; i < order->size(); i++) if ((*order)[i] > (*order)[i - 1]) { std::string s; for (int x : *order) s += S(x) + " "; sim::Fail("U03: a lower priority task ran before a higher one that was already queued: order " + s); }
    --*left;
  }, "main", 0);
  sim::Run(); Progress("U03", *left);
}
static sim::World w_wprio("wprio", Wprio);

// Shutdown: the pool is destroyed right after (or while) a burst of tasks is queued.
static void Wdrain(sim::Ctx& c) {
  auto cfg = c.Swarm(); sim::Start(cfg); int kind = c.rng.Below(2), workers = 1 + c.rng.Below(6), n = 1 + c.rng.Below(8); bool pth = c.rng.Chance(0.3), inplace = c.rng.Chance(0.2); uint64_t wait = c.rng.Chance(0.6) ? 0 : c.rng.Below(60);
  std::vector<std::pair<int, bool>> ts; for (int i = 0; i < n; i++) { int w = c.rng.Chance(0.5) ? 0 : 1 + c.rng.Below(40); bool on = c.On("task " + S(i) + " works " + S(w)); ts.push_back({w, on}); }
  auto left = std::make_shared<int>(1);
  sim::Spawn([=] {
    WorkerSetPtr ws = kind ? PriorWorkerSet::New("simd", workers, 0, pth, inplace) : SimpleWorkerSet::New("simd", workers, 0, pth, inplace); ws->Init();
    auto ran = std::make_shared<std::vector<int>>(ts.size()); std::vector<bool> acc(ts.size());
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].second) { int w = ts[i].first; acc[i] = ws->Execute(std::make_shared<Task_>([=] { if (w) sim::SleepUs(w); ++(*ran)[i]; sim::Log("ran " + S(i)); }, i % 3)); sim::Count("ops_task"); }
    if (wait) sim::SleepUs(wait);
    ws->Destroy(); sim::Log("destroyed");
    for (size_t i = 0; i < ts.size(); i++) if (acc[i] != ((*ran)[i] == 1)) sim::Fail("U03: task " + S(i) + (acc[i] ? " was accepted but ran " : " was refused but ran ") + S((*ran)[i]) + " times by the time its pool was destroyed");
    --*left;
  }, "main", 0);
  sim::Run(); Progress("U03", *left);
}
static sim::World w_wdrain("wdrain", Wdrain);

// ------------------------------------------------------------------ U05 timestamps handed out by a store
struct FakeTso : pb::meta::MetaService {
  int64_t phys = 0, logical = 0; double fail_p = 0; uint64_t slow = 0;
  void TsoService(google::protobuf::RpcController*, const pb::meta::TsoRequest* q, pb::meta::TsoResponse* r, google::protobuf::Closure* done) override {
    if (fail_p > 0 && sim::ChooseChance(fail_p, "tso-fail")) { sim::Count("fault_tso_error"); r->mutable_error()->set_errcode(pb::error::EINTERNAL); done->Run(); return; }
    if (slow) sim::SleepUs(sim::SchedRng().Below(slow));
    int64_t now = sim::WallUs() / 1000; if (now > phys) { phys = now; logical = 0; }
    r->mutable_start_timestamp()->set_physical(phys); r->mutable_start_timestamp()->set_logical(logical); r->set_count(q->count()); logical += q->count(); done->Run();
  }
};
static void Tsp(sim::Ctx& c) {
  auto cfg = c.Swarm(); cfg.max_time_us = 120000000; sim::Start(cfg); FLAGS_ts_provider_batch_size = 1 + c.rng.Below(c.rng.Chance(0.5) ? 4 : 100); FLAGS_ts_provider_batch_ts_stale_interval_ms = 3000;
  int clients = 1 + c.rng.Below(6); bool faults = c.rng.Chance(0.5); double fp = c.rng.Chance(0.5) ? 0 : 0.1; uint64_t slow = c.rng.Chance(0.4) ? c.rng.Below(5000) : 0; bool renew = c.rng.Chance(0.3);
  if (faults) { sim_net::conf.drop_req = 0.05; sim_net::conf.drop_resp = 0.05; sim_net::conf.dup = 0.1; sim_net::conf.slow_p = 0.05; }
  struct R { uint64_t inv, res; int64_t ts, after, minv; }; auto rs = std::make_shared<std::vector<R>>(); auto left = std::make_shared<uint64_t>(0); auto clk = std::make_shared<uint64_t>(0); auto maxts = std::make_shared<int64_t>(0); auto minv = std::make_shared<int64_t>(0);
  struct P { uint64_t pause; int after; int setmin; bool on; }; double smin = c.rng.Chance(0.3) ? 0.5 : 0.1; std::vector<std::vector<P>> plans; for (int i = 0; i < clients; i++) { plans.emplace_back(); int n = 1 + c.rng.Below(12); for (int j = 0; j < n; j++) { P p{c.rng.Chance(0.2) ? c.rng.Below(c.rng.Chance(0.2) ? 7000000 : 3000) : 0, (int)c.rng.Below(4), c.rng.Chance(smin), true}; p.on = c.On("client " + S(i) + " pause " + S(p.pause) + " after-kind " + S(p.after)); plans.back().push_back(p); } }
  ++*left;
  sim::Spawn([=, &c] {
    auto svc = std::make_shared<FakeTso>(); svc->fail_p = fp; svc->slow = slow; auto srv = std::make_shared<brpc::Server>(); butil::EndPoint ep; butil::str2endpoint("10.0.0.9:1", &ep); sim_net::Bind(ep, 9);
    uint64_t sf = sim::Spawn([=] { srv->AddService(svc.get(), brpc::SERVER_DOESNT_OWN_SERVICE); srv->Start(ep, nullptr); }, "srv", 9); sim::Join(sf);
    auto ci = std::make_shared<CoordinatorInteraction>(); ci->InitByNameService("list://10.0.0.9:1", pb::common::ServiceTypeMeta);
    auto tp = mvcc::TsProvider::New(ci); tp->Init();
    std::vector<uint64_t> fs;
    for (int i = 0; i < (int)plans.size(); i++) fs.push_back(sim::Spawn([=] {
      for (auto& p : plans[i]) {
        if (!p.on) continue; if (p.pause) sim::SleepUs(p.pause);
        if (p.setmin) { int64_t v = std::max(*maxts, (int64_t)(sim::WallUs() / 1000) << 18) + (int64_t)(1 << 18) * (1 + i * 4); inst::SetMinValidTs(*tp, v); if (v > *minv) *minv = v; sim::Count("probe_min_valid"); }
        if (renew && p.after == 3) tp->TriggerRenewBatchTs();
        int64_t after = p.after == 1 ? *maxts : p.after == 2 ? *maxts + 5 : 0; uint64_t t0 = sim::NowUs(); R r{++*clk, 0, 0, after, *minv}; r.ts = tp->GetTs(after); r.res = ++*clk; sim::Log("ts " + S(r.ts)); sim::Count(r.ts ? "ops_ts" : "probe_ts_unavailable");
        if (r.ts <= 0) { if (!faults && fp == 0 && !after && !*minv && FLAGS_ts_provider_batch_size >= 50 && sim::NowUs() - t0 < 2000000) sim::Fail("U05: no timestamp although the timestamp service answers"); continue; }
        if (r.ts <= after) sim::Fail("U05: timestamp " + S(r.ts) + " is not above the requested lower bound " + S(after));
        if (r.ts <= r.minv) sim::Fail("U05: timestamp " + S(r.ts) + " is not above the minimum valid timestamp " + S(r.minv));
        int64_t born = sim::kWallBaseUs / 1000 + (int64_t)t0 / 1000; if ((r.ts >> 18) + 3000 + 50 + (int64_t)(slow / 1000) + (faults ? 300000 : 0) + 5 < born) sim::Fail("U05: timestamp handed out is " + S(born - (r.ts >> 18)) + " ms old");
        *maxts = std::max(*maxts, r.ts);
        for (auto& o : *rs) { if (o.ts == r.ts) sim::Fail("U05: timestamp " + S(r.ts) + " handed out twice"); if (o.res < r.inv && o.ts > r.ts) sim::Fail("U05: timestamp " + S(r.ts) + " is below " + S(o.ts) + ", which was handed out before the request began"); }
        rs->push_back(r);
      }
    }, "client", 0));
    for (auto f : fs) sim::Join(f);
    --*left; sim::Stop();
  }, "main", 0);
  sim::Run(); if (!sim::S().n["run_cut"] && !sim::S().n["run_cut_time"]) Progress("U05", *left);
}
static sim::World w_tsp("tsp", Tsp);

// ------------------------------------------------------------------ U06 lock primitives
static void Rw(sim::Ctx& c) {
  auto cfg = c.Swarm(); sim::Start(cfg); auto l = std::make_shared<RWLock>(); auto rd = std::make_shared<int>(0); auto wr = std::make_shared<int>(0); auto left = std::make_shared<uint64_t>(0); int clients = 2 + c.rng.Below(6);
  auto sem = std::make_shared<BthreadSemaphore>(1 + c.rng.Below(3)); int cap = sem->GetValue(); auto insem = std::make_shared<int>(0); auto cond = std::make_shared<BthreadCond>(); auto fin = std::make_shared<int>(0);
  auto pool = std::make_shared<ResourcePool<int>>("simpool"); int pn = 1 + c.rng.Below(3); auto used = std::make_shared<std::set<int>>();
  for (int i = 0; i < clients; i++) {
    struct P { int k; uint64_t h; bool on; }; std::vector<P> pl; int n = 1 + c.rng.Below(6); for (int j = 0; j < n; j++) { P p{(int)c.rng.Below(5), c.rng.Chance(0.5) ? 0 : c.rng.Below(100), true}; p.on = c.On("client " + S(i) + " op " + S(p.k)); pl.push_back(p); }
    ++*left; cond->Increase();
    sim::Spawn([=] {
      for (auto& p : pl) {
        if (!p.on) continue; auto hold = [&] { if (p.h) sim::SleepUs(p.h); else sim::Yield(); }; sim::Count("ops_lock");
        if (p.k <= 1) { RWLockReadGuard g(l.get()); ++*rd; if (*wr) sim::Fail("U06: a reader is inside while a writer holds the lock"); if (*rd > 1) sim::Count("probe_shared_readers"); hold(); if (*wr) sim::Fail("U06: a writer came in while a reader holds the lock"); --*rd; }
        else if (p.k == 2) { RWLockWriteGuard g(l.get()); ++*wr; if (*wr > 1 || *rd) sim::Fail("U06: the write lock is not exclusive"); hold(); if (*wr > 1 || *rd) sim::Fail("U06: the write lock is not exclusive"); --*wr; }
        else if (p.k == 3) { sem->Acquire(); if (++*insem > cap) sim::Fail("U06: more holders than the semaphore admits"); hold(); --*insem; sem->Release(1); }
        else { int x = pool->Get(); if (!used->insert(x).second) sim::Fail("U06: a pooled resource was given to two users"); hold(); used->erase(x); pool->Put(x); }
        sim::Log("c" + S(i) + " did " + S(p.k));
      }
      ++*fin; --*left; cond->DecreaseSignal();
    }, "client", 0);
  }
  ++*left;
  sim::Spawn([=] { for (int i = 0; i < pn; i++) pool->Put(i); cond->Wait(); if (*fin != clients) sim::Fail("U06: wait returned although " + S(clients - *fin) + " parties were outstanding"); --*left; }, "waiter", 0);
  sim::Run(); Progress("U06", *left);
}
static sim::World w_rw("rw", Rw);
