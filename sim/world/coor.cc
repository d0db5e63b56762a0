// Timestamp oracle and auto-increment on three coordinators under faults.
#include "coor.h"
namespace co {
void Base::Setup(std::vector<int64_t> gs, uint64_t span) {
  auto cfg = c.Swarm(); cfg.max_steps = 4000000; sim::Start(cfg); groups = gs; auto& rng = c.rng;
  k.conf.stores = 0; k.conf.coords = 3; k.conf.write_workers = rng.Range(1, 4);
  f.max = rng.Chance(0.15) ? 0 : 6; f.span_us = span ? span : rng.Chance(0.5) ? 2000000 : 7000000; f.regions = gs; f.skew = rng.Chance(0.5);
}
bool Base::Up() {
  k.Start(); if (sim::Failed()) return false;
  for (auto g : groups) if (!st::WaitLeader(k, g)) { sim::Fail("R01: coordinators elect no leader within 20 s of starting, group " + S(g)); return false; }
  rocksdb::simdisk::SyncAll(); return true;
}
void Base::Ticks(std::function<void(cl::Proc*)> fn, uint64_t every, std::shared_ptr<bool> stop) {
  for (int i = 1; i <= k.conf.coords; i++) sim::Spawn([=, this] { int m = cl::kCoorBase + i; while (!*stop) { sim::SleepUs(every); if (!k.Up(m)) continue; cl::OnProc(k.procs[m], "tick", [=, this] { fn(k.procs[m]); }); } }, "ticker", 1);
}
void Base::Under(std::function<void()> clients) {
  auto plan = st::StartFaults(k, f); clients(); while (plan->pending > 0) sim::SleepUs(50000); st::Recover(k, f);
}
bool Base::Settle(int64_t g, uint64_t us) { std::vector<int> ps; for (int i = 1; i <= k.conf.coords; i++) ps.push_back(cl::kCoorBase + i); return st::Quiesce(k, g, ps, us); }

namespace {
struct Tso : Base {
  using Base::Base;
  struct Got { int64_t lo, hi; uint64_t t0, t1; int at; bool solid; };
  std::vector<Got> all; std::string stale;
  static std::string Show(const Got& g) { return "[" + S(g.lo >> 18) + "." + S(g.lo & ((1 << 18) - 1)) + " +" + S(g.hi - g.lo) + " from " + S(g.at) + "]"; }
  void Add(const Got& g) {
    for (auto& o : all) if (g.lo < o.hi && o.lo < g.hi) { sim::Fail("C01: a timestamp was handed out twice: " + Show(o) + " and " + Show(g)); return; }
    for (auto& o : all) if (o.t1 < g.t0 && g.lo < o.lo) { std::string t = Show(o) + " was answered before " + Show(g) + " was asked for"; if (g.solid) sim::Fail("C01: timestamps go backwards: " + t); else if (stale.empty()) stale = ("C01: a deposed leader hands out a timestamp below one of its successor: " + t); return; }
    all.push_back(g);
  }
  void One(Caller& ca, sim::Rng& r, int id) {
    pb::meta::TsoRequest q; pb::meta::TsoResponse p; q.set_op_type(pb::meta::OP_GEN_TSO); q.set_count(r.Chance(0.7) ? r.Range(1, 20) : r.Chance(0.7) ? r.Range(20, 2000) : r.Range(50000, 200000));
    Meta m; auto res = ca.Once(MetaSvc(), "TsoService", q, p, &m); sim::Count("ops_tso");
    if (res == st::kOk) { sim::Count("ops_ok"); int64_t lo = (p.start_timestamp().physical() << 18) + p.start_timestamp().logical(); sim::Log("c" + S(id) + " tso " + S(lo) + " +" + S(p.count()) + " at " + S(m.machine)); if (p.count() != q.count()) { sim::Fail("C01: asked for " + S(q.count()) + " timestamps, got " + S(p.count())); return; } if (p.start_timestamp().logical() + p.count() > (1 << 18)) { sim::Fail("C01: the logical part of a timestamp overflows"); return; } Add(Got{lo, lo + p.count(), m.t0, m.t1, m.machine, m.solid}); }
    else sim::SleepUs(r.Below(200000));
  }
  void Go() {
    Setup({kTso}); auto& rng = c.rng; int nc = rng.Range(2, 5), n = rng.Range(5, 25); f.skew = rng.Chance(0.7); bool busy = rng.Chance(0.5);
    std::vector<std::vector<bool>> on(nc); for (int i = 0; i < nc; i++) for (int j = 0; j < n; j++) on[i].push_back(c.On("client " + S(i) + " timestamp request " + S(j)));
    sim::Spawn([&, nc, n, busy] {
      if (!Up()) return;
      Under([&] { std::vector<uint64_t> cs; for (int i = 0; i < nc; i++) cs.push_back(sim::Spawn([&, i] { Caller ca(k, kTso); sim::Rng r(sim::Mix(c.seed, 900 + i)); for (int j = 0; j < n && !sim::Failed(); j++) { sim::Rng q(r.Next()); if (!on[i][j]) continue; if (q.Chance(0.3)) ca.guess = cl::kCoorBase + q.Range(1, 3); sim::SleepUs(busy ? q.Below(3000) : q.Below(400000)); One(ca, q, i); } }, "client", cl::kClientBase + i)); for (auto x : cs) sim::Join(x); });
      if (sim::Failed()) return;
      Caller ca(k, kTso); size_t before = all.size(); uint64_t end = sim::NowUs() + 20000000; sim::Rng r(5);
      while (all.size() == before && sim::NowUs() < end && !sim::Failed()) { One(ca, r, 99); sim::SleepUs(100000); }
      if (!sim::Failed() && all.size() == before) { sim::Fail("C01: no timestamp is served 20 s after the last fault ended: " + sim_raft::Describe("2")); return; }
      if (!stale.empty()) { sim::Fail(stale); return; }
      sim::Count("tso_checked", all.size()); sim::Stop();
    }, "main", 1);
    sim::Run();
  }
};
// ---- auto-increment
struct Inc : Base {
  using Base::Base;
  struct Gen { int64_t lo, hi, first, last; uint64_t t0, t1; std::string text; };
  struct Tab { int64_t id; std::vector<Gen> gens; std::map<int64_t, std::string> created; int64_t floor = 0; bool dropped = false; std::vector<std::pair<uint64_t, int64_t>> floors; };
  std::vector<Tab> tabs;
  void Bad(const std::string& t) { sim::Fail("C02: " + t); }
  void Client(int id, int n, std::vector<int> plan, std::vector<bool> on, std::vector<int>& tid) {
    Caller ca(k, kInc); sim::Rng rr(sim::Mix(c.seed, 300 + id));
    for (int j = 0; j < n && !sim::Failed(); j++) {
      sim::Rng r(rr.Next()); if (!on[j]) continue; sim::SleepUs(r.Chance(0.6) ? r.Below(3000) : r.Below(500000)); if (r.Chance(0.2)) ca.guess = cl::kCoorBase + r.Range(1, 3);
      auto& t = tabs[tid[j]]; Meta m; sim::Count("ops_autoinc"); std::string text; st::Res res;
      if (plan[j] == 0) { pb::meta::CreateAutoIncrementRequest q; pb::meta::CreateAutoIncrementResponse p; q.mutable_table_id()->set_entity_id(t.id); int64_t st = r.Chance(0.6) ? 100 : r.Range(1, 5) * 100; q.set_start_id(st); res = ca.Once(MetaSvc(), "CreateAutoIncrement", q, p, &m); text = "create " + S(t.id) + " from " + S(st);
        if (res == st::kOk) { bool moved = false; for (auto& o : t.gens) if (o.hi == st) moved = true; for (auto& fl : t.floors) if (fl.second == st) moved = true; if (moved && t.created.size()) { sim::Count("create_at_current_value"); } else t.created[st] = text; if (t.dropped) { } else if (t.created.size() > 1) { Bad("a counter was created twice with different first ids: " + t.created.begin()->second + " and " + t.created.rbegin()->second); return; } t.floors.push_back({m.t1, st}); } }
      else if (plan[j] == 1) { pb::meta::GenerateAutoIncrementRequest q; pb::meta::GenerateAutoIncrementResponse p; q.mutable_table_id()->set_entity_id(t.id); int64_t cnt = r.Chance(0.8) ? r.Range(1, 20) : r.Range(1000, 100000), inc = r.Chance(0.7) ? 1 : r.Chance(0.8) ? r.Range(2, 10) : 65535, off = r.Chance(0.7) ? 1 : r.Range(1, inc); q.set_count(cnt); q.set_auto_increment_increment(inc); q.set_auto_increment_offset(off);
        res = ca.Once(MetaSvc(), "GenerateAutoIncrement", q, p, &m); text = "generate " + S(t.id) + " " + S(cnt) + " step " + S(inc) + "/" + S(off) + " -> [" + S(p.start_id()) + "," + S(p.end_id()) + ")";
        if (res == st::kOk) {
          Gen g{p.start_id(), p.end_id(), 0, 0, m.t0, m.t1, text}; int64_t f = g.lo; while (inc > 1 && f % inc != off % inc) f++; int64_t got = f >= g.hi ? 0 : (g.hi - 1 - f) / inc + 1;
          if (got < cnt) { Bad("an answered range holds " + S(got) + " ids instead of " + S(cnt) + ": " + text); return; }
          if (!t.dropped) for (auto& o : t.gens) if (g.lo < o.hi && o.lo < g.hi) { Bad("an id was handed out twice: " + o.text + " and " + text); return; } else if (o.t1 < g.t0 && g.lo < o.hi) { Bad("ids go backwards: " + o.text + " before " + text); return; }
          if (!t.dropped) for (auto& fl : t.floors) if (fl.first < g.t0 && g.lo < fl.second) { Bad("an id below the start that was set is handed out: " + text + " after " + S(fl.second)); return; }
          t.gens.push_back(g);
        } }
      else if (plan[j] == 4) { pb::meta::DeleteAutoIncrementRequest q; pb::meta::DeleteAutoIncrementResponse p; q.mutable_table_id()->set_entity_id(t.id); t.dropped = true; res = ca.Once(MetaSvc(), "DeleteAutoIncrement", q, p, &m); text = "delete " + S(t.id); }
      else if (plan[j] == 2) { pb::meta::UpdateAutoIncrementRequest q; pb::meta::UpdateAutoIncrementResponse p; q.mutable_table_id()->set_entity_id(t.id); int64_t st = r.Chance(0.5) && t.gens.size() ? t.gens.back().hi + r.Range(-20, 60) : r.Range(50, 3000); q.set_start_id(st); q.set_force(false); res = ca.Once(MetaSvc(), "UpdateAutoIncrement", q, p, &m); text = "advance " + S(t.id) + " to " + S(st); if (res == st::kOk) t.floors.push_back({m.t1, st}); }
      else { pb::meta::GetAutoIncrementRequest q; pb::meta::GetAutoIncrementResponse p; q.mutable_table_id()->set_entity_id(t.id); res = ca.Once(MetaSvc(), "GetAutoIncrement", q, p, &m); text = "get " + S(t.id) + " = " + S(p.start_id());
        if (res == st::kOk && m.solid && !t.dropped) { for (auto& o : t.gens) if (o.t1 < m.t0 && p.start_id() < o.hi) { Bad("the counter is below an id already handed out: " + text + " after " + o.text); return; } } }
      sim::Log("c" + S(id) + " " + text + " at " + S(m.machine) + " code " + S(m.code)); if (res == st::kOk) sim::Count("ops_ok"); else if (res != st::kOk && m.code != pb::error::EAUTO_INCREMENT_EXIST) sim::SleepUs(r.Below(150000));
    }
  }
  void Go() {
    Setup({kInc}); auto& rng = c.rng; int nc = rng.Range(2, 5), n = rng.Range(4, 16), nt = rng.Range(1, 2); tabs.resize(nt); for (int i = 0; i < nt; i++) tabs[i].id = 60001 + i;
    std::vector<std::vector<int>> pl(nc), tb(nc); std::vector<std::vector<bool>> on(nc); int wu = rng.Below(3); bool drops = rng.Chance(0.2);
    for (int i = 0; i < nc; i++) for (int j = 0; j < n; j++) { int x = rng.Below(8 + wu), kd = j == 0 && rng.Chance(0.7) ? 0 : x == 0 ? 0 : x < 7 ? 1 : x < 8 ? 3 : 2; if (drops && x > 4) kd = x > 6 ? 0 : 4; pl[i].push_back(kd); tb[i].push_back(rng.Below(nt)); static const char* nm[] = {"create", "generate", "advance", "get", "delete"}; on[i].push_back(c.On("client " + S(i) + " operation " + S(j) + " " + nm[kd])); }
    sim::Spawn([&, nc, n] {
      if (!Up()) return;
      Under([&] { std::vector<uint64_t> cs; for (int i = 0; i < nc; i++) cs.push_back(sim::Spawn([&, i] { Client(i, n, pl[i], on[i], tb[i]); }, "client", cl::kClientBase + i)); for (auto x : cs) sim::Join(x); });
      if (sim::Failed()) return;
      if (!Settle(kInc)) { Bad("the coordinators do not catch up within 30 s after the last fault ended: " + sim_raft::Describe("3")); return; }
      std::map<int, std::map<int64_t, int64_t>> maps;
      for (int i = 1; i <= 3; i++) { auto* p = k.procs[cl::kCoorBase + i]; auto* out = &maps[i]; cl::OnProc(p, "dump", [=] { butil::FlatMap<int64_t, int64_t> m; m.init(64); p->server->GetAutoIncrementControl()->GetAutoIncrements(m); for (auto& x : m) (*out)[x.first] = x.second; }); }
      for (int i = 2; i <= 3; i++) if (maps[i] != maps[1]) { std::string a, b; for (auto& x : maps[1]) a += " " + S(x.first) + "=" + S(x.second); for (auto& x : maps[i]) b += " " + S(x.first) + "=" + S(x.second); Bad("coordinators that applied the same log hold different counters:" + a + " and" + b); return; }
      for (auto& t : tabs) { if (t.dropped) continue; if (!maps[1].count(t.id)) { if (t.created.size()) { Bad("a counter reported created does not exist"); return; } continue; } int64_t v = maps[1][t.id]; for (auto& g : t.gens) if (g.hi > v) { Bad("at the end the counter is " + S(v) + ", below ids handed out by " + g.text); return; } for (auto& fl : t.floors) if (v < fl.second) { Bad("at the end the counter is " + S(v) + ", below the start that was set " + S(fl.second)); return; } }
      sim::Count("autoinc_checked"); sim::Stop();
    }, "main", 1);
    sim::Run();
  }
};
}
static void IncW(sim::Ctx& c) { auto* t = new Inc(c); t->Go(); }
static sim::World w2("inc", IncW);
static void TsoW(sim::Ctx& c) { auto* t = new Tso(c); t->Go(); }
static sim::World w1("tso", TsoW);
}
