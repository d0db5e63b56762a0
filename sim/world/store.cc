#include "store.h"
#include "rocksdb/db.h"
#include "common/constant.h"
#include "mvcc/codec.h"
#include "engine/raw_engine.h"
#include "meta/store_meta_manager.h"
namespace st {
static std::string FindGroup(int64_t r) { for (auto& g : sim_raft::Groups()) { auto p = g.find_last_not_of("0123456789"); if (g.substr(p == std::string::npos ? 0 : p + 1) == S(r)) return g; } return ""; }
std::string Group(int64_t r) { auto g = FindGroup(r); return g.empty() ? "region-" + S(r) : g; }
pb::common::RegionDefinition Def(const Reg& r) {
  pb::common::RegionDefinition d; d.set_id(r.id); *d.mutable_epoch() = r.Epoch(); d.set_name("region-" + S(r.id)); d.mutable_range()->set_start_key(r.start); d.mutable_range()->set_end_key(r.end);
  d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); d.set_region_type(pb::common::STORE_REGION);
  for (int m : r.peers) { auto* p = d.add_peers(); p->set_store_id(m); *p->mutable_server_location() = cl::Loc(m); *p->mutable_raft_location() = cl::RaftLoc(m); p->set_role(pb::common::VOTER); }
  return d;
}
int LeaderMachine(int64_t region) { auto g = FindGroup(region); if (g.empty()) return -1; int n = sim_raft::LeaderNode(g); return n < 0 ? -1 : n / 1000; }
bool WaitLeader(cl::Cluster& c, int64_t region, uint64_t us) { uint64_t end = sim::NowUs() + us; while (sim::NowUs() < end) { if (LeaderMachine(region) > 0) return true; sim::SleepUs(20000); } return false; }
bool CreateRegion(cl::Cluster& c, const Reg& r, int64_t split_from, const std::vector<int>& on) {
  for (int m : on.empty() ? r.peers : on) {
    pb::coordinator::StoreOperation op; auto* cmd = cl::NewRegionCmd(op, m, r.id, pb::coordinator::CMD_CREATE); *cmd->mutable_create_request()->mutable_region_definition() = Def(r); cmd->mutable_create_request()->set_split_from_region_id(split_from);
    bool ok = false; for (int i = 0; i < 20 && !ok; i++) { pb::push::PushStoreOperationResponse resp; if (cl::PushOp(m, op, resp) && !resp.error().errcode()) ok = true; else sim::SleepUs(100000); }
    if (!ok) return false;
  }
  return true;
}
int Caller::Hint(const pb::error::Error& e) { if (e.has_leader_location()) for (auto& p : c.procs) { auto l = cl::Loc(p.first); if (l.host() == e.leader_location().host() && l.port() == e.leader_location().port()) return p.first; } return 0; }
bool Snapshot(cl::Cluster& c, int m, int64_t region) {
  if (!c.Up(m)) return false; auto* p = c.procs[m]; auto ok = std::make_shared<bool>(false);
  cl::OnProc(p, "snapshot", [=] { auto n = p->server->GetRaftStoreEngine()->GetNode(region); if (!n) return; auto ctx = std::make_shared<Context>(); ctx->SetRegionId(region); *ok = n->Snapshot(ctx, true).ok(); });
  return *ok;
}
std::shared_ptr<Plan> StartFaults(cl::Cluster& c, const Faults& f) {
  auto plan = std::make_shared<Plan>(); auto& rng = c.c.rng; int n = rng.Below(f.max + 1);
  struct It { uint64_t at; std::function<void()> fn; std::string text; }; auto its = std::make_shared<std::vector<It>>();
  std::vector<std::string> kinds; auto add = [&](bool on, const char* k, int w = 1) { if (on) for (int i = 0; i < w; i++) kinds.push_back(k); };
  add(f.crash, "crash", 2); add(f.power, "power"); add(f.crash, "writecrash"); add(f.partition, "isolate"); add(f.partition, "cut"); add(f.partition, "alone"); add(f.stall, "stall"); add(f.lead && f.regions.size(), "stepdown"); add(f.lead && f.regions.size(), "elect"); add(f.snapshot && f.regions.size(), "snapshot", 2); add(f.skew, "skew"); add(f.net, "slow"); add(f.diskerr, "diskerr");
  if (kinds.empty()) return plan;
  for (int i = 0; i < n; i++) {
    It it; it.at = f.from_us + rng.Below(f.span_us); std::string k = rng.Pick(kinds); int ns = c.conf.stores ? c.conf.stores : c.conf.coords, b = c.conf.stores ? 0 : cl::kCoorBase; int m = b + 1 + rng.Below(ns), m2 = b + 1 + rng.Below(ns); uint64_t dur = rng.Chance(0.5) ? rng.Below(400000) : rng.Below(5000000); bool lead = rng.Chance(0.5); int64_t reg = f.regions.empty() ? 0 : f.regions[rng.Below(f.regions.size())]; int64_t skew = rng.Range(-3000000, 3000000);
    it.text = k + " machine " + (lead ? "(leader, else " + S(m) + ")" : S(m)) + " at " + S(it.at) + " for " + S(dur);
    auto* cp = &c; auto who = [=] { int l = lead && reg ? LeaderMachine(reg) : -1; return l > 0 ? l : m; };
    if (k == "crash" || k == "power") it.fn = [=] { int w = who(); if (!cp->Up(w)) return; cp->Crash(w, k == "power"); cp->down[w] = true; plan->pending++; sim::Spawn([=] { sim::SleepUs(dur); if (!cp->procs[w]) cp->Boot(w); cp->down[w] = false; plan->pending--; }, "restart", 1); };
    else if (k == "writecrash") { int nth = rng.Range(1, rng.Chance(0.5) ? 8 : 40); it.text += " write " + S(nth); it.fn = [=] { int w = who(); sim::Count("armed_write_crash"); rocksdb::simdisk::CrashAtWrite("m" + S(w) + "/", nth, [=] { if (!cp->procs[w]) return; sim::Count("fault.crash_at_write"); cp->down[w] = true; plan->pending++; sim::Spawn([=] { if (cp->procs[w]) cp->Crash(w, lead); sim::SleepUs(dur); if (!cp->procs[w]) cp->Boot(w); cp->down[w] = false; plan->pending--; }, "restart", 1); sim::WaitList never; sim::Block(never); }); }; }
    else if (k == "isolate") it.fn = [=] { int w = who(); if (!cp->Up(w)) return; int nd = cp->procs[w]->node; sim_net::Isolate(nd, true); sim::Log("isolate " + S(w)); sim::At(sim::NowUs() + dur, [nd] { sim_net::Isolate(nd, false); }); };
    else if (k == "cut") it.fn = [=] { int w = who(); if (w == m2 || !cp->Up(w) || !cp->Up(m2)) return; sim_net::Cut(cp->procs[w]->node, cp->procs[m2]->node, lead); sim::Log("cut " + S(w) + " " + S(m2)); sim::At(sim::NowUs() + dur, [] { sim_net::Heal(); }); };
    else if (k == "alone") it.fn = [=] { int w = who(); if (!cp->Up(w)) return; sim::Count("fault.cut_from_peers"); sim::Log("cut " + S(w) + " from its peers"); for (auto& p : cp->procs) if (p.first != w && cp->Up(p.first)) sim_net::Cut(cp->procs[w]->node, p.second->node, true); sim::At(sim::NowUs() + dur, [] { sim_net::Heal(); }); };
    else if (k == "stall") it.fn = [=] { int w = who(); if (!cp->Up(w)) return; sim::StallNode(cp->procs[w]->node, sim::NowUs() + dur); sim::Count("fault.stall"); sim::Log("stall " + S(w) + " for " + S(dur)); };
    else if (k == "stepdown") it.fn = [=] { if (sim_raft::StepDown(FindGroup(reg))) sim::Count("fault.leader_stepdown"); };
    else if (k == "elect") it.fn = [=] { butil::EndPoint e = cl::RaftAddr(m); if (sim_raft::ForceElection(FindGroup(reg), braft::PeerId(e, 0).to_string())) sim::Count("fault.forced_election"); };
    else if (k == "snapshot") it.fn = [=] { plan->pending++; sim::Spawn([=] { if (Snapshot(*cp, who(), reg)) sim::Count("fault.snapshot_and_log_truncation"); plan->pending--; }, "snapshot", 1); };
    else if (k == "skew") it.fn = [=] { int w = who(); if (!cp->Up(w)) return; sim::SetClockSkewUs(cp->procs[w]->node, skew); sim::Count("fault.clock_jump"); };
    else if (k == "slow") it.fn = [=] { auto old = sim_net::conf; sim_net::conf.slow_p = 0.1; sim_net::conf.slow_max_us = 900000; sim::At(sim::NowUs() + dur, [old] { sim_net::conf.slow_p = old.slow_p; }); };
    else if (k == "diskerr") it.fn = [=] { rocksdb::simdisk::write_fault_p = 0.02; sim::At(sim::NowUs() + dur / 4, [] { rocksdb::simdisk::write_fault_p = 0; }); };
    if (c.c.On("fault: " + it.text)) its->push_back(it);
  }
  std::sort(its->begin(), its->end(), [](const It& a, const It& b) { return a.at < b.at; });
  plan->pending++; uint64_t t0 = sim::NowUs();
  sim::Spawn([=] { for (auto& it : *its) { uint64_t at = t0 + it.at; if (sim::NowUs() < at) sim::SleepUs(at - sim::NowUs()); if (sim::Failed()) break; sim::Log("fault: " + it.text); it.fn(); } plan->pending--; plan->done = true; }, "faults", 1);
  return plan;
}
void Recover(cl::Cluster& c, const Faults&) {
  sim_net::Heal(); sim_net::conf.slow_p = 0; sim_net::conf.drop_req = sim_net::conf.drop_resp = 0; rocksdb::simdisk::write_fault_p = 0; rocksdb::simdisk::ForgetCrashes(); if (c.fake) c.fake->fail_p = 0;
  for (int k = 0; k < 2; k++) for (int i = 1; i <= (k ? c.conf.coords : c.conf.stores); i++) { int m = (k ? cl::kCoorBase : 0) + i; while (c.down[m]) sim::SleepUs(50000); if (!c.procs[m]) c.Boot(m); }
}
bool Quiesce(cl::Cluster& c, int64_t region, const std::vector<int>& peers, uint64_t us) {
  uint64_t end = sim::NowUs() + us; int stable = 0; auto g = FindGroup(region);
  while (sim::NowUs() < end) {
    int64_t ci = sim_raft::CommittedIndex(g); bool same = LeaderMachine(region) > 0; for (int m : peers) { if (!c.Up(m)) { same = false; break; } if (sim_raft::AppliedIndex(g, c.procs[m]->node) != ci) same = false; }
    if (same && ++stable >= 3) return true; if (!same) stable = 0; sim::SleepUs(100000);
  }
  return false;
}
std::map<std::string, std::map<std::string, std::string>> Dump(cl::Cluster& c, int m, const std::string& start, const std::string& end, bool) {
  using M = std::map<std::string, std::map<std::string, std::string>>; auto out = std::make_shared<M>(); auto* p = c.procs[m]; if (!p) return *out;
  cl::OnProc(p, "dump", [=] {
    auto eng = p->server->GetRawEngine(pb::common::RAW_ENG_ROCKSDB);
    for (std::string cf : {Constant::kStoreDataCF, Constant::kTxnDataCF, Constant::kTxnLockCF, Constant::kTxnWriteCF}) { std::vector<pb::common::KeyValue> kvs; auto s = eng->Reader()->KvScan(cf, start, end, kvs); if (!s.ok()) continue; for (auto& kv : kvs) (*out)[cf][kv.key()] = kv.value(); }
  });
  return *out;
}
std::string Show(const std::string& s) { std::string o; for (unsigned char ch : s) { if (ch > 32 && ch < 127) o += ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } } return o; }

// ---------------------------------------------------------------- search for an atomic order
namespace {
using Mask = std::bitset<192>;
struct Ln {
  const std::vector<Op>& o; int nk; uint64_t budget; bool over = false; std::unordered_set<uint64_t> seen; std::vector<int> by_t0; size_t must = 0; size_t best = 0; std::string stuck;
  uint64_t Key(const Mask& m, const std::vector<std::string>& s) { uint64_t h = std::hash<Mask>()(m); for (auto& x : s) h = sim::Mix(h, sim::Hash(x)); return h; }
  static const std::string& A() { static std::string a = "\x01none"; return a; }   // absent
  bool weak = false; std::vector<bool> split;   // weak: a conditional write overlapping a range delete may have checked its condition before the delete and written after it
  void Set(std::vector<std::string>& s, int k, const std::string& v) { s[k] = v; if (weak) s[nk + k] = A(); }
  // effect of op on state; false when the reported result contradicts
  bool Apply(const Op& op, std::vector<std::string>& s, bool sp) {
    switch (op.kind) {
      case Op::kPut: for (size_t i = 0; i < op.keys.size(); i++) Set(s, op.keys[i], op.val[i]); return true;
      case Op::kDel: for (size_t i = 0; i < op.keys.size(); i++) { if (op.known && op.res.size() > i && op.res[i] >= 0 && op.res[i] != (s[op.keys[i]] != A())) return false; } for (int k : op.keys) Set(s, k, A()); return true;
      case Op::kDelRange: for (int k : op.keys) { auto old = s[k]; if (old != A()) { s[k] = A(); if (weak) s[nk + k] = old; } } return true;
      case Op::kGet: case Op::kScan: for (size_t i = 0; i < op.keys.size(); i++) if (s[op.keys[i]] != op.val[i]) return false; return true;
      case Op::kPia: case Op::kCas: {
        std::vector<bool> can; bool all = true;
        for (size_t i = 0; i < op.keys.size(); i++) { auto& cur = s[op.keys[i]]; auto test = [&](const std::string& cur) { return op.kind == Op::kPia ? cur == A() : (cur == A() ? op.exp[i].empty() : cur == op.exp[i]); }; bool b = test(cur); if (sp && s[nk + op.keys[i]] != A()) { bool g = test(s[nk + op.keys[i]]); if (g != b) b = op.known && op.res[i] >= 0 ? op.res[i] != 0 : true; } can.push_back(b); all = all && b; }
        for (size_t i = 0; i < op.keys.size(); i++) { bool did = op.atomic ? all : can[i]; if (op.known && op.res[i] >= 0 && op.res[i] != (int)did) return false; }
        for (size_t i = 0; i < op.keys.size(); i++) if (op.atomic ? all : can[i]) Set(s, op.keys[i], op.kind == Op::kCas && op.val[i].empty() ? A() : op.val[i]);
        return true;
      }
    }
    return true;
  }
  bool Go(Mask done, size_t ndone_must, std::vector<std::string> s) {
    if (ndone_must == must) return true;
    if (over) return false;
    if (!seen.insert(Key(done, s)).second) return false;
    if (seen.size() > budget) { over = true; return false; }
    uint64_t min_t1 = ~0ull; for (size_t i = 0; i < o.size(); i++) if (!done[i] && o[i].known) min_t1 = std::min(min_t1, o[i].t1);
    if (ndone_must >= best) { best = ndone_must; stuck.clear(); for (size_t i = 0; i < o.size(); i++) if (!done[i] && o[i].known && o[i].t0 <= min_t1) stuck += " <" + o[i].text + ">"; stuck += " with state"; for (auto& x : s) stuck += " " + (x == A() ? "-" : x); }
    for (int i : by_t0) {
      if (done[i]) continue; if (o[i].t0 > min_t1) break;
      auto s2 = s; if (!Apply(o[i], s2, weak && split[i])) continue; if (!o[i].known && s2 == s) continue;
      Mask d = done; d[i] = true; if (Go(d, ndone_must + o[i].known, s2)) return true;
    }
    return false;
  }
};
}
bool Linear(const std::vector<Op>& ops0, int nk, uint64_t budget, bool& gave_up, std::string& why, std::vector<std::string> init, bool weak) {
  // an unreported write whose value nobody saw never has to be placed
  std::set<std::string> read; for (auto& o : ops0) { if (o.known && (o.kind == Op::kGet || o.kind == Op::kScan)) for (auto& v : o.val) read.insert(v); for (auto& e : o.exp) read.insert(e); }
  std::vector<Op> ops; for (auto& o : ops0) { if (!o.known && (o.kind == Op::kGet || o.kind == Op::kScan)) continue; if (!o.known && o.kind != Op::kDel && o.kind != Op::kDelRange) { bool any = false; for (auto& v : o.val) any |= v.empty() || read.count(v); for (auto& x : ops0) if (x.kind == Op::kPia || x.kind == Op::kCas) any = true; if (!any && o.kind == Op::kPut) continue; } ops.push_back(o); if (!o.known) ops.back().t1 = ~0ull; }
  gave_up = false; if (ops.size() > 192) { gave_up = true; return true; }
  Ln l{ops, nk, budget}; for (size_t i = 0; i < ops.size(); i++) { l.by_t0.push_back(i); l.must += ops[i].known; }
  std::stable_sort(l.by_t0.begin(), l.by_t0.end(), [&](int a, int b) { return ops[a].t0 < ops[b].t0; });
  std::vector<std::string> s = init.empty() ? std::vector<std::string>(nk, Ln::A()) : init; for (auto& x : s) if (x.empty()) x = Ln::A();
  if (weak) { l.weak = true; s.resize(2 * nk, Ln::A()); l.split.resize(ops.size()); bool any = false; for (size_t i = 0; i < ops.size(); i++) if (ops[i].kind == Op::kCas || ops[i].kind == Op::kPia) for (auto& d : ops) if (d.kind == Op::kDelRange && d.t0 <= ops[i].t1 && ops[i].t0 <= d.t1) { l.split[i] = true; any = true; } if (!any) { why = "no conditional write overlaps a range delete"; return false; } }
  bool ok = l.Go(Mask(), 0, s); if (!ok && l.over) { gave_up = true; return true; } if (!ok) why = "no order of " + S(l.must) + " reported operations explains the history; stuck after " + S(l.best) + " at" + l.stuck; return ok;
}
}  // namespace st
