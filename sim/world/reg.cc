// Splitting and merging regions while clients write: every key has one owner at any time and nothing is lost or served twice.
#include "store.h"
#include "meta/store_meta_manager.h"
#include "rocksdb/db.h"
using namespace dingodb;
namespace {
using st::Op; using st::Reg; using cl::S; using std::string;
string A() { return "\x01none"; }
string Kn(int i) { return string("w") + "00000001" + char('b' + i); }
struct RegW {
  sim::Ctx& c; cl::Cluster k; int nk; std::vector<Op> hist; int vals = 0; int64_t next_id = 80001; bool merge = false; const char* pid() { return merge ? "R04" : "R03"; } bool stop = false; int jobs = 0;
  explicit RegW(sim::Ctx& x) : c(x), k(x) {}
  void Bad(const char* prop, const string& text) { if (c.Oracle(prop)) sim::Fail(string(prop) + ": " + text); else sim::Count("other_property_failed"); }
  struct Seen { int64_t id = 0, ver = 0; string start, end; pb::common::StoreRegionState state; pb::common::RegionEpoch epoch; bool temp = false; };
  std::map<int64_t, Seen> On(int m) {   // the regions of one store, as its own metadata has them
    auto out = std::make_shared<std::map<int64_t, Seen>>(); if (!k.Up(m)) return *out; auto* p = k.procs[m];
    cl::OnProc(p, "regions", [=] { for (auto& r : p->server->GetStoreMetaManager()->GetStoreRegionMeta()->GetAllRegion()) { Seen s; s.id = r->Id(); s.epoch = r->Epoch(); s.ver = s.epoch.version(); auto g = r->Range(false); s.start = g.start_key(); s.end = g.end_key(); s.state = r->State(); s.temp = r->TemporaryDisableChange(); (*out)[s.id] = s; } });
    return *out;
  }
  std::map<int64_t, Seen> All() { std::map<int64_t, Seen> best; for (int m = 1; m <= 3; m++) for (auto& x : On(m)) { auto& b = best[x.first]; if (!b.id || x.second.ver > b.ver || (x.second.ver == b.ver && x.second.state > b.state && x.second.state != pb::common::STANDBY)) b = x.second; } return best; }
  std::map<int64_t, Seen> routes;
  void Refresh() { auto r = All(); for (auto& x : r) { auto& o = routes[x.first]; if (!o.id || x.second.ver > o.ver || (x.second.ver == o.ver && x.second.state != pb::common::STANDBY)) o = x.second; } }
  const Seen* Owner(const string& key) { const Seen* b = nullptr; for (auto& x : routes) if (x.second.start <= key && key < x.second.end && (x.second.state == pb::common::NORMAL || x.second.state == pb::common::SPLITTING || x.second.state == pb::common::MERGING) && (!b || x.second.ver > b->ver)) b = &x.second; return b; }
  Reg AsReg(const Seen& s) { Reg r; r.id = s.id; r.start = s.start; r.end = s.end; r.peers = {1, 2, 3}; r.conf = s.epoch.conf_version(); r.ver = s.ver; return r; }
  struct Change { int64_t region, by, ver; bool merge; };   // a new child, or a merged source, and the region whose log carries the change
  std::vector<Change> changes;
  // A replica that got the raft snapshot of the parent (of the merge target) instead of the log entry never carries the change out.
  string Skipped() {
    for (int m = 1; m <= 3; m++) { auto r = On(m); for (auto& ch : changes) { auto x = r.find(ch.region), p = r.find(ch.by); if ((x == r.end() && ch.merge) || p == r.end() || p->second.ver <= ch.ver || !sim_raft::Installs(st::Group(ch.by), m)) continue;
      bool left = ch.merge ? x->second.state == pb::common::MERGING || x->second.state == pb::common::NORMAL : x == r.end() || x->second.state == pb::common::STANDBY; if (left) return "region " + S(ch.region) + " on store " + S(m) + " is left " + (x == r.end() ? string("out") : pb::common::StoreRegionState_Name(x->second.state)) + " because a snapshot of region " + S(ch.by) + " replaced the " + (ch.merge ? "merge" : "split"); } }
    return "";
  }
  struct Cl { std::map<int64_t, int> guess; };
  // one operation; returns false when it certainly did not happen
  bool One(int id, Cl& cl, sim::Rng& q1, int kind, bool final_get, int fkey) {
    Op o; o.client = id; st::Caller::Meta m; st::Res res; int key = final_get ? fkey : q1.Below(nk); string kk = Kn(key); auto val = [&] { return "c" + S(id) + "v" + S(++vals); };
    auto* ow = Owner(kk); if (!ow) { Refresh(); sim::SleepUs(50000); return false; } Seen s = *ow; Reg r = AsReg(s); st::Caller ca(k); if (cl.guess.count(r.id)) ca.guess = cl.guess[r.id];
    std::vector<int> in; for (int x = 0; x < nk; x++) if (r.start <= Kn(x) && Kn(x) < r.end) in.push_back(x);
    auto last_seen = [&](int x) { for (int j = (int)hist.size() - 1; j >= 0; j--) for (size_t z = 0; z < hist[j].keys.size(); z++) if (hist[j].keys[z] == x && z < hist[j].val.size() && hist[j].val[z] != A()) return hist[j].val[z]; return string(); };
    o.t0 = sim::NowUs(); sim::Count("ops_raw");
    switch (kind) {
      case 0: { pb::store::KvPutRequest q; pb::store::KvPutResponse p; st::SetCtx(q, r); string v = val(); q.mutable_kv()->set_key(kk); q.mutable_kv()->set_value(v); o.kind = Op::kPut; o.keys = {key}; o.val = {v}; res = ca.Once("KvPut", r, q, p, &m); break; }
      case 1: { pb::store::KvGetRequest q; pb::store::KvGetResponse p; st::SetCtx(q, r); q.set_key(kk); o.kind = Op::kGet; o.keys = {key}; res = ca.Once("KvGet", r, q, p, &m); o.val = {p.value().empty() ? A() : p.value()}; break; }
      case 2: { pb::store::KvBatchDeleteRequest q; pb::store::KvBatchDeleteResponse p; st::SetCtx(q, r); o.kind = Op::kDel; o.keys = {key}; q.add_keys(kk); res = ca.Once("KvBatchDelete", r, q, p, &m); o.res = {-1}; break; }
      case 3: { pb::store::KvCompareAndSetRequest q; pb::store::KvCompareAndSetResponse p; st::SetCtx(q, r); string v = val(), e = q1.Chance(0.3) ? "" : last_seen(key); q.mutable_kv()->set_key(kk); q.mutable_kv()->set_value(v); q.set_expect_value(e); o.kind = Op::kCas; o.keys = {key}; o.val = {v}; o.exp = {e}; res = ca.Once("KvCompareAndSet", r, q, p, &m); o.res = {p.key_state()}; if (m.code == pb::error::EKEY_NOT_FOUND) { res = st::kOk; o.res = {0}; } break; }
      case 4: { pb::store::KvBatchPutRequest q; pb::store::KvBatchPutResponse p; st::SetCtx(q, r); o.kind = Op::kPut; o.keys = in; for (int x : o.keys) { o.val.push_back(val()); auto* kv = q.add_kvs(); kv->set_key(Kn(x)); kv->set_value(o.val.back()); } res = ca.Once("KvBatchPut", r, q, p, &m); break; }
      default: { pb::store::KvScanBeginRequest q; pb::store::KvScanBeginResponse p; st::SetCtx(q, r); q.mutable_range()->mutable_range()->set_start_key(Kn(in[0])); q.mutable_range()->mutable_range()->set_end_key(r.end); q.mutable_range()->set_with_start(true); q.mutable_range()->set_with_end(false); q.set_max_fetch_cnt(100); q.set_disable_coprocessor(true); o.kind = Op::kScan; for (int x : in) { o.keys.push_back(x); o.val.push_back(A()); } res = ca.Once("KvScanBegin", r, q, p, &m);
        if (res == st::kOk) for (auto& kv : p.kvs()) { int z = kv.key().size() == kk.size() ? kv.key().back() - 'b' - in[0] : -1; if (z < 0 || z >= (int)o.val.size()) { if (m.solid) Bad(pid(), "a scan of region " + S(r.id) + " [" + st::Show(r.start) + "," + st::Show(r.end) + ") returns key " + st::Show(kv.key()) + " of another region"); } else o.val[z] = kv.value(); } break; }
    }
    cl.guess[r.id] = ca.guess;
    o.t1 = sim::NowUs(); bool rd = o.kind == Op::kGet || o.kind == Op::kScan; static const char* nm[] = {"put", "get", "del", "cas", "pia", "scan", "delrange"};
    o.text = "c" + S(id) + (final_get ? " final " : " ") + nm[o.kind]; for (size_t z = 0; z < o.keys.size(); z++) { o.text += " k" + S(o.keys[z]); if (o.exp.size() > z) o.text += ":" + o.exp[z]; if (o.val.size() > z) o.text += "=" + (o.val[z] == A() ? "-" : o.val[z]); if (o.res.size() > z) o.text += "?" + S(o.res[z]); }
    sim::Log(o.text + " region " + S(r.id) + "@" + S(r.ver) + " at " + S(m.machine) + " -> " + (res == st::kOk ? "ok" : res == st::kNo ? "no" : "?") + " code " + S(m.code) + (m.solid ? " solid" : "") + " [" + S(o.t0) + "," + S(o.t1) + "]");
    if (res != st::kOk && m.code != pb::error::ERAFT_NOTLEADER) Refresh();
    if (res == st::kOk) sim::Count("ops_ok");
    if (res == st::kNo || (rd && !(res == st::kOk && m.solid))) return false;
    o.known = res == st::kOk; hist.push_back(o); if (!o.known) sim::Count("probe_unknown_outcome"); return o.known;
  }
  void Client(int id, int nops, std::vector<int> plan, std::vector<bool> on) {
    Cl cl; sim::Rng rng(sim::Mix(c.seed, 7000 + id));
    for (int i = 0; i < nops; i++) { sim::Rng q1(rng.Next()); if (!on[i]) continue; sim::SleepUs(q1.Chance(0.6) ? q1.Below(5000) : q1.Below(700000)); if (sim::Failed()) return; if (q1.Chance(0.1)) Refresh(); if (!One(id, cl, q1, plan[i], false, 0)) sim::SleepUs(q1.Below(200000)); }
  }
  // ---- what the coordinator does
  bool Cmd(int64_t region, int64_t job, std::function<void(pb::coordinator::RegionCmd*)> fill) {
    int m = st::LeaderMachine(region); if (m < 0) return false; pb::coordinator::StoreOperation op; auto* cmd = cl::NewRegionCmd(op, m, region, pb::coordinator::CMD_SPLIT); cmd->set_job_id(job); cmd->set_is_notify(true); fill(cmd);
    pb::push::PushStoreOperationResponse resp; bool ok = cl::PushOp(m, op, resp); sim::Log("command " + pb::coordinator::RegionCmdType_Name(cmd->region_cmd_type()) + " region " + S(region) + " to " + S(m) + " -> " + (ok ? resp.ShortDebugString() : "no answer")); return ok;
  }
  void Pd(int njobs, std::vector<bool> on, bool pre) {
    sim::Rng rng(sim::Mix(c.seed, 555)); int64_t job = 100;
    for (int i = 0; i < njobs && !stop && !sim::Failed(); i++) {
      sim::Rng q(rng.Next()); if (!on[i]) continue; sim::SleepUs(q.Below(q.Chance(0.5) ? 20000 : 1500000)); Refresh(); job++;
      std::vector<Seen> live; for (auto& x : routes) if (x.second.state == pb::common::NORMAL && x.second.start < x.second.end) live.push_back(x.second); if (live.empty()) continue;
      std::sort(live.begin(), live.end(), [](const Seen& a, const Seen& b) { return a.start < b.start; });
      bool fin = false; bool do_merge = merge && live.size() > 1 && q.Chance(0.5);
      if (!do_merge) {
        auto s = live[q.Below(live.size())]; std::vector<int> in; for (int x = 0; x < nk; x++) if (s.start < Kn(x) && Kn(x) < s.end) in.push_back(x); if (in.empty()) continue;
        string key = Kn(in[q.Below(in.size())]); int64_t child = ++next_id; if (q.Chance(0.2)) key += "0";
        if (pre) { Reg r = AsReg(s); r.id = child; r.conf = r.ver = 1; r.start = string(16, '\xff'); r.end = s.start; if (!st::CreateRegion(k, r, s.id)) { sim::Log("child " + S(child) + " not created everywhere"); continue; } 
          bool all = false; for (int t = 0; t < 100 && !all; t++) { if (t) sim::SleepUs(50000); all = true; for (int m = 1; m <= 3; m++) { auto r2 = On(m); all = all && r2.count(child) && r2[child].state == pb::common::STANDBY; } } if (!all) { sim::Log("child " + S(child) + " is not ready everywhere"); continue; } }
        sim::Log("split region " + S(s.id) + " [" + st::Show(s.start) + "," + st::Show(s.end) + ")@" + S(s.ver) + " at " + st::Show(key) + " child " + S(child));
        changes.push_back({child, s.id, s.ver, false});
        for (int t = 0; t < 12 && !sim::Failed(); t++) {
          Cmd(s.id, job, [&](auto* cmd) { cmd->set_region_cmd_type(pb::coordinator::CMD_SPLIT); auto* q2 = cmd->mutable_split_request(); q2->set_split_from_region_id(s.id); q2->set_split_to_region_id(child); q2->set_split_watershed_key(key); q2->set_store_create_region(!pre); });
          bool done = false; uint64_t end = sim::NowUs() + 1500000; while (!done && sim::NowUs() < end) { sim::SleepUs(60000); Refresh(); done = routes[s.id].ver > s.ver; } if (done) { sim::Count("probe_split"); fin = true; break; }
        }
      } else {
        int a = q.Below(live.size() - 1); auto s = live[a], t = live[a + 1]; if (q.Chance(0.5)) std::swap(s, t);
        sim::Log("merge region " + S(s.id) + "@" + S(s.ver) + " into " + S(t.id) + "@" + S(t.ver));
        changes.push_back({s.id, t.id, t.ver, true});
        for (int z = 0; z < 8 && !sim::Failed(); z++) {
          Cmd(s.id, job, [&](auto* cmd) { cmd->set_region_cmd_type(pb::coordinator::CMD_MERGE); cmd->mutable_merge_request()->set_source_region_id(s.id); cmd->mutable_merge_request()->set_target_region_id(t.id); });
          bool done = false; uint64_t end = sim::NowUs() + 2000000; while (!done && sim::NowUs() < end) { sim::SleepUs(60000); Refresh(); done = routes[t.id].ver > t.ver; } if (done) { sim::Count("probe_merge"); fin = true; break; }
        }
      }
      if (!fin) { sim::Log("the change is not confirmed, no further ones"); break; }   // one job at a time, as the coordinator's conflict check has it
    }
    jobs--;
  }
  void Go() {
    auto cfg = c.Swarm(); cfg.max_steps = 4000000; sim::Start(cfg); auto& rng = c.rng;
    k.conf.stores = 3; k.conf.inplace_apply = rng.Chance(0.5); k.conf.read_workers = rng.Range(1, 4); k.conf.write_workers = rng.Range(1, 4); k.conf.apply_workers = rng.Range(1, 3);
    bool pre = rng.Chance(0.6); k.conf.pre_split = pre; merge = c.params.count("merge") ? std::stoi(c.params["merge"]) : 0;
    nk = rng.Range(3, 6); int nc = rng.Range(2, 4), nops = rng.Range(6, 16), nj = rng.Range(1, merge ? 5 : 3);
    std::vector<int> w; auto ad = [&](int kd, int n) { for (int i = 0; i < n; i++) w.push_back(kd); }; ad(0, 5); ad(1, 5); ad(2, rng.Below(2)); ad(3, rng.Below(4)); ad(4, rng.Below(3)); ad(5, rng.Below(4));
    std::vector<std::vector<int>> pl(nc); std::vector<std::vector<bool>> on(nc); for (int i = 0; i < nc; i++) for (int j = 0; j < nops; j++) { pl[i].push_back(w[rng.Below(w.size())]); on[i].push_back(c.On("client " + S(i) + " operation " + S(j) + " kind " + S(pl[i].back()))); }
    std::vector<bool> jon; for (int i = 0; i < nj; i++) jon.push_back(c.On("region change " + S(i)));
    st::Faults f; int fl = c.params.count("fl") ? std::stoi(c.params["fl"]) : 3; f.max = rng.Chance(0.25) ? 0 : 5; f.span_us = rng.Chance(0.5) ? 2500000 : 8000000; f.regions = {80001, 80002}; f.crash = fl >= 2; f.power = fl >= 3; if (fl < 1) f.max = 0;
    sim::Spawn([&] {
      k.Start(); if (sim::Failed()) return; Reg r; r.id = 80001; r.start = string("w") + "00000001"; r.end = string("w") + "00000002"; r.peers = {1, 2, 3};
      if (!st::CreateRegion(k, r) || !st::WaitLeader(k, r.id)) { sim::Fail("region cannot be created"); return; }
      rocksdb::simdisk::SyncAll(); Refresh(); auto plan = st::StartFaults(k, f);
      jobs = 1; auto pd = sim::Spawn([&] { Pd(nj, jon, pre); }, "coordinator", cl::kClientBase + 50);
      std::vector<uint64_t> cs; for (int i = 0; i < nc; i++) cs.push_back(sim::Spawn([&, i] { Client(i, nops, pl[i], on[i]); }, "client", cl::kClientBase + i)); for (auto x : cs) sim::Join(x);
      while (plan->pending > 0) sim::SleepUs(50000); stop = true; st::Recover(k, f); if (sim::Failed()) return; sim::Join(pd); if (sim::Failed()) return;
      // with the faults over every replica must learn every split and merge, and every key be served by one region
      string why; uint64_t end = sim::NowUs() + 60000000; bool good = false;
      while (!good && sim::NowUs() < end) {
        good = true; why.clear(); std::map<int64_t, Seen> s[4]; for (int m = 1; m <= 3; m++) { s[m] = On(m); for (auto it = s[m].begin(); it != s[m].end();) if (it->second.state == pb::common::STANDBY || it->second.state == pb::common::NEW || it->second.state == pb::common::TOMBSTONE || it->second.state == pb::common::DELETED || it->second.state == pb::common::DELETING) it = s[m].erase(it); else ++it; }
        for (int m = 1; m <= 3 && good; m++) {
          string at = string("w") + "00000001"; std::vector<Seen> v; for (auto& x : s[m]) v.push_back(x.second); std::sort(v.begin(), v.end(), [](const Seen& a, const Seen& b) { return a.start < b.start; });
          for (auto& x : v) { if (x.state != pb::common::NORMAL) { good = false; why = "region " + S(x.id) + " on store " + S(m) + " is " + pb::common::StoreRegionState_Name(x.state); break; } if (x.start != at) { good = false; why = "on store " + S(m) + " the regions leave a gap or overlap at " + st::Show(at) + ": next is region " + S(x.id) + " [" + st::Show(x.start) + "," + st::Show(x.end) + ")"; break; } at = x.end; }
          if (good && at != string("w") + "00000002") { good = false; why = "on store " + S(m) + " no region owns the keys from " + st::Show(at); }
        }
        if (good) for (auto& x : s[1]) for (int m = 2; m <= 3; m++) { auto it = s[m].find(x.first); if (it == s[m].end() || it->second.ver != x.second.ver || it->second.start != x.second.start || it->second.end != x.second.end) { good = false; why = "stores 1 and " + S(m) + " disagree on region " + S(x.first); } }
        if (!good) sim::SleepUs(500000);
      }
      if (!good) { auto sk = Skipped(); if (!sk.empty()) { Bad(pid(), sk); return; } Bad(pid(), why + " 60 s after the last fault ended"); return; }
      Refresh(); for (auto it = routes.begin(); it != routes.end();) if (it->second.state != pb::common::NORMAL || it->second.start >= it->second.end) it = routes.erase(it); else ++it; if (routes.size() > 1) sim::Count("probe_several_regions");
      Cl cl; sim::Rng q1(1); for (int x = 0; x < nk; x++) { bool ok = false; uint64_t e2 = sim::NowUs() + 30000000; while (!ok && sim::NowUs() < e2) { ok = One(99, cl, q1, 1, true, x); if (!ok) sim::SleepUs(200000); } if (!ok) { Bad(pid(), "key " + S(x) + " cannot be read 30 s after the last fault ended: " + (Owner(Kn(x)) ? sim_raft::Describe(st::Group(Owner(Kn(x))->id)) : string("no owner"))); return; } }
      for (auto& x : routes) if (!st::Quiesce(k, x.first, {1, 2, 3})) { Bad(pid(), "the replicas of region " + S(x.first) + " do not catch up within 30 s after the last fault ended: " + sim_raft::Describe(st::Group(x.first))); return; }
      auto d1 = st::Dump(k, 1, "w", "x", false); for (int m = 2; m <= 3; m++) { auto d = st::Dump(k, m, "w", "x", false); if (d != d1) { string what; for (auto& cf : d1) for (auto& kv : cf.second) if (d[cf.first][kv.first] != kv.second) what = st::Show(kv.first) + " is '" + kv.second + "' on store 1 and '" + d[cf.first][kv.first] + "' on store " + S(m); for (auto& cf : d) for (auto& kv : cf.second) if (!d1[cf.first].count(kv.first)) what = "store " + S(m) + " has " + st::Show(kv.first) + ", store 1 not"; Bad(pid(), "replicas differ after a split or merge: " + what); return; } }
      bool gave = false; if (!st::Linear(hist, nk, 400000, gave, why)) { Bad(pid(), why); return; }
      sim::Count(gave ? "lin_gave_up" : "lin_checked"); sim::Stop();
    }, "main", 1);
    sim::Run();
    if (!sim::Failed() && !sim::S().n.count("lin_checked") && !sim::S().n.count("lin_gave_up")) sim::Count("run_cut");
  }
};
static void RegionW(sim::Ctx& c) { auto* r = new RegW(c); r->Go(); }
static sim::World w1("reg", RegionW);
}
