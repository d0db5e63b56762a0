#include "cluster.h"
#include <filesystem>
#include "bthread/bthread.h"
#include "common/constant.h"
#include "common/role.h"
#include "common/runnable.h"
#include "event/store_state_machine_event.h"
#include "gflags/gflags.h"
#include "rocksdb/db.h"
#include "scan/scan_manager.h"
#include "store/heartbeat.h"
DECLARE_string(coor_url); DECLARE_string(role);
namespace cl {
static std::map<int, Proc*>& ByNode() { static auto* m = new std::map<int, Proc*>; return *m; }
Proc* Here() { auto i = ByNode().find(sim::Node()); if (i == ByNode().end()) sim::Fatal("harness: code of a process runs outside of any process, node " + std::to_string(sim::Node())); return i->second; }
static Proc* Maybe() { auto i = ByNode().find(sim::Node()); return i == ByNode().end() ? nullptr : i->second; }
static std::string Ip(int m) { return "10.0.1." + S(m); }
butil::EndPoint Addr(int m) { butil::EndPoint e; butil::str2endpoint(Ip(m).c_str(), 20000, &e); return e; }
butil::EndPoint RaftAddr(int m) { butil::EndPoint e; butil::str2endpoint(Ip(m).c_str(), 21000, &e); return e; }
pb::common::Location Loc(int m) { pb::common::Location l; l.set_host(Ip(m)); l.set_port(20000); return l; }
pb::common::Location RaftLoc(int m) { pb::common::Location l; l.set_host(Ip(m)); l.set_port(21000); return l; }
int64_t FakeCoordinator::Ts(int n) { int64_t now = sim::WallUs() / 1000; if (now > phys) { phys = now; logical = 0; } int64_t r = (phys << 18) + logical; logical += n; return r; }
void FakeCoordinator::Meta::TsoService(google::protobuf::RpcController*, const pb::meta::TsoRequest* q, pb::meta::TsoResponse* r, google::protobuf::Closure* done) {
  if (f->fail_p > 0 && sim::ChooseChance(f->fail_p, "tso-fail")) { sim::Count("fault_tso_error"); r->mutable_error()->set_errcode(pb::error::EINTERNAL); done->Run(); return; }
  int64_t t = f->Ts(q->count()); r->mutable_start_timestamp()->set_physical(t >> 18); r->mutable_start_timestamp()->set_logical(t & ((1 << 18) - 1)); r->set_count(q->count()); done->Run();
}
void FakeCoordinator::Coor::StoreHeartbeat(google::protobuf::RpcController*, const pb::coordinator::StoreHeartbeatRequest* q, pb::coordinator::StoreHeartbeatResponse*, google::protobuf::Closure* done) { f->last[q->store().id()] = *q; done->Run(); }
void FakeCoordinator::Coor::GetGCSafePoint(google::protobuf::RpcController*, const pb::coordinator::GetGCSafePointRequest* q, pb::coordinator::GetGCSafePointResponse* r, google::protobuf::Closure* done) {
  r->set_safe_point(f->safe_point); r->set_gc_stop(f->gc_stop); (*r->mutable_tenant_safe_points())[0] = f->safe_point; for (auto t : q->tenant_ids()) (*r->mutable_tenant_safe_points())[t] = f->safe_point;
  r->set_resolve_lock_safe_point(f->safe_point); done->Run();
}
void FakeCoordinator::Start() {
  meta.f = coor.f = this; auto id = sim::Spawn([this] { srv.AddService(&meta, brpc::SERVER_DOESNT_OWN_SERVICE); srv.AddService(&coor, brpc::SERVER_DOESNT_OWN_SERVICE); srv.Start(Addr(kFakeCoor), nullptr); }, "fake-coordinator", kFakeCoor * 1000);
  sim::Join(id);
}
bool OnProc(Proc* p, const std::string& name, std::function<void()> fn) {
  auto done = std::make_shared<bool>(false); auto id = sim::Spawn([=] { fn(); *done = true; }, name, p->node);
  while (!*done && sim::Alive(id) && !sim::NodeDead(p->node)) sim::SleepUs(200);
  return *done;
}
static std::shared_ptr<Config> MakeConfig(const Cluster& c, Proc* p) {
  std::string y = "cluster:\n  name: sim\n  instance_id: " + S(p->machine) + "\n  keyring: TO_BE_CONTINUED\nserver:\n  host: " + Ip(p->machine) + "\n  port: 20000\n  heartbeat_interval_s: 10\n"
    "region:\n  split_strategy: " + (c.conf.pre_split ? "PRE_CREATE_REGION" : "POST_CREATE_REGION") + "\n  region_max_size: 268435456\n  enable_auto_split: false\n  enable_auto_merge: false\n"
    "raft:\n  host: " + Ip(p->machine) + "\n  port: 21000\n  path: m" + S(p->machine) + "/raft\n  election_timeout_s: " + S(std::max<int64_t>(1, c.conf.election_ms / 1000)) + "\n  snapshot_interval_s: 120\n"
    "log:\n  level: INFO\n  path: m" + S(p->machine) + "/log\nstore:\n  path: m" + S(p->machine) + "/db\n"
    "  base:\n    block_size: 131072\n  scan:\n    scan_interval_s: 30\n    timeout_s: 300\n    max_bytes_rpc: 4194304\n    max_fetch_cnt_by_server: 1000\n  scan_v2:\n    scan_interval_s: 30\n    timeout_s: 300\n    max_bytes_rpc: 4194304\n    max_fetch_cnt_by_server: 1000\n"
    "gc:\n  update_safe_point_interval_s: 60\n  do_gc_interval_s: 60\ncoordinator:\n  peers: ";
  for (int i = 1; i <= c.conf.coords; i++) y += (i > 1 ? "," : "") + Ip(kCoorBase + i) + ":21000";
  if (!c.conf.coords) y += "10.0.1.51:21000";
  y += "\n  reserve_job_recent_day: 7\n  auto_compaction: false\n";
  auto cfg = std::make_shared<YamlConfig>(); if (cfg->Load(y) != 0) sim::Fatal("harness: config does not parse"); return cfg;
}
#define MUST(x) do { if (!(x)) return #x; } while (0)
static std::string Common(Cluster& c, Proc* p) {
  auto& sv = *p->server; p->config->Register(p->role, MakeConfig(c, p)); sv.ip2hostname_cache_.Init(16);
  MUST(sv.InitDirectory()); MUST(sv.InitServerID());
  sv.SetServerLocation(Loc(p->machine)); sv.SetServerListenEndpoint(Addr(p->machine)); sv.SetRaftEndpoint(RaftAddr(p->machine)); sv.SetRaftListenEndpoint(RaftAddr(p->machine));
  p->srv = new brpc::Server; p->raft_srv = new brpc::Server; return "";
}
static WorkerSetPtr Pool(const char* name, int n, bool inplace) { auto w = SimpleWorkerSet::New(name, n, 1024, false, inplace); if (!w->Init()) sim::Fatal("harness: worker set"); return w; }
std::string Cluster::BootStore(Proc* p) {
  std::string e = Common(*this, p); if (!e.empty()) return e; auto& sv = *p->server;
  p->store = new StoreServiceImpl; p->push = new PushServiceImpl; p->file = new FileServiceImpl;
  auto rd = Pool("read_wkr", conf.read_workers, false); p->store->SetReadWorkSet(rd); sv.SetStoreServiceReadWorkerSet(rd);
  auto wr = Pool("write_wkr", conf.write_workers, false); p->store->SetWriteWorkSet(wr); sv.SetStoreServiceWriteWorkerSet(wr);
  sv.SetApplyWorkerSet(Pool("apply_wkr", conf.apply_workers, conf.inplace_apply));
  MUST(sv.InitCoordinatorInteraction()); MUST(sv.InitStreamManager()); MUST(sv.InitTsProvider()); MUST(sv.InitLogStorage()); MUST(sv.InitRocksRawEngine());
  MUST(sv.InitStoreMetaManager()); MUST(sv.InitStoreMetricsManager()); MUST(sv.InitEngine()); MUST(sv.InitStorage()); MUST(sv.InitStoreController()); MUST(sv.InitRegionCommandManager()); MUST(sv.InitRegionController()); MUST(sv.InitPreSplitChecker()); MUST(sv.InitPreMergeChecker());
  ScanManager::GetInstance().Init(p->config->GetRoleConfig()); ScanManagerV2::GetInstance().Init(p->config->GetRoleConfig());
  p->store->SetStorage(sv.GetStorage());
  p->srv->AddService(p->store, brpc::SERVER_DOESNT_OWN_SERVICE); p->srv->AddService(p->push, brpc::SERVER_DOESNT_OWN_SERVICE); p->srv->AddService(p->file, brpc::SERVER_DOESNT_OWN_SERVICE); p->nodesvc = new NodeServiceImpl; p->srv->AddService(p->nodesvc, brpc::SERVER_DOESNT_OWN_SERVICE); p->raft_srv->AddService(p->nodesvc, brpc::SERVER_DOESNT_OWN_SERVICE);
  MUST(braft::add_service(p->raft_srv, sv.RaftListenEndpoint()) == 0); MUST(p->raft_srv->Start(sv.RaftListenEndpoint(), nullptr) == 0);
  MUST(sv.InitHeartbeat()); MUST(sv.Recover());
  MUST(p->srv->Start(sv.ServerListenEndpoint(), nullptr) == 0);
  return "";
}
std::string Cluster::BootCoord(Proc* p) {
  std::string e = Common(*this, p); if (!e.empty()) return e; auto& sv = *p->server; auto config = p->config->GetRoleConfig();
  p->coord = new CoordinatorServiceImpl; p->meta = new MetaServiceImpl; p->ver = new VersionServiceProtoImpl;
  MUST(sv.InitLogStorage()); MUST(sv.InitRocksRawEngine()); MUST(sv.InitEngine()); MUST(sv.InitCoordinatorInteractionForAutoIncrement());
  p->nodesvc = new NodeServiceImpl; p->srv->AddService(p->nodesvc, brpc::SERVER_DOESNT_OWN_SERVICE); p->raft_srv->AddService(p->nodesvc, brpc::SERVER_DOESNT_OWN_SERVICE);
  std::vector<butil::EndPoint> eps; for (int i = 1; i <= conf.coords; i++) eps.push_back(RaftAddr(kCoorBase + i)); sv.SetCoordinatorPeerEndpoints(eps);
  p->coord->SetControl(sv.GetCoordinatorControl()); p->coord->SetKvControl(sv.GetKvControl()); p->coord->SetTsoControl(sv.GetTsoControl()); p->coord->SetAutoIncrementControl(sv.GetAutoIncrementControl());
  p->meta->SetControl(sv.GetCoordinatorControl()); p->meta->SetAutoIncrementControl(sv.GetAutoIncrementControl()); p->meta->SetTsoControl(sv.GetTsoControl()); p->ver->SetControl(sv.GetKvControl());
  auto engine = sv.GetEngine(pb::common::STORE_ENG_RAFT_STORE); p->coord->SetKvEngine(engine); p->meta->SetKvEngine(engine); p->ver->SetKvEngine(engine);
  p->coord->SetWorkSet(Pool("coor_wkr", conf.write_workers, false)); p->meta->SetWorkSet(Pool("meta_wkr", conf.write_workers, false)); p->ver->SetWorkSet(Pool("version_wkr", conf.write_workers, false));
  for (google::protobuf::Service* s : {(google::protobuf::Service*)p->coord, (google::protobuf::Service*)p->meta, (google::protobuf::Service*)p->ver}) p->srv->AddService(s, brpc::SERVER_DOESNT_OWN_SERVICE);
  MUST(braft::add_service(p->raft_srv, sv.RaftListenEndpoint()) == 0); MUST(p->raft_srv->Start(sv.RaftListenEndpoint(), nullptr) == 0);
  MUST(sv.StartMetaRegion(config, engine).ok()); MUST(sv.StartKvRegion(config, engine).ok()); MUST(sv.StartTsoRegion(config, engine).ok()); MUST(sv.StartAutoIncrementRegion(config, engine).ok());
  MUST(sv.InitHeartbeat()); MUST(p->srv->Start(sv.ServerListenEndpoint(), nullptr) == 0);
  return "";
}
bool Cluster::Boot(int m) {
  auto* p = new Proc; p->machine = m; p->node = m * 1000 + ++life[m]; p->role = m > kCoorBase ? "coordinator" : "store"; p->role_value = m > kCoorBase ? pb::common::COORDINATOR : pb::common::STORE;
  ByNode()[p->node] = p; procs[m] = p; sim_net::Bind(Addr(m), p->node); sim_net::Bind(RaftAddr(m), p->node); booting++;
  bool ok = OnProc(p, "boot", [this, p] {
    p->server = new Server; p->config = new ConfigManager; p->gc = new GcTaskTracker; p->bvars = new StoreBvarMetrics; p->fp = new FailPointManager; p->pool = new ChannelPool; p->version = new VersionService; p->readers = new FileServiceReaderManager;
    std::string e = p->role == "store" ? BootStore(p) : BootCoord(p);
    if (!e.empty()) { sim::Fail("process " + S(p->machine) + " does not start: " + e); return; }
    p->ready = true; sim::Log("up " + S(p->machine) + " as " + S(p->node));
  });
  booting--; return ok && p->ready;
}
void Cluster::Crash(int m, bool power) {
  auto* p = procs[m]; if (!p || sim::NodeDead(p->node)) return;
  sim::Log("crash " + S(m) + (power ? " (power)" : "")); sim::Count(power ? "fault.power_loss" : "fault.process_crash");
  p->ready = false; procs[m] = nullptr;
  sim::KillNode(p->node); sim_net::Up(p->node, false); sim_net::ForgetServers(p->node); sim_raft::CrashNode(p->node);
  rocksdb::simdisk::CrashPath("m" + S(m) + "/", power);
}
void Cluster::Start() {
  if (conf.coor_url.empty()) { if (conf.coords) { conf.coor_url = "list://"; for (int i = 1; i <= conf.coords; i++) conf.coor_url += (i > 1 ? "," : "") + Ip(kCoorBase + i) + ":20000"; } else conf.coor_url = "list://" + Ip(kFakeCoor) + ":20000"; }
  FLAGS_coor_url = conf.coor_url;
  if (!conf.coords) { fake = new FakeCoordinator; fake->Start(); }
  std::vector<uint64_t> fs; for (int i = 1; i <= conf.coords; i++) fs.push_back(sim::Spawn([=] { Boot(kCoorBase + i); }, "boot", 1)); for (int i = 1; i <= conf.stores; i++) fs.push_back(sim::Spawn([=] { Boot(i); }, "boot", 1));
  for (auto f : fs) sim::Join(f);
}
pb::coordinator::RegionCmd* NewRegionCmd(pb::coordinator::StoreOperation& op, int machine, int64_t region, pb::coordinator::RegionCmdType t) {
  static int64_t id = 1000; op.set_store_id(machine); auto* c = op.add_region_cmds(); c->set_id(++id); c->set_store_id(machine); c->set_region_id(region); c->set_region_cmd_type(t); c->set_create_timestamp(sim::WallUs() / 1000); c->set_is_notify(false); c->set_job_id(id); return c;
}
bool PushOp(int machine, const pb::coordinator::StoreOperation& op, pb::push::PushStoreOperationResponse& r) { pb::push::PushStoreOperationRequest q; *q.mutable_store_operation() = op; return Call(pb::push::PushService::descriptor(), "PushStoreOperation", Addr(machine), q, r); }
}  // namespace cl
namespace dingodb {
Server& Server::GetInstance() { return *cl::Here()->server; }
ConfigManager& ConfigManager::GetInstance() { return *cl::Here()->config; }
GcTaskTracker& GcTaskTracker::GetInstance() { return *cl::Here()->gc; }
StoreBvarMetrics& StoreBvarMetrics::GetInstance() { return *cl::Here()->bvars; }
FailPointManager& FailPointManager::GetInstance() { if (auto* p = cl::Maybe()) return *p->fp; static auto* f = new FailPointManager; return *f; }
ChannelPool& ChannelPool::GetInstance() { if (auto* p = cl::Maybe()) return *p->pool; static auto* f = new ChannelPool; return *f; }
VersionService& VersionService::GetInstance() { return *cl::Here()->version; }
FileServiceReaderManager& FileServiceReaderManager::GetInstance() { return *cl::Here()->readers; }
pb::common::ClusterRole GetRole() { return cl::Here()->role_value; }
std::string& GetRoleName() { return cl::Here()->role; }
}
