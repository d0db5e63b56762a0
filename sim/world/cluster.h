// Whole-system simulation: store and coordinator processes as groups of fibers, each with its own singletons, disk and address.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "runner.h"
#include "sim_net.h"
#include "sim_raft.h"
#include "brpc/channel.h"
#include "brpc/server.h"
#include "bthread/bthread.h"
#include "common/failpoint.h"
#include "common/service_access.h"
#include "config/config_manager.h"
#include "config/yaml_config.h"
#include "engine/gc_task_tracker.h"
#include "metrics/store_bvar_metrics.h"
#include "proto/coordinator.pb.h"
#include "proto/meta.pb.h"
#include "proto/store.pb.h"
#include "proto/version.pb.h"
#include "server/coordinator_service.h"
#include "server/file_service.h"
#include "server/meta_service.h"
#include "server/node_service.h"
#include "server/push_service.h"
#include "server/server.h"
#include "server/store_service.h"
#include "server/version_service.h"

namespace cl {
using namespace dingodb;
inline std::string S(int64_t x) { return std::to_string(x); }

// One process lifetime. A restarted machine gets a new Proc and a new node id.
struct Proc {
  int machine = 0, node = 0; std::string role; bool ready = false;
  Server* server = nullptr; ConfigManager* config = nullptr; GcTaskTracker* gc = nullptr; StoreBvarMetrics* bvars = nullptr; FailPointManager* fp = nullptr; ChannelPool* pool = nullptr; VersionService* version = nullptr; FileServiceReaderManager* readers = nullptr;
  pb::common::ClusterRole role_value = pb::common::ILLEGAL;
  StoreServiceImpl* store = nullptr; PushServiceImpl* push = nullptr; FileServiceImpl* file = nullptr; NodeServiceImpl* nodesvc = nullptr;
  CoordinatorServiceImpl* coord = nullptr; MetaServiceImpl* meta = nullptr; VersionServiceProtoImpl* ver = nullptr;
  brpc::Server *srv = nullptr, *raft_srv = nullptr;
};
Proc* Here();                                   // of the current fiber
constexpr int kCoorBase = 50;                   // machines 1.. are stores, 51.. coordinators
constexpr int kFakeCoor = 90, kClientBase = 100000;
butil::EndPoint Addr(int machine);              // service address
butil::EndPoint RaftAddr(int machine);
pb::common::Location Loc(int machine), RaftLoc(int machine);

struct Conf {
  int stores = 3, coords = 0; uint64_t election_ms = 1000; int read_workers = 4, write_workers = 4, apply_workers = 4;
  bool inplace_apply = true, pre_split = true; uint64_t heartbeat_ms = 0;   // 0: no heartbeats
  std::string coor_url;
};
// fake coordinator: timestamps and empty heartbeats
struct FakeCoordinator {
  struct Meta : pb::meta::MetaService { FakeCoordinator* f; void TsoService(google::protobuf::RpcController*, const pb::meta::TsoRequest*, pb::meta::TsoResponse*, google::protobuf::Closure*) override; } meta;
  struct Coor : pb::coordinator::CoordinatorService { FakeCoordinator* f;
    void StoreHeartbeat(google::protobuf::RpcController*, const pb::coordinator::StoreHeartbeatRequest*, pb::coordinator::StoreHeartbeatResponse*, google::protobuf::Closure*) override;
    void GetGCSafePoint(google::protobuf::RpcController*, const pb::coordinator::GetGCSafePointRequest*, pb::coordinator::GetGCSafePointResponse*, google::protobuf::Closure*) override; } coor;
  int64_t phys = 0, logical = 0, safe_point = 0; bool gc_stop = false; brpc::Server srv; double fail_p = 0;
  std::map<int64_t, pb::coordinator::StoreHeartbeatRequest> last;  // by store
  void Start();
  int64_t Ts(int n = 1);
};
struct Cluster {
  sim::Ctx& c; Conf conf; std::map<int, Proc*> procs; std::map<int, int> life; FakeCoordinator* fake = nullptr; int booting = 0; std::map<int, bool> down;
  explicit Cluster(sim::Ctx& x) : c(x) {}
  bool Boot(int machine);                       // blocks until the process serves
  void Crash(int machine, bool power);          // power: unsynced data may go
  bool Up(int machine) { return procs.count(machine) && procs[machine] && procs[machine]->ready; }
  void Start();                                 // fake coordinator and all machines
  std::string BootStore(Proc* p), BootCoord(Proc* p);
};
// Runs fn as a fiber of the process and waits for it (false if the process died meanwhile).
bool OnProc(Proc* p, const std::string& name, std::function<void()> fn);

// RPC from the current fiber. Returns transport failures as false.
template <class Q, class R> bool Call(const google::protobuf::ServiceDescriptor* sd, const char* method, const butil::EndPoint& ep, const Q& q, R& r, int timeout_ms = 3000) {
  brpc::Channel ch; brpc::ChannelOptions o; o.timeout_ms = timeout_ms; ch.Init(ep, &o); brpc::Controller cn; cn.set_timeout_ms(timeout_ms);
  auto* m = sd->FindMethodByName(method); if (!m) sim::Fatal(std::string("harness: no method ") + method);
  r.Clear(); ch.CallMethod(m, &cn, &q, &r, nullptr); return !cn.Failed();
}
template <class Q, class R> bool StoreCall(const char* method, int machine, const Q& q, R& r, int timeout_ms = 3000) { return Call(pb::store::StoreService::descriptor(), method, Addr(machine), q, r, timeout_ms); }
pb::coordinator::RegionCmd* NewRegionCmd(pb::coordinator::StoreOperation& op, int machine, int64_t region, pb::coordinator::RegionCmdType t);
bool PushOp(int machine, const pb::coordinator::StoreOperation& op, pb::push::PushStoreOperationResponse& r);
}  // namespace cl
