#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <google/protobuf/stubs/callback.h>
#include <google/protobuf/service.h>
#include "braft/configuration.h"
#include "braft/configuration_manager.h"
#include "braft/enum.pb.h"
#include "braft/errno.pb.h"
#include "braft/file_system_adaptor.h"
#include "braft/log_entry.h"
#include "braft/macros.h"
#include "braft/storage.h"
#include "brpc/server.h"
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "butil/memory/ref_counted.h"
#include "butil/status.h"
#include "butil/strings/string_piece.h"
namespace sim_raft { struct Member; struct IterImpl; }
namespace braft {
const PeerId ANY_PEER(butil::EndPoint(butil::IP_ANY, 0), 0);
class Closure : public google::protobuf::Closure {
 public:
  butil::Status& status() { return st_; }
  const butil::Status& status() const { return st_; }
 private: butil::Status st_;
};
struct Task { butil::IOBuf* data = nullptr; Closure* done = nullptr; int64_t expected_term = -1; };
class Iterator {
 public:
  void next();
  int64_t index() const;
  int64_t term() const;
  const butil::IOBuf& data() const;
  Closure* done() const;
  bool valid() const;
  void set_error_and_rollback(size_t ntail = 1, const butil::Status* st = nullptr);
  explicit Iterator(sim_raft::IterImpl* i) : impl_(i) {}
 private: sim_raft::IterImpl* impl_;
  Iterator(const Iterator&) = delete;
};
class LeaderChangeContext {
 public:
  LeaderChangeContext(const PeerId& l, int64_t t, const butil::Status& s) : leader_(l), term_(t), st_(s) {}
  const PeerId& leader_id() const { return leader_; }
  int64_t term() const { return term_; }
  const butil::Status& status() const { return st_; }
 private: PeerId leader_; int64_t term_; butil::Status st_;
};
inline std::ostream& operator<<(std::ostream& os, const LeaderChangeContext& c) { return os << "{leader_id=" << c.leader_id() << ",term=" << c.term() << "}"; }
inline const char* errortype2str(ErrorType) { return "error"; }
class Error {
 public:
  Error() = default;
  ErrorType type() const { return t_; }
  const butil::Status& status() const { return st_; }
  butil::Status& status() { return st_; }
  void set_type(ErrorType t) { t_ = t; }
 private: ErrorType t_ = ERROR_TYPE_NONE; butil::Status st_;
};
inline std::ostream& operator<<(std::ostream& os, const Error& e) { return os << "{type=" << errortype2str(e.type()) << "}"; }
class StateMachine {
 public:
  virtual ~StateMachine() = default;
  virtual void on_apply(Iterator& iter) = 0;
  virtual void on_shutdown() {}
  virtual void on_snapshot_save(SnapshotWriter* w, Closure* done) { done->status().set_error(-1, "not implemented"); done->Run(); }
  virtual int on_snapshot_load(SnapshotReader*) { return -1; }
  virtual void on_leader_start(int64_t term) {}
  virtual void on_leader_start(const LeaderChangeContext& c) { on_leader_start(c.term()); }
  virtual void on_leader_stop(const butil::Status&) {}
  virtual void on_error(const Error&) {}
  virtual void on_configuration_committed(const Configuration&) {}
  virtual void on_configuration_committed(const Configuration& c, int64_t) { on_configuration_committed(c); }
  virtual void on_stop_following(const LeaderChangeContext&) {}
  virtual void on_start_following(const LeaderChangeContext&) {}
};
enum State { STATE_LEADER = 1, STATE_TRANSFERRING = 2, STATE_CANDIDATE = 3, STATE_FOLLOWER = 4, STATE_ERROR = 5, STATE_UNINITIALIZED = 6, STATE_SHUTTING = 7, STATE_SHUTDOWN = 8, STATE_END };
struct PeerStatus { bool valid = false, installing_snapshot = false; int64_t next_index = 0, last_rpc_send_timestamp = 0, flying_append_entries_size = 0, readonly_index = 0; int consecutive_error_times = 0; };
struct NodeStatus {
  typedef std::map<PeerId, PeerStatus> PeerStatusMap;
  State state = STATE_END; PeerId peer_id, leader_id; bool readonly = false; int64_t term = 0, committed_index = 0, known_applied_index = 0, pending_index = 0, pending_queue_size = 0, applying_index = 0, first_index = 0, last_index = -1, disk_index = 0;
  PeerStatusMap stable_followers, unstable_followers;
};
class SnapshotThrottle;
struct NodeOptions {
  int election_timeout_ms = 1000, max_clock_drift_ms = 1000, snapshot_interval_s = 3600, catchup_margin = 1000;
  Configuration initial_conf; bool usercode_in_pthread = false; StateMachine* fsm = nullptr; bool node_owns_fsm = false; LogStorage* log_storage = nullptr; bool node_owns_log_storage = true;
  std::string log_uri, raft_meta_uri, snapshot_uri; bool filter_before_copy_remote = false; scoped_refptr<FileSystemAdaptor>* snapshot_file_system_adaptor = nullptr; bool disable_cli = false;
  int get_catchup_timeout_ms() { return 1000; }
};
class Node {
 public:
  Node(const GroupId& g, const PeerId& p);
  virtual ~Node();
  NodeId node_id();
  PeerId leader_id();
  bool is_leader();
  bool is_leader_lease_valid();
  int init(const NodeOptions& o);
  void shutdown(Closure* done);
  void join();
  void apply(const Task& t);
  butil::Status list_peers(std::vector<PeerId>* p);
  void add_peer(const PeerId& p, Closure* done);
  void remove_peer(const PeerId& p, Closure* done);
  void change_peers(const Configuration& c, Closure* done);
  butil::Status reset_peers(const Configuration& c);
  void snapshot(Closure* done);
  butil::Status vote(int election_timeout_ms);
  butil::Status reset_election_timeout_ms(int e);
  void reset_election_timeout_ms(int e, int d);
  int transfer_leadership_to(const PeerId& p);
  void get_status(NodeStatus* s);
  void enter_readonly_mode() {}
  void leave_readonly_mode() {}
  bool readonly() { return false; }
 private:
  friend struct sim_raft::Member;
  GroupId g_; PeerId p_; std::shared_ptr<sim_raft::Member> m_;
};
int add_service(brpc::Server* s, const butil::EndPoint& e);
int add_service(brpc::Server* s, int port);
int add_service(brpc::Server* s, const char* e);
}
