// Stand-in for braft: Raft consensus per group between the members living on simulated nodes. Elections are decided
// atomically by the simulator (term, vote, lease and log checks included); replication, disk writes, application,
// snapshots and membership changes are asynchronous and subject to the simulated network, disk, stalls and crashes.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <filesystem>
#include <fstream>
#include <set>
#include "braft/configuration_manager.h"
#include "braft/fsync.h"
#include "braft/protobuf_file.h"
#include "braft/raft.h"
#include "braft/repeated_timer_task.h"
#include "braft/util.h"
#include "sim.h"
#include "sim_net.h"
#include "sim_raft.h"
namespace fs = std::filesystem;
namespace braft {
DEFINE_bool(raft_sync, true, "");
DEFINE_bool(raft_create_parent_directories, true, "");
DEFINE_bool(raft_use_fsync_rather_than_fdatasync, true, "");
bool raft_sync_meta() { return true; }
int raft_fsync(int fd) { return 0; }
uint32_t murmurhash32(const void* key, int len) {
  const uint8_t* p = (const uint8_t*)key; uint32_t h = len ^ 0x9747b28c;
  for (int i = 0; i < len; i++) { h ^= p[i]; h *= 0x5bd1e995; h ^= h >> 15; }
  return h;
}
uint32_t murmurhash32(const butil::IOBuf& b) { return murmurhash32(b.raw().data(), b.size()); }
uint32_t crc32(const void* key, int len) {
  const uint8_t* p = (const uint8_t*)key; uint32_t c = ~0u;
  for (int i = 0; i < len; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78 : c >> 1; }
  return ~c;
}
uint32_t crc32(const butil::IOBuf& b) { return crc32(b.raw().data(), b.size()); }
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size) {
  std::string s(size, 0); ssize_t n = ::pread(fd, s.data(), size, offset);
  if (n < 0) return -1; portal->append(s.data(), n); return n;
}
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset) { return ::pwrite(fd, data.raw().data(), data.size(), offset); }
int gc_dir(const std::string& p) { std::error_code e; fs::remove_all(p, e); return e ? -1 : 0; }
bool is_zero(const char* p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i]) return false; return true; }
void run_closure_in_bthread(google::protobuf::Closure* c, bool) { if (c) sim::Spawn([c] { c->Run(); }, "closure", sim::Node()); }
std::string fileuri2path(const std::string& uri) { auto p = uri.find("://"); return p == std::string::npos ? uri : uri.substr(p + 3); }
int file_error_to_os_error(butil::File::Error e) { return e == 0 ? 0 : EIO; }
PosixFileAdaptor::~PosixFileAdaptor() { close(); }
ssize_t PosixFileAdaptor::write(const butil::IOBuf& d, off_t o) { return file_pwrite(d, fd_, o); }
ssize_t PosixFileAdaptor::read(butil::IOPortal* p, off_t o, size_t n) { return file_pread(p, fd_, o, n); }
ssize_t PosixFileAdaptor::size() { return lseek(fd_, 0, SEEK_END); }
bool PosixFileAdaptor::sync() { return true; }
bool PosixFileAdaptor::close() { if (fd_ > 0) { ::close(fd_); fd_ = -1; } return true; }
FileAdaptor* PosixFileSystemAdaptor::open(const std::string& path, int oflag, const ::google::protobuf::Message*, butil::File::Error* e) {
  int fd = ::open(path.c_str(), oflag & ~O_CLOEXEC, 0644);
  if (fd < 0) { if (e) *e = butil::File::OSErrorToFileError(errno); return nullptr; }
  return new PosixFileAdaptor(fd);
}
bool PosixFileSystemAdaptor::delete_file(const std::string& p, bool r) { std::error_code e; if (r) fs::remove_all(p, e); else fs::remove(p, e); return !e; }
bool PosixFileSystemAdaptor::rename(const std::string& a, const std::string& b) { return ::rename(a.c_str(), b.c_str()) == 0; }
bool PosixFileSystemAdaptor::link(const std::string& a, const std::string& b) { return ::link(a.c_str(), b.c_str()) == 0; }
bool PosixFileSystemAdaptor::create_directory(const std::string& p, butil::File::Error*, bool) { std::error_code e; fs::create_directories(p, e); return !e; }
bool PosixFileSystemAdaptor::path_exists(const std::string& p) { return fs::exists(p); }
bool PosixFileSystemAdaptor::directory_exists(const std::string& p) { return fs::is_directory(p); }
DirReader* PosixFileSystemAdaptor::directory_reader(const std::string& p) { return new PosixDirReader(p); }
FileSystemAdaptor* default_file_system() { static auto* f = [] { auto* x = new PosixFileSystemAdaptor; x->AddRef(); return x; }(); return f; }
bool create_sub_directory(const std::string& parent, const std::string& sub, FileSystemAdaptor*, butil::File::Error*) { std::error_code e; fs::create_directories(parent + "/" + sub, e); return !e; }
int ProtoBufFile::save(const ::google::protobuf::Message* m, bool) {
  std::string d; if (!m->SerializeToString(&d)) return -1;
  std::string t = path_ + ".tmp"; { std::ofstream f(t, std::ios::binary | std::ios::trunc); if (!f) return -1; f << d; }
  return ::rename(t.c_str(), path_.c_str());
}
int ProtoBufFile::load(::google::protobuf::Message* m) {
  std::ifstream f(path_, std::ios::binary); if (!f) { errno = ENOENT; return -1; }
  std::string d((std::istreambuf_iterator<char>(f)), {}); return m->ParseFromString(d) ? 0 : -1;
}
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* e) {
  ConfigurationPBMeta m; if (!m.ParseFromString(data.raw())) return butil::Status(EINVAL, "bad configuration");
  e->peers = new std::vector<PeerId>; for (auto& p : m.peers()) e->peers->push_back(PeerId(p));
  if (m.old_peers_size()) { e->old_peers = new std::vector<PeerId>; for (auto& p : m.old_peers()) e->old_peers->push_back(PeerId(p)); }
  return butil::Status::OK();
}
butil::Status serialize_configuration_meta(const LogEntry* e, butil::IOBuf& data) {
  ConfigurationPBMeta m; for (auto& p : *e->peers) m.add_peers(p.to_string());
  if (e->old_peers) for (auto& p : *e->old_peers) m.add_old_peers(p.to_string());
  data.append(m.SerializeAsString()); return butil::Status::OK();
}
// ---------------------------------------------------------------- timers
int RepeatedTimerTask::init(int t) { timeout_ms_ = t; return 0; }
void RepeatedTimerTask::schedule() {
  uint64_t gen = ++gen_; int node = sim::Node(); RepeatedTimerTask* self = this;
  sim::At(sim::NowUs() + (uint64_t)adjust_timeout_ms(timeout_ms_) * 1000, [self, gen, node] { sim::Spawn([self, gen] { self->fire(gen); }, "repeated_timer", node); });
}
void RepeatedTimerTask::fire(uint64_t gen) { if (stopped_ || destroyed_ || gen != gen_) return; running_ = true; run(); running_ = false; if (!stopped_ && !destroyed_ && gen == gen_) schedule(); }
void RepeatedTimerTask::start() { if (destroyed_ || !stopped_) return; stopped_ = false; schedule(); }
void RepeatedTimerTask::run_once_now() { run(); }
void RepeatedTimerTask::stop() { stopped_ = true; ++gen_; }
void RepeatedTimerTask::reset() { if (!stopped_) schedule(); }
void RepeatedTimerTask::reset(int t) { timeout_ms_ = t; reset(); }
void RepeatedTimerTask::destroy() { if (destroyed_) return; stop(); destroyed_ = true; on_destroy(); }
}  // namespace braft

namespace sim_raft {
using namespace braft;
Conf conf;
std::map<std::pair<std::string, int>, int> installs;
std::function<void(const std::string&, int64_t, const std::string&)> on_commit;
struct Member;
using MemberPtr = std::shared_ptr<Member>;
struct Persist { int64_t term = 0; PeerId vote; int64_t acked = 0; };
struct Committed { int64_t term; uint64_t hash; std::string data; bool is_data; };
struct Group {
  std::string name;
  std::map<PeerId, MemberPtr> members;
  std::map<PeerId, Persist> persist;
  std::map<int64_t, Committed> committed;
  std::map<int64_t, PeerId> leader_of_term;
};
static std::map<std::string, Group>& Gs() { static auto* g = new std::map<std::string, Group>; return *g; }
static uint64_t HashEntry(const LogEntry* e) { return sim::Hash(e->type == ENTRY_TYPE_DATA ? e->data.raw() : "conf"); }

// ---------------------------------------------------------------- snapshots
static const char* kMeta = "__raft_snapshot_meta";
struct Writer : SnapshotWriter {
  std::string path; LocalSnapshotPbMeta t;
  std::string get_path() override { return path; }
  void list_files(std::vector<std::string>* f) override { f->clear(); for (auto& x : t.files()) f->push_back(x.name()); }
  int get_file_meta(const std::string& n, ::google::protobuf::Message* m) override { for (auto& x : t.files()) if (x.name() == n) { if (m && x.has_meta()) m->CopyFrom(x.meta()); return 0; } return -1; }
  int save_meta(const SnapshotMeta& m) override { *t.mutable_meta() = m; return 0; }
  int add_file(const std::string& f, const ::google::protobuf::Message* m) override {
    for (auto& x : t.files()) if (x.name() == f) return -1;
    auto* x = t.add_files(); x->set_name(f); if (m) x->mutable_meta()->CopyFrom(*m); else x->mutable_meta(); return 0;
  }
  int remove_file(const std::string& f) override { for (int i = 0; i < t.files_size(); i++) if (t.files(i).name() == f) { t.mutable_files()->DeleteSubrange(i, 1); return 0; } return -1; }
};
struct Reader : SnapshotReader {
  std::string path; LocalSnapshotPbMeta t;
  bool load() { ProtoBufFile f(path + "/" + kMeta); return f.load(&t) == 0; }
  std::string get_path() override { return path; }
  void list_files(std::vector<std::string>* f) override { f->clear(); for (auto& x : t.files()) f->push_back(x.name()); }
  int get_file_meta(const std::string& n, ::google::protobuf::Message* m) override { for (auto& x : t.files()) if (x.name() == n) { if (m && x.has_meta()) m->CopyFrom(x.meta()); return 0; } return -1; }
  int load_meta(SnapshotMeta* m) override { *m = t.meta(); return 0; }
  std::string generate_uri_for_copy() override { return "sim://" + path; }
};

enum Role { FOLLOWER, CANDIDATE, LEADER, TRANSFER, ERR };
struct FsmTask { int kind; int64_t n; std::function<void()> fn; };  // 0 apply up to n, 1 fn

struct Member : std::enable_shared_from_this<Member> {
  std::string group; PeerId peer; NodeOptions opt; int node = -1; bool alive = true, shutting = false, shut_done = false;
  StateMachine* fsm = nullptr; LogStorage* ls = nullptr; FileSystemAdaptor* fsa = nullptr; std::string snap_dir;
  Role role = FOLLOWER; int64_t term = 0; PeerId vote, leader; uint64_t leader_contact = 0;
  int64_t first = 1, last = 0, durable = 0; std::deque<LogEntry*> log; int64_t snap_index = 0, snap_term = 0, prev_snap_index = 0;
  int64_t commit = 0, applied = 0, applied_term = 0; bool applying = false;
  struct ConfAt { int64_t index; Configuration c, old; }; std::deque<ConfAt> confs; ConfAt snap_conf;
  std::map<int64_t, Closure*> dones; std::map<int64_t, std::function<void()>> leader_start_at;
  std::map<int64_t, std::function<void(butil::Status)>> conf_done_at;
  std::deque<Task> pending; std::deque<std::pair<butil::IOBuf, Closure*>> queue; bool writing = false;
  std::map<PeerId, int64_t> match, next; std::map<PeerId, uint64_t> acked; std::set<PeerId> repl, installing; uint64_t repl_gen = 0;
  std::deque<FsmTask> fsmq; sim::WaitList fsmw, replw, writew, diskw, joinw, matchw, timerw; int timer_gen = 0; bool disk_busy = false;
  bool saving = false, loading = false, changing = false; bool in_fsm = false; bool following_notified = false; LeaderChangeContext* fctx = nullptr;

  Group& G() { return Gs()[group]; }
  Persist& P() { return G().persist[peer]; }
  bool Ok() { return alive && !shutting && !sim::NodeDead(node); }
  const ConfAt& Cur() { return confs.empty() ? snap_conf : confs.back(); }
  LogEntry* At(int64_t i) { return i < first || i > last ? nullptr : log[i - first]; }
  int64_t TermAt(int64_t i) { if (i == 0) return 0; if (auto* e = At(i)) return e->id.term; if (i == snap_index) return snap_term; return 0; }
  int64_t LastTerm() { return last >= first ? log.back()->id.term : (last == snap_index ? snap_term : 0); }
  void Save() { P().term = term; P().vote = vote; }
  void PushFsm(int kind, int64_t n, std::function<void()> fn = nullptr) { fsmq.push_back({kind, n, std::move(fn)}); sim::Wake(fsmw, true); }
  void LockDisk() { while (disk_busy) sim::Block(diskw); disk_busy = true; }
  void UnlockDisk() { disk_busy = false; sim::Wake(diskw, false); }
  void DiskDelay() { if (conf.disk_max_us) sim::SleepUs(sim::SchedRng().Range(conf.disk_min_us, conf.disk_max_us)); }
  void FailClosure(Closure* c, int code, const char* why) { if (!c) return; c->status().set_error(code, "%s", why); run_closure_in_bthread(c); }

  int Init(const NodeOptions& o);
  void Append(LogEntry* e) { log.push_back(e); last = e->id.index; AddConf(e); }
  void AddConf(LogEntry* e) { if (e->type == ENTRY_TYPE_CONFIGURATION) { ConfAt c; c.index = e->id.index; c.c = *e->peers; if (e->old_peers) c.old = *e->old_peers; confs.push_back(c); } }
  // leader-side
  void BecomeLeader(); void StepDown(int64_t new_term, bool keep_leader, const char* why); bool Elect(bool force);
  int64_t LeaderAppend(LogEntry* e) { e->id = LogId(last + 1, term); Append(e); sim::Wake(writew, true); sim::Wake(replw, true); return last; }
  LogEntry* ConfEntry(const Configuration& c, const Configuration& old) {
    auto* e = new LogEntry; e->AddRef(); e->type = ENTRY_TYPE_CONFIGURATION; e->peers = new std::vector<PeerId>; c.list_peers(e->peers);
    if (!old.empty()) { e->old_peers = new std::vector<PeerId>; old.list_peers(e->old_peers); } return e;
  }
  void StartReplicators(); void Replicate(PeerId p, int64_t t); void WriterLoop(int64_t t); void AdvanceCommit(); void SetCommit(int64_t c);
  bool QuorumContact(); void TimerLoop(); void FsmLoop(); void DoApply(int64_t upto);
  struct Req { int64_t term; PeerId leader; int64_t prev, prev_term, commit; std::vector<LogEntry*> es; };
  struct Resp { bool done = false, ok = false; int64_t term = 0, match = 0; sim::WaitList w; };
  void HandleAppend(const Req& r, Resp* resp); bool Install(MemberPtr f, int64_t t);
  void DoSnapshot(Closure* done); void ChangePeers(Configuration nc, Closure* done); void NotifyFollowing(bool start, const PeerId& l, int64_t t);
  void LoadSnapshotDir(const std::string& path); void AfterSnapshot(int64_t idx, int64_t term);
  void Shutdown(Closure* done); bool Truncate(int64_t kept);
};
struct IterImpl { Member* m; int64_t cur, upto; int taken = 0; LogEntry* e = nullptr; Closure* d = nullptr; butil::IOBuf empty; bool err = false;
  void Load() { e = cur <= upto ? m->At(cur) : nullptr; d = nullptr; if (e) { auto i = m->dones.find(cur); if (i != m->dones.end()) { d = i->second; m->dones.erase(i); } } }
  bool Good() { return cur <= upto && !err; }
  void Next() { if (cur <= upto) { cur++; taken++; Load(); } } };
static MemberPtr Find(const std::string& g, const PeerId& p) { auto gi = Gs().find(g); if (gi == Gs().end()) return nullptr; auto i = gi->second.members.find(p); return i == gi->second.members.end() || !i->second->Ok() ? nullptr : i->second; }
static bool CanTalk(Member* a, Member* b) { return sim_net::Reachable(a->node, b->node) && sim_net::Reachable(b->node, a->node); }
static bool Majority(const Configuration& c, const std::set<PeerId>& yes) { size_t n = 0; for (auto& p : c) n += yes.count(p); return n >= c.size() / 2 + 1; }

// ---------------------------------------------------------------- start
static std::string SnapName(int64_t i) { char b[64]; snprintf(b, sizeof b, "snapshot_%020lld", (long long)i); return b; }
int Member::Init(const NodeOptions& o) {
  opt = o; fsm = o.fsm; ls = o.log_storage; node = sim::Node();
  fsa = o.snapshot_file_system_adaptor && o.snapshot_file_system_adaptor->get() ? o.snapshot_file_system_adaptor->get() : default_file_system();
  snap_dir = fileuri2path(o.snapshot_uri); term = P().term; vote = P().vote;
  std::error_code ec; fs::create_directories(snap_dir, ec); fs::remove_all(snap_dir + "/temp", ec);
  int64_t best = 0; for (auto& d : fs::directory_iterator(snap_dir)) { long long i; if (sscanf(d.path().filename().c_str(), "snapshot_%lld", &i) == 1) best = std::max<int64_t>(best, i); }
  if (best) {
    Reader r; r.path = snap_dir + "/" + SnapName(best); if (!r.load()) return -1;
    if (fsm->on_snapshot_load(&r) != 0) { return -1; }
    snap_index = best; snap_term = r.t.meta().last_included_term(); snap_conf.index = best; for (auto& p : r.t.meta().peers()) snap_conf.c.add_peer(PeerId(p)); for (auto& p : r.t.meta().old_peers()) snap_conf.old.add_peer(PeerId(p));
    { std::vector<PeerId> v; snap_conf.c.list_peers(&v); if (snap_conf.old.empty()) fsm->on_configuration_committed(snap_conf.c, best); }
    prev_snap_index = best;
  }
  ConfigurationManager cm;
  if (!ls || ls->init(&cm) != 0) return -1;
  first = ls->first_log_index(); last = ls->last_log_index();
  if (first < 1) first = 1;
  if (last < first) { last = first - 1; if (last < snap_index) { if (last + 1 != 1 || snap_index) { ls->reset(snap_index + 1); } last = snap_index; first = snap_index + 1; } }
  for (int64_t i = first; i <= last; i++) {
    LogEntry* e = ls->get_entry(i);
    if (!e) sim::Fail("log storage of " + group + " at " + peer.to_string() + ": entry " + std::to_string(i) + " in [" + std::to_string(first) + "," + std::to_string(last) + "] cannot be read back after restart");
    if (e->id.index != i) sim::Fail("log storage of " + group + ": entry read back at " + std::to_string(i) + " carries index " + std::to_string(e->id.index));
    if (ls->get_term(i) != e->id.term) sim::Fail("log storage of " + group + ": get_term(" + std::to_string(i) + ") disagrees with the entry's term");
    e->AddRef(); e->Release(); e->AddRef(); log.push_back(e); AddConf(e);
    auto c = G().committed.find(i);
    if (c != G().committed.end() && i <= P().acked && c->second.term == e->id.term && c->second.is_data && c->second.hash != HashEntry(e)) sim::Fail("log storage of " + group + ": committed entry " + std::to_string(i) + " changed content across a restart");
  }
  if (P().acked > last) sim::Fail("log storage of " + group + " at " + peer.to_string() + ": acknowledged entry " + std::to_string(P().acked) + " lost across a crash (last index after restart " + std::to_string(last) + ", snapshot " + std::to_string(snap_index) + ")");
  if (first > snap_index + 1) sim::Fail("log storage of " + group + " at " + peer.to_string() + ": log starts at " + std::to_string(first) + " but the last snapshot ends at " + std::to_string(snap_index));
  { std::deque<ConfAt> got; for (auto& c : confs) got.push_back(c);
    // the configuration manager filled by the storage must agree with the entries
    if (!confs.empty() && cm.last_configuration().id.index != confs.back().index) sim::Fail("log storage of " + group + ": configuration index " + std::to_string(cm.last_configuration().id.index) + " reported on init, last configuration entry is at " + std::to_string(confs.back().index)); }
  // a crash between storing a snapshot and resetting the log: the snapshot wins (LogManager::set_snapshot)
  if (snap_index > 0 && !log.empty() && (last < snap_index || (first <= snap_index && At(snap_index)->id.term != snap_term))) { log.clear(); confs.clear(); ls->reset(snap_index + 1); first = snap_index + 1; last = snap_index; sim::Count("raft.log_reset_after_crash"); }
  durable = last; commit = applied = snap_index; applied_term = snap_term;
  if (best == 0 && confs.empty() && last == 0) snap_conf.c = o.initial_conf;
  if (confs.empty() && snap_conf.c.empty()) snap_conf.c = o.initial_conf;
  if (!log.empty() && LastTerm() > term) { term = LastTerm(); vote = PeerId(); Save(); }
  leader_contact = sim::NowUs();
  auto self = shared_from_this(); G().name = group; G().members[peer] = self;
  sim::Spawn([self] { self->FsmLoop(); }, "raft.fsm", node);
  sim::Spawn([self] { self->TimerLoop(); }, "raft.timer", node);
  if (Cur().c.size() == 1 && Cur().c.contains(peer) && Cur().old.empty()) Elect(true);
  return 0;
}

// ---------------------------------------------------------------- elections
bool Member::Elect(bool force) {
  if (!Ok() || role == ERR || loading || disk_busy) return false;   // a candidate finishes the append in flight first
  auto& c = Cur(); if (!c.c.contains(peer) && !c.old.contains(peer)) return false;
  std::set<PeerId> all; c.c.append_peers(&all); for (auto& p : c.old) all.insert(p);
  for (int round = 0; round < 2; round++) {  // pre-vote, then vote
    int64_t nt = term + 1; std::set<PeerId> yes{peer}; uint64_t now = sim::NowUs(); int64_t seen = 0;
    for (auto& p : all) {
      if (p == peer) continue; auto o = Find(group, p);
      if (!o || o->role == ERR || sim::NodeStalled(o->node) || !CanTalk(this, o.get())) continue;
      seen = std::max(seen, o->term);
      if (o->term > nt || (o->term == nt && !(o->vote == peer) && !o->vote.is_empty())) continue;
      if (!force && !o->leader.is_empty() && now - o->leader_contact < (uint64_t)o->opt.election_timeout_ms * 1000) continue;
      if (!force && (o->role == LEADER || o->role == TRANSFER) && o->QuorumContact()) continue;
      if (o->loading) continue;
      if (std::make_pair(o->LastTerm(), o->last) > std::make_pair(LastTerm(), last)) continue;
      yes.insert(p);
      if (round == 1) { if (o->role != FOLLOWER || o->term < nt) o->StepDown(nt, false, "vote for another candidate"); o->vote = peer; o->Save(); o->leader_contact = now; }
    }
    bool won = Majority(c.c, yes) && (c.old.empty() || Majority(c.old, yes));
    if (round == 0 && !won) { if (seen > term) { term = seen; vote = PeerId(); Save(); } return false; }
    if (round == 1) {
      StepDown(nt, false, "candidate"); vote = peer; Save();
      if (!won) return false;
      BecomeLeader();
    }
  }
  return true;
}
void Member::BecomeLeader() {
  auto& lt = G().leader_of_term; if (lt.count(term) && !(lt[term] == peer)) sim::Fail("simulator bug: two leaders in one term"); lt[term] = peer;
  sim::Count("raft.elections"); sim::Log("raft " + group + " leader " + peer.to_string() + " term " + std::to_string(term));
  NotifyFollowing(false, leader, term);
  role = LEADER; leader = peer; match.clear(); next.clear(); acked.clear(); repl.clear(); installing.clear(); repl_gen++; changing = false;
  for (auto& p : Cur().c) acked[p] = sim::NowUs(); for (auto& p : Cur().old) acked[p] = sim::NowUs();
  auto self = shared_from_this(); int64_t t = term;
  sim::Spawn([self, t] { self->WriterLoop(t); }, "raft.writer", node);
  ConfAt c = Cur();
  int64_t i = LeaderAppend(ConfEntry(c.c, c.old));
  leader_start_at[i] = [self, t] { if (self->role == LEADER && self->term == t) { sim::Log("raft " + self->group + " on_leader_start " + std::to_string(t)); self->fsm->on_leader_start(LeaderChangeContext(self->peer, t, butil::Status())); } };
  if (!c.old.empty()) {  // finish the membership change of the previous leader
    conf_done_at[i] = [self, t, c](butil::Status) { if (self->role == LEADER && self->term == t) { self->LeaderAppend(self->ConfEntry(c.c, Configuration())); self->StartReplicators(); } };
  }
  StartReplicators();
}
void Member::NotifyFollowing(bool start, const PeerId& l, int64_t t) {
  auto self = shared_from_this();
  if (start) { following_notified = true; PushFsm(1, 0, [self, l, t] { LeaderChangeContext c(l, t, butil::Status()); self->fsm->on_start_following(c); }); }
  else if (following_notified) { following_notified = false; PushFsm(1, 0, [self, l, t] { LeaderChangeContext c(l, t, butil::Status(EPERM, "leader changed")); self->fsm->on_stop_following(c); }); }
}
void Member::StepDown(int64_t nt, bool keep, const char* why) {
  bool was = role == LEADER || role == TRANSFER;
  if (role == FOLLOWER && !keep) NotifyFollowing(false, leader, term);
  if (role != ERR) role = FOLLOWER;
  if (nt > term) { term = nt; vote = PeerId(); Save(); }
  if (!keep) leader = PeerId();
  leader_contact = sim::NowUs();
  if (was) {
    sim::Count("raft.stepdowns"); sim::Log("raft " + group + " step down " + peer.to_string() + ": " + why);
    repl_gen++; repl.clear(); leader_start_at.clear();
    auto cd = std::move(conf_done_at); conf_done_at.clear(); for (auto& x : cd) x.second(butil::Status(EPERM, "leader stepped down"));
    auto q = std::move(queue); queue.clear(); for (auto& x : q) FailClosure(x.second, EPERM, "leader stepped down");
    auto self = shared_from_this();
    // closures of entries not yet applied are cancelled, except those already handed to the state machine's committed batch
    std::vector<int64_t> idx; for (auto& d : dones) if (d.first > commit) idx.push_back(d.first);
    for (auto i : idx) { auto* d = dones[i]; dones.erase(i); FailClosure(d, EPERM, "leader stepped down"); }
    PushFsm(1, 0, [self] { self->fsm->on_leader_stop(butil::Status(EPERM, "leader stepped down")); });
    sim::Wake(writew, true); sim::Wake(replw, true); sim::Wake(matchw, true);
  }
}
bool Member::QuorumContact() {
  std::set<PeerId> yes{peer}; uint64_t now = sim::NowUs(); for (auto& a : acked) if (now - a.second < (uint64_t)opt.election_timeout_ms * 1000) yes.insert(a.first);
  auto& c = Cur(); return Majority(c.c, yes) && (c.old.empty() || Majority(c.old, yes));
}
void Member::TimerLoop() {
  auto self = shared_from_this();
  while (Ok()) {
    uint64_t et = (uint64_t)opt.election_timeout_ms * 1000;
    if (role == LEADER || role == TRANSFER) {
      sim::SleepUs(et / 2); if (!Ok()) break;
      if ((role == LEADER || role == TRANSFER) && !QuorumContact()) StepDown(term + 1, false, "lost contact with a quorum");
    } else {
      uint64_t dl = sim::NowUs() + et + sim::SchedRng().Below(et); int gen = timer_gen; while (gen == timer_gen && sim::NowUs() < dl) sim::BlockUntil(timerw, dl); if (!Ok()) break; if (gen != timer_gen) continue;   // as RepeatedTimerTask::reset does
      if (role == FOLLOWER && sim::NowUs() - leader_contact >= et) { if (!leader.is_empty()) { NotifyFollowing(false, leader, term); leader = PeerId(); } Elect(false); }
    }
  }
}

// ---------------------------------------------------------------- leader: log, replication, commit
void Member::WriterLoop(int64_t t) {
  auto self = shared_from_this();
  while (Ok() && role != FOLLOWER && role != ERR && term == t) {
    if (queue.empty() && durable >= last) { sim::Block(writew); continue; }
    int n = 0;
    while (!queue.empty() && n < conf.max_batch) {
      auto x = std::move(queue.front()); queue.pop_front(); n++;
      auto* e = new LogEntry; e->AddRef(); e->type = ENTRY_TYPE_DATA; e->data.swap(x.first); e->id = LogId(last + 1, term);
      if (x.second) dones[last + 1] = x.second;
      Append(e);
    }
    sim::Wake(replw, true);
    LockDisk();
    if (!(Ok() && role != FOLLOWER && role != ERR && term == t)) { UnlockDisk(); break; }
    std::vector<LogEntry*> v; int64_t from = durable + 1, to = last; for (int64_t i = from; i <= to; i++) v.push_back(At(i));
    if (!v.empty()) {
      DiskDelay(); IOMetric im; int r = ls->append_entries(v, &im);
      if (r != (int)v.size()) { UnlockDisk(); sim::Count("raft.log_append_error"); StepDown(term + 1, false, "log append failed"); role = ERR; return; }
      durable = std::max(durable, to); P().acked = std::max(P().acked, durable);
    }
    UnlockDisk();
    if (role != FOLLOWER && term == t) { match[peer] = durable; AdvanceCommit(); sim::Wake(matchw, true); }
  }
}
static void DumpRaft() {
  for (auto& g : Gs()) for (auto& m : g.second.members) { auto& x = *m.second; std::string t = "raft " + g.first + " " + m.first.to_string() + " node " + std::to_string(x.node) + " role " + std::to_string(x.role) + " term " + std::to_string(x.term) + " first " + std::to_string(x.first) + " last " + std::to_string(x.last) + " durable " + std::to_string(x.durable) + " commit " + std::to_string(x.commit) + " applied " + std::to_string(x.applied) + " queue " + std::to_string(x.queue.size()) + " dones";
    for (auto& d : x.dones) t += " " + std::to_string(d.first); t += " next"; for (auto& n : x.next) t += " " + n.first.to_string() + "=" + std::to_string(n.second) + "/" + std::to_string(x.match[n.first]); sim::Log(t); }
}
static bool dump_hook = (sim::on_dump = DumpRaft, true);
void Member::StartReplicators() {
  std::set<PeerId> all; Cur().c.append_peers(&all); for (auto& p : Cur().old) all.insert(p);
  auto self = shared_from_this(); int64_t t = term;
  for (auto& p : all) if (!(p == peer) && repl.insert(p).second) { next[p] = last + 1; acked.emplace(p, sim::NowUs()); sim::Spawn([self, p, t] { self->Replicate(p, t); }, "raft.repl", node); }
}
void Member::Replicate(PeerId p, int64_t t) {
  auto self = shared_from_this(); bool fresh = true;
  auto on = [&] { return Ok() && (role == LEADER || role == TRANSFER) && term == t && repl.count(p); };
  while (on()) {
    if (!fresh && next[p] > last) { sim::BlockUntil(replw, sim::NowUs() + conf.heartbeat_us); if (!on()) break; }
    int64_t nx = next[p];
    auto f = Find(group, p);
    if (nx < first || (nx > 1 && TermAt(nx - 1) == 0)) {
      if (!f || !CanTalk(this, f.get())) { sim::SleepUs(conf.rpc_timeout_us); continue; }
      installing.insert(p); bool ok = Install(f, t); installing.erase(p); if (!on()) break;
      if (!ok) sim::SleepUs(conf.rpc_timeout_us);
      continue;
    }
    Req r; r.term = t; r.leader = peer; r.prev = nx - 1; r.prev_term = TermAt(nx - 1); r.commit = commit;
    if (!fresh) for (int64_t i = nx; i <= last && (int)r.es.size() < conf.max_batch; i++) {
      LogEntry* e = At(i);
      if (i <= durable && i <= applied && conf.readback_p > 0 && sim::SchedRng().Chance(conf.readback_p)) {
        LogEntry* d = ls->get_entry(i); if (!on()) break; if (nx < first) break;
        if (!d) sim::Fail("log storage of " + group + " at " + peer.to_string() + ": stored entry " + std::to_string(i) + " in [" + std::to_string(first) + "," + std::to_string(last) + "] cannot be read");
        if (d->id.term != e->id.term || HashEntry(d) != HashEntry(e)) sim::Fail("log storage of " + group + ": entry " + std::to_string(i) + " reads back with a different content");
        d->AddRef(); d->Release();
      }
      e->AddRef(); r.es.push_back(e);
    }
    if (!on() || nx < first) continue;
    auto resp = std::make_shared<Resp>(); uint64_t sent = sim::NowUs();
    sim::SleepUs(sim_net::Delay());
    if (!on()) break;
    f = Find(group, p);
    bool lost = sim_net::conf.drop_req > 0 && sim::ChooseChance(sim_net::conf.drop_req, "raft.drop");
    if (!f || lost || !sim_net::Reachable(node, f->node)) { if (lost) sim::Count("fault.raft_msg_lost"); sim::SleepUs(lost ? conf.rpc_timeout_us / 3 : conf.rpc_timeout_us); continue; }
    sim::Spawn([f, r, resp] { f->HandleAppend(r, resp.get()); resp->done = true; sim::Wake(resp->w, true); }, "raft.append", f->node);
    if (sim_net::conf.dup > 0 && sim::ChooseChance(sim_net::conf.dup, "raft.dup")) { sim::Count("fault.raft_msg_dup"); int fn = f->node; sim::At(sim::NowUs() + sim_net::Delay() * 4, [f, r, fn] { sim::Spawn([f, r] { Resp x; f->HandleAppend(r, &x); }, "raft.append.dup", fn); }); }
    uint64_t dl = sim::NowUs() + conf.rpc_timeout_us; while (!resp->done && sim::NowUs() < dl) if (!sim::BlockUntil(resp->w, dl)) break;
    if (!resp->done) continue;
    int fnode = f->node; sim::SleepUs(sim_net::Delay());
    if (!on()) break;
    if (!sim_net::Reachable(fnode, node)) { sim::SleepUs(conf.rpc_timeout_us / 2); continue; }
    if (resp->term > term) { StepDown(resp->term, false, "higher term in response"); break; }
    acked[p] = std::max(acked[p], sent);
    if (resp->ok) { fresh = false; if (resp->match > match[p]) { match[p] = resp->match; } next[p] = std::max(next[p], std::max(match[p] + 1, r.prev + 1 + (int64_t)r.es.size())); if (next[p] > last + 1) next[p] = last + 1; AdvanceCommit(); sim::Wake(matchw, true); }
    else { next[p] = std::max<int64_t>(1, std::min(next[p] - 1, resp->match + 1)); }
  }
}
void Member::AdvanceCommit() {
  auto& c = Cur();
  auto idx = [&](const Configuration& cf) { std::vector<int64_t> v; for (auto& p : cf) { auto i = match.find(p); v.push_back(i == match.end() ? 0 : i->second); } std::sort(v.begin(), v.end(), std::greater<>()); return v.empty() ? 0 : v[v.size() / 2]; };
  // entries up to a configuration change are counted by the configuration in force; the latest one is the strictest here
  int64_t q = idx(c.c); if (!c.old.empty()) q = std::min(q, idx(c.old));
  if (q > commit && TermAt(q) == term) SetCommit(q);
}
void Member::SetCommit(int64_t q) {
  q = std::min(q, last); if (q <= commit) return;
  for (int64_t i = commit + 1; i <= q; i++) {
    auto* e = At(i); if (!e) continue; auto h = HashEntry(e); auto it = G().committed.find(i);
    if (it == G().committed.end()) { G().committed[i] = {e->id.term, h, e->type == ENTRY_TYPE_DATA ? e->data.raw() : "", e->type == ENTRY_TYPE_DATA}; if (on_commit && e->type == ENTRY_TYPE_DATA) { sim::NoPreempt(1); on_commit(group, i, e->data.raw()); sim::NoPreempt(-1); } }   // one moment: nothing runs between the commit and the record of it
    else if (it->second.term != e->id.term || it->second.hash != h) sim::Fail("log divergence in " + group + " at " + peer.to_string() + ": entry " + std::to_string(i) + " differs from the committed entry");
  }
  commit = q; PushFsm(0, q); sim::Wake(replw, true);
}
bool Member::Truncate(int64_t kept) {
  if (ls->truncate_suffix(kept) != 0) { role = ERR; return false; }
  while (last > kept && !log.empty()) { log.pop_back(); last--; }
  while (!confs.empty() && confs.back().index > kept) confs.pop_back();
  durable = std::min(durable, last); P().acked = std::min(P().acked, last); sim::Count("raft.truncate_suffix");
  return true;
}
void Member::HandleAppend(const Req& r, Resp* resp) {
  auto self = shared_from_this(); resp->term = term;
  if (!Ok() || role == ERR || r.term < term) { resp->term = term; return; }
  if (r.term > term || role != FOLLOWER) StepDown(r.term, false, "append from a new leader");
  if (!(leader == r.leader)) { leader = r.leader; NotifyFollowing(true, leader, term); }
  leader_contact = sim::NowUs(); resp->term = term;
  LockDisk();
  if (!Ok() || r.term != term || role != FOLLOWER) { UnlockDisk(); resp->term = term; return; }
  if (r.prev > last) { resp->match = last; UnlockDisk(); return; }
  if (r.prev >= first && TermAt(r.prev) != r.prev_term) { resp->match = std::max(commit, r.prev - 1); if (r.prev <= commit) sim::Fail("log divergence in " + group + ": committed prefix mismatch at " + std::to_string(r.prev)); UnlockDisk(); return; }
  std::vector<LogEntry*> v; int64_t i = r.prev;
  for (auto* e : r.es) {
    i++; if (i < first || i <= snap_index) continue;
    auto* mine = At(i);
    if (mine && mine->id.term == e->id.term) continue;
    if (mine && v.empty()) { if (i <= commit) sim::Fail("log divergence in " + group + ": committed entry " + std::to_string(i) + " would be truncated"); if (!Truncate(i - 1)) { UnlockDisk(); return; } if (!Ok() || r.term != term) { UnlockDisk(); return; } }
    v.push_back(e);
  }
  if (!v.empty()) {
    std::vector<LogEntry*> w; for (auto* e : v) { auto* c = new LogEntry; c->AddRef(); c->type = e->type; c->id = e->id; c->data = e->data; if (e->peers) c->peers = new std::vector<PeerId>(*e->peers); if (e->old_peers) c->old_peers = new std::vector<PeerId>(*e->old_peers); w.push_back(c); }
    DiskDelay(); IOMetric im; int n = ls->append_entries(w, &im);
    if (n != (int)w.size()) { role = ERR; sim::Count("raft.log_append_error"); UnlockDisk(); return; }
    for (auto* c : w) Append(c);
    durable = last; P().acked = std::max(P().acked, durable);
  }
  UnlockDisk();
  if (!Ok() || r.term != term) { resp->term = term; return; }
  resp->ok = true; resp->match = r.prev + (int64_t)r.es.size();
  SetCommit(std::min(r.commit, resp->match));
}

// ---------------------------------------------------------------- state machine
void Member::FsmLoop() {
  auto self = shared_from_this();
  while (alive) {
    if (fsmq.empty()) { if (shut_done) break; sim::Block(fsmw); continue; }
    auto t = std::move(fsmq.front()); fsmq.pop_front();
    while (t.kind == 0 && !fsmq.empty() && fsmq.front().kind == 0) { t.n = std::max(t.n, fsmq.front().n); fsmq.pop_front(); }
    sim::Point();
    if (t.kind == 0) DoApply(t.n); else t.fn();
  }
}
void Member::DoApply(int64_t upto) {
  while (applied < upto && alive && role != ERR) {
    IterImpl it; it.m = this; it.cur = applied + 1; it.upto = std::min(upto, applied + 1 + (int64_t)sim::SchedRng().Below(conf.apply_batch)); it.Load(); int64_t end = it.upto;
    while (it.Good()) {
      if (!it.e) sim::Fail("simulator bug: entry " + std::to_string(it.cur) + " to apply is missing");
      if (it.e->type != ENTRY_TYPE_DATA) {
        int64_t i = it.cur;
        if (it.e->type == ENTRY_TYPE_CONFIGURATION) {
          if (!it.e->old_peers) fsm->on_configuration_committed(Configuration(*it.e->peers), i);
          auto ls_it = leader_start_at.find(i); if (ls_it != leader_start_at.end()) { auto fn = ls_it->second; leader_start_at.erase(ls_it); fn(); }
          auto cd = conf_done_at.find(i); if (cd != conf_done_at.end()) { auto fn = cd->second; conf_done_at.erase(cd); fn(butil::Status()); }
        }
        if (it.d) it.d->Run();
        applied_term = it.e->id.term; it.Next(); continue;
      }
      sim::Count("raft.apply_batches"); applied_term = it.e->id.term;
      Iterator x(&it); fsm->on_apply(x);
      if (it.err) { role = ERR; sim::Log("raft " + group + " state machine error at " + peer.to_string()); sim::Count("raft.fsm_error"); return; }
      if (it.Good() && it.e && it.e->type == ENTRY_TYPE_DATA) it.Next();
    }
    applied = std::max(applied, end); sim::Wake(matchw, true);
  }
}
// ---------------------------------------------------------------- snapshots
struct SaveDone : Closure { MemberPtr m; Writer* w; Closure* user; int64_t idx, term; void Run() override; };
void Member::DoSnapshot(Closure* done) {
  auto self = shared_from_this();
  if (saving || loading) { FailClosure(done, EBUSY, "is loading or saving a snapshot"); return; }
  if (applied <= snap_index) { if (done) run_closure_in_bthread(done); return; }
  saving = true;
  PushFsm(1, 0, [self, done] {
    auto* w = new Writer; w->path = self->snap_dir + "/temp"; std::error_code ec; fs::remove_all(w->path, ec); fs::create_directories(w->path, ec);
    SnapshotMeta m; m.set_last_included_index(self->applied); m.set_last_included_term(self->applied_term);
    const ConfAt* c = &self->snap_conf; for (auto& x : self->confs) if (x.index <= self->applied) c = &x;
    for (auto& p : c->c) m.add_peers(p.to_string()); for (auto& p : c->old) m.add_old_peers(p.to_string());
    w->save_meta(m);
    auto* d = new SaveDone; d->m = self; d->w = w; d->user = done; d->idx = self->applied; d->term = self->applied_term;
    sim::Count("raft.snapshot_saves"); self->fsm->on_snapshot_save(w, d);
  });
}
void SaveDone::Run() {
  auto* d = this; auto mm = m;
  sim::Spawn([d, mm] {
    Member* m = mm.get(); int rc = d->status().error_code();
    if (rc == 0 && m->Ok() && d->idx > m->snap_index) {
      ProtoBufFile f(d->w->path + "/" + kMeta); f.save(&d->w->t, true);
      std::string dst = m->snap_dir + "/" + SnapName(d->idx); std::error_code ec; fs::remove_all(dst, ec); fs::rename(d->w->path, dst, ec);
      m->snap_conf.c.reset(); m->snap_conf.old.reset(); m->snap_conf.index = d->idx; for (auto& p : d->w->t.meta().peers()) m->snap_conf.c.add_peer(PeerId(p)); for (auto& p : d->w->t.meta().old_peers()) m->snap_conf.old.add_peer(PeerId(p));
      int64_t old = m->snap_index; sim::Point();
      m->AfterSnapshot(d->idx, d->term);
      if (old) { std::error_code e2; fs::remove_all(m->snap_dir + "/" + SnapName(old), e2); }
    } else { sim::Count("raft.snapshot_save_failed"); }
    m->saving = false;
    if (d->user) { if (rc) d->user->status().set_error(rc, "save snapshot failed"); d->user->Run(); }
  }, "raft.snapshot", m->node);
}
void Member::AfterSnapshot(int64_t idx, int64_t t) {
  int64_t tt = TermAt(idx); int64_t prev = snap_index; LockDisk();
  snap_index = idx; snap_term = t;
  if (tt == 0) {  // log shorter than the snapshot
    for (auto* e : log) e->AddRef(); log.clear(); confs.clear(); ls->reset(idx + 1); first = idx + 1; last = durable = idx; P().acked = idx;
  } else if (tt == t) {
    int64_t keep = prev > 0 ? prev + 1 : first;
    if (keep > first) { if (ls->truncate_prefix(keep) == 0) { sim::Count("raft.truncate_prefix"); while (first < keep && !log.empty()) { log.pop_front(); first++; } if (log.empty()) { first = keep; last = std::max(last, keep - 1); } while (!confs.empty() && confs.front().index < first && confs.front().index <= idx) confs.pop_front(); } }
  } else { log.clear(); confs.clear(); ls->reset(idx + 1); first = idx + 1; last = durable = idx; P().acked = idx; }
  UnlockDisk();
}
bool Member::Install(MemberPtr f, int64_t t) {
  auto self = shared_from_this(); if (snap_index == 0 || f->saving || f->loading || saving) return false;
  auto ok = std::make_shared<int>(-1); auto w = std::make_shared<sim::WaitList>(); int64_t idx = snap_index;
  std::string src = snap_dir + "/" + SnapName(idx); MemberPtr L = self; FileSystemAdaptor* lfs = fsa;
  sim::Count("raft.install_snapshot"); sim::Log("raft " + group + " install snapshot " + std::to_string(idx) + " on " + f->peer.to_string());
  f->loading = true; if (f->term <= t) { if (f->term < t || f->role != FOLLOWER) f->StepDown(t, false, "install snapshot"); f->leader = peer; f->leader_contact = sim::NowUs(); }
  sim::Spawn([=] {
    auto finish = [&](int r) { f->loading = false; *ok = r; sim::Wake(*w, true); };
    // the leader side serves the files through its own file system adaptor (its node); the copy itself runs here
    int me = sim::Node(); auto on_leader = [&](std::function<void()> fn) { sim::SetNode(L->node); fn(); sim::SetNode(me); };
    Reader r; r.path = src; if (!r.load()) { finish(0); return; }
    bool opened = false; on_leader([&] { opened = lfs->open_snapshot(src); });
    if (!opened) sim::Count("raft.open_snapshot_busy");
    std::string tmp = f->snap_dir + "/temp"; std::error_code ec; fs::remove_all(tmp, ec); fs::create_directories(tmp, ec);
    bool good = opened;
    for (auto& fl : r.t.files()) {
      if (!good) break;
      butil::File::Error e; FileAdaptor* in = nullptr; on_leader([&] { in = lfs->open(src + "/" + fl.name(), O_RDONLY | O_CLOEXEC, nullptr, &e); });
      FileAdaptor* out = f->fsa->open(tmp + "/" + fl.name(), O_TRUNC | O_WRONLY | O_CREAT | O_CLOEXEC, fl.has_meta() ? &fl.meta() : nullptr, &e);
      if (!in || !out) good = false;
      off_t off = 0; bool eof = false; int tries = 0;
      while (good && !eof) {
        size_t chunk = 64 + sim::SchedRng().Below(2000); butil::IOPortal buf; ssize_t n = 0;
        sim::SleepUs(sim_net::Delay());
        if (!sim_net::Reachable(me, L->node) || sim::NodeDead(L->node)) { if (++tries > 3) good = false; sim::SleepUs(conf.rpc_timeout_us); continue; }
        if (!L->Ok()) { good = false; break; }
        on_leader([&] { n = in->read(&buf, off, chunk); });
        if (n < 0) { good = false; break; }
        // a response lost on the way back: the follower asks for the same offset again
        if (n > 0 && sim_net::conf.drop_resp > 0 && sim::ChooseChance(sim_net::conf.drop_resp, "snap.resp")) { sim::Count("fault.snapshot_chunk_lost"); butil::IOPortal b2; on_leader([&] { n = in->read(&b2, off, chunk); }); if (n < 0) { good = false; break; } buf.swap(b2); }
        if ((size_t)n < chunk) eof = true; else { ssize_t sz = 0; on_leader([&] { sz = in->size(); }); if (sz == (ssize_t)(off + chunk)) eof = true; }
        if (n > 0 && out->write(buf, off) != (ssize_t)buf.size()) { good = false; break; }
        off += n;
      }
      if (out) { if (!out->close()) good = false; delete out; }
      on_leader([&] { if (in) { in->close(); delete in; } });
    }
    if (opened && !sim::NodeDead(L->node)) on_leader([&] { lfs->close_snapshot(src); });
    if (!good || !f->Ok() || f->term != t) { sim::Count("raft.install_snapshot_failed"); finish(0); return; }
    ProtoBufFile mf(tmp + "/" + kMeta); mf.save(&r.t, true);
    if (idx <= f->snap_index || idx < f->commit) { fs::remove_all(tmp, ec); finish(1); return; }
    std::string dst = f->snap_dir + "/" + SnapName(idx); fs::remove_all(dst, ec); fs::rename(tmp, dst, ec);
    f->PushFsm(1, 0, [=] {
      Reader rr; rr.path = dst; if (!rr.load()) { f->loading = false; *ok = 0; sim::Wake(*w, true); return; }
      int rc = f->fsm->on_snapshot_load(&rr);
      if (rc != 0) { sim::Count("raft.snapshot_load_failed"); f->role = ERR; f->loading = false; *ok = 0; sim::Wake(*w, true); return; }
      sim::Count("raft.snapshot_loads"); sim_raft::installs[{f->group, f->node / 1000}]++;
      int64_t old = f->snap_index;
      f->snap_conf = ConfAt(); f->snap_conf.index = idx; for (auto& p : rr.t.meta().peers()) f->snap_conf.c.add_peer(PeerId(p)); for (auto& p : rr.t.meta().old_peers()) f->snap_conf.old.add_peer(PeerId(p));
      f->AfterSnapshot(idx, rr.t.meta().last_included_term());
      f->applied = std::max(f->applied, idx); f->commit = std::max(f->commit, idx); f->applied_term = f->snap_term;
      if (f->snap_conf.old.empty()) f->fsm->on_configuration_committed(f->snap_conf.c, idx);
      if (old) { std::error_code e2; fs::remove_all(f->snap_dir + "/" + SnapName(old), e2); }
      f->loading = false; *ok = 1; sim::Wake(*w, true);
    });
  }, "raft.install", f->node);
  uint64_t dl = sim::NowUs() + 20000000; while (*ok < 0 && sim::NowUs() < dl && !sim::NodeDead(f->node)) sim::BlockUntil(*w, std::min(dl, sim::NowUs() + 200000));
  if (*ok == 1) { match[f->peer] = std::max(match[f->peer], idx); next[f->peer] = std::max(next[f->peer], idx + 1); acked[f->peer] = sim::NowUs(); AdvanceCommit(); sim::Wake(matchw, true); }
  return *ok == 1;
}
// ---------------------------------------------------------------- membership
void Member::ChangePeers(Configuration nc, Closure* done) {
  if (role != LEADER || !Ok()) { FailClosure(done, EPERM, "Not leader"); return; }
  if (changing || !Cur().old.empty()) { FailClosure(done, EBUSY, "doing another configuration change"); return; }
  if (Cur().c.equals(nc)) { if (done) run_closure_in_bthread(done); return; }
  if (nc.empty()) { FailClosure(done, EINVAL, "empty configuration"); return; }
  changing = true; auto self = shared_from_this(); int64_t t = term;
  sim::Spawn([self, nc, done, t] {
    Configuration old = self->Cur().c;
    // catch-up of the peers to add
    std::vector<PeerId> add; for (auto& p : nc) if (!old.contains(p)) add.push_back(p);
    for (auto& p : add) if (self->repl.insert(p).second) { self->next[p] = self->last + 1; self->acked[p] = sim::NowUs(); sim::Spawn([self, p, t] { self->Replicate(p, t); }, "raft.repl", self->node); }
    uint64_t dl = sim::NowUs() + 15000000;
    for (auto& p : add) while (self->role == LEADER && self->term == t && self->match[p] + 100 < self->last + 1 && sim::NowUs() < dl) sim::BlockUntil(self->matchw, sim::NowUs() + 100000);
    for (auto& p : add) if (self->role == LEADER && self->term == t && self->match[p] == 0) {  // never reached it
      for (auto& q : add) self->repl.erase(q); self->changing = false; self->FailClosure(done, ETIMEDOUT, "peer failed to catch up"); return; }
    if (self->role != LEADER || self->term != t) { self->FailClosure(done, EPERM, "leader stepped down"); return; }
    sim::Count("raft.conf_changes");
    int64_t i = self->LeaderAppend(self->ConfEntry(nc, old)); self->StartReplicators();
    self->conf_done_at[i] = [self, nc, done, t](butil::Status st) {
      if (!st.ok()) { self->changing = false; self->FailClosure(done, st.error_code(), "leader stepped down"); return; }
      if (self->role != LEADER || self->term != t) { self->FailClosure(done, EPERM, "leader stepped down"); return; }
      int64_t k = self->LeaderAppend(self->ConfEntry(nc, Configuration()));
      self->conf_done_at[k] = [self, nc, done, t](butil::Status st2) {
        self->changing = false;
        if (!st2.ok()) { self->FailClosure(done, st2.error_code(), "leader stepped down"); return; }
        for (auto it = self->repl.begin(); it != self->repl.end();) if (!nc.contains(*it)) { self->acked.erase(*it); self->match.erase(*it); it = self->repl.erase(it); } else ++it;
        if (done) run_closure_in_bthread(done);
        if (!nc.contains(self->peer) && self->role == LEADER) self->StepDown(self->term + 1, false, "removed from the configuration");
      };
      self->AdvanceCommit();
    };
    self->AdvanceCommit();
  }, "raft.conf_change", node);
}
void Member::Shutdown(Closure* done) {
  if (shutting) { if (done) run_closure_in_bthread(done); return; }
  StepDown(term, false, "shutdown"); shutting = true; auto self = shared_from_this();
  P().acked = 0;  // a graceful stop: the log may be destroyed afterwards
  sim::Wake(writew, true); sim::Wake(replw, true); sim::Wake(matchw, true);
  PushFsm(1, 0, [self, done] {
    for (auto& d : self->dones) self->FailClosure(d.second, EPERM, "shutdown"); self->dones.clear();
    self->fsm->on_shutdown(); self->shut_done = true; auto& ms = self->G().members; auto i = ms.find(self->peer); if (i != ms.end() && i->second == self) ms.erase(i);
    if (done) done->Run(); sim::Wake(self->joinw, true);
  });
}
// ---------------------------------------------------------------- control
void CrashNode(int node) { for (auto& g : Gs()) for (auto i = g.second.members.begin(); i != g.second.members.end();) if (i->second->node == node) { i->second->alive = false; i = g.second.members.erase(i); } else ++i; }
// the leader of the newest term anyone was elected in; a leader a later election deposed without its knowledge is not it, not even after the later one stepped down
static MemberPtr LeaderOf(const std::string& g) { MemberPtr best; auto& gr = Gs()[g]; int64_t newest = gr.leader_of_term.empty() ? 0 : gr.leader_of_term.rbegin()->first; for (auto& m : gr.members) if (m.second->Ok() && m.second->role == LEADER && m.second->term >= newest && (!best || m.second->term > best->term)) best = m.second; return best; }
bool HasLeader(const std::string& g) { return LeaderOf(g) != nullptr; }
std::string Leader(const std::string& g) { auto m = LeaderOf(g); return m ? m->peer.to_string() : ""; }
int LeaderNode(const std::string& g) { auto m = LeaderOf(g); return m ? m->node : -1; }
bool StepDown(const std::string& g) { auto m = LeaderOf(g); if (!m) return false; m->StepDown(m->term + 1, false, "told to"); return true; }
bool ForceElection(const std::string& g, const std::string& p) { auto m = Find(g, PeerId(p)); return m && m->role == FOLLOWER && m->Elect(true); }
int64_t CommittedIndex(const std::string& g) { auto& c = Gs()[g].committed; return c.empty() ? 0 : c.rbegin()->first; }
int64_t AppliedIndex(const std::string& g, int node) { for (auto& m : Gs()[g].members) if (m.second->node == node) return m.second->applied; return -1; }
std::vector<std::string> Groups() { std::vector<std::string> v; for (auto& g : Gs()) v.push_back(g.first); return v; }
std::string CommittedData(const std::string& g, int64_t i) { auto& c = Gs()[g].committed; auto it = c.find(i); return it == c.end() ? "" : it->second.data; }
int Installs(const std::string& g, int machine) { auto it = installs.find({g, machine}); return it == installs.end() ? 0 : it->second; }
std::string Describe(const std::string& g) {
  std::string s = g + ": "; for (auto& m : Gs()[g].members) { auto& x = *m.second; s += x.peer.to_string() + "(n" + std::to_string(x.node) + (x.role == LEADER ? " LEADER" : x.role == ERR ? " ERR" : x.role == TRANSFER ? " TRANSFER" : "") + " t" + std::to_string(x.term) + " log[" + std::to_string(x.first) + "," + std::to_string(x.last) + "] dur" + std::to_string(x.durable) + " c" + std::to_string(x.commit) + " a" + std::to_string(x.applied) + " s" + std::to_string(x.snap_index) + " q" + std::to_string(x.fsmq.size()) + ") "; } return s;
}
}  // namespace sim_raft

// ---------------------------------------------------------------- braft::Node
namespace braft {
using sim_raft::Member;
void Iterator::next() { if (valid()) impl_->Next(); }
int64_t Iterator::index() const { return impl_->cur; }
int64_t Iterator::term() const { return impl_->e ? impl_->e->id.term : 0; }
const butil::IOBuf& Iterator::data() const { return impl_->e->data; }
Closure* Iterator::done() const { return impl_->d; }
bool Iterator::valid() const { return impl_->Good() && impl_->e && impl_->e->type == ENTRY_TYPE_DATA; }
void Iterator::set_error_and_rollback(size_t, const butil::Status*) { impl_->err = true; }
Node::Node(const GroupId& g, const PeerId& p) : g_(g), p_(p), m_(std::make_shared<Member>()) { m_->group = g; m_->peer = p; m_->role = sim_raft::FOLLOWER; }
Node::~Node() {}
NodeId Node::node_id() { return NodeId(g_, p_); }
PeerId Node::leader_id() { return m_->Ok() ? m_->leader : PeerId(); }
bool Node::is_leader() { return m_->Ok() && m_->role == sim_raft::LEADER; }
bool Node::is_leader_lease_valid() { return is_leader() && m_->QuorumContact(); }
int Node::init(const NodeOptions& o) { return m_->Init(o); }
void Node::shutdown(Closure* d) { m_->Shutdown(d); }
void Node::join() { auto m = m_; while (m->shutting && !m->shut_done && m->alive) sim::Block(m->joinw); }
void Node::apply(const Task& t) {
  sim::Point();
  if (!is_leader()) { m_->FailClosure(t.done, m_->role == sim_raft::TRANSFER ? EBUSY : EPERM, "is not leader"); return; }
  butil::IOBuf b; b.swap(*t.data); m_->queue.emplace_back(std::move(b), t.done); sim::Wake(m_->writew, true); sim::Point();
}
butil::Status Node::list_peers(std::vector<PeerId>* p) { if (m_->role != sim_raft::LEADER) return butil::Status(EPERM, "Not leader"); m_->Cur().c.list_peers(p); return butil::Status::OK(); }
void Node::add_peer(const PeerId& p, Closure* d) { Configuration c = m_->Cur().c; c.add_peer(p); m_->ChangePeers(c, d); }
void Node::remove_peer(const PeerId& p, Closure* d) { Configuration c = m_->Cur().c; c.remove_peer(p); m_->ChangePeers(c, d); }
void Node::change_peers(const Configuration& c, Closure* d) { m_->ChangePeers(c, d); }
butil::Status Node::reset_peers(const Configuration& c) { return butil::Status(EINVAL, "not supported by the simulator"); }
void Node::snapshot(Closure* d) { m_->DoSnapshot(d); }
butil::Status Node::vote(int) { return butil::Status(EINVAL, ""); }
butil::Status Node::reset_election_timeout_ms(int e) { reset_election_timeout_ms(e, 0); return butil::Status::OK(); }
void Node::reset_election_timeout_ms(int e, int) { m_->opt.election_timeout_ms = e; m_->timer_gen++; sim::Wake(m_->timerw, true); }
int Node::transfer_leadership_to(const PeerId& p) {
  auto m = m_; if (!is_leader()) return EPERM; if (m->changing) return EBUSY;
  PeerId target = p; if (target == m->peer) return 0; if (!m->Cur().c.contains(target)) return EINVAL;
  m->role = sim_raft::TRANSFER; int64_t t = m->term; sim::Count("raft.transfers");
  m->PushFsm(1, 0, [m] { m->fsm->on_leader_stop(butil::Status(EBUSY, "transferring leadership")); });
  sim::Spawn([m, target, t] {
    uint64_t dl = sim::NowUs() + (uint64_t)m->opt.election_timeout_ms * 1000;
    while (m->Ok() && m->term == t && m->match[target] < m->last && sim::NowUs() < dl) sim::BlockUntil(m->matchw, std::min(dl, sim::NowUs() + 50000));
    if (!m->Ok() || m->term != t || m->role != sim_raft::TRANSFER) return;
    sim::SleepUs(sim_net::Delay()); auto f = sim_raft::Find(m->group, target);
    if (f && m->term == t && m->role == sim_raft::TRANSFER && m->match[target] >= m->last && sim_net::Reachable(m->node, f->node)) { auto* fp = f.get(); fp->Elect(true); }
    if (m->Ok() && m->term == t && m->role == sim_raft::TRANSFER) {
      while (m->Ok() && m->term == t && m->role == sim_raft::TRANSFER && sim::NowUs() < dl) sim::SleepUs(50000);
      if (m->Ok() && m->term == t && m->role == sim_raft::TRANSFER) { m->role = sim_raft::LEADER; m->PushFsm(1, 0, [m, t] { if (m->role == sim_raft::LEADER && m->term == t) m->fsm->on_leader_start(LeaderChangeContext(m->peer, t, butil::Status())); }); sim::Wake(m->writew, true); }
    }
  }, "raft.transfer", m->node);
  return 0;
}
void Node::get_status(NodeStatus* s) {
  s->state = is_leader() ? STATE_LEADER : m_->role == sim_raft::TRANSFER ? STATE_TRANSFERRING : m_->role == sim_raft::ERR ? STATE_ERROR : STATE_FOLLOWER; s->peer_id = p_; s->leader_id = m_->leader; s->term = m_->term;
  s->committed_index = m_->commit; s->known_applied_index = m_->applied; s->first_index = m_->first; s->last_index = m_->last; s->disk_index = m_->durable; s->applying_index = m_->applied + 1;
  if (is_leader()) for (auto& p : m_->repl) { PeerStatus ps; ps.valid = true; ps.next_index = m_->next[p]; ps.installing_snapshot = m_->installing.count(p); ps.last_rpc_send_timestamp = m_->acked[p] / 1000; (m_->Cur().c.contains(p) ? s->stable_followers : s->unstable_followers)[p] = ps; }
}
int add_service(brpc::Server*, const butil::EndPoint&) { return 0; }
int add_service(brpc::Server*, int) { return 0; }
int add_service(brpc::Server*, const char*) { return 0; }
}  // namespace braft
