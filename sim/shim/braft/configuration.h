#pragma once
#include <map>
#include <ostream>
#include <set>
#include <string>
#include <vector>
#include "braft/raft.pb.h"
#include "butil/endpoint.h"
#include "butil/strings/string_piece.h"
#include "glog/logging.h"
namespace braft {
typedef std::string GroupId;
typedef std::string VersionedGroupId;
enum Role { REPLICA = 0, WITNESS = 1 };
struct PeerId {
  butil::EndPoint addr; int idx = 0; Role role = REPLICA;
  PeerId() = default;
  explicit PeerId(butil::EndPoint a) : addr(a) {}
  PeerId(butil::EndPoint a, int i) : addr(a), idx(i) {}
  PeerId(const std::string& s) { if (parse(s) != 0) reset(); }
  PeerId(const PeerId&) = default;
  PeerId& operator=(const PeerId&) = default;
  void reset() { addr.ip = butil::IP_ANY; addr.port = 0; idx = 0; role = REPLICA; }
  bool is_empty() const { return addr.ip == butil::IP_ANY && addr.port == 0 && idx == 0; }
  bool is_witness() const { return false; }
  int parse(const std::string& s) {
    reset(); std::string t = s; size_t c1 = t.find(':'); if (c1 == std::string::npos) return -1;
    size_t c2 = t.find(':', c1 + 1); std::string ip = t.substr(0, c2 == std::string::npos ? t.size() : c2);
    if (c2 != std::string::npos) idx = atoi(t.c_str() + c2 + 1);
    if (butil::str2endpoint(ip.c_str(), &addr) != 0) { reset(); return -1; } return 0;
  }
  std::string to_string() const { return std::string(butil::endpoint2str(addr).c_str()) + ":" + std::to_string(idx); }
};
inline bool operator<(const PeerId& a, const PeerId& b) { return a.addr < b.addr || (a.addr == b.addr && a.idx < b.idx); }
inline bool operator==(const PeerId& a, const PeerId& b) { return a.addr == b.addr && a.idx == b.idx; }
inline bool operator!=(const PeerId& a, const PeerId& b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const PeerId& p) { return os << p.to_string(); }
struct NodeId {
  GroupId group_id; PeerId peer_id;
  NodeId(const GroupId& g, const PeerId& p) : group_id(g), peer_id(p) {}
  std::string to_string() const { return group_id + ":" + peer_id.to_string(); }
};
inline std::ostream& operator<<(std::ostream& os, const NodeId& n) { return os << n.to_string(); }
class Configuration {
 public:
  typedef std::set<PeerId>::const_iterator const_iterator;
  Configuration() = default;
  explicit Configuration(const std::vector<PeerId>& p) { for (auto& x : p) peers_.insert(x); }
  explicit Configuration(const std::set<PeerId>& p) : peers_(p) {}
  Configuration& operator=(const std::vector<PeerId>& p) { peers_.clear(); for (auto& x : p) peers_.insert(x); return *this; }
  void reset() { peers_.clear(); }
  bool empty() const { return peers_.empty(); }
  size_t size() const { return peers_.size(); }
  const_iterator begin() const { return peers_.begin(); }
  const_iterator end() const { return peers_.end(); }
  void list_peers(std::set<PeerId>* p) const { *p = peers_; }
  void list_peers(std::vector<PeerId>* p) const { p->assign(peers_.begin(), peers_.end()); }
  void append_peers(std::set<PeerId>* p) const { p->insert(peers_.begin(), peers_.end()); }
  bool add_peer(const PeerId& p) { return peers_.insert(p).second; }
  bool remove_peer(const PeerId& p) { return peers_.erase(p); }
  bool contains(const PeerId& p) const { return peers_.count(p); }
  bool contains(const std::vector<PeerId>& v) const { for (auto& p : v) if (!contains(p)) return false; return true; }
  bool equals(const std::vector<PeerId>& v) const { return peers_ == std::set<PeerId>(v.begin(), v.end()); }
  bool equals(const Configuration& c) const { return peers_ == c.peers_; }
  int parse_from(butil::StringPiece s) {
    reset(); std::string t = s.as_string(); size_t b = 0;
    while (b <= t.size()) { size_t e = t.find(',', b); if (e == std::string::npos) e = t.size(); std::string x = t.substr(b, e - b); b = e + 1; if (x.empty()) continue; PeerId p; if (p.parse(x)) return -1; add_peer(p); }
    return 0;
  }
 private: std::set<PeerId> peers_;
};
inline std::ostream& operator<<(std::ostream& os, const Configuration& c) { for (auto& p : c) os << p << ","; return os; }
}
