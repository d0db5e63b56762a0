#pragma once
#include <deque>
#include "braft/configuration.h"
#include "braft/log_entry.h"
namespace braft {
struct ConfigurationEntry {
  LogId id; Configuration conf, old_conf;
  ConfigurationEntry() = default;
  explicit ConfigurationEntry(const LogEntry& e) { id = e.id; if (e.peers) conf = *e.peers; if (e.old_peers) old_conf = *e.old_peers; }
  bool stable() const { return old_conf.empty(); }
  bool empty() const { return conf.empty(); }
  bool contains(const PeerId& p) const { return conf.contains(p) || old_conf.contains(p); }
};
class ConfigurationManager {
 public:
  int add(const ConfigurationEntry& e) { if (!c_.empty() && c_.back().id.index >= e.id.index) return -1; c_.push_back(e); return 0; }
  void truncate_prefix(int64_t k) { while (!c_.empty() && c_.front().id.index < k) c_.pop_front(); }
  void truncate_suffix(int64_t k) { while (!c_.empty() && c_.back().id.index > k) c_.pop_back(); }
  const ConfigurationEntry& last_configuration() const { return c_.empty() ? snapshot_ : c_.back(); }
  void set_snapshot(const ConfigurationEntry& s) { snapshot_ = s; }
  std::deque<ConfigurationEntry> c_; ConfigurationEntry snapshot_;
};
}
