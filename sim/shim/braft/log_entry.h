#pragma once
#include <vector>
#include "braft/configuration.h"
#include "braft/enum.pb.h"
#include "butil/iobuf.h"
#include "butil/memory/ref_counted.h"
#include "butil/status.h"
namespace braft {
struct LogId { LogId() : index(0), term(0) {} LogId(int64_t i, int64_t t) : index(i), term(t) {} int64_t index, term; };
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; }
inline bool operator!=(const LogId& a, const LogId& b) { return !(a == b); }
inline bool operator<(const LogId& a, const LogId& b) { return a.term == b.term ? a.index < b.index : a.term < b.term; }
inline bool operator>(const LogId& a, const LogId& b) { return b < a; }
inline bool operator<=(const LogId& a, const LogId& b) { return !(b < a); }
inline bool operator>=(const LogId& a, const LogId& b) { return !(a < b); }
inline std::ostream& operator<<(std::ostream& os, const LogId& i) { return os << "(index=" << i.index << ",term=" << i.term << ")"; }
struct LogEntry : public butil::RefCountedThreadSafe<LogEntry> {
  EntryType type = ENTRY_TYPE_UNKNOWN; LogId id; std::vector<PeerId>* peers = nullptr; std::vector<PeerId>* old_peers = nullptr; butil::IOBuf data;
  LogEntry() = default;
 private:
  friend class butil::RefCountedThreadSafe<LogEntry>;
  ~LogEntry() { delete peers; delete old_peers; }
  LogEntry(const LogEntry&) = delete;
};
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* entry);
butil::Status serialize_configuration_meta(const LogEntry* entry, butil::IOBuf& data);
}
