#pragma once
// Control and observation of the consensus stand-in (shim_impl/braft.cc).
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace sim_raft {
struct Conf {
  uint64_t disk_min_us = 20, disk_max_us = 400;
  uint64_t heartbeat_us = 100000, rpc_timeout_us = 300000;
  int max_batch = 16;            // entries per disk write and per message
  int apply_batch = 8;           // entries handed to one on_apply
  double readback_p = 0.3;       // applied entries re-read from the log storage and compared
};
extern Conf conf;
void CrashNode(int node);                          // members of a killed node disappear; logs and votes stay
bool HasLeader(const std::string& group);          // some live member leads
std::string Leader(const std::string& group);      // its peer string, or ""
int LeaderNode(const std::string& group);          // sim node, or -1
bool StepDown(const std::string& group);           // make the leader step down
bool ForceElection(const std::string& group, const std::string& peer);
int64_t CommittedIndex(const std::string& group);
int64_t AppliedIndex(const std::string& group, int node);
std::vector<std::string> Groups();
std::string Describe(const std::string& group);
int Installs(const std::string& group, int machine);   // snapshots from a leader loaded there
std::string CommittedData(const std::string& group, int64_t index);
// every committed data entry, once per group, in log order
extern std::function<void(const std::string& group, int64_t index, const std::string& data)> on_commit;
}
