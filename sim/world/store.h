// Store cluster worlds: regions, clients, fault plans, replica dumps, history search.
#pragma once
#include <bitset>
#include <functional>
#include <optional>
#include <unordered_set>
#include "cluster.h"
namespace st {
using namespace dingodb;
using cl::S;
struct Reg { int64_t id = 0; std::string start, end; std::vector<int> peers; int64_t conf = 1, ver = 1; pb::common::RegionEpoch Epoch() const { pb::common::RegionEpoch e; e.set_conf_version(conf); e.set_version(ver); return e; } };
std::string Group(int64_t region);              // raft group name
pb::common::RegionDefinition Def(const Reg& r);
bool CreateRegion(cl::Cluster& c, const Reg& r, int64_t split_from = 0, const std::vector<int>& on = {});
int LeaderMachine(int64_t region);              // -1: none
bool WaitLeader(cl::Cluster& c, int64_t region, uint64_t us = 20000000);
template <class Q> void SetCtx(Q& q, const Reg& r) { q.mutable_context()->set_region_id(r.id); *q.mutable_context()->mutable_region_epoch() = r.Epoch(); }

enum Res { kOk, kNo, kUnknown };                 // answered, certainly not executed, may or may not have been executed
struct Caller { cl::Cluster& c; int guess = 0; explicit Caller(cl::Cluster& x) : c(x) {}
  struct Meta { int machine = 0; bool solid = false; int64_t code = 0; };
  // one attempt at the replica thought to lead
  template <class Q, class R> Res Once(const char* method, const Reg& r, const Q& q, R& resp, Meta* m = nullptr, int timeout_ms = 2500) {
    int at = guess ? guess : r.peers[0]; int lead0 = LeaderMachine(r.id); bool ok = cl::StoreCall(method, at, q, resp, timeout_ms); int lead1 = LeaderMachine(r.id);
    if (m) { m->machine = at; m->solid = ok && lead0 == at && lead1 == at; m->code = ok ? resp.error().errcode() : -1; }
    if (!ok) { Next(r); return kUnknown; }
    int64_t e = resp.error().errcode(); if (!e) return kOk;
    if (e == pb::error::ERAFT_NOTLEADER) { int l = Hint(resp.error()); if (l && l != at) guess = l; else Next(r); return kNo; }
    switch (e) { case pb::error::EREGION_NOT_FOUND: case pb::error::ERAFT_NOT_FOUND: case pb::error::EREGION_NEW: Next(r); return kNo; case pb::error::EREGION_VERSION: case pb::error::EKEY_OUT_OF_RANGE: case pb::error::EREQUEST_FULL: case pb::error::EREGION_STANDBY: case pb::error::EREGION_MERGEING: case pb::error::EREGION_TOMBSTONE: case pb::error::EREGION_DELETING: case pb::error::EREGION_DELETED: case pb::error::ETSO_NOT_AVAILABLE: case pb::error::ERAFT_NOT_CONSISTENT_READ: return kNo; default: return kUnknown; }
  }
  void Next(const Reg& r) { size_t i = 0; for (; i < r.peers.size(); i++) if (r.peers[i] == (guess ? guess : r.peers[0])) break; guess = r.peers[(i + 1) % r.peers.size()]; }
  int Hint(const pb::error::Error& e);
};
// ---- faults
struct Faults { int max = 4; uint64_t from_us = 0, span_us = 8000000; bool crash = true, power = true, partition = true, stall = true, lead = true, snapshot = true, skew = false, net = true, diskerr = false; std::vector<int64_t> regions{}; };
struct Plan { bool done = false; int pending = 0; };
std::shared_ptr<Plan> StartFaults(cl::Cluster& c, const Faults& f);
void Recover(cl::Cluster& c, const Faults& f);   // ends every fault, restarts dead machines
bool Snapshot(cl::Cluster& c, int machine, int64_t region);
bool Quiesce(cl::Cluster& c, int64_t region, const std::vector<int>& peers, uint64_t us = 30000000);  // all peers applied the same log
std::map<std::string, std::map<std::string, std::string>> Dump(cl::Cluster& c, int machine, const std::string& start, const std::string& end, bool encoded_range);
std::string Show(const std::string& s);
// ---- atomic order search (Wing & Gong) over a small key space
struct Op {
  enum Kind { kPut, kGet, kDel, kCas, kPia, kScan, kDelRange } kind; int client = 0; uint64_t t0 = 0, t1 = ~0ull; bool known = true;  // known: its outcome was reported
  std::vector<int> keys; std::vector<std::string> val, exp; std::vector<int> res; bool atomic = true; std::string text;
};
bool Linear(const std::vector<Op>& ops, int nkeys, uint64_t budget, bool& gave_up, std::string& why, std::vector<std::string> init = {}, bool weak = false);
}  // namespace st
