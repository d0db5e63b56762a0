#pragma once
// Simulated network: who can talk to whom, how long messages take, and which get lost.
#include <cstdint>
#include <functional>
#include <string>
#include "butil/endpoint.h"
namespace sim_net {
struct Conf {
  uint64_t min_us = 50, max_us = 800;
  double slow_p = 0.0; uint64_t slow_max_us = 200000;   // occasional long delay
  double drop_req = 0, drop_resp = 0, dup = 0;
};
extern Conf conf;
void Bind(const butil::EndPoint& ep, int node);        // which node owns an address
int NodeOf(const butil::EndPoint& ep);
bool Reachable(int from, int to);
void Cut(int a, int b, bool both = true);               // break a link
void Isolate(int node, bool on);
void Heal();                                            // all links
uint64_t Delay();
void Up(int node, bool up);
bool IsUp(int node);
void ForgetServers(int node);                           // a crash closes its sockets
}
