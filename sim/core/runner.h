// One simulated run per forked process; worlds register here.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sim.h"
namespace sim {
struct Ctx {
  uint64_t seed = 0; std::string world, prop; bool thorough = false;
  Rng rng;                                   // workload and fault plan
  std::set<uint64_t> disabled; uint64_t items = 0; bool list = false; std::vector<std::string> item_text;
  std::map<std::string, std::string> params;
  // Every operation and fault of the plan passes here; the minimiser switches items off.
  bool On(const std::string& what) { uint64_t i = items++; if (list) item_text.push_back(what); return !disabled.count(i); }
  bool Oracle(const std::string& p) const { return prop.empty() || prop == p || prop == "all"; }
  Config Swarm();                            // scheduler settings drawn for this run
  std::string Param(const std::string& k, const std::string& d = "") const { auto i = params.find(k); return i == params.end() ? d : i->second; }
};
using WorldFn = void (*)(Ctx&);
struct World { World(const char* name, WorldFn fn); };
int Main(int argc, char** argv);
}
