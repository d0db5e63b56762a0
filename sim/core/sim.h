// Deterministic simulator core: fibers, virtual clock, seeded choice streams, recorded schedule.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { Seed(seed); }
  void Seed(uint64_t seed);
  uint64_t Next();
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below((uint64_t)(hi - lo + 1)); }
  bool Chance(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class C> auto& Pick(C& c) { return c[Below(c.size())]; }
};
uint64_t Mix(uint64_t a, uint64_t b);
uint64_t Hash(const std::string& s);

// ---------------------------------------------------------------- fibers
struct Fiber;
using WaitList = std::deque<Fiber*>;

struct Stats {
  std::map<std::string, uint64_t> n;  // named counters: faults injected, probes hit, operations
  uint64_t switches = 0, preempts = 0, decisions = 0;
};

enum class Policy { kRandom, kPct, kFifo };

struct Config {
  uint64_t sched_seed = 1;
  Policy policy = Policy::kRandom;
  double preempt_p = 0.3;       // probability that a yield point really yields
  double cover_p = 0.0;         // probability that an instrumented basic block yields
  double stall_p = 0.0;         // probability that a thread is stalled at an instrumented basic block, for 20 us to 20 ms
  int pct_depth = 3;            // PCT: number of priority change points
  uint64_t max_steps = 5000000;  // decisions after which the run is cut
  uint64_t step_us = 1;         // virtual cost of running a fiber until it next stops
  uint64_t max_time_us = 0;     // virtual time bound (0: none)
};

void Start(const Config& c);      // (re)initialise the simulator in this process
void Run();                       // run until no fiber is runnable and no timer is pending, or Stop()
void Stop();                      // make Run() return
bool InSim();                     // on a fiber?
Fiber* Self();
uint64_t SelfId();
uint64_t Spawn(std::function<void()> fn, const std::string& name = "", int node = -1);
bool Alive(uint64_t id);
void Join(uint64_t id);
void Yield();                     // always a scheduling decision
void Point();                     // a possible preemption point
void SleepUs(uint64_t us);
void Block(WaitList& w);          // park until woken; other fibers run
bool BlockUntil(WaitList& w, uint64_t deadline_us);  // false on timeout
void Wake(WaitList& w, bool all);
void At(uint64_t time_us, std::function<void()> fn);  // event in simulator context (not a fiber)
uint64_t AtCancelable(uint64_t time_us, std::function<void()> fn);
bool Cancel(uint64_t timer);
int Node();                       // node of the current fiber (-1: none)
void SetNode(int node);           // for the current fiber
void KillNode(int node);          // its fibers never run again (node ids are incarnations: never reused)
bool NodeDead(int node);
bool NodeStalled(int node);
void StallNode(int node, uint64_t until_us);  // its fibers do not run before
uint64_t FibersOf(int node);
bool Deadlocked();                // Run() returned with fibers blocked forever
std::string BlockedReport();
void NoPreempt(int d);            // +1/-1 nesting

// ---------------------------------------------------------------- clocks (virtual)
uint64_t NowUs();                 // monotonic virtual time
int64_t WallUs();                 // wall clock of the current node: virtual time + offset + skew
void SetClockSkewUs(int node, int64_t skew);
int64_t ClockSkewUs(int node);
extern uint64_t kWallBaseUs;

// ---------------------------------------------------------------- choices
// Draw from the scheduling stream (recorded, replayable, shrinkable). Default choice is 0.
uint32_t Choose(uint32_t n, const char* what);
bool ChooseChance(double p, const char* what);
Rng& SchedRng();

// ---------------------------------------------------------------- log, hash, counters
void Log(const std::string& line);        // into the event log (also hashed)
void Note(uint64_t h);                    // into the hash only
uint64_t LogHash();
const std::vector<std::string>& LogLines();
void KeepLog(bool keep);
Stats& S();
inline void Count(const char* name, uint64_t d = 1) { S().n[name] += d; }
uint64_t Steps();
void StateHash(uint64_t h);               // a state reached (distinct-state measure)
const std::set<uint64_t>& States();

// ---------------------------------------------------------------- outcome
struct Violation { std::string what; };
void Fail(const std::string& what);       // record a violation and stop the run
bool Failed();
std::string FailText();
// A process abort in code under test (LOG(FATAL), CHECK): by default a violation.
extern std::function<void(const std::string&)> on_fatal;
extern std::function<void()> on_dump;   // debugging aid, see SIM_FIBERS
[[noreturn]] void Fatal(const std::string& what);

// recorded deviations from the default schedule, and forced replay
struct SchedTrace { std::vector<std::pair<uint64_t, uint32_t>> dev; };
const SchedTrace& Recorded();
void ForceSchedule(const SchedTrace* t);   // nullptr: random

}  // namespace sim
