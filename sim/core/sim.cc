#include <execinfo.h>
#include "sim.h"
#include <cxxabi.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <unordered_map>
#include <algorithm>
#include <boost/context/detail/fcontext.hpp>

namespace sim {
namespace ctx = boost::context::detail;

// ---------------------------------------------------------------- rng
static uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Rng::Seed(uint64_t seed) { s[0] = SplitMix(seed); s[1] = SplitMix(seed); }
uint64_t Rng::Next() {
  uint64_t a = s[0], b = s[1], r = a + b;
  b ^= a;
  s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  s[1] = (b << 37) | (b >> 27);
  return r;
}
uint64_t Mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15); return SplitMix(x); }
uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- state
enum FState { kReady, kBlocked, kDone, kDead };
struct Fiber {
  uint64_t id;
  std::string name;
  int node = -1;
  std::function<void()> fn;
  FState st = kReady;
  ctx::fcontext_t ctx = nullptr;
  char* stack = nullptr;
  WaitList* waiting = nullptr;
  WaitList joiners;
  bool timed_out = false;
  uint64_t timer = 0;
  uint64_t prio = 0;
  int nopreempt = 0;
  std::map<const void*, void*> tls;
  char eh[16] = {0};  // C++ exception globals of this fiber
  const char* where = "";
};
struct Event { uint64_t at, seq; std::function<void()> fn; };

static const size_t kStack = 512 * 1024;
static bool g_keep_default;
struct Sim {
  Config cfg;
  std::map<uint64_t, std::unique_ptr<Fiber>> fibers;
  std::vector<Fiber*> ready;
  std::map<std::pair<uint64_t, uint64_t>, std::function<void()>> events;
  std::unordered_map<uint64_t, std::pair<uint64_t, uint64_t>> timers;
  uint64_t now = 0, seq = 0, fid = 0, steps = 0;
  std::set<int> dead;
  std::map<int, uint64_t> stalled;
  std::map<int, int64_t> skew;
  bool stop = false, failed = false, deadlock = false, running = false;
  std::string fail;
  Rng sched, vals;  // choices (recorded, replayable) and values (delays, random data)
  SchedTrace rec;
  std::unordered_map<uint64_t, uint32_t> forced;
  bool force = false;
  std::vector<std::string> log;
  bool keep = g_keep_default;
  uint64_t hash = 1469598103934665603ull;
  Stats stats;
  std::set<uint64_t> states;
  std::vector<uint64_t> pct_points;
  uint64_t pct_low = 1;
  std::vector<char*> freestacks;
};
static Sim* g = nullptr;
static Fiber* self = nullptr;
static ctx::fcontext_t sched_ctx;
uint64_t kWallBaseUs = 1700000000ull * 1000000ull;
std::function<void(const std::string&)> on_fatal;
std::function<void()> on_dump;
static const SchedTrace* next_force = nullptr;

void ForceSchedule(const SchedTrace* t) { next_force = t; }

void Start(const Config& c) {
  if (!g) g = new Sim;
  else { auto* old = g; g = new Sim; (void)old; }
  g->cfg = c;
  g->sched.Seed(c.sched_seed);
  g->vals.Seed(Mix(c.sched_seed, 4242));
  if (next_force) {
    g->force = true;
    for (auto& d : next_force->dev) g->forced[d.first] = d.second;
  }
  if (c.policy == Policy::kPct) {
    Rng r(Mix(c.sched_seed, 77));
    for (int i = 0; i < c.pct_depth; i++) g->pct_points.push_back(r.Below(3000));
  }
  on_fatal = nullptr;
  self = nullptr;
}

Rng& SchedRng() { static Rng outside(7); return g ? g->vals : outside; }
uint64_t Steps() { return g ? g->steps : 0; }

// one scheduling decision; index = g->steps
static uint32_t Decide(uint32_t n, uint32_t dflt_choice_from_policy) {
  uint64_t idx = g->steps++;
  g->stats.decisions++;
  uint32_t c;
  if (g->force) {
    auto it = g->forced.find(idx);
    c = it == g->forced.end() ? 0 : it->second;
    if (c >= n) c = n ? c % n : 0;
  } else {
    c = dflt_choice_from_policy;
  }
  if (c) g->rec.dev.push_back({idx, c});
  return c;
}
uint32_t Choose(uint32_t n, const char* what) {
  if (n <= 1) return 0;
  (void)what;
  return Decide(n, g->force ? 0 : (uint32_t)g->sched.Below(n));
}
bool ChooseChance(double p, const char* what) {
  (void)what;
  if (p <= 0) return false;
  return Decide(2, g->force ? 0 : (g->sched.Chance(p) ? 1 : 0)) == 1;
}

// ---------------------------------------------------------------- fibers
static void Entry(ctx::transfer_t t) {
  sched_ctx = t.fctx;
  Fiber* f = self;
  try {
    f->fn();
  } catch (const std::exception& e) {
    if (!g->failed) Fail(std::string("uncaught exception in fiber ") + f->name + ": " + e.what());
  }
  f->fn = nullptr;
  f->st = kDone;
  Wake(f->joiners, true);
  auto r = ctx::jump_fcontext(sched_ctx, nullptr);
  (void)r;
  abort();
}
static void SwitchOut() {
  Fiber* f = self;
  std::memcpy(f->eh, abi::__cxa_get_globals(), 16);
  auto r = ctx::jump_fcontext(sched_ctx, nullptr);
  sched_ctx = r.fctx;
  self = f;
  std::memcpy(abi::__cxa_get_globals(), f->eh, 16);
}
static char* NewStack() {
  if (!g->freestacks.empty()) { char* s = g->freestacks.back(); g->freestacks.pop_back(); return s; }
  char* s = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) { perror("mmap stack"); abort(); }
  mprotect(s, 4096, PROT_NONE);
  return s;
}

bool InSim() { return self != nullptr; }
Fiber* Self() { return self; }
uint64_t SelfId() { return self ? self->id : 0; }
int Node() { return self ? self->node : -1; }
void SetNode(int n) { if (self) self->node = n; }
void NoPreempt(int d) { if (self) self->nopreempt += d; }

uint64_t Spawn(std::function<void()> fn, const std::string& name, int node) {
  if (g->dead.count(node >= 0 ? node : Node())) return ++g->fid;  // the process is gone
  auto f = std::make_unique<Fiber>();
  f->id = ++g->fid;
  f->name = name;
  f->node = node >= 0 ? node : Node();
  f->fn = std::move(fn);
  f->prio = 1000000 + (g->cfg.policy == Policy::kPct ? g->vals.Below(1000000) : 0);
  g->ready.push_back(f.get());
  uint64_t id = f->id;
  g->fibers[id] = std::move(f);
  return id;
}
bool Alive(uint64_t id) { return g->fibers.count(id) != 0; }
void Join(uint64_t id) {
  auto it = g->fibers.find(id);
  if (it == g->fibers.end() || it->second->st == kDone) return;
  Block(it->second->joiners);
}

static void MakeReady(Fiber* f) {
  if (f->st != kBlocked) return;
  f->st = kReady;
  f->waiting = nullptr;
  if (f->timer) { Cancel(f->timer); f->timer = 0; }
  g->ready.push_back(f);
}

void Yield() {
  if (!self) return;
  if (g->stop) { /* let the scheduler notice */ }
  self->st = kReady;
  g->ready.push_back(self);
  SwitchOut();
}
static uint32_t spin_points, spin_blocks;
void Point() {
  if (!self || self->nopreempt) return;
  if (g->stop) { Yield(); return; }
  if (++spin_points > 400) { g->now += 50; Yield(); return; }
  if (g->ready.empty()) return;
  if (ChooseChance(g->cfg.preempt_p, "pt")) { g->stats.preempts++; Yield(); }
}
void Block(WaitList& w) {
  self->st = kBlocked;
  self->waiting = &w;
  self->timed_out = false;
  w.push_back(self);
  SwitchOut();
}
bool BlockUntil(WaitList& w, uint64_t deadline) {
  Fiber* f = self;
  f->st = kBlocked;
  f->waiting = &w;
  f->timed_out = false;
  w.push_back(f);
  uint64_t fid = f->id;
  f->timer = AtCancelable(deadline, [fid] {
    auto it = g->fibers.find(fid);
    if (it == g->fibers.end() || it->second->st != kBlocked) return;
    Fiber* x = it->second.get();
    if (x->waiting) { auto& q = *x->waiting; q.erase(std::remove(q.begin(), q.end(), x), q.end()); }
    x->timed_out = true;
    x->timer = 0;
    MakeReady(x);
  });
  SwitchOut();
  return !f->timed_out;
}
void Wake(WaitList& w, bool all) {
  while (!w.empty()) {
    Fiber* f;
    if (all || w.size() == 1) { f = w.front(); w.pop_front(); }
    else { uint32_t c = Choose(w.size(), "wake"); f = w[c]; w.erase(w.begin() + c); }
    bool dead = f->st != kBlocked;
    if (!dead) MakeReady(f);
    if (!all && !dead) return;
  }
}
void SleepUs(uint64_t us) {
  if (!self) return;
  if (us == 0) { Yield(); return; }
  WaitList w;
  BlockUntil(w, g->now + us);
}
void At(uint64_t t, std::function<void()> fn) { AtCancelable(t, std::move(fn)); }
uint64_t AtCancelable(uint64_t t, std::function<void()> fn) {
  uint64_t s = ++g->seq;
  if (t < g->now) t = g->now;
  g->events[{t, s}] = std::move(fn);
  g->timers[s] = {t, s};
  return s;
}
bool Cancel(uint64_t id) {
  auto it = g->timers.find(id);
  if (it == g->timers.end()) return false;
  g->events.erase(it->second);
  g->timers.erase(it);
  return true;
}
bool NodeDead(int node) { return g->dead.count(node); }
bool NodeStalled(int node) { auto it = g->stalled.find(node); return it != g->stalled.end() && it->second > g->now; }
void KillNode(int node) {
  bool me = false;
  g->dead.insert(node);
  for (auto it = g->fibers.begin(); it != g->fibers.end(); ++it) {
    Fiber* f = it->second.get();
    if (f->node != node || f->st == kDone || f->st == kDead) continue;
    if (f == self) { me = true; continue; }
    if (f->timer) { Cancel(f->timer); f->timer = 0; }
    if (f->waiting) { auto& q = *f->waiting; q.erase(std::remove(q.begin(), q.end(), f), q.end()); f->waiting = nullptr; }
    g->ready.erase(std::remove(g->ready.begin(), g->ready.end(), f), g->ready.end());
    f->st = kDead;
    Wake(f->joiners, true);
  }
  if (me) {
    self->st = kDead;
    Wake(self->joiners, true);
    SwitchOut();
    abort();
  }
}
uint64_t FibersOf(int node) {
  uint64_t n = 0;
  for (auto& [id, f] : g->fibers) if (f->node == node && f->st != kDone && f->st != kDead) n++;
  return n;
}
void StallNode(int node, uint64_t until) {
  g->stalled[node] = until;
  At(until, [] {});
}

static Fiber* PickReady() {
  // candidates: not stalled
  static std::vector<uint32_t> idx;
  idx.clear();
  for (uint32_t i = 0; i < g->ready.size(); i++) {
    auto it = g->stalled.find(g->ready[i]->node);
    if (it != g->stalled.end() && it->second > g->now) continue;
    idx.push_back(i);
  }
  if (idx.empty()) return nullptr;
  uint32_t c = 0;
  if (idx.size() > 1) {
    uint32_t want = 0;
    if (!g->force) {
      switch (g->cfg.policy) {
        case Policy::kRandom: want = (uint32_t)g->sched.Below(idx.size()); break;
        case Policy::kFifo: want = 0; break;
        case Policy::kPct: {
          for (uint32_t i = 1; i < idx.size(); i++)
            if (g->ready[idx[i]]->prio > g->ready[idx[want]]->prio) want = i;
          break;
        }
      }
    }
    c = Decide((uint32_t)idx.size(), want);
  }
  Fiber* f = g->ready[idx[c]];
  g->ready.erase(g->ready.begin() + idx[c]);
  if (g->cfg.policy == Policy::kPct) {
    for (auto p : g->pct_points) if (p == g->stats.switches) f->prio = --g->pct_low + 1000;
    // starvation guard: everything that keeps yielding sinks slowly
    if (g->stats.switches % 64 == 0 && f->prio > 1) f->prio = f->prio > 5000 ? f->prio - 5000 : 1;
  }
  return f;
}
void Run() {
  g->stop = g->failed;
  g->deadlock = false;
  g->running = true;
  while (!g->stop) {
    bool due = !g->events.empty() && g->events.begin()->first.first <= g->now;
    Fiber* f = due ? nullptr : PickReady();
    if (!f) {
      if (g->events.empty()) {
        for (auto& [id, x] : g->fibers) if (x->st == kBlocked) g->deadlock = true;
        break;
      }
      auto it = g->events.begin();
      if (g->cfg.max_time_us && it->first.first > g->cfg.max_time_us) { g->stats.n["run_cut_time"]++; break; }
      if (it->first.first > g->now) g->now = it->first.first;
      auto fn = std::move(it->second);
      g->timers.erase(it->first.second);
      g->events.erase(it);
      fn();
      continue;
    }
    self = f;
    g->stats.switches++;
    g->now += g->cfg.step_us;
    if (g->stats.switches > g->cfg.max_steps || (g->cfg.max_time_us && g->now > g->cfg.max_time_us)) { g->stats.n["run_cut"]++; g->ready.push_back(f); self = nullptr; break; }
    spin_points = spin_blocks = 0;
    if (!f->ctx) {
      f->stack = NewStack();
      f->ctx = ctx::make_fcontext(f->stack + kStack + 4096, kStack, Entry);
      std::memset(abi::__cxa_get_globals(), 0, 16);
    }
    auto r = ctx::jump_fcontext(f->ctx, nullptr);
    f->ctx = r.fctx;
    self = nullptr;
    if (f->st == kDone) {
      g->freestacks.push_back(f->stack);
      g->fibers.erase(f->id);
    }
  }
  g->running = false;
}
void Stop() { g->stop = true; if (self) { while (true) { Yield(); } } }
bool Deadlocked() { return g->deadlock; }
std::string BlockedReport() {
  std::string s;
  for (auto& [id, f] : g->fibers)
    if (f->st == kBlocked) s += f->name + "#" + std::to_string(id) + "@n" + std::to_string(f->node) + " ";
  return s;
}

// ---------------------------------------------------------------- clocks
uint64_t NowUs() { return g ? g->now : 0; }
void SetClockSkewUs(int node, int64_t s) { g->skew[node] = s; }
int64_t ClockSkewUs(int node) { auto it = g->skew.find(node); return it == g->skew.end() ? 0 : it->second; }
int64_t WallUs() { return (int64_t)kWallBaseUs + (int64_t)NowUs() + (g ? ClockSkewUs(Node()) : 0); }

// ---------------------------------------------------------------- log
void Note(uint64_t h) { g->hash = Mix(g->hash, h); }
void Log(const std::string& l) {
  Note(Hash(l));
  if (g->keep && g->log.size() < 200000) g->log.push_back("[" + std::to_string(g->now) + "us n" + std::to_string(Node()) + " f" + std::to_string(SelfId()) + "] " + l);
}
uint64_t LogHash() { return Mix(g->hash, Mix(g->steps, g->now)); }
const std::vector<std::string>& LogLines() { return g->log; }
void KeepLog(bool k) { g_keep_default = k; if (g) g->keep = k; }
Stats& S() { static Stats none; return g ? g->stats : none; }
void StateHash(uint64_t h) { g->states.insert(h); }
const std::set<uint64_t>& States() { return g->states; }
const SchedTrace& Recorded() { return g->rec; }

// ---------------------------------------------------------------- outcome
// debugging aid: where every fiber is blocked (SIM_FIBERS=1)
static void DumpFibers() {
  if (on_dump) on_dump();
  for (auto& kv : g->fibers) {
    Fiber* f = kv.second.get(); if (!f->ctx || f == self || f->st == kDone) continue;
    std::string t = "fiber " + std::to_string(f->id) + " " + f->name + " node " + std::to_string(f->node) + ":"; char* lo = f->stack; char* hi = f->stack + kStack; auto* sp = (uintptr_t*)f->ctx;
    void* pcs[24]; int n = 0; pcs[n++] = (void*)sp[8]; auto* bp = (uintptr_t*)sp[7];
    while (n < 24 && (char*)bp >= lo && (char*)(bp + 2) < hi) { pcs[n++] = (void*)bp[1]; if (bp[0] <= (uintptr_t)bp) break; bp = (uintptr_t*)bp[0]; }
    char** sy = backtrace_symbols(pcs, n); for (int i = 0; i < n; i++) { std::string x = sy[i]; auto a = x.find('('), b = x.find('+', a == std::string::npos ? 0 : a); if (b != std::string::npos && b > a + 1) t += " " + x.substr(a + 1, std::min<size_t>(b - a - 1, 70)); }
    Log(t);
  }
}
void Fail(const std::string& what) {
  if (!g->failed && getenv("SIM_FIBERS")) DumpFibers();
  if (!g->failed) { g->failed = true; g->fail = what; Log("VIOLATION " + what); }
  g->stop = true;
  if (self) while (true) Yield();
}
bool Failed() { return g && g->failed; }
std::string FailText() { return g->fail; }
void Fatal(const std::string& what) {
  if (g && on_fatal) on_fatal(what);
  if (g && self) { Fail("process abort in code under test: " + what); }
  fprintf(stderr, "FATAL outside simulation: %s\n", what.c_str());
  abort();
}
}  // namespace sim

// Instrumented basic blocks (-fsanitize-coverage=trace-pc-guard) are preemption points when cover_p > 0.
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  static uint32_t n;
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) *x = ++n;
}
static uint8_t g_cov_own[1 << 20];
uint8_t* sim_cov_map = g_cov_own;
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  uint32_t id = *guard & ((1 << 20) - 1);
  if (!sim_cov_map[id]) sim_cov_map[id] = 1;
  using namespace sim;
  if (!self || !g || self->nopreempt) return;
  if (g->stop) { Yield(); return; }
  if (++spin_blocks > 3000) { g->now += 50; Yield(); return; }   // a busy loop costs time: the clock and other fibers go on
  if (g->cfg.stall_p > 0 && ChooseChance(g->cfg.stall_p, "stall")) { static const uint64_t len[] = {20, 100, 500, 2000, 20000}; g->stats.n["fault.thread_stalled"]++; SleepUs(1 + g->vals.Below(len[g->vals.Below(5)])); return; }
  if (g->cfg.cover_p <= 0 || g->ready.empty()) return;
  if (ChooseChance(g->cfg.cover_p, "cov")) { g->stats.preempts++; Yield(); }
}
}
