#include "runner.h"
#include <dirent.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <sstream>
extern "C" uint8_t* sim_cov_map;
namespace sim {
void LiveClock(bool on);
static std::map<std::string, WorldFn>& Ws() { static auto* m = new std::map<std::string, WorldFn>; return *m; }
World::World(const char* n, WorldFn f) { Ws()[n] = f; }
Config Ctx::Swarm() {
  Rng r(Mix(seed, 99)); Config c; c.sched_seed = Mix(seed, 2);
  static const double pp[] = {0.02, 0.1, 0.3, 0.5}; c.preempt_p = pp[r.Below(4)];
  static const double cp[] = {0, 0, 0.0005, 0.003, 0.02}; c.cover_p = cp[r.Below(5)];
  uint64_t k = r.Below(10); c.policy = k < 6 ? Policy::kRandom : k < 9 ? Policy::kPct : Policy::kFifo; c.pct_depth = 1 + r.Below(5); static const uint64_t st[] = {1, 1, 2, 5}; c.step_us = st[r.Below(4)];
  static const double sp[] = {0, 0, 0, 0.0001, 0.001, 0.005}; c.stall_p = sp[r.Below(6)];
  return c;
}
static double RealNow() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
struct Shared { uint8_t cov[1 << 20]; uint8_t states[1 << 24]; };
static Shared* shm;
static int out_fd = -1;
static Ctx* cur;
static void WriteAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
static std::string Esc(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); o += b; } else o += c; } return o; }
static std::string Result(bool failed, const std::string& text) {
  std::ostringstream o; o << "R " << (failed ? 1 : 0) << " " << LogHash() << " " << Steps() << " " << NowUs() << " " << S().switches << " " << S().preempts << " " << (cur ? cur->items : 0) << "\n";
  if (failed) o << "F " << Esc(text) << "\n";
  for (auto& x : S().n) o << "N " << x.first << " " << x.second << "\n";
  return o.str();
}
extern bool heap_quarantine; extern int heap_fill; extern char heap_error[]; void HeapCheck();
static char* altstack;
static void OnSignal(int sig, siginfo_t* si, void*) {
  signal(sig, SIG_DFL); heap_quarantine = false;
  std::string t = std::string("process crash in code under test: signal ") + std::to_string(sig) + heap_error;
  void* bt[24]; int n = backtrace(bt, 24); char** sy = backtrace_symbols(bt, n);
  std::string fr; for (int i = 2; sy && i < n && i < 12; i++) { std::string x = sy[i]; auto a = x.find('('), b = x.find('+', a == std::string::npos ? 0 : a); if (a != std::string::npos && b != std::string::npos && b > a + 1) fr += " " + x.substr(a + 1, b - a - 1); }
  WriteAll(out_fd, Result(true, t + " at" + fr)); _exit(0);
}
static std::string RunWorld(Ctx& c) {
  cur = &c;
  altstack = (char*)mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = 1 << 17; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = OnSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  c.rng.Seed(Mix(c.seed, 1)); LiveClock(true);
  heap_quarantine = !getenv("SIM_NOQUAR"); heap_fill = c.seed & 1 ? 0 : 0xdb;
  Ws()[c.world](c);
  HeapCheck(); heap_quarantine = false;
  for (auto h : States()) shm->states[h & ((1 << 24) - 1)] = 1;
  return Result(Failed(), Failed() ? FailText() : "");
}
static std::string Scratch(pid_t p) { const char* b = getenv("SIM_SCRATCH"); return std::string(b ? b : "/tmp") + "/dgsim." + std::to_string(p); }
static pid_t Child(Ctx c, int fd) {
  pid_t p = fork();
  if (p) return p;
  out_fd = fd; std::string d = Scratch(getpid()); std::error_code ec; std::filesystem::create_directories(d, ec); if (chdir(d.c_str())) _exit(9);
  rlimit rl{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl); rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
  if (!getenv("SIM_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
  const char* ls = getenv("SIM_LOGSEED"); bool lg = ls && c.seed == strtoull(ls, 0, 10); if (lg) KeepLog(true);
  std::string r = RunWorld(c); if (lg) { std::ofstream l("/tmp/simlog." + std::to_string(c.seed)); for (auto& x : LogLines()) l << x << "\n"; }
  WriteAll(fd, r); _exit(0);
}
struct Slot { pid_t pid = 0; int fd = -1; std::string buf; Ctx c; double t0 = 0; };
static void Reap(Slot& s, bool kill_it) {
  if (kill_it) kill(s.pid, SIGKILL);
  int st; waitpid(s.pid, &st, 0); close(s.fd); std::error_code ec; std::filesystem::remove_all(Scratch(s.pid), ec);
  if (s.buf.empty() || s.buf[0] != 'R') { std::ostringstream o; if (kill_it) o << "R 2 0 0 0 0 0 0\nF watchdog: run exceeded its real-time limit\n"; else o << "R 3 0 0 0 0 0 0\nF run process ended without a result, status " << st << "\n"; s.buf = o.str(); }
  s.pid = 0;
}
int Main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) { personality(ADDR_NO_RANDOMIZE); setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); }
  setenv("TZ", "UTC", 1);
  std::map<std::string, std::string> a; for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k.substr(0, 2) == "--") { auto e = k.find('='); if (e == std::string::npos) a[k.substr(2)] = "1"; else a[k.substr(2, e - 2)] = k.substr(e + 1); } }
  if (a.count("worlds-list")) { for (auto& w : Ws()) puts(w.first.c_str()); return 0; }
  shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sim_cov_map = shm->cov;
  Ctx base; base.prop = a["prop"]; base.thorough = a.count("thorough"); for (auto& x : a) if (x.first.substr(0, 2) == "p-") base.params[x.first.substr(2)] = x.second;
  double wd = a.count("watchdog") ? atof(a["watchdog"].c_str()) : 60;
  if (a.count("seed")) {  // one run, in detail
    base.world = a["world"]; base.seed = strtoull(a["seed"].c_str(), 0, 10); base.list = true;
    static SchedTrace forced;
    if (a.count("disabled")) { std::ifstream f(a["disabled"]); uint64_t x; while (f >> x) base.disabled.insert(x); }
    if (a.count("dev")) { std::ifstream f(a["dev"]); uint64_t x; uint32_t y; while (f >> x >> y) forced.dev.push_back({x, y}); ForceSchedule(&forced); }
    if (!Ws().count(base.world)) { fprintf(stderr, "no world %s\n", base.world.c_str()); return 4; }
    int fd[2]; if (pipe(fd)) return 4;
    pid_t p = fork();
    if (!p) {
      close(fd[0]); out_fd = fd[1]; std::string d = Scratch(getpid()); std::error_code ec; std::filesystem::create_directories(d, ec); if (chdir(d.c_str())) _exit(9);
      std::string outd = a.count("out") ? a["out"] : "";
      if (!getenv("SIM_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
      base.params["keep"] = "1"; KeepLog(true);
      if (const char* hp = getenv("SIM_HEAP")) { Rng hr(atoi(hp)); for (int i = 0; i < 20000; i++) { void* q = malloc(hr.Below(2000) + 1); if (hr.Chance(0.5)) free(q); } }   // a different heap layout: the run must not depend on it
      std::string r = RunWorld(base);
      if (!outd.empty()) {
        std::ofstream l(outd + ".log"); for (auto& x : LogLines()) l << x << "\n";
        std::ofstream v(outd + ".dev"); for (auto& x : Recorded().dev) v << x.first << " " << x.second << "\n";
        std::ofstream i(outd + ".items"); for (auto& x : base.item_text) i << Esc(x) << "\n";
      }
      WriteAll(fd[1], r); _exit(0);
    }
    close(fd[1]); Slot s; s.pid = p; s.fd = fd[0]; double t0 = RealNow(); bool killed = false;
    while (true) { pollfd pf{s.fd, POLLIN, 0}; int n = poll(&pf, 1, 200); if (n > 0) { char b[65536]; ssize_t k = read(s.fd, b, sizeof b); if (k <= 0) break; s.buf.append(b, k); } else if (RealNow() - t0 > wd) { killed = true; break; } }
    Reap(s, killed); fputs(s.buf.c_str(), stdout); return 0;
  }
  // many runs
  std::vector<std::string> ws; { std::stringstream ss(a["worlds"]); std::string x; while (std::getline(ss, x, ',')) ws.push_back(x); }
  for (auto& w : ws) if (!Ws().count(w)) { fprintf(stderr, "no world %s\n", w.c_str()); return 4; }
  uint64_t from = strtoull(a["from"].c_str(), 0, 10), count = a.count("count") ? strtoull(a["count"].c_str(), 0, 10) : ~0ull; double secs = a.count("secs") ? atof(a["secs"].c_str()) : 30; int jobs = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8; int maxfail = a.count("maxfail") ? atoi(a["maxfail"].c_str()) : 5;
  std::vector<Slot> sl(jobs); uint64_t started = 0, done = 0, fails = 0; double t0 = RealNow(); bool stop = false;
  while (true) {
    double now = RealNow(); if (now - t0 > secs || started >= count || (int)fails >= maxfail) stop = true;
    bool busy = false;
    for (auto& s : sl) {
      if (!s.pid && !stop) {
        int fd[2]; if (pipe(fd)) return 4; Ctx c = base; c.seed = from + started; c.world = ws[(started) % ws.size()]; started++;
        fcntl(fd[0], F_SETFD, FD_CLOEXEC); s.c = c; s.buf.clear(); s.t0 = now; s.fd = fd[0]; s.pid = Child(c, fd[1]); close(fd[1]);
        if (started >= count) stop = true;
      }
      if (s.pid) busy = true;
    }
    if (!busy) break;
    std::vector<pollfd> pf; std::vector<int> ix; for (int i = 0; i < jobs; i++) if (sl[i].pid) { pf.push_back({sl[i].fd, POLLIN, 0}); ix.push_back(i); }
    poll(pf.data(), pf.size(), 200); now = RealNow();
    for (size_t k = 0; k < pf.size(); k++) {
      Slot& s = sl[ix[k]]; bool end = false, killed = false;
      if (pf[k].revents) { char b[65536]; ssize_t n = read(s.fd, b, sizeof b); if (n <= 0) end = true; else s.buf.append(b, n); }
      if (!end && now - s.t0 > wd) { end = killed = true; }
      if (end) {
        Reap(s, killed); done++; std::istringstream is(s.buf); std::string l; printf("RUN %llu %s\n", (unsigned long long)s.c.seed, s.c.world.c_str());
        bool failed = s.buf[2] != '0'; if (failed) fails++; while (std::getline(is, l)) printf("%s\n", l.c_str());
        fflush(stdout);
      }
    }
  }
  uint64_t cov = 0, st = 0; for (auto x : shm->cov) cov += x; for (auto x : shm->states) st += x;
  printf("END runs %llu fails %llu wall %.3f blocks %llu states %llu\n", (unsigned long long)done, (unsigned long long)fails, RealNow() - t0, (unsigned long long)cov, (unsigned long long)st);
  return 0;
}
}  // namespace sim
int main(int argc, char** argv) { return sim::Main(argc, argv); }
