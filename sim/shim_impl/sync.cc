// bthread API and libc threading/clock interposition on top of the simulator's fibers.
#include <cerrno>
#include <cstring>
#include <ctime>
#include <pthread.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include "bthread/bthread.h"
#include "bthread/butex.h"
#include "bthread/execution_queue.h"
#include "bthread/unstable.h"
#include "sim.h"
#include "sim_clock.h"

using sim::WaitList;
extern "C" {
int64_t sim_clock_wall_us() { return sim::WallUs(); }
int64_t sim_clock_mono_us() { return sim::NowUs(); }
uint64_t sim_rand64() { return sim::SchedRng().Next(); }
void sim_point() { sim::Point(); }
}
static uint64_t Me() { return sim::InSim() ? sim::SelfId() + 1 : 1; }
static WaitList& W(void*& p) { if (!p) p = new WaitList; return *(WaitList*)p; }
static uint64_t DeadlineFromWall(const timespec* t) {
  int64_t d = t->tv_sec * 1000000LL + t->tv_nsec / 1000 - sim::WallUs();
  return sim::NowUs() + (d > 0 ? d : 0);
}
static uint64_t DeadlineFromMono(const timespec* t) { return t->tv_sec * 1000000LL + t->tv_nsec / 1000; }

// ------------------------------------------------------------------ generic lock words
struct LockRef { uint64_t* owner; void** waiters; };
static int LockIt(LockRef m, uint64_t deadline) {
  sim::Point();
  while (*m.owner) {
    if (!sim::InSim()) { if (*m.owner == Me()) sim::Fatal("self deadlock on a mutex outside the simulation"); break; }
    sim::Count("sync.mutex_contended");
    if (deadline) { if (!sim::BlockUntil(W(*m.waiters), deadline) && *m.owner) return ETIMEDOUT; }
    else sim::Block(W(*m.waiters));
  }
  *m.owner = Me();
  return 0;
}
static int UnlockIt(LockRef m) {
  *m.owner = 0;
  if (*m.waiters && !((WaitList*)*m.waiters)->empty()) sim::Wake(*(WaitList*)*m.waiters, false);
  sim::Point();
  return 0;
}
extern "C" {
static const uint64_t kDead = 0xdeaddeaddeaddeadull;
int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { m->owner = 0; m->waiters = nullptr; m->csite = nullptr; return 0; }
int bthread_mutex_destroy(bthread_mutex_t* m) { if (m->waiters) { if (((WaitList*)m->waiters)->empty()) delete (WaitList*)m->waiters; m->waiters = nullptr; } m->owner = kDead; return 0; }
int bthread_mutex_trylock(bthread_mutex_t* m) { sim::Point(); if (m->owner) return EBUSY; m->owner = Me(); return 0; }
int bthread_mutex_lock(bthread_mutex_t* m) { if (m->owner == kDead) sim::Fatal("lock of a destroyed mutex"); return LockIt({&m->owner, &m->waiters}, 0); }
int bthread_mutex_timedlock(bthread_mutex_t* m, const timespec* t) { return LockIt({&m->owner, &m->waiters}, DeadlineFromWall(t)); }
int bthread_mutex_unlock(bthread_mutex_t* m) { return UnlockIt({&m->owner, &m->waiters}); }

int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { c->m = nullptr; c->waiters = nullptr; return 0; }
int bthread_cond_destroy(bthread_cond_t* c) { if (c->waiters && ((WaitList*)c->waiters)->empty()) delete (WaitList*)c->waiters; c->waiters = nullptr; *(uint64_t*)&c->m = kDead; return 0; }
int bthread_cond_signal(bthread_cond_t* c) { if (*(uint64_t*)&c->m == kDead) sim::Fatal("signal on a destroyed condition variable"); if (c->waiters) sim::Wake(*(WaitList*)c->waiters, false); sim::Point(); return 0; }
int bthread_cond_broadcast(bthread_cond_t* c) { if (*(uint64_t*)&c->m == kDead) sim::Fatal("broadcast on a destroyed condition variable"); if (c->waiters) sim::Wake(*(WaitList*)c->waiters, true); sim::Point(); return 0; }
static int CondWait(void*& w, LockRef m, uint64_t deadline) {
  if (!sim::InSim()) sim::Fatal("condition wait outside the simulation");
  // The two halves of the real primitive: enqueue, then release the mutex, then sleep.
  *m.owner = 0;
  if (*m.waiters && !((WaitList*)*m.waiters)->empty()) sim::Wake(*(WaitList*)*m.waiters, false);
  int rc = 0;
  if (deadline) { if (!sim::BlockUntil(W(w), deadline)) rc = ETIMEDOUT; } else sim::Block(W(w));
  LockIt(m, 0);
  return rc;
}
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) { return CondWait(c->waiters, {&m->owner, &m->waiters}, 0); }
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* t) { return CondWait(c->waiters, {&m->owner, &m->waiters}, DeadlineFromWall(t)); }

int bthread_rwlock_init(bthread_rwlock_t* l, const bthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int bthread_rwlock_destroy(bthread_rwlock_t*) { return 0; }
static int RdLock(uint64_t* writer, int64_t* readers, void** w, bool tr) { sim::Point(); while (*writer) { if (tr) return EBUSY; if (!sim::InSim()) break; sim::Block(W(*w)); } ++*readers; return 0; }
static int WrLock(uint64_t* writer, int64_t* readers, void** w, bool tr) { sim::Point(); while (*writer || *readers) { if (tr) return EBUSY; if (!sim::InSim()) break; sim::Block(W(*w)); } *writer = Me(); return 0; }
static int RwUnlock(uint64_t* writer, int64_t* readers, void** w) { if (*writer) *writer = 0; else --*readers; if (*w) sim::Wake(*(WaitList*)*w, true); sim::Point(); return 0; }
int bthread_rwlock_rdlock(bthread_rwlock_t* l) { return RdLock(&l->writer, &l->readers, &l->waiters, false); }
int bthread_rwlock_tryrdlock(bthread_rwlock_t* l) { return RdLock(&l->writer, &l->readers, &l->waiters, true); }
int bthread_rwlock_wrlock(bthread_rwlock_t* l) { return WrLock(&l->writer, &l->readers, &l->waiters, false); }
int bthread_rwlock_trywrlock(bthread_rwlock_t* l) { return WrLock(&l->writer, &l->readers, &l->waiters, true); }
int bthread_rwlock_unlock(bthread_rwlock_t* l) { return RwUnlock(&l->writer, &l->readers, &l->waiters); }

static int StartFiber(bthread_t* tid, void* (*fn)(void*), void* arg) {
  uint64_t id = sim::Spawn([fn, arg] { fn(arg); }, "bthread", sim::Node());
  if (tid) *tid = id + 1;
  sim::Point();
  return 0;
}
int bthread_start_urgent(bthread_t* tid, const bthread_attr_t*, void* (*fn)(void*), void* arg) { return StartFiber(tid, fn, arg); }
int bthread_start_background(bthread_t* tid, const bthread_attr_t*, void* (*fn)(void*), void* arg) { return StartFiber(tid, fn, arg); }
int bthread_join(bthread_t t, void** r) { if (r) *r = nullptr; if (!t) return EINVAL; sim::Join(t - 1); return 0; }
static std::set<bthread_t>& Stopped() { static auto* s = new std::set<bthread_t>; return *s; }
int bthread_stop(bthread_t t) { Stopped().insert(t); return 0; }
int bthread_stopped(bthread_t t) { return Stopped().count(t); }
int bthread_interrupt(bthread_t) { return 0; }
bthread_t bthread_self() { return Me(); }
int bthread_equal(bthread_t a, bthread_t b) { return a == b; }
void bthread_exit(void*) { sim::Fatal("bthread_exit"); }
int bthread_yield() { if (sim::InSim()) sim::Yield(); return 0; }
int bthread_usleep(uint64_t us) { if (sim::InSim()) sim::SleepUs(us); return 0; }
void bthread_flush() {}
static int conc = 9;
int bthread_getconcurrency() { return conc; }
int bthread_setconcurrency(int n) { conc = n; return 0; }
int bthread_getconcurrency_by_tag(bthread_tag_t) { return conc; }
int bthread_setconcurrency_by_tag(int n, bthread_tag_t) { conc = n; return 0; }
int bthread_attr_init(bthread_attr_t* a) { *a = BTHREAD_ATTR_NORMAL; return 0; }
int bthread_attr_destroy(bthread_attr_t*) { return 0; }
int bthread_key_create(bthread_key_t* k, void (*)(void*)) { static uint32_t n; k->index = ++n; k->version = 1; return 0; }
int bthread_key_delete(bthread_key_t) { return 0; }
static std::map<std::pair<uint64_t, uint32_t>, void*>& Keys() { static auto* s = new std::map<std::pair<uint64_t, uint32_t>, void*>; return *s; }
int bthread_setspecific(bthread_key_t k, void* d) { Keys()[{Me(), k.index}] = d; return 0; }
void* bthread_getspecific(bthread_key_t k) { auto i = Keys().find({Me(), k.index}); return i == Keys().end() ? nullptr : i->second; }

static std::map<uint64_t, uint64_t>& Timers() { static auto* s = new std::map<uint64_t, uint64_t>; return *s; }
int bthread_timer_add(bthread_timer_t* id, timespec t, void (*fn)(void*), void* arg) {
  static uint64_t next = 0;
  uint64_t my = ++next; int node = sim::Node();
  Timers()[my] = sim::AtCancelable(DeadlineFromWall(&t), [=] {
    Timers().erase(my);
    sim::Spawn([=] { fn(arg); }, "timer", node);
  });
  *id = my;
  return 0;
}
int bthread_timer_del(bthread_timer_t id) {
  auto i = Timers().find(id);
  if (i == Timers().end()) return 1;
  bool ok = sim::Cancel(i->second); Timers().erase(i); return ok ? 0 : 1;
}
}  // extern C

namespace bthread {
int FLAGS_bthread_concurrency_unused;
struct Butex { int v = 0; WaitList w; };
void* butex_create() { return new Butex; }
void butex_destroy(void*) {}
int butex_wake(void* b, bool) { auto* x = (Butex*)b; int n = !x->w.empty(); if (n) sim::Wake(x->w, false); sim::Point(); return n; }
int butex_wake_all(void* b, bool) { auto* x = (Butex*)b; int n = x->w.size(); if (n) sim::Wake(x->w, true); sim::Point(); return n; }
int butex_wait(void* b, int expected, const timespec* t, bool) {
  auto* x = (Butex*)b; sim::Point();
  if (x->v != expected) { errno = EWOULDBLOCK; return -1; }
  if (t) { if (!sim::BlockUntil(x->w, DeadlineFromWall(t))) { errno = ETIMEDOUT; return -1; } } else sim::Block(x->w);
  return 0;
}
namespace eq {
static std::map<uint64_t, std::shared_ptr<Base>>& Qs() { static auto* s = new std::map<uint64_t, std::shared_ptr<Base>>; return *s; }
uint64_t Register(std::shared_ptr<Base> b) { static uint64_t n = 0; Qs()[++n] = b; return n; }
std::shared_ptr<Base> Find(uint64_t id) { auto i = Qs().find(id); return i == Qs().end() ? nullptr : i->second; }
void Kick(std::shared_ptr<Base> b) {
  if (!b->running) { b->running = true; sim::Spawn([b] { b->drain(); b->running = false; if (b->stopping) { b->dead = true; if (b->joiners) sim::Wake(*(WaitList*)b->joiners, true); } }, "execution_queue", sim::Node()); }
  sim::Point();
}
int Stop(uint64_t id) { auto b = Find(id); if (!b) return EINVAL; if (!b->stopping) { b->stopping = true; Kick(b); } return 0; }
int Join(uint64_t id) { auto b = Find(id); if (!b) return EINVAL; while (!b->dead) sim::Block(W(b->joiners)); Qs().erase(id); return 0; }
}
}

// ------------------------------------------------------------------ pthread / libc interposition
// Overlaid on the libc objects; all-zero is the unlocked state, like the static initialisers.
struct PMutex { uint64_t owner; uint32_t count; uint32_t pad; int kind; int pad2; void* waiters; };
static_assert(sizeof(PMutex) <= sizeof(pthread_mutex_t), "");
struct PCond { void* waiters; uint64_t mono; };
struct PRw { uint64_t writer; int64_t readers; void* waiters; };
#define PM(m) ((PMutex*)(m))
static bool g_live = false;   // interposed waiting is active (inside a simulation)
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); PM(m)->kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  auto* p = PM(m);
  if ((p->kind & 3) == PTHREAD_MUTEX_RECURSIVE && p->owner == Me()) { p->count++; return 0; }
  if (!sim::InSim()) { p->owner = 1; p->count = 1; return 0; }
  int r = LockIt({&p->owner, &p->waiters}, 0); p->count = 1; return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { auto* p = PM(m); if ((p->kind & 3) == PTHREAD_MUTEX_RECURSIVE && p->owner == Me()) { p->count++; return 0; } sim::Point(); if (p->owner && sim::InSim()) return EBUSY; p->owner = Me(); p->count = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { auto* p = PM(m); if ((p->kind & 3) == PTHREAD_MUTEX_RECURSIVE && --p->count > 0) return 0; return UnlockIt({&p->owner, &p->waiters}); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { auto* p = PM(m); return LockIt({&p->owner, &p->waiters}, DeadlineFromWall(t)); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_signal(pthread_cond_t* c) { auto* p = (PCond*)c; if (p->waiters) sim::Wake(*(WaitList*)p->waiters, false); sim::Point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { auto* p = (PCond*)c; if (p->waiters) sim::Wake(*(WaitList*)p->waiters, true); sim::Point(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return CondWait(((PCond*)c)->waiters, {&PM(m)->owner, &PM(m)->waiters}, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return CondWait(((PCond*)c)->waiters, {&PM(m)->owner, &PM(m)->waiters}, DeadlineFromWall(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return CondWait(((PCond*)c)->waiters, {&PM(m)->owner, &PM(m)->waiters}, k == CLOCK_REALTIME ? DeadlineFromWall(t) : DeadlineFromMono(t)); }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
#define RW(l) &((PRw*)(l))->writer, &((PRw*)(l))->readers, &((PRw*)(l))->waiters
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return RdLock(RW(l), false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return RdLock(RW(l), true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return WrLock(RW(l), false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return WrLock(RW(l), true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { return RwUnlock(RW(l)); }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  // 0 new, 1 running, 2 done
  while (*(volatile int*)o == 1 && sim::InSim()) sim::Yield();
  if (*o == 2) return 0;
  *o = 1; fn(); *o = 2; return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { if (!sim::InSim()) sim::Fatal("thread started outside the simulation"); bthread_t b; StartFiber(&b, fn, arg); *t = b; return 0; }
int pthread_join(pthread_t t, void** r) { if (r) *r = nullptr; sim::Join((uint64_t)t - 1); return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return Me(); }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t* c) { memset(c, 0, n); return 0; }
static int Real(clockid_t c, timespec* t) { return syscall(SYS_clock_gettime, c, t); }
int clock_gettime(clockid_t c, timespec* t) {
  if (!g_live && !sim::InSim()) return Real(c, t);
  int64_t us = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim::WallUs() : (int64_t)sim::NowUs();
  t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0;
}
int gettimeofday(timeval* __restrict t, void* __restrict) { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* t) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int nanosleep(const timespec* a, timespec*) { if (sim::InSim()) sim::SleepUs(a->tv_sec * 1000000ULL + a->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec*) {
  if (!sim::InSim()) return 0;
  if (flags & TIMER_ABSTIME) { uint64_t d = c == CLOCK_REALTIME ? DeadlineFromWall(a) : DeadlineFromMono(a); if (d > sim::NowUs()) sim::SleepUs(d - sim::NowUs()); }
  else sim::SleepUs(a->tv_sec * 1000000ULL + a->tv_nsec / 1000);
  return 0;
}
int usleep(useconds_t us) { if (sim::InSim()) sim::SleepUs(us); return 0; }
unsigned sleep(unsigned s) { if (sim::InSim()) sim::SleepUs(s * 1000000ULL); return 0; }
int sched_yield() { if (sim::InSim()) sim::Yield(); return 0; }
// function-local statics: a fiber may be switched out inside the initialiser
int __cxa_guard_acquire(uint64_t* g) {
  auto* b = (volatile unsigned char*)g;
  if (b[0]) return 0;
  while (b[1] && sim::InSim()) sim::Yield();
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { auto* b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { auto* b = (volatile unsigned char*)g; b[1] = 0; }
}
namespace sim { void LiveClock(bool on) { g_live = on; } }
// std::random_device draws from the simulator
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return (unsigned)sim_rand64(); }
