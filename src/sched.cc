// Deterministic thread scheduler: real threads, one baton; every decision comes from the scenario's PRNG or
// from its recorded schedule.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <map>

namespace sim {
void syncReset();
void syncReleaseStore(void* a);

namespace {
enum State { kFree, kRun, kMutex, kCond, kJoin, kSleep, kRw, kSem, kDone };
const char* stateName(State s) {
  static const char* n[] = {"free", "runnable", "mutex", "cond", "join", "sleep", "rwlock", "sem", "finished"};
  return n[s];
}
struct Thr {
  State st;
  u32 word;          // futex: 1 = may run
  const void* obj;   // what it waits for
  int joinTid;
  i64 deadline;      // virtual ns, -1 none
  bool timedOut;
  bool signaled;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t real;
  bool detached, joined;
  u32 prio;
  u32 vc[kMaxThreads];
};
Thr g_t[kMaxThreads];
int g_n = 0;
int g_cur = 0;
SchedCfg g_cfg;
Rng g_rng(1);
bool g_replay = false;
std::vector<std::pair<u64, u32>> g_in;
size_t g_inPos = 0;
std::vector<std::pair<u64, u32>> g_rec;
u64 g_decisions = 0, g_points = 0, g_switches = 0, g_hash = 0xcbf29ce484222325ull;
u64 g_sinceSwitch = 0;
u64 g_pctAt[16];
int g_pctN = 0;
u32 g_lowPrio = 1000;
int g_pendingReap = -1;
u64 g_spurious = 0;
bool g_on = false;

struct Mx { int owner; int count; u32 vc[kMaxThreads]; };
struct Rw { int writer; int readers; u32 vc[kMaxThreads]; u32 rvc[kMaxThreads]; };
struct Sem { int v; u32 vc[kMaxThreads]; };
std::map<const void*, Mx>* g_mx;
std::map<const void*, Rw>* g_rw;
std::map<const void*, Sem>* g_sem;
std::map<const void*, int>* g_once;

template <class F> F realFn(const char* n) {
  static_assert(sizeof(F) == sizeof(void*), "");
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "sim: no %s\n", n); _exit(98); }
  return (F)p;
}
#define REAL(name) ([]() { static auto f = realFn<decltype(&::name)>(#name); return f; }())

void vjoin(u32* d, const u32* s) { for (int i = 0; i < kMaxThreads; ++i) if (s[i] > d[i]) d[i] = s[i]; }
void acquireFrom(const u32* s) { vjoin(g_t[t_tid].vc, s); }
void releaseTo(u32* d) { vjoin(d, g_t[t_tid].vc); g_t[t_tid].vc[t_tid]++; }

u32 choose(u32 n, u32 dflt, u32 randomChoice) {
  // returns a value in [0,n); the recorded schedule stores differences from the default
  u64 idx = g_decisions++;
  u32 c;
  if (g_replay) {
    while (g_inPos < g_in.size() && g_in[g_inPos].first < idx) ++g_inPos;
    if (g_inPos < g_in.size() && g_in[g_inPos].first == idx) {
      c = g_in[g_inPos].second % n;
      ++g_inPos;
    } else {
      c = dflt;
    }
  } else {
    c = randomChoice;
  }
  if (c != dflt) g_rec.push_back(std::make_pair(idx, c));
  return c;
}

[[noreturn]] void deadlock() {
  finishWith("violation", "deadlock", "no thread can run: " + schedDescribe());
}

void wakeTimers() {
  // nothing runnable: advance virtual time to the earliest deadline
  i64 best = -1;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].st != kDone && g_t[i].st != kRun && g_t[i].deadline >= 0 && (best < 0 || g_t[i].deadline < best)) best = g_t[i].deadline;
  if (best < 0) deadlock();
  if (best > clockNow()) clockAdvance(best - clockNow());
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].st != kDone && g_t[i].st != kRun && g_t[i].deadline >= 0 && g_t[i].deadline <= best) {
      g_t[i].timedOut = true;
      g_t[i].deadline = -1;
      g_t[i].st = kRun;
    }
}

enum PointKind { kSync, kAccess, kYield, kBlock, kExit, kSpin };

void reap() {
  if (g_pendingReap >= 0) {
    int p = g_pendingReap;
    g_pendingReap = -1;
    REAL(pthread_join)(g_t[p].real, nullptr);
  }
}

void switchTo(int next) {
  int me = t_tid;
  if (next == me) return;
  ++g_switches;
  g_sinceSwitch = 0;
  g_cur = next;
  g_hash = (g_hash ^ (u64)(next + 1)) * 0x100000001b3ull;
  g_hash = (g_hash ^ g_decisions) * 0x100000001b3ull;
  __atomic_store_n(&g_t[next].word, 1u, __ATOMIC_SEQ_CST);
  rawFutexWake(&g_t[next].word);
}
void waitTurn(int me) {
  while (!__atomic_load_n(&g_t[me].word, __ATOMIC_SEQ_CST)) rawFutexWait(&g_t[me].word, 0);
  __atomic_store_n(&g_t[me].word, 0u, __ATOMIC_SEQ_CST);
  reap();
}

int pickNext(PointKind kind) {
  int me = t_tid;
  if (++g_points > g_cfg.pointBudget)
    finishWith("violation", "no-progress", strf("%llu scheduling points without completing: ", (unsigned long long)g_points) + schedDescribe());
  // spurious wake-ups of condition variable waiters (a fault the runtime may always inject)
  if (g_cfg.spuriousPpm && kind != kAccess) {
    for (int i = 0; i < g_n; ++i) {
      if (g_t[i].st != kCond || g_t[i].signaled) continue;
      u32 c = choose(2, 0, g_rng.below(1000000) < g_cfg.spuriousPpm ? 1 : 0);
      if (c) {
        g_t[i].st = kRun;
        g_t[i].deadline = -1;
        ++g_spurious;
        count("fault.spurious_wakeup");
      }
    }
  }
  int run[kMaxThreads];
  for (;;) {
    int n = 0;
    for (int k = 0; k < g_n; ++k) {  // order: me first, then round robin after me
      int i = (me + k) % g_n;
      if (g_t[i].st == kRun) run[n++] = i;
    }
    if (n == 0) { wakeTimers(); continue; }
    if (n == 1) return run[0];
    bool meRun = run[0] == me;
    u32 dflt = 0;
    if (meRun && (kind == kYield || kind == kSpin)) dflt = 1;
    if (meRun && ++g_sinceSwitch > 20000) { dflt = 1; g_sinceSwitch = 0; choose(n, dflt, dflt); return run[1]; }
    u32 r = dflt;
    if (!g_replay) {
      switch (g_cfg.strategy) {
        case 1: {  // PCT
          for (int i = 0; i < g_pctN; ++i)
            if (g_pctAt[i] == g_decisions) g_t[me].prio = --g_lowPrio;
          if (kind == kYield || kind == kSpin) g_t[me].prio = --g_lowPrio;
          u32 b = 0;
          for (int i = 1; i < n; ++i)
            if (g_t[run[i]].prio > g_t[run[b]].prio) b = i;
          r = b;
          break;
        }
        case 2: {  // mostly sequential
          u64 p = kind == kAccess ? g_cfg.accessPpm / 20 : 30000;
          if (!meRun) r = (u32)g_rng.below(n);
          else if (kind == kYield || kind == kSpin) r = 1 + (u32)g_rng.below(n - 1);
          else if (g_rng.below(1000000) < p) r = 1 + (u32)g_rng.below(n - 1);
          else r = 0;
          break;
        }
        case 3: r = dflt; break;
        default: {
          if (!meRun) r = (u32)g_rng.below(n);
          else if (kind == kAccess) r = g_rng.below(1000000) < g_cfg.accessPpm ? 1 + (u32)g_rng.below(n - 1) : 0;
          else if (kind == kYield || kind == kSpin) r = 1 + (u32)g_rng.below(n - 1);
          else r = g_rng.below(100) < g_cfg.syncNum ? (u32)g_rng.below(n) : 0;
        }
      }
    }
    return run[choose(n, dflt, r)];
  }
}

void point(PointKind kind) {
  int me = t_tid;
  int next = pickNext(kind);
  if (next != me) {
    switchTo(next);
    waitTurn(me);
  }
}
// the current thread is not runnable any more (its state says why)
void blockHere() {
  int me = t_tid;
  int next = pickNext(kBlock);
  if (next == me) return;  // woken by a timer
  switchTo(next);
  waitTurn(me);
}

void* trampoline(void* p) {
  int me = (int)(intptr_t)p;
  ++t_host;
  t_tid = me;
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = (void*)(kStackBase + (uptr)me * kStackSize);
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  waitTurn(me);
  --t_host;
  void* r = g_t[me].fn(g_t[me].arg);
  ++t_host;
  g_t[me].ret = r;
  g_t[me].st = kDone;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].st == kJoin && g_t[i].joinTid == me) g_t[i].st = kRun;
  int next = pickNext(kExit);
  g_pendingReap = me;
  switchTo(next);
  return r;  // --t_host not needed: the thread ends; its destructors run before the next thread goes on
}
bool active() { return g_on && !t_host; }

void mxLock(const void* m, int kind) {
  Mx& x = (*g_mx)[m];
  int me = t_tid;
  if (x.count && x.owner == me && kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return; }
  while (x.count) {
    g_t[me].st = kMutex;
    g_t[me].obj = m;
    blockHere();
  }
  x.owner = me;
  x.count = 1;
  acquireFrom(x.vc);
}
void mxUnlock(const void* m) {
  Mx& x = (*g_mx)[m];
  if (x.count == 0 || x.owner != t_tid)
    finishWith("violation", "mutex-misuse", "a thread released a mutex which it does not hold");
  if (--x.count) return;
  releaseTo(x.vc);
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].st == kMutex && g_t[i].obj == m) g_t[i].st = kRun;
}
int condWait(const void* c, pthread_mutex_t* m, i64 deadline) {
  int me = t_tid;
  g_t[me].st = kCond;
  g_t[me].obj = c;
  g_t[me].deadline = deadline;
  g_t[me].timedOut = false;
  g_t[me].signaled = false;
  mxUnlock(m);
  event("cond.wait", me);
  blockHere();
  bool to = g_t[me].timedOut && !g_t[me].signaled;
  g_t[me].timedOut = false;
  g_t[me].deadline = -1;
  mxLock(m, 0);
  return to ? ETIMEDOUT : 0;
}
int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
}  // namespace

int g_schedActive = 0;
u32* threadVC(int tid) { return g_t[tid].vc; }
u64 schedPoints() { return g_points; }
u64 schedSwitches() { return g_switches; }
u64 schedHash() { return g_hash; }
const std::vector<std::pair<u64, u32>>& schedRecorded() { return g_rec; }
int curThread() { return t_tid; }
int liveThreads() {
  int n = 0;
  for (int i = 0; i < g_n; ++i) n += g_t[i].st != kDone;
  return n;
}
std::string schedDescribe() {
  std::string r;
  for (int i = 0; i < g_n; ++i) r += strf("%sthread %d %s", i ? ", " : "", i, stateName(g_t[i].st));
  return r;
}
u32 decide(u32 n, const char*) {
  InRt in;
  if (n <= 1) return 0;
  return choose(n, 0, (u32)g_rng.below(n));
}
static int g_afterAccess = 0;
void schedAccessPoint() {
  InRt in;
  point(kAccess);
}
void schedSyncPoint() {
  InRt in;
  point(kSync);
}
void yieldPoint() {
  if (!active()) return;
  InRt in;
  point(kSync);
}
void spinPoint() {
  if (!active()) return;
  InRt in;
  point(kSpin);
}

void schedStart(const SchedCfg& c, const Scenario& s) {
  InRt in;
  g_cfg = c;
  g_rng = Rng(s.seed ^ 0x5c4ed);
  g_replay = s.replaySched;
  g_in = s.sched;
  g_inPos = 0;
  if (!g_mx) { g_mx = new std::map<const void*, Mx>; g_rw = new std::map<const void*, Rw>; g_sem = new std::map<const void*, Sem>; g_once = new std::map<const void*, int>; }
  memset(g_t, 0, sizeof g_t);
  g_n = 1;
  g_cur = 0;
  t_tid = 0;
  g_t[0].st = kRun;
  g_t[0].vc[0] = 1;
  g_t[0].prio = 1000 + (u32)g_rng.below(1000);
  g_t[0].deadline = -1;
  g_pctN = 0;
  for (int i = 0; i < c.pctDepth && i < 16; ++i) g_pctAt[g_pctN++] = g_rng.below(c.pctLen);
  syncReset();
  raceReset();
  g_race = c.race;
  g_on = true;
  g_schedActive = 1;
  stepBudget(c.stepBudget);
}
void schedStop() {
  InRt in;
  for (int i = 1; i < g_n; ++i)
    if (g_t[i].st != kDone) finishWith("violation", "leaked-thread", "a worker thread is still alive: " + schedDescribe());
  reap();
  g_race = 0;
  g_on = false;
  g_schedActive = 0;
}
}  // namespace sim
using namespace sim;

static int g_createFailAt = -1, g_createCount = 0;
namespace sim {
void schedFailCreate(int nth) { g_createFailAt = nth; g_createCount = 0; }
}

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!active()) {
    if (g_inChild) finishWith("error", "harness", "thread created outside the scheduler");
    return REAL(pthread_create)(th, attr, fn, arg);
  }
  InRt in;
  if (g_createFailAt >= 0 && g_createCount++ == g_createFailAt) {
    count("fault.thread_create");
    event("thread.create.fail", 0);
    return EAGAIN;
  }
  if (g_n >= kMaxThreads) finishWith("error", "harness", "too many simulated threads");
  int id = g_n;
  Thr& t = g_t[id];
  memset(&t, 0, sizeof t);
  t.fn = fn;
  t.arg = arg;
  t.deadline = -1;
  t.prio = 1000 + (u32)g_rng.below(1000);
  memcpy(t.vc, g_t[t_tid].vc, sizeof t.vc);
  g_t[t_tid].vc[t_tid]++;
  t.vc[id] = 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  uptr st = kStackBase + (uptr)id * kStackSize;
  void* m = ::mmap((void*)st, kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (m == MAP_FAILED) finishWith("error", "harness", "no stack");
  pthread_attr_setstack(&at, (void*)(st + 131072), kStackSize - 131072);
  g_n++;
  t.st = kRun;
  int rc = REAL(pthread_create)(&t.real, &at, trampoline, (void*)(intptr_t)id);
  pthread_attr_destroy(&at);
  if (rc) finishWith("error", "harness", strf("pthread_create: %d", rc));
  *th = t.real;
  event("thread.create", id);
  point(kSync);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!active()) return REAL(pthread_join)(th, ret);
  InRt in;
  int id = -1;
  for (int i = 1; i < g_n; ++i) if (g_t[i].real == th && !g_t[i].joined) id = i;
  if (id < 0) return ESRCH;
  point(kSync);
  while (g_t[id].st != kDone) {
    g_t[t_tid].st = kJoin;
    g_t[t_tid].joinTid = id;
    blockHere();
  }
  g_t[id].joined = true;
  acquireFrom(g_t[id].vc);
  if (ret) *ret = g_t[id].ret;
  event("thread.join", id);
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!active()) return REAL(pthread_detach)(th);
  for (int i = 1; i < g_n; ++i) if (g_t[i].real == th) g_t[i].detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_mutex_lock)(m);
  InRt in;
  point(kSync);
  mxLock(m, mkind(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_mutex_trylock)(m);
  InRt in;
  point(kSync);
  Mx& x = (*g_mx)[m];
  if (x.count && !(x.owner == t_tid && mkind(m) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
  mxLock(m, mkind(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_mutex_unlock)(m);
  InRt in;
  mxUnlock(m);
  point(kSync);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!active()) return 0;
  InRt in;
  g_mx->erase(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) {
    if (g_inChild) finishWith("violation", "deadlock", "blocking wait with no other thread");
    return REAL(pthread_cond_wait)(c, m);
  }
  InRt in;
  point(kSync);
  return condWait(c, m, -1);
}
static i64 absToVirtual(clockid_t id, const struct timespec* ts) {
  struct timespec now;
  int sh = g_simHeap;
  g_simHeap = 1;
  clock_gettime(id, &now);
  g_simHeap = sh;
  i64 d = (ts->tv_sec - now.tv_sec) * 1000000000ll + (ts->tv_nsec - now.tv_nsec);
  return clockNow() + (d < 0 ? 0 : d);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!active()) return REAL(pthread_cond_timedwait)(c, m, ts);
  InRt in;
  point(kSync);
  return condWait(c, m, absToVirtual(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  if (!active()) return ETIMEDOUT;
  InRt in;
  point(kSync);
  return condWait(c, m, absToVirtual(id, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_cond_signal)(c);
  InRt in;
  int w[kMaxThreads], n = 0;
  for (int i = 0; i < g_n; ++i) if (g_t[i].st == kCond && g_t[i].obj == c) w[n++] = i;
  if (n) {
    int k = n == 1 ? 0 : (int)choose(n, 0, (u32)g_rng.below(n));
    g_t[w[k]].st = kRun;
    g_t[w[k]].signaled = true;
    g_t[w[k]].deadline = -1;
    event("cond.signal", w[k]);
  } else {
    event("cond.signal", 99);
  }
  point(kSync);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_cond_broadcast)(c);
  InRt in;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].st == kCond && g_t[i].obj == c) { g_t[i].st = kRun; g_t[i].signaled = true; g_t[i].deadline = -1; }
  event("cond.broadcast");
  point(kSync);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { return 0; }
int sched_yield() {
  if (!active()) return 0;
  InRt in;
  count("yield");
  point(kYield);
  return 0;
}
static int simSleep(i64 ns) {
  InRt in;
  if (!g_on) { clockAdvance(ns); return 0; }
  g_t[t_tid].st = kSleep;
  g_t[t_tid].deadline = clockNow() + (ns < 0 ? 0 : ns);
  blockHere();
  g_t[t_tid].deadline = -1;
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!g_simHeap) return (int)syscall(SYS_nanosleep, ts, rem);
  return simSleep(ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!g_simHeap) return (int)syscall(SYS_clock_nanosleep, id, flags, ts, rem);
  if (flags & TIMER_ABSTIME) return simSleep(absToVirtual(id, ts) - clockNow());
  return simSleep(ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
// ---- rwlocks
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_rwlock_rdlock)(l);
  InRt in;
  point(kSync);
  Rw& x = (*g_rw)[l];
  while (x.writer) { g_t[t_tid].st = kRw; g_t[t_tid].obj = l; blockHere(); }
  x.readers++;
  acquireFrom(x.vc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_rwlock_wrlock)(l);
  InRt in;
  point(kSync);
  Rw& x = (*g_rw)[l];
  while (x.writer || x.readers) { g_t[t_tid].st = kRw; g_t[t_tid].obj = l; blockHere(); }
  x.writer = t_tid + 1;
  acquireFrom(x.vc);
  acquireFrom(x.rvc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  InRt in;
  point(kSync);
  Rw& x = (*g_rw)[l];
  if (x.writer) return EBUSY;
  x.readers++;
  acquireFrom(x.vc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  InRt in;
  point(kSync);
  Rw& x = (*g_rw)[l];
  if (x.writer || x.readers) return EBUSY;
  x.writer = t_tid + 1;
  acquireFrom(x.vc);
  acquireFrom(x.rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!active()) return g_inChild || g_simHeap ? 0 : REAL(pthread_rwlock_unlock)(l);
  InRt in;
  Rw& x = (*g_rw)[l];
  if (x.writer) { x.writer = 0; releaseTo(x.vc); } else if (x.readers > 0) { x.readers--; releaseTo(x.rvc); }
  for (int i = 0; i < g_n; ++i) if (g_t[i].st == kRw && g_t[i].obj == l) g_t[i].st = kRun;
  point(kSync);
  return 0;
}
// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) {
  if (!g_simHeap) return REAL(sem_init)(s, 0, v);
  InRt in;
  if (!g_sem) g_sem = new std::map<const void*, Sem>;
  Sem& x = (*g_sem)[s];
  memset(&x, 0, sizeof x);
  x.v = (int)v;
  return 0;
}
int sem_wait(sem_t* s) {
  if (!active()) return REAL(sem_wait)(s);
  InRt in;
  point(kSync);
  Sem& x = (*g_sem)[s];
  while (x.v <= 0) { g_t[t_tid].st = kSem; g_t[t_tid].obj = s; blockHere(); }
  x.v--;
  acquireFrom(x.vc);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!active()) return REAL(sem_trywait)(s);
  InRt in;
  point(kSync);
  Sem& x = (*g_sem)[s];
  if (x.v <= 0) { errno = EAGAIN; return -1; }
  x.v--;
  acquireFrom(x.vc);
  return 0;
}
int sem_post(sem_t* s) {
  if (!active()) return REAL(sem_post)(s);
  InRt in;
  Sem& x = (*g_sem)[s];
  x.v++;
  releaseTo(x.vc);
  for (int i = 0; i < g_n; ++i) if (g_t[i].st == kSem && g_t[i].obj == s) g_t[i].st = kRun;
  point(kSync);
  return 0;
}
// ---- once / guards
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!active()) return REAL(pthread_once)(o, fn);
  {
    InRt in;
    if (*(volatile int*)o == 2 && g_once->find(o) == g_once->end()) return 0;  // done before the simulation started
  }
  for (;;) {
    { InRt in; point(kSync); }
    InRt in;
    Mx& x = (*g_mx)[o];
    int& st = (*g_once)[o];
    if (st == 2) { acquireFrom(x.vc); return 0; }
    if (st == 0) { st = 1; break; }
    point(kYield);
  }
  fn();
  InRt in;
  (*g_once)[o] = 2;
  *(volatile int*)o = 2;
  releaseTo((*g_mx)[o].vc);
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  unsigned char* b = (unsigned char*)g;
  if (!active()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  for (;;) {
    { InRt in; point(kSync); }
    InRt in;
    if (b[0]) { acquireFrom((*g_mx)[g].vc); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    point(kYield);
  }
}
void __cxa_guard_release(long long* g) {
  unsigned char* b = (unsigned char*)g;
  if (active()) {
    InRt in;
    syncReleaseStore(g);
    releaseTo((*g_mx)[g].vc);
  }
  b[0] = 1;
  b[1] = 0;
}
void __cxa_guard_abort(long long* g) { ((unsigned char*)g)[1] = 0; }
}
