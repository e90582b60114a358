// Simulated heap, instrumented-access hooks (memory checker, race detector), event log, clock, violations.
#include "rt.h"
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
#include <ucontext.h>
#include <unordered_map>

namespace sim {
int g_simHeap = 0;
__thread int t_host = 0;
__thread int t_tid = 0;
int g_hooks = 0, g_memCheck = 0, g_race = 0;
u64 g_steps = 0, g_stepBudget = ~0ull;
u64 g_evHash = 0xcbf29ce484222325ull, g_evCount = 0;
int g_inChild = 0;
bool g_verbose = false;

static long rawMmap(uptr a, size_t n, int prot, int flags) {
  return syscall(SYS_mmap, (void*)a, n, prot, flags, -1, 0);
}
static void die(const char* m) {
  (void)!::syscall(SYS_write, 2, m, strlen(m));
  syscall(SYS_exit_group, 99);
}

u64 rawFutexWait(u32* p, u32 val) { return syscall(SYS_futex, p, FUTEX_WAIT, val, nullptr, nullptr, 0); }
void rawFutexWake(u32* p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

// ------------------------------------------------------------------ heap
namespace {
struct Hdr {
  u64 size;      // requested
  u32 off;       // payload - block start
  uint16_t cls;
  uint16_t magic;
};
const uint16_t kLive = 0xA11C, kFree = 0xF4EE;
struct Heap {
  uptr base, cur, end;
  bool checked;
  uptr head[512], tail[512];
  uptr hwm;  // highest address ever handed out (fresh beyond)
};
Heap g_sim, g_hostHeap;
bool g_inited = false;
HeapCfg g_cfg;
u64 g_fillState = 1;
u64 g_allocs = 0, g_failed = 0, g_live = 0;
i64 g_failFrom = -1, g_failCount = 0;

int clsOf(size_t n) {  // n includes header, rounded to 16
  if (n <= 2048) return (int)((n + 15) / 16);  // 1..128
  int lg = 63 - __builtin_clzll(n - 1);        // 2^lg < n
  size_t q = (n - 1 - (1ull << lg)) >> (lg - 2);  // 0..3
  return 129 + (lg - 11) * 4 + (int)q;
}
size_t clsSize(int c) {
  if (c <= 128) return (size_t)c * 16;
  int lg = 11 + (c - 129) / 4;
  size_t q = (c - 129) % 4;
  return (1ull << lg) + (q + 1) * (1ull << (lg - 2));
}
void initHeap(Heap& h, uptr base, size_t size, bool checked) {
  if (rawMmap(base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE) != (long)base)
    die("sim: cannot reserve heap\n");
  h.base = h.cur = base;
  h.end = base + size;
  h.checked = checked;
}
inline unsigned char* shadowOf(uptr a) { return (unsigned char*)(kShadowBase + ((a - kHeapBase) >> 3)); }

void lazyInit() {
  if (g_inited) return;
  g_inited = true;
  if (rawMmap(kShadowBase, (kHeapSize + kMapSize) / 8, PROT_READ | PROT_WRITE,
              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE) != (long)kShadowBase)
    die("sim: cannot reserve shadow\n");
  initHeap(g_sim, kHeapBase, kHeapSize, true);
  initHeap(g_hostHeap, kHostBase, kHostSize, false);
}

void fillFresh(unsigned char* p, size_t n) {
  switch (g_cfg.fill) {
    case 0: return;
    case 1: ::memset(p, 0xff, n); return;
    case 2: ::memset(p, 0xa5, n); return;
    case 4: ::memset(p, 0x00, n); return;
    default: {
      u64 x = g_fillState;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        __builtin_memcpy(p + i, &x, 8);
      }
      for (; i < n; ++i) p[i] = (unsigned char)(x >> (i & 7));
      g_fillState = x ? x : 1;
    }
  }
}

void* heapAlloc(Heap& h, size_t n, size_t align) {
  size_t need = n + sizeof(Hdr) + (align > 16 ? align : 0);
  if (n > (1ull << 34)) return nullptr;
  need = (need + 15) & ~15ull;
  int c = clsOf(need);
  size_t bs = clsSize(c);
  uptr b = 0;
  bool reuse = !(h.checked && g_cfg.reuse == 2);
  if (reuse && h.head[c]) {
    b = h.head[c];
    h.head[c] = *(uptr*)(b + 16);
    if (!h.head[c]) h.tail[c] = 0;
  } else {
    if (h.cur + bs + 64 > h.end) return nullptr;
    if (h.checked && g_cfg.pad) h.cur += (g_cfg.pad & ~15ull);
    b = h.cur;
    h.cur += bs;
  }
  uptr p = b + sizeof(Hdr);
  if (align > 16) p = (p + align - 1) & ~(align - 1);
  Hdr* hd = (Hdr*)(p - sizeof(Hdr));
  hd->size = n;
  hd->off = (u32)(p - b);
  hd->cls = (uint16_t)c;
  hd->magic = kLive;
  if (h.checked) {
    shadowAllow(p, n);
    if (g_race) raceForget(p, n);
    g_live += n;
  }
  return (void*)p;
}
[[noreturn]] void badFree(void* p, const char* what) {
  finishWith("violation", "memory", strf("%s of address %p", what, p));
}
void heapFree(Heap& h, void* ptr) {
  InRt in;
  uptr p = (uptr)ptr;
  Hdr* hd = (Hdr*)(p - sizeof(Hdr));
  if (hd->magic != kLive) {
    if (h.checked) badFree(ptr, hd->magic == kFree ? "double free" : "invalid free");
    return;
  }
  hd->magic = kFree;
  int c = hd->cls;
  size_t n = hd->size;
  uptr b = p - hd->off;
  if (h.checked) {
    shadowForbid(p, n);
    g_live -= n;
    ::memset(ptr, 0xDD, n > 65536 ? 65536 : n);
    if (g_cfg.reuse == 2) return;
  }
  // link: payload of the block (offset 16) holds the next pointer
  *(uptr*)(b + 16) = 0;
  if (h.checked && g_cfg.reuse == 0) {  // FIFO
    if (h.tail[c]) *(uptr*)(h.tail[c] + 16) = b; else h.head[c] = b;
    h.tail[c] = b;
  } else {
    *(uptr*)(b + 16) = h.head[c];
    h.head[c] = b;
    if (!h.tail[c]) h.tail[c] = b;
  }
}
inline bool simOwned(void* p) { return (uptr)p >= kHeapBase && (uptr)p < kHeapBase + kHeapSize; }

__thread i64 t_failIn = -1, t_failLeft = 0;
void* doAlloc(size_t n, size_t align, bool zero) {
  if (SIM_UNLIKELY(!g_inited)) lazyInit();
  bool simu = g_simHeap && !t_host;
  if (simu) {
    u64 k = g_allocs++;
    if (SIM_UNLIKELY(t_failIn >= 0)) {
      if (t_failIn > 0) --t_failIn;
      else if (t_failLeft != 0) {
        if (t_failLeft > 0) --t_failLeft;
        ++g_failed;
        errno = ENOMEM;
        return nullptr;
      }
    }
    if (SIM_UNLIKELY(g_failFrom >= 0) && (i64)k >= g_failFrom && (g_failCount < 0 || (i64)k < g_failFrom + g_failCount)) {
      ++g_failed;
      errno = ENOMEM;
      return nullptr;
    }
  }
  InRt in;
  Heap& h = simu ? g_sim : g_hostHeap;
  void* p = heapAlloc(h, n, align);
  if (!p) { errno = ENOMEM; return nullptr; }
  if (zero) ::memset(p, 0, n);
  else if (simu) fillFresh((unsigned char*)p, n);
  return p;
}
}  // namespace

void rtInit() { lazyInit(); }
void heapConfigure(const HeapCfg& c) { g_cfg = c; g_fillState = c.fillSeed * 2654435761u + 88172645463325252ull; }
void heapFailAt(i64 nth, i64 count) {
  if (nth < 0) { g_failFrom = -1; return; }
  g_failFrom = (i64)g_allocs + nth; g_failCount = count;
}
void heapFailHere(i64 nth, i64 count) { t_failIn = nth; t_failLeft = nth < 0 ? 0 : count; }
u64 heapAllocCount() { return g_allocs; }
void heapCountReset() { g_allocs = 0; g_failed = 0; g_failFrom = -1; }
u64 heapFailed() { return g_failed; }
u64 heapLiveBytes() { return g_live; }

HostScope::HostScope() { ++t_host; }
HostScope::~HostScope() { --t_host; }

void shadowAllow(uptr a, size_t n) {
  unsigned char* s = shadowOf(a);
  size_t full = n >> 3;
  ::memset(s, 8, full);
  if (n & 7) s[full] = (unsigned char)(n & 7);
}
void shadowForbid(uptr a, size_t n) { ::memset(shadowOf(a), 0, (n + 7) >> 3); }
void memCheck(bool on) { g_memCheck = on; }

static __attribute__((noinline)) void memoryError(uptr a, size_t n, bool write, void* pc) {
  InRt in;
  const char* where = a < kMapBase ? "heap" : "file mapping";
  finishWith("violation", "memory",
             strf("%s of %zu bytes outside any live %s block (pc %p)", write ? "write" : "read", n,
                  where, pc));
}
static inline bool granuleOk(uptr a, size_t n) {  // within one granule
  unsigned char s = *shadowOf(a);
  return SIM_LIKELY(s == 8) || ((a & 7) + n <= s);
}
static inline void memAccess(uptr a, size_t n, bool write, void* pc) {
  if (a - kHeapBase >= kCheckedEnd - kHeapBase) return;
  if (SIM_LIKELY((a & 7) + n <= 8)) {
    if (SIM_UNLIKELY(!granuleOk(a, n))) memoryError(a, n, write, pc);
    return;
  }
  uptr e = a + n;
  while (a < e) {
    size_t k = 8 - (a & 7);
    if (k > e - a) k = e - a;
    if (SIM_UNLIKELY(!granuleOk(a, k))) memoryError(a, n, write, pc);
    a += k;
  }
}

// ------------------------------------------------------------------ race detector
namespace {
struct Cell {
  u32 wclk, rclk;
  unsigned char wtid, wmask, rtid, rmask;
  u32 rv;  // index+1 of read vector
};
struct RV { u32 clk[kMaxThreads]; unsigned char mask[kMaxThreads]; };
struct Page { Cell c[512]; };
const size_t kTab = 1 << 16;
struct PageTab { uptr key[kTab]; Page* page[kTab]; };
PageTab* g_tab = nullptr;
RV* g_rvs = nullptr;
u32 g_rvn = 1, g_rvcap = 0;
Page* g_pagePool = nullptr;
size_t g_pageUsed = 0, g_pageCap = 0;
struct Range { uptr a, e; };
Range g_ignore[16];
int g_nIgnore = 0;
u64 g_races = 0;

Page* pageOf(uptr a, bool create) {
  uptr k = a >> 12;
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 48;
  for (;;) {
    if (g_tab->key[i] == k + 1) return g_tab->page[i];
    if (!g_tab->key[i]) {
      if (!create) return nullptr;
      if (g_pageUsed == g_pageCap) finishWith("error", "harness", "race shadow exhausted");
      g_tab->key[i] = k + 1;
      return g_tab->page[i] = &g_pagePool[g_pageUsed++];
    }
    i = (i + 1) & (kTab - 1);
  }
}
inline bool ignored(uptr a) {
  for (int i = 0; i < g_nIgnore; ++i)
    if (a >= g_ignore[i].a && a < g_ignore[i].e) return true;
  return false;
}
struct RaceInfo { bool hit; };

void reportRace(uptr a, int other, bool otherWrite, bool write, void* pc) {
  InRt in;
  finishWith("violation", "data-race",
             strf("unsynchronised %s by thread %d conflicts with earlier %s by thread %d (pc %p)",
                  write ? "write" : "read", t_tid, otherWrite ? "write" : "read", other, pc));
}

// returns whether the granule had been touched by another thread
bool raceGranule(uptr a, size_t n, bool write, void* pc) {
  Page* p = pageOf(a, true);
  Cell& c = p->c[(a >> 3) & 511];
  int t = t_tid;
  u32* vc = threadVC(t);
  unsigned char mask = (unsigned char)(((1u << n) - 1) << (a & 7));
  bool shared = (c.wclk && c.wtid != t) || (c.rclk && c.rtid != t) || c.rv;
  bool chk = g_nIgnore == 0 || !ignored(a);
  if (c.wclk && c.wtid != t && (c.wmask & mask) && c.wclk > vc[c.wtid] && chk) reportRace(a, c.wtid, true, write, pc);
  if (write) {
    if (c.rv) {
      RV& v = g_rvs[c.rv];
      for (int i = 0; i < kMaxThreads; ++i)
        if (i != t && v.clk[i] > vc[i] && (v.mask[i] & mask) && chk) reportRace(a, i, false, true, pc);
      c.rv = 0;
    } else if (c.rclk && c.rtid != t && (c.rmask & mask) && c.rclk > vc[c.rtid] && chk) {
      reportRace(a, c.rtid, false, true, pc);
    }
    if (c.wtid == t && c.wclk == vc[t]) c.wmask |= mask;
    else { c.wtid = (unsigned char)t; c.wclk = vc[t]; c.wmask = mask; }
    c.rclk = 0;
  } else {
    if (c.rv) {
      RV& v = g_rvs[c.rv];
      if (v.clk[t] == vc[t]) v.mask[t] |= mask;
      else { v.clk[t] = vc[t]; v.mask[t] = mask; }
    } else if (!c.rclk || c.rtid == t || c.rclk <= vc[c.rtid]) {
      if (c.rclk == vc[t] && c.rtid == t) c.rmask |= mask;
      else { c.rtid = (unsigned char)t; c.rclk = vc[t]; c.rmask = mask; }
    } else {
      if (g_rvn == g_rvcap) finishWith("error", "harness", "race read vectors exhausted");
      RV& v = g_rvs[g_rvn];
      ::memset(&v, 0, sizeof v);
      v.clk[c.rtid] = c.rclk; v.mask[c.rtid] = c.rmask;
      v.clk[t] = vc[t]; v.mask[t] = mask;
      c.rv = g_rvn++;
    }
  }
  return shared;
}
bool raceAccess(uptr a, size_t n, bool write, void* pc) {
  bool sh = false;
  uptr e = a + n;
  while (a < e) {
    size_t k = 8 - (a & 7);
    if (k > e - a) k = e - a;
    sh |= raceGranule(a, k, write, pc);
    a += k;
  }
  return sh;
}
}  // namespace

void raceReset() {
  if (!g_tab) {
    g_tab = (PageTab*)rawMmap(0, sizeof(PageTab), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE);
    g_rvcap = 1 << 22;
    g_rvs = (RV*)rawMmap(0, sizeof(RV) * (size_t)g_rvcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE);
    g_pageCap = 60000;
    g_pagePool = (Page*)rawMmap(0, sizeof(Page) * g_pageCap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE);
  } else {
    ::memset(g_tab, 0, sizeof(PageTab));
    madvise(g_pagePool, sizeof(Page) * g_pageCap, MADV_DONTNEED);
    g_pageUsed = 0;
    g_rvn = 1;
  }
  g_nIgnore = 0;
}
void raceForget(uptr a, size_t n) {
  if (!g_tab) return;
  uptr e = a + n;
  a &= ~7ull;
  while (a < e) {
    Page* p = pageOf(a, false);
    uptr next = (a & ~4095ull) + 4096;
    if (next > e) next = e;
    if (p) ::memset(&p->c[(a >> 3) & 511], 0, sizeof(Cell) * (((next - a) + 7) >> 3));
    a = (next + 7) & ~7ull;
  }
}
void ignoreRaces(const void* p, size_t n) {
  for (int i = 0; i < g_nIgnore; ++i)
    if (g_ignore[i].a == (uptr)p && g_ignore[i].e == (uptr)p + n) return;
  if (g_nIgnore < 16) { g_ignore[g_nIgnore].a = (uptr)p; g_ignore[g_nIgnore++].e = (uptr)p + n; }
}
void ignoreRacesReset() { g_nIgnore = 0; }

static __attribute__((noinline)) void budgetExceeded() {
  InRt in;
  finishWith("violation", "no-progress", strf("no end after %llu simulated steps", (unsigned long long)g_steps));
}

static inline __attribute__((always_inline)) void access(void* ap, size_t n, bool write, void* pc) {
  if (SIM_LIKELY(!g_hooks)) return;
  if (t_host) return;
  uptr a = (uptr)ap;
  if (SIM_UNLIKELY(++g_steps > g_stepBudget)) budgetExceeded();
  if (g_memCheck) memAccess(a, n, write, pc);
  if (g_race) {
    bool sh;
    { InRt in; sh = raceAccess(a, n, write, pc); }
    if (sh && g_schedActive) schedAccessPoint();
  }
}
static __attribute__((noinline)) void accessRange(void* ap, size_t n, bool write, void* pc) {
  if (!n) return;
  access(ap, n, write, pc);
}

// ---- atomics: sync variables
namespace {
struct SyncVar { u32 vc[kMaxThreads]; };
typedef std::unordered_map<uptr, SyncVar> SyncMap;
SyncMap* g_sync = nullptr;
u32 g_fenceRel[kMaxThreads][kMaxThreads];
u32 g_fenceAcq[kMaxThreads][kMaxThreads];
bool g_hasFenceRel[kMaxThreads];
inline bool isAcq(int mo) { mo &= 0xff; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool isRel(int mo) { mo &= 0xff; return mo == 3 || mo == 4 || mo == 5; }
void vcJoin(u32* d, const u32* s) { for (int i = 0; i < kMaxThreads; ++i) if (s[i] > d[i]) d[i] = s[i]; }
void atomicPost(volatile void* a, int mo, int kind) {
  InRt in;
  int t = t_tid;
  u32* vc = threadVC(t);
  if (!g_sync) g_sync = new SyncMap;
  if (kind == 0 || kind == 2) {
    auto it = g_sync->find((uptr)a);
    if (it != g_sync->end()) {
      if (isAcq(mo)) vcJoin(vc, it->second.vc); else vcJoin(g_fenceAcq[t], it->second.vc);
    }
  }
  if (kind == 1 || kind == 2) {
    SyncVar& sv = (*g_sync)[(uptr)a];
    if (kind == 1) ::memset(&sv, 0, sizeof sv);
    if (isRel(mo)) vcJoin(sv.vc, vc);
    else if (g_hasFenceRel[t]) vcJoin(sv.vc, g_fenceRel[t]);
    if (isRel(mo)) vc[t]++;
  }
}
void fencePoint(int mo) {
  InRt in;
  int t = t_tid;
  u32* vc = threadVC(t);
  if (isAcq(mo)) vcJoin(vc, g_fenceAcq[t]);
  if (isRel(mo)) { ::memcpy(g_fenceRel[t], vc, sizeof g_fenceRel[t]); g_hasFenceRel[t] = true; vc[t]++; }
}
}  // namespace
void syncReleaseStore(void* a) {
  if (g_schedActive) atomicPost(a, 3, 1);
}
void syncReset() {
  InRt in;
  if (g_sync) g_sync->clear();
  ::memset(g_fenceRel, 0, sizeof g_fenceRel);
  ::memset(g_fenceAcq, 0, sizeof g_fenceAcq);
  ::memset(g_hasFenceRel, 0, sizeof g_hasFenceRel);
}
void schedSyncPoint();
static inline void atomicPre(volatile void* a, size_t n) {
  if (SIM_LIKELY(!g_hooks) || t_host) return;
  if (SIM_UNLIKELY(++g_steps > g_stepBudget)) budgetExceeded();
  if (g_memCheck) memAccess((uptr)a, n, false, __builtin_return_address(0));
  if (g_schedActive) schedSyncPoint();
}
static inline void atomicPostH(volatile void* a, int mo, int kind) {
  if (!g_schedActive || t_host || !g_hooks) return;
  atomicPost(a, mo, kind);
}
}  // namespace sim
using namespace sim;
#define ATOMIC_PRE(a, n, mo, k) atomicPre((volatile void*)(a), n)
#define ATOMIC_POST(a, n, mo, k) atomicPostH((volatile void*)(a), mo, k)
#include "atomics.inc"

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                    \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                    \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }          \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { accessRange(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { accessRange(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int mo) { if (g_schedActive && !t_host) fencePoint(mo); }
void __tsan_atomic_signal_fence(int) {}

// -------- memory functions: checked, otherwise plain
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (SIM_UNLIKELY(g_hooks) && !t_host && n) { access((void*)s, n, false, PC); access(d, n, true, PC); }
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (SIM_UNLIKELY(g_hooks) && !t_host && n) { access((void*)s, n, false, PC); access(d, n, true, PC); }
  void* r = d;
  if ((uptr)d <= (uptr)s || (uptr)d >= (uptr)s + n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int v, size_t n) {
  if (SIM_UNLIKELY(g_hooks) && !t_host && n) access(d, n, true, PC);
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}

// -------- allocation
void* malloc(size_t n) { return doAlloc(n, 16, false); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return doAlloc(n, 16, true);
}
void free(void* p) {
  if (!p) return;
  int e = errno;
  if (simOwned(p)) heapFree(g_sim, p);
  else if ((uptr)p >= kHostBase && (uptr)p < kHostBase + kHostSize) heapFree(g_hostHeap, p);
  else if (g_simHeap && !t_host) badFree(p, "invalid free");
  errno = e;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  Hdr* hd = (Hdr*)((uptr)p - sizeof(Hdr));
  size_t old = hd->size;
  void* q = malloc(n);
  if (!q) return nullptr;
  { InRt in; memcpy(q, p, old < n ? old : n); }
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return doAlloc(n, al < 16 ? 16 : al, false); }
void* aligned_alloc(size_t al, size_t n) { return doAlloc(n, al < 16 ? 16 : al, false); }
int posix_memalign(void** o, size_t al, size_t n) {
  int e = errno;
  void* p = doAlloc(n, al < 16 ? 16 : al, false);
  errno = e;
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void* valloc(size_t n) { return doAlloc(n, 4096, false); }
void* pvalloc(size_t n) { return doAlloc((n + 4095) & ~4095ull, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uptr)p - sizeof(Hdr)))->size : 0; }
}

// ------------------------------------------------------------------ clock
namespace sim {
static ClockCfg g_clk;
static i64 g_now = 1500000000ll * 1000000000ll;
static i64 g_mono = 1000000000ll;
static u64 g_clkReads = 0, g_clkSim = 0;
static u64 g_clkRng = 1;
static bool g_clkOn = false;
void clockConfigure(const ClockCfg& c) {
  g_clk = c; g_now = c.startNs; g_clkRng = c.seed * 0x9E3779B97F4A7C15ull + 99; g_clkReads = 0; g_clkOn = true; g_clkSim = 0;
}
void clockAdvance(i64 ns) { g_now += ns; g_mono += ns; g_clkSim += ns; }
i64 clockNow() { return g_mono; }
u64 clockReads() { return g_clkReads; }
u64 clockSimulatedNs() { return g_clkSim; }
static void clockTick() {
  ++g_clkReads;
  i64 d = g_clk.tickNs;
  switch (g_clk.mode) {
    case 1: {
      g_clkRng ^= g_clkRng << 13; g_clkRng ^= g_clkRng >> 7; g_clkRng ^= g_clkRng << 17;
      i64 j = (i64)(g_clkRng % 7200000000000ull) - 3600000000000ll;
      g_now += j; g_mono += d * (1 + (i64)(g_clkRng % 1000000)); g_clkSim += j < 0 ? -j : j;
      return;
    }
    case 2: return;
    case 3: g_now -= d * 1000000; g_mono += d; g_clkSim += d * 1000000; return;
    default: g_now += d; g_mono += d; g_clkSim += d;
  }
}
}  // namespace sim
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_simHeap) return (int)syscall(SYS_clock_gettime, id, ts);
  clockTick();
  i64 v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_now : g_mono;
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; }
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// ------------------------------------------------------------------ events
namespace sim {
static inline void mix(u64 v) { g_evHash = (g_evHash ^ v) * 0x100000001b3ull; g_evHash ^= g_evHash >> 29; }
u64 hashBytes(const void* p, size_t n, u64 h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return h ^ (h >> 31);
}
void event(const char* tag, u64 a, u64 b) {
  InRt in;
  ++g_evCount;
  mix(hashBytes(tag, strlen(tag)));
  mix(a);
  mix(b);
  if (g_verbose) fprintf(stderr, "[ev %llu t%d] %s %llu %llu\n", (unsigned long long)g_evCount, t_tid, tag,
                         (unsigned long long)a, (unsigned long long)b);
}
void eventBytes(const char* tag, const void* p, size_t n) {
  InRt in;
  event(tag, n, hashBytes(p, n));
}
void trace(const char* fmt, ...) {
  if (!g_verbose) return;
  InRt in;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);
  fputc('\n', stderr);
}
u64 steps() { return g_steps; }
void stepBudget(u64 n) { g_stepBudget = n == ~0ull ? n : g_steps + n; }
u64 vtime() { return g_evCount; }
std::string strf(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < (int)sizeof b) return b;
  std::string r((size_t)n + 1, 0);
  va_start(ap, fmt);
  vsnprintf(&r[0], r.size(), fmt, ap);
  va_end(ap);
  r.resize((size_t)n);
  return r;
}
void violation(const char* cls, const char* fmt, ...) {
  ++t_host;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finishWith("violation", cls, b);
}
void harnessError(const char* fmt, ...) {
  ++t_host;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finishWith("error", "harness", b);
}
void finishRun() { ++t_host; finishWith("ok", "", ""); }

// ------------------------------------------------------------------ signals
static char g_altstack[65536];
bool fsHandleFault(uptr addr);
static void onSignal(int sig, siginfo_t* si, void* uc) {
  if (!g_inChild) { signal(sig, SIG_DFL); raise(sig); return; }
  ++t_host;
  g_hooks = 0;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
  char b[200];
  // pc is deterministic (no-pie) for program code
  ucontext_t* u = (ucontext_t*)uc;
  unsigned long pc = (unsigned long)u->uc_mcontext.gregs[REG_RIP];
  if (pc > 0x10000000ul) pc = 0;
  if ((sig == SIGSEGV || sig == SIGBUS) && fsHandleFault((uptr)si->si_addr))
    snprintf(b, sizeof b, "killed by SIGBUS: page of a file mapping without backing store touched");
  else
    snprintf(b, sizeof b, "killed by %s%s (pc 0x%lx)", n, sig == SIGABRT ? " (terminate/abort)" : "", pc);
  finishWith("violation", sig == SIGABRT ? "abort" : "crash", b);
}
void installSignalHandlers() {
  stack_t ss;
  ::memset(&ss, 0, sizeof ss);
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  ::memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
}
}  // namespace sim

// ---- hook in /repo (JPP_SIMULATION): the size of the pages of a memory manager
namespace sim {
static int g_pageShift = 0;
void pageShift(int s) { g_pageShift = s; }
int pageShift() { return g_pageShift; }
}
namespace jumanpp { namespace util { namespace memory {
size_t simulatedPageSize(size_t requested) { return requested >> sim::g_pageShift; }
}}}
