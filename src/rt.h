// internals shared by the runtime files (rt.cc, sched.cc, fs.cc, runner.cc)
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include "sim.h"
#include <cstddef>
#include <string>
#include <vector>
#define SIM_LIKELY(x) __builtin_expect(!!(x), 1)
#define SIM_UNLIKELY(x) __builtin_expect(!!(x), 0)
namespace sim {
typedef uintptr_t uptr;
static const uptr kHeapBase = 0x100000000000ull;
static const uptr kHeapSize = 0x400000000ull;         // 16G, simulated program heap
static const uptr kMapBase = kHeapBase + kHeapSize;   // simulated file mappings
static const uptr kMapSize = 0x400000000ull;
static const uptr kCheckedEnd = kMapBase + kMapSize;
static const uptr kShadowBase = 0x110000000000ull;    // 1 byte per 8
static const uptr kHostBase = 0x120000000000ull;      // bookkeeping heap
static const uptr kHostSize = 0x400000000ull;
static const uptr kStackBase = 0x130000000000ull;
static const uptr kStackSize = 16ull << 20;
static const int kMaxThreads = 32;

extern int g_simHeap;            // harness/program code is running: allocations are simulated
extern __thread int t_host;      // >0: this thread is in bookkeeping code
extern int g_hooks;              // instrumented accesses are looked at
extern int g_memCheck;
extern int g_race;
extern u64 g_steps;
extern u64 g_stepBudget;
extern u64 g_evHash;
extern u64 g_evCount;

struct InRt {
  InRt() { ++t_host; }
  ~InRt() { --t_host; }
};

void rtInit();
void shadowAllow(uptr a, size_t n);    // [a,a+n) becomes accessible
void shadowForbid(uptr a, size_t n);
void raceForget(uptr a, size_t n);
void raceReset();

// scheduler hooks used by the access hooks
extern int g_schedActive;
extern __thread int t_tid;
void schedAccessPoint();
bool schedWantsAccess();
u32* threadVC(int tid);

// child/parent protocol
[[noreturn]] void finishWith(const char* status, const char* cls, const std::string& msg);
extern int g_inChild;

struct Real {
  int (*pthread_create)(void*, const void*, void* (*)(void*), void*);
  int (*pthread_join)(unsigned long, void**);
  int (*open)(const char*, int, ...);
  long (*read)(int, void*, size_t);
  long (*write)(int, const void*, size_t);
};
u64 rawFutexWait(u32* p, u32 val);
void rawFutexWake(u32* p);
void clockAdvance(i64 ns);
i64 clockNow();
void installSignalHandlers();
struct RunStats;
void appendRunStats(std::string* out);
void fsAtChildExit();
std::string schedDescribe();
const std::vector<std::pair<u64, u32>>& schedRecorded();
u64 schedHash();
}  // namespace sim
#endif
