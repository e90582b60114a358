// Deterministic simulator for jumanpp: public interface used by the harnesses.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0xD1342543DE82EF95ull + 0x1234567) { u64 a = next(); s = a ^ (seed << 32); s = next(); }
  u64 next() {  // splitmix64
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- scenario
struct Op {
  std::string kind;
  std::vector<i64> a;
  std::vector<std::string> s;
  Op() {}
  Op(const char* k, std::vector<i64> aa = {}, std::vector<std::string> ss = {}) : kind(k), a(aa), s(ss) {}
  i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Scenario {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, i64> p;
  std::vector<Op> ops;
  std::vector<Op> faults;
  bool replaySched = false;
  std::vector<std::pair<u64, u32>> sched;  // (decision index, choice)
  i64 get(const char* k, i64 d = 0) const {
    auto it = p.find(k);
    return it == p.end() ? d : it->second;
  }
};
std::string toText(const Scenario& s);
bool fromText(const std::string& text, Scenario* s);

// ---------------------------------------------------------------- runs
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finishRun();
void event(const char* tag, u64 a = 0, u64 b = 0);       // feeds the run's event hash
void eventBytes(const char* tag, const void* p, size_t n);
void count(const char* counter, u64 n = 1);              // probes / fault counters
void stateMark(u64 h);                                   // distinct states reached
u64 hashBytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // human readable, replay only
extern bool g_verbose;

// harness registration
struct Harness {
  const char* prop;
  void (*warmup)();                               // once per process, in simulated heap
  Scenario (*gen)(u64 seed);                      // seed -> scenario (no side effects)
  void (*exec)(const Scenario&);                  // one simulated run, in a forked child
  u32 cpuSeconds;                                 // watchdog
};
struct Registrar {
  Registrar(const Harness& h);
};

// Known findings: harness tells which signature it observed; returns true when listed (caller carries on)
bool knownFinding(const char* prop, const std::string& signature);

// ---------------------------------------------------------------- heap
// Allocation goes to the simulated heap or to the host (bookkeeping) heap.
// memory managers of the program get pages smaller by this power of two
void pageShift(int s);
int pageShift();

struct HostScope {  // bookkeeping in runtime / harness: hooks off, host heap
  HostScope();
  ~HostScope();
};
struct HeapCfg {
  int fill = 0;          // byte pattern mode for fresh memory: 0 zero, 1 0xff, 2 0xa5, 3 random
  u64 fillSeed = 1;
  int reuse = 0;         // 0 FIFO, 1 LIFO, 2 never reuse
  u64 pad = 0;           // layout perturbation
};
void heapConfigure(const HeapCfg& c);
void heapFailAt(i64 nth, i64 count);  // fail allocations nth..nth+count-1 from now (count<0: forever); nth<0 off
void heapFailHere(i64 nth, i64 count);  // the same for the calling thread only
u64 heapAllocCount();                 // allocations counted since last reset
void heapCountReset();
u64 heapFailed();
u64 heapLiveBytes();
void memCheck(bool on);               // instrumented access checking of the simulated heap/mappings

// ---------------------------------------------------------------- threads
struct SchedCfg {
  int strategy = 0;      // 0 random walk, 1 PCT priorities, 2 mostly-sequential with few preemptions, 3 round robin
  u32 syncNum = 50;      // switch probability (percent*100) at synchronisation points
  u32 accessPpm = 20000; // switch probability (ppm) at shared accesses
  int pctDepth = 3;
  u64 pctLen = 20000;
  u32 spuriousPpm = 0;   // spurious wake-ups
  u64 stepBudget = 400000000ull;
  u64 pointBudget = 3000000ull;
  bool race = true;
};
void schedStart(const SchedCfg& c, const Scenario& s);  // from now on the simulator owns scheduling
void schedStop();                                       // all other threads must have finished
u64 schedPoints();
u64 schedSwitches();
int liveThreads();
void ignoreRaces(const void* p, size_t n);              // deliberate races (shared weights)
void ignoreRacesReset();
u32 decide(u32 n, const char* what);                    // recorded nondeterministic choice (0 = default)
void yieldPoint();
void spinPoint();                                       // harness busy-wait
u64 steps();
int curThread();
u64 vtime();                                            // global event sequence number
void stepBudget(u64 steps);                             // for single threaded runs: violation when exceeded

// ---------------------------------------------------------------- clock
struct ClockCfg {
  i64 startNs = 1500000000ll * 1000000000ll;
  i64 tickNs = 1000;
  int mode = 0;   // 0 steady, 1 jumps forward/backward, 2 frozen, 3 backwards
  u64 seed = 1;
};
void clockConfigure(const ClockCfg& c);
u64 clockReads();
u64 clockSimulatedNs();

// ---------------------------------------------------------------- files
void fsStart(const std::string& root);  // wrapper accounting starts: everything under root is on the simulated disk
void fsStop();
struct Fault {
  std::string call;  // open, stat, lseek, read, write, mmap, msync, close, fopen, fclose, fallocate, fsync, ftruncate ...
  i64 nth;           // 0-based occurrence among calls of that kind
  i64 err;           // errno, or 0: short (read/write) with arg bytes, 
  i64 arg;
  bool sticky;
};
void fsAddFault(const Fault& f);
void fsClearFaults();
void fsPathFault(const char* call, const std::string& path, int err);  // open, stat, mmap, close of this file fail
void fsFailCall(i64 nth, u64 sel, bool sticky);                       // the nth simulated call from now fails, whatever it is
void fsReadFailAt(const std::string& path, u64 off, int err);  // reads of this file fail from this byte on
u64 fsFaultsFired();
std::map<std::string, u64> fsCallCounts();
void fsShortReads(int mode, u64 seed);   // 0 off; 1 byte at a time; 2 random; 3 small chunks
void fsShortWrites(int mode, u64 seed);
void fsEintr(u32 ppm, u64 seed);
void fsCapacity(i64 bytes);              // simulated free space (-1 unlimited)
void fsCrashAt(i64 nthCall);             // crash instead of executing the nth simulated call (counted from now); -1 off
u64 fsCalls();
bool fsRunUntilCrash(const std::function<void()>& f);  // true when the crash happened
// replace the contents of every file by a possible post-crash image
void fsPowerLoss(int mode, u64 seed);
int fsOpenFds();
int fsLiveMappings();
void fsLeakDump(std::string* out);
std::string fsRoot();
// file helpers that bypass the simulation
bool hostRead(const std::string& path, std::string* out);
bool hostWrite(const std::string& path, const std::string& data);
bool hostExists(const std::string& path);
void hostRemove(const std::string& path);
void hostMkdir(const std::string& path);

// ---------------------------------------------------------------- whole-process runs
// Runs a tool's main with simulated stdin/stdout/stderr; exit() and normal return are equivalent.
struct ProcResult {
  int code = 0;
  std::string out;
  std::string err;
  bool outFailed = false;  // some write to stdout failed
  bool outputComplete = true;
};
struct ProcCfg {
  std::vector<std::string> argv;
  std::string stdinData;
  int stdinChunk = 0;        // 0 all at once
  u64 seed = 1;
  i64 stdinFailAt = -1;      // byte offset of a read error
  i64 stdoutFailAt = -1;     // byte offset at which writes to stdout start to fail
  int stdoutErr = 28;        // errno
  bool stdoutOneShot = false;// only one write fails
  int stdoutChunk = 0;       // short writes
  // a user who waits for answers: nothing after such an offset of the input is given before the function was called
  // with the offset and what had been written to standard output when the program wanted to read on
  std::vector<size_t> stdinGates;
  std::function<void(size_t, const std::string&)> onGate;
  // when set, std::terminate ends the simulated process with status 134: the function is given what had been
  // written by then and must end the run (finishRun or violation)
  std::function<void(ProcResult&)> onDeath;
  i64 oomAt = -1, oomCount = 1;   // allocations of the process which fail
};
ProcResult runProcess(int (*mainFn)(int, const char**), const ProcCfg& cfg);

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
#endif
