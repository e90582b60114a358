// Runs scenarios in forked children, gates and minimises violations, writes replay files.
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>

namespace sim {
namespace {
std::vector<Harness>& harnesses() { static std::vector<Harness>* v = new std::vector<Harness>; return *v; }
int g_pipe = -1;
std::map<std::string, u64>* g_counters;
std::set<u64>* g_states;
std::set<std::string>* g_known;   // "PROP sig"
bool g_wantSched = true;

double now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
std::string hex(const std::string& s) {
  std::string r = "x";
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
std::string quote(const std::string& s) {  // printable strings stay readable
  bool ok = !s.empty();
  for (unsigned char c : s) if (c <= 32 || c == 127 || c == '\\') ok = false;
  if (ok) return "s" + s;
  return hex(s);
}
std::string unquote(const std::string& s) {
  if (s.empty()) return "";
  if (s[0] == 's') return s.substr(1);
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
std::vector<std::string> split(const std::string& l) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < l.size()) {
    while (i < l.size() && l[i] == ' ') ++i;
    size_t j = i;
    while (j < l.size() && l[j] != ' ') ++j;
    if (j > i) r.push_back(l.substr(i, j - i));
    i = j;
  }
  return r;
}
std::string opText(const char* tag, const Op& o) {
  std::string r = std::string(tag) + " " + o.kind;
  for (i64 a : o.a) r += " " + std::to_string(a);
  for (auto& s : o.s) r += " " + quote(s);
  return r + "\n";
}
Op parseOp(const std::vector<std::string>& w) {
  Op o;
  o.kind = w[1];
  for (size_t i = 2; i < w.size(); ++i) {
    char c = w[i][0];
    if (c == 's' || c == 'x') o.s.push_back(unquote(w[i]));
    else o.a.push_back(strtoll(w[i].c_str(), nullptr, 10));
  }
  return o;
}
}  // namespace

std::string toText(const Scenario& s) {
  std::string r = "jumanpp-sim-scenario 1\nprop " + s.prop + "\nseed " + std::to_string(s.seed) + "\n";
  for (auto& kv : s.p) r += "param " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto& o : s.ops) r += opText("op", o);
  for (auto& o : s.faults) r += opText("fault", o);
  if (s.replaySched) {
    r += "schedule " + std::to_string(s.sched.size()) + "\n";
    for (auto& x : s.sched) r += "at " + std::to_string(x.first) + " " + std::to_string(x.second) + "\n";
  }
  return r;
}
bool fromText(const std::string& t, Scenario* s) {
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i);
    if (j == std::string::npos) j = t.size();
    auto w = split(t.substr(i, j - i));
    i = j + 1;
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "prop" && w.size() > 1) s->prop = w[1];
    else if (w[0] == "seed") s->seed = strtoull(w[1].c_str(), nullptr, 10);
    else if (w[0] == "param") s->p[w[1]] = strtoll(w[2].c_str(), nullptr, 10);
    else if (w[0] == "op") s->ops.push_back(parseOp(w));
    else if (w[0] == "fault") s->faults.push_back(parseOp(w));
    else if (w[0] == "schedule") s->replaySched = true;
    else if (w[0] == "at") s->sched.push_back(std::make_pair(strtoull(w[1].c_str(), nullptr, 10), (u32)strtoul(w[2].c_str(), nullptr, 10)));
  }
  return !s->prop.empty();
}

Registrar::Registrar(const Harness& h) { harnesses().push_back(h); }

void count(const char* c, u64 n) {
  InRt in;
  if (!g_counters) g_counters = new std::map<std::string, u64>;
  (*g_counters)[c] += n;
}
void stateMark(u64 h) {
  InRt in;
  if (!g_states) g_states = new std::set<u64>;
  if (g_states->size() < 256) g_states->insert(h);
}
bool knownFinding(const char* prop, const std::string& sig) {
  InRt in;
  if (!g_known || !g_known->count(std::string(prop) + " " + sig)) return false;
  count(("known." + sig).c_str());
  return true;
}

static void writeAll(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    long n = syscall(SYS_write, fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += n;
  }
}
void finishWith(const char* status, const char* cls, const std::string& msg) {
  ++t_host;
  g_hooks = 0;
  if (!g_inChild) {
    fprintf(stderr, "sim: %s %s outside a run: %s\n", status, cls, msg.c_str());
    syscall(SYS_exit_group, 97);
  }
  std::string m = msg;
  for (char& c : m) if (c == '\n' || c == '\r') c = ' ';
  std::string r = std::string("status ") + status + "\nclass " + cls + "\nmsg " + m + "\n";
  u64 h = g_evHash ^ hashBytes(cls, strlen(cls)) ^ (schedHash() * 31);
  r += strf("hash %llu\nevents %llu\nsteps %llu\npoints %llu\nswitches %llu\nschedhash %llu\nsimns %llu\n",
            (unsigned long long)h, (unsigned long long)g_evCount, (unsigned long long)g_steps,
            (unsigned long long)schedPoints(), (unsigned long long)schedSwitches(), (unsigned long long)schedHash(),
            (unsigned long long)clockSimulatedNs());
  if (g_counters) for (auto& kv : *g_counters) r += "ctr " + kv.first + " " + std::to_string(kv.second) + "\n";
  if (g_states) for (u64 s : *g_states) r += "state " + std::to_string(s) + "\n";
  if (strcmp(status, "violation") == 0)
    for (auto& x : schedRecorded()) r += strf("at %llu %u\n", (unsigned long long)x.first, x.second);
  r += "end\n";
  writeAll(g_pipe, r);
  fsAtChildExit();
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

struct Outcome {
  std::string status, cls, msg;
  u64 hash = 0, events = 0, steps = 0, points = 0, switches = 0, schedhash = 0, simns = 0;
  std::map<std::string, u64> ctr;
  std::vector<u64> states;
  std::vector<std::pair<u64, u32>> sched;
};

static std::string g_scratch;
static const Harness* g_h;
static const Scenario* g_sc;
std::string scratchDir() { return g_scratch; }

static void rmTree(const std::string& p);
void fsAtChildExit() {}

static u32 g_go = 0;
static void* childMain(void*) {
  while (!__atomic_load_n(&g_go, __ATOMIC_SEQ_CST)) rawFutexWait(&g_go, 0);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = (void*)kStackBase;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  g_simHeap = 1;
  g_hooks = 1;
  memCheck(true);
  g_h->exec(*g_sc);
  finishRun();
}

static Outcome runOnce(const Harness& h, const Scenario& sc) {
  Outcome o;
  int pp[2];
  if (pipe(pp)) { perror("pipe"); exit(2); }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    syscall(SYS_close, pp[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_inChild = 1;
    g_pipe = pp[1];
    u32 cs = h.cpuSeconds ? h.cpuSeconds : 20;
    struct rlimit rl = {cs, cs + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    installSignalHandlers();
    g_h = &h;
    g_sc = &sc;
    heapCountReset();
    g_steps = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    void* m = ::mmap((void*)kStackBase, kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (m == MAP_FAILED) syscall(SYS_exit_group, 96);
    pthread_attr_setstack(&at, (void*)(kStackBase + 131072), kStackSize - 131072);
    pthread_t th;
    g_inChild = 0;  // the harness thread itself is created for real
    int rc = pthread_create(&th, &at, childMain, nullptr);
    g_inChild = 1;
    if (rc) syscall(SYS_exit_group, 95);
    __atomic_store_n(&g_go, 1u, __ATOMIC_SEQ_CST);
    rawFutexWake(&g_go);
    for (;;) pause();
  }
  syscall(SYS_close, pp[1]);
  std::string buf;
  char b[65536];
  double deadline = now() + (h.cpuSeconds ? h.cpuSeconds : 20) * 6 + 30;
  bool timedOut = false;
  for (;;) {
    struct pollfd pf = {pp[0], POLLIN, 0};
    int r = poll(&pf, 1, 1000);
    if (r > 0) {
      long n = syscall(SYS_read, pp[0], b, sizeof b);
      if (n <= 0) break;
      buf.append(b, n);
    }
    if (now() > deadline) { timedOut = true; kill(pid, SIGKILL); break; }
  }
  syscall(SYS_close, pp[0]);
  int st = 0;
  struct rusage ru;
  while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
  if (buf.size() < 4 || buf.compare(buf.size() - 4, 4, "end\n") != 0) {
    if (timedOut || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) ||
        (WIFSIGNALED(st) && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= (h.cpuSeconds ? h.cpuSeconds : 20))) {
      o.status = "violation";
      o.cls = "hang";
      o.msg = "the run did not end within its processor time limit";
      return o;
    }
    o.status = "error";
    o.cls = "child";
    o.msg = WIFSIGNALED(st) ? strf("child killed by signal %d", WTERMSIG(st)) : strf("child exited %d without result", WEXITSTATUS(st));
    return o;
  }
  size_t i = 0;
  while (i < buf.size()) {
    size_t j = buf.find('\n', i);
    std::string l = buf.substr(i, j - i);
    i = j + 1;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "status") o.status = v;
    else if (k == "class") o.cls = v;
    else if (k == "msg") o.msg = v;
    else if (k == "hash") o.hash = strtoull(v.c_str(), nullptr, 10);
    else if (k == "events") o.events = strtoull(v.c_str(), nullptr, 10);
    else if (k == "steps") o.steps = strtoull(v.c_str(), nullptr, 10);
    else if (k == "points") o.points = strtoull(v.c_str(), nullptr, 10);
    else if (k == "switches") o.switches = strtoull(v.c_str(), nullptr, 10);
    else if (k == "schedhash") o.schedhash = strtoull(v.c_str(), nullptr, 10);
    else if (k == "simns") o.simns = strtoull(v.c_str(), nullptr, 10);
    else if (k == "ctr") { size_t q = v.rfind(' '); o.ctr[v.substr(0, q)] = strtoull(v.c_str() + q + 1, nullptr, 10); }
    else if (k == "state") o.states.push_back(strtoull(v.c_str(), nullptr, 10));
    else if (k == "at") { char* e; u64 a = strtoull(v.c_str(), &e, 10); o.sched.push_back(std::make_pair(a, (u32)strtoul(e, nullptr, 10))); }
  }
  return o;
}

static bool same(const Outcome& o, const std::string& cls) { return o.status == "violation" && o.cls == cls; }

// delta debugging over one list
template <class T, class Try> static void ddmin(std::vector<T>& v, Try tryIt, double deadline) {
  size_t n = 2;
  if (v.empty()) return;
  {
    std::vector<T> empty;
    if (tryIt(empty)) { v = empty; return; }
  }
  while (v.size() >= 1 && now() < deadline) {
    size_t chunk = (v.size() + n - 1) / n;
    bool reduced = false;
    for (size_t s = 0; s < v.size() && now() < deadline; s += chunk) {
      std::vector<T> w(v.begin(), v.begin() + s);
      w.insert(w.end(), v.begin() + std::min(v.size(), s + chunk), v.end());
      if (w.size() == v.size()) continue;
      if (tryIt(w)) { v = w; n = std::max<size_t>(2, n - 1); reduced = true; break; }
    }
    if (!reduced) {
      if (chunk <= 1) break;
      n = std::min(v.size(), n * 2);
    }
  }
}

static Scenario minimise(const Harness& h, const Scenario& orig, const Outcome& first, double budget) {
  double deadline = now() + budget;
  Scenario best = orig;
  std::string cls = first.cls;
  if (cls == "hang") deadline = now() + budget * 2;
  auto attempt = [&](Scenario cand) -> bool {
    if (now() > deadline) return false;
    Outcome o = runOnce(h, cand);
    if (!same(o, cls)) return false;
    if (!o.sched.empty() || cand.replaySched) { cand.replaySched = true; cand.sched = o.sched; }
    best = cand;
    return true;
  };
  if (!first.sched.empty()) {
    Scenario c = best;
    c.replaySched = true;
    c.sched = first.sched;
    attempt(c);
  }
  for (int round = 0; round < 2; ++round) {
    auto tryOps = [&](const std::vector<Op>& ops) {
      Scenario c = best;
      c.ops = ops;
      if (attempt(c)) return true;
      if (best.replaySched) {
        for (int k = 0; k < 2; ++k) {
          c = best; c.ops = ops; c.replaySched = false; c.sched.clear();
          if (k) c.seed = best.seed + 1000003ull * k;
          if (attempt(c)) return true;
        }
      }
      return false;
    };
    std::vector<Op> ops = best.ops;
    ddmin(ops, tryOps, deadline);
    auto tryFaults = [&](const std::vector<Op>& f) { Scenario c = best; c.faults = f; return attempt(c); };
    std::vector<Op> faults = best.faults;
    ddmin(faults, tryFaults, deadline);
    for (auto kv : best.p) {
      if (kv.first.compare(0, 2, "n_") != 0) continue;
      for (i64 v : {(i64)1, kv.second / 2, kv.second - 1}) {
        if (v < 1 || v >= best.p[kv.first]) continue;
        Scenario c = best;
        c.p[kv.first] = v;
        if (attempt(c)) break;
      }
    }
    if (best.replaySched) {
      auto sched = best.sched;
      auto trySched = [&](const std::vector<std::pair<u64, u32>>& s) {
        if (now() > deadline) return false;
        Scenario c = best;
        c.sched = s;
        Outcome o = runOnce(h, c);
        if (!same(o, cls)) return false;
        best = c;   // keep exactly the list we asked for
        return true;
      };
      ddmin(sched, trySched, deadline);
    }
    if (now() > deadline) break;
  }
  return best;
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string outcomeJson(const Outcome& o) {
  return strf("{\"status\":%s,\"class\":%s,\"msg\":%s,\"hash\":\"%llu\",\"steps\":%llu,\"points\":%llu,\"switches\":%llu}",
              jstr(o.status).c_str(), jstr(o.cls).c_str(), jstr(o.msg).c_str(), (unsigned long long)o.hash,
              (unsigned long long)o.steps, (unsigned long long)o.points, (unsigned long long)o.switches);
}

static void loadKnown(const char* file) {
  g_known = new std::set<std::string>;
  FILE* f = fopen(file, "r");
  if (!f) return;
  char l[4096];
  while (fgets(l, sizeof l, f)) {
    auto w = split(l);
    if (w.size() >= 3 && w[0] == "known:" && w[1].compare(0, 9, "property=") == 0 && w[2].compare(0, 4, "sig=") == 0)
      g_known->insert(w[1].substr(9) + " " + w[2].substr(4));
  }
  fclose(f);
}

static const Harness* find(const std::string& p) {
  for (auto& h : harnesses()) if (p == h.prop) return &h;
  return nullptr;
}
static void doWarm(const Harness& h) {
  if (!h.warmup) return;
  alarm(200);   // takes a second or two
  g_simHeap = 1;
  h.warmup();
  g_simHeap = 0;
  alarm(0);
}
// The common set-up of all runs (building the test dictionary, training and loading the models) executes real code too.
// A child does it; the outcome says how it failed, if it did.
static Outcome trySetup(const Harness& h) {
  Outcome o;
  int fd[2];
  if (pipe(fd)) return o;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    doWarm(h);
    _exit(0);
  }
  close(fd[1]);
  std::string text;
  char b[4096];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) text.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o.status = "ok";
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    bool bad = sg == SIGSEGV || sg == SIGABRT || sg == SIGBUS || sg == SIGILL || sg == SIGFPE || sg == SIGTRAP || sg == SIGALRM;
    o.status = bad ? "violation" : "error";
    o.msg = strf(sg == SIGALRM ? "the set-up common to all runs does not end" : "the set-up common to all runs ended with signal %d", sg);
  } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
    size_t p = text.find("outside a run: ");
    o.status = p != std::string::npos ? "violation" : "error";
    o.msg = "the set-up common to all runs failed: " + text.substr(p == std::string::npos ? 0 : p + 15, 300);
    for (char& c : o.msg) if (c == '\n') c = ' ';
  }
  if (o.status == "violation") o.cls = "setup";
  o.hash = 1;
  return o;
}
static void rmTree(const std::string& p) {
  if (p.size() < 8 || p.find("jppsim") == std::string::npos) return;
  std::string c = "rm -rf '" + p + "'";
  if (system(c.c_str())) {}
}
}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  rtInit();
  setenv("TZ", "UTC", 1);
  setenv("LC_ALL", "C", 1);
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  auto opt = [&](const char* n, const char* d) -> std::string {
    for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1];
    return d;
  };
  if (cmd == "list") { for (auto& h : harnesses()) printf("%s\n", h.prop); return 0; }
  for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], "-v")) g_verbose = true;
  loadKnown(opt("--known", "/dev/null").c_str());
  auto absPath = [](std::string p) {
    char b[4096];
    return !p.empty() && p[0] != '/' && getcwd(b, sizeof b) ? std::string(b) + "/" + p : p;
  };
  std::string outdirAbs = absPath(opt("--outdir", "."));
  std::string fileArg = argc > 2 ? absPath(argv[2]) : "";
  // scratch directory of fixed length and name pattern; its name never influences a run
  // (every path seen by the program is relative to the working directory)
  std::string base = opt("--scratch", "");
  if (base.empty()) base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  char tmpl[512];
  snprintf(tmpl, sizeof tmpl, "%s/jppsimXXXXXX", base.c_str());
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  g_scratch = tmpl;
  if (chdir(tmpl)) { perror("chdir"); return 2; }
  setenv("HOME", "/nonexistent", 1);
  int rc = 2;
  if (cmd == "run" && argc > 2) {
    const Harness* h = find(argv[2]);
    if (!h) { fprintf(stderr, "no harness %s\n", argv[2]); rmTree(g_scratch); return 2; }
    u64 seed0 = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
    u64 cnt = strtoull(opt("--count", "100").c_str(), nullptr, 10);
    u64 shard = strtoull(opt("--shard", "0").c_str(), nullptr, 10), nsh = strtoull(opt("--nshards", "1").c_str(), nullptr, 10);
    double cap = atof(opt("--cap", "1e9").c_str());
    double minBudget = atof(opt("--min", "60").c_str());
    std::string outdir = outdirAbs;
    doWarm(*h);
    double t0 = now();
    u64 runs = 0, steps = 0, points = 0, switches = 0, events = 0, simns = 0, gatePairs = 0;
    std::map<std::string, u64> ctr;
    std::set<u64> states, scheds, hashes;
    Outcome bad;
    Scenario badSc;
    bool found = false, error = false;
    int nErrors = 0;
    std::string errMsg;
    for (u64 i = shard; i < cnt; i += nsh) {
      if (now() - t0 > cap) break;
      Scenario sc = h->gen(seed0 * 1000003ull + i);
      sc.prop = h->prop;
      sc.seed = seed0 * 1000003ull + i;
      Outcome o = runOnce(*h, sc);
      ++runs;
      steps += o.steps; points += o.points; switches += o.switches; events += o.events; simns += o.simns;
      for (auto& kv : o.ctr) ctr[kv.first] += kv.second;
      for (u64 s : o.states) if (states.size() < 2000000) states.insert(s);
      scheds.insert(o.schedhash);
      hashes.insert(o.hash);
      if (o.status == "ok" && (runs <= 2 || (i / nsh) % 64 == 0)) {  // keep proving determinism
        Outcome o2 = runOnce(*h, sc);
        ++gatePairs;
        if (o2.status != o.status || o2.hash != o.hash) {
          if (o2.status == "violation") { o = o2; }  // gated again below
          else {
            error = true;
            errMsg = strf("nondeterministic run: seed %llu", (unsigned long long)sc.seed);
            if (++nErrors >= 4) break;
            continue;
          }
        }
      }
      if (o.status == "error") {
        error = true;
        errMsg = o.msg + strf(" (seed %llu)", (unsigned long long)sc.seed);
        if (++nErrors >= 4) break;
        continue;
      }
      if (o.status == "violation") {
        Outcome o2 = runOnce(*h, sc);
        if (!same(o2, o.cls) || (o.cls != "hang" && o2.hash != o.hash)) {
          error = true;
          errMsg = strf("violation did not repeat: seed %llu %s/%s %s", (unsigned long long)sc.seed, o.cls.c_str(), o2.cls.c_str(), o.msg.c_str());
          if (++nErrors >= 4) break;
          continue;
        }
        bad = o; badSc = sc; found = true;
        break;
      }
    }
    std::string replay;
    Outcome fin;
    if (found) {
      Scenario m = minimise(*h, badSc, bad, minBudget);
      fin = runOnce(*h, m);
      Outcome fin2 = runOnce(*h, m);
      if (!same(fin, bad.cls) || !same(fin2, bad.cls) || (bad.cls != "hang" && fin.hash != fin2.hash)) {
        m = badSc;
        fin = runOnce(*h, m);
      }
      replay = outdir + strf("/%s-%llu.replay", h->prop, (unsigned long long)badSc.seed);
      std::string t = toText(m);
      t += "# original seed " + std::to_string(badSc.seed) + "\n# class " + fin.cls + "\n# hash " + std::to_string(fin.hash) + "\n# " + fin.msg + "\n";
      hostWrite(replay, t);
    }
    std::string j = "{";
    j += strf("\"prop\":\"%s\",\"runs\":%llu,\"gate_pairs\":%llu,\"steps\":%llu,\"points\":%llu,\"switches\":%llu,\"events\":%llu,\"simns\":%llu,\"wall\":%.3f",
              h->prop, (unsigned long long)runs, (unsigned long long)gatePairs, (unsigned long long)steps, (unsigned long long)points,
              (unsigned long long)switches, (unsigned long long)events, (unsigned long long)simns, now() - t0);
    j += ",\"ctr\":{";
    bool f1 = true;
    for (auto& kv : ctr) { j += (f1 ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); f1 = false; }
    j += "},\"states\":[";
    f1 = true;
    for (u64 s : states) { j += (f1 ? "\"" : ",\"") + std::to_string(s) + "\""; f1 = false; }
    j += "],\"scheds\":[";
    f1 = true;
    for (u64 s : scheds) { j += (f1 ? "\"" : ",\"") + std::to_string(s) + "\""; f1 = false; }
    j += "],\"hashes\":[";
    f1 = true;
    for (u64 s : hashes) { j += (f1 ? "\"" : ",\"") + std::to_string(s) + "\""; f1 = false; }
    j += "]";
    if (error) j += ",\"error\":" + jstr(errMsg);
    if (found) j += ",\"violation\":{\"replay\":" + jstr(replay) + ",\"seed\":\"" + std::to_string(badSc.seed) + "\",\"outcome\":" + outcomeJson(fin) + "}";
    j += "}\n";
    writeAll(1, j);
    rc = found ? 1 : error ? 2 : 0;
  } else if ((cmd == "one" || cmd == "gen") && argc > 3) {
    const Harness* h = find(argv[2]);
    doWarm(*h);
    Scenario sc = h->gen(strtoull(argv[3], nullptr, 10));
    sc.prop = h->prop;
    sc.seed = strtoull(argv[3], nullptr, 10);
    std::string t = toText(sc);
    printf("%s", t.c_str());
    fflush(stdout);
    if (cmd == "one") {
      double t0 = now();
      Outcome o = runOnce(*h, sc);
      std::string j = outcomeJson(o);
      printf("%s\n", j.c_str());
      for (auto& kv : o.ctr) printf("  %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
      printf("  sched %zu events %llu wall %.3f\n", o.sched.size(), (unsigned long long)o.events, now() - t0);
    }
    rc = 0;
  } else if (cmd == "replay" && argc > 2) {
    std::string t;
    Scenario sc;
    if (!hostRead(fileArg, &t) || !fromText(t, &sc)) { fprintf(stderr, "cannot read %s\n", argv[2]); rmTree(g_scratch); return 2; }
    const Harness* h = find(sc.prop);
    if (!h) { rmTree(g_scratch); return 2; }
    Outcome o;
    if (sc.get("setup_only")) o = trySetup(*h);
    else {
      doWarm(*h);
      o = runOnce(*h, sc);
    }
    std::string j = outcomeJson(o);
    printf("%s\n", j.c_str());
    rc = o.status == "violation" ? 1 : o.status == "ok" ? 0 : 2;
  } else if (cmd == "setup" && argc > 2) {
    const Harness* h = find(argv[2]);
    if (!h) { rmTree(g_scratch); return 2; }
    Outcome o = trySetup(*h);
    std::string j;
    if (o.status == "violation") {
      Scenario sc;
      sc.prop = h->prop;
      sc.p["setup_only"] = 1;
      std::string replay = outdirAbs + strf("/%s-setup.replay", h->prop);
      hostWrite(replay, toText(sc) + "# class setup\n# " + o.msg + "\n");
      j = strf("{\"replay\":%s,\"seed\":\"0\",\"outcome\":%s}\n", jstr(replay).c_str(), outcomeJson(o).c_str());
    } else j = outcomeJson(o) + "\n";
    writeAll(1, j);
    rc = o.status == "violation" ? 1 : o.status == "ok" ? 0 : 2;
  } else if (cmd == "hashes" && argc > 2) {
    const Harness* h = find(argv[2]);
    u64 seed0 = strtoull(opt("--seed", "1").c_str(), nullptr, 10), cnt = strtoull(opt("--count", "20").c_str(), nullptr, 10);
    doWarm(*h);
    for (u64 i = 0; i < cnt; ++i) {
      Scenario sc = h->gen(seed0 * 1000003ull + i);
      sc.prop = h->prop;
      sc.seed = seed0 * 1000003ull + i;
      Outcome o = runOnce(*h, sc);
      printf("%llu %s %s %llu\n", (unsigned long long)sc.seed, o.status.c_str(), o.cls.c_str(), (unsigned long long)o.hash);
    }
    rc = 0;
  }
  if (chdir("/")) {}
  rmTree(g_scratch);
  fflush(stdout);
  return rc;
}
