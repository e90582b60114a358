// C02: work queue linearizable to a bounded FIFO, executor turns each job into exactly one result.
// C03: progress and shutdown of the queue / executor / training environment.
#include "hcommon.h"
#include "fake_trainer.h"
#include "core/training/training_executor.h"
#include "util/bounded_queue.h"
#include <algorithm>
#include <unordered_set>

using namespace sim;
using namespace h;
namespace jt = jumanpp::core::training;
void trainWarm();
void genEnvShutdown(Scenario& s, Rng& r);
void runEnvShutdown(const Scenario& s);

namespace {
// ------------------------------------------------------------- linearizability of one queue
struct Tok {  // movable payload with a check word: copies, torn or stale values are noticed
  int id = 0;
  int check = 0;
  Tok() {}
  explicit Tok(int i) : id(i), check(i * 7 + 1) {}
  Tok(Tok&& o) noexcept : id(o.id), check(o.check) { o.id = -1; o.check = 0; }
  Tok& operator=(Tok&& o) noexcept {
    id = o.id; check = o.check;
    o.id = -1; o.check = 0;
    return *this;
  }
  bool ok() const { return id > 0 && check == id * 7 + 1; }
};
enum Kind { kOffer, kRecv, kWait };
struct Rec { int kind; int tid; int val; u32 reserve; bool ok; u64 inv, ret; };
struct History {
  std::vector<Rec> v;
  u64 clock = 0;
};
History* g_hist;
u64 stamp() { HostScope hs; return ++g_hist->clock; }
void record(const Rec& r) { HostScope hs; g_hist->v.push_back(r); }

struct Lin {
  const std::vector<Rec>& ops;
  u32 cap;
  std::unordered_set<u64> seen;
  u64 visited = 0;
  explicit Lin(const std::vector<Rec>& o, u32 c) : ops(o), cap(c) {}
  bool go(std::vector<bool>& done, size_t ndone, std::vector<int>& q) {
    if (ndone == ops.size()) return true;
    if (++visited > 3000000) return true;  // give up: not a violation
    u64 key = 1469598103934665603ull;
    for (bool b : done) key = (key ^ (b ? 2 : 1)) * 1099511628211ull;
    for (int x : q) key = (key ^ (u64)(x + 5)) * 1099511628211ull;
    if (!seen.insert(key).second) return false;
    u64 minRet = ~0ull;
    for (size_t i = 0; i < ops.size(); ++i)
      if (!done[i] && ops[i].ret < minRet) minRet = ops[i].ret;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (done[i] || ops[i].inv > minRet) continue;
      const Rec& r = ops[i];
      u32 rem = cap - (u32)q.size();
      if (r.kind == kOffer) {
        bool can = rem > r.reserve;
        if (can != r.ok) continue;
        done[i] = true;
        if (can) q.push_back(r.val);
        bool f = go(done, ndone + 1, q);
        if (can) q.pop_back();
        done[i] = false;
        if (f) return true;
      } else if (!r.ok) {
        if (!q.empty()) continue;
        done[i] = true;
        bool f = go(done, ndone + 1, q);
        done[i] = false;
        if (f) return true;
      } else {
        if (q.empty() || q[0] != r.val) continue;
        std::vector<int> q2(q.begin() + 1, q.end());
        done[i] = true;
        bool f = go(done, ndone + 1, q2);
        done[i] = false;
        if (f) return true;
      }
    }
    return false;
  }
};
std::string histText(const std::vector<Rec>& v) {
  std::string s;
  for (auto& r : v)
    s += strf(" [t%d %s %d%s %llu-%llu]", r.tid, r.kind == kOffer ? "offer" : r.kind == kRecv ? "recieve" : "waitFor", r.val,
              r.ok ? "" : "=no", (unsigned long long)r.inv, (unsigned long long)r.ret);
  return s;
}

typedef jumanpp::util::bounded_queue<Tok> Q;

void doOffer(Q* q, int tid, int val, u32 reserve) {
  Rec r{kOffer, tid, val, reserve, false, stamp(), 0};
  r.ok = q->offer(Tok(val), reserve);
  r.ret = stamp();
  record(r);
}
bool doRecv(Q* q, int tid) {
  Rec r{kRecv, tid, 0, 0, false, stamp(), 0};
  Tok t;
  r.ok = q->recieve(&t);
  r.ret = stamp();
  if (r.ok && !t.ok()) violation("queue-item", "a received item was not the one that was put in (id %d check %d)", t.id, t.check);
  r.val = r.ok ? t.id : 0;
  record(r);
  return r.ok;
}
int doWait(Q* q, int tid) {
  Rec r{kWait, tid, 0, 0, true, stamp(), 0};
  Tok t = q->waitFor();
  r.ret = stamp();
  if (!t.ok()) violation("queue-item", "a received item was not the one that was put in (id %d check %d)", t.id, t.check);
  r.val = t.id;
  record(r);
  return t.id;
}

struct Shared { std::vector<int>* pending; };

void runQueue(const Scenario& sc, bool liveness) {
  u32 cap = (u32)std::max<i64>(1, sc.get("n_capacity", 2));
  int nt = 0, waits = 0;
  for (auto& o : sc.ops) {
    nt = std::max(nt, (int)o.arg(0) + 1);
    if (o.kind == "wait") ++waits;
  }
  {
    HostScope hs;
    g_hist = new History;
  }
  schedStart(schedCfg(sc), sc);
  count(schedKind(sc.get("strategy")));
  std::unique_ptr<Q> q;
  if (sc.get("late_init")) {
    q.reset(new Q());
    q->initialize(cap);
  } else {
    q.reset(new Q(cap));
  }
  static int liveWaiters;
  liveWaiters = nt;
  std::vector<std::unique_ptr<h::Thread>> th;
  for (int t = 0; t < nt; ++t) {
    Q* qp = q.get();
    const Scenario* s = &sc;
    th.emplace_back(new h::Thread([qp, s, t, liveness]() {
      int seq = 0;
      for (auto& o : s->ops) {
        if (o.arg(0) != t) continue;
        if (o.kind == "offer") doOffer(qp, t + 1, (t + 1) * 1000 + ++seq, (u32)o.arg(1));
        else if (o.kind == "recv") doRecv(qp, t + 1);
        else if (o.kind == "wait") doWait(qp, t + 1);
        else if (o.kind == "unblock") qp->unblock_all();
        else if (o.kind == "yield") for (i64 k = 0; k < o.arg(1); ++k) yieldPoint();
      }
      HostScope hs;
      --liveWaiters;
    }));
  }
  // keep feeding until every waiting receiver was served; each accepted item can serve one
  int fed = 0;
  for (;;) {
    bool done;
    { HostScope hs; done = liveWaiters == 0; }
    if (done) break;
    size_t accepted, taken;
    {
      HostScope hs;
      accepted = taken = 0;
      for (auto& r : g_hist->v) {
        if (r.kind == kOffer && r.ok) ++accepted;
        if (r.kind != kOffer && r.ok) ++taken;
      }
    }
    if (waits && accepted == taken && fed < waits + 64) doOffer(q.get(), 0, 900000 + ++fed, 0);
    spinPoint();
  }
  for (auto& t : th) t->join();
  th.clear();
  while (doRecv(q.get(), 0)) {}
  schedStop();
  q.reset();
  HostScope hs;
  count("queue.ops", g_hist->v.size());
  u64 refused = 0;
  for (auto& r : g_hist->v) refused += !r.ok;
  count("queue.refused_or_empty", refused);
  std::vector<Rec> ops = g_hist->v;
  std::sort(ops.begin(), ops.end(), [](const Rec& a, const Rec& b) { return a.inv < b.inv; });
  u64 sh = 0;
  for (auto& r : ops) { sh = hashBytes(&r.kind, sizeof r.kind, sh); sh = hashBytes(&r.val, sizeof r.val, sh); }
  stateMark(sh);
  // ordinary receives at the same instant etc. are all covered by the search
  Lin lin(ops, cap);
  std::vector<bool> done(ops.size());
  std::vector<int> st;
  if (!lin.go(done, 0, st))
    violation("not-linearizable", "no sequential order of a bounded FIFO of capacity %u explains the history:%s", cap, histText(ops).c_str());
  if (lin.visited > 3000000) count("lin.gave_up");
  count("lin.states", lin.visited);
}

// ------------------------------------------------------------- executor
void runExecutor(const Scenario& sc, bool drain) {
  u32 nthr = (u32)std::max<i64>(0, sc.get("n_threads", 2));
  std::vector<FakeTrainer*> jobs;
  for (auto& o : sc.ops)
    if (o.kind == "job") jobs.push_back(new FakeTrainer((int)jobs.size(), (int)o.arg(0), (int)o.arg(1)));
  schedStart(schedCfg(sc), sc);
  count(schedKind(sc.get("strategy")));
  i64 failAt = sc.get("create_fail", -1);
  auto ex = new jt::TrainingExecutor();
  if (failAt >= 0) schedFailCreate((int)failAt);
  jumanpp::core::analysis::ScorerDef sd{};
  jumanpp::Status st = ex->initialize(&sd, nthr);
  if (failAt >= 0) schedFailCreate(-1);
  bool usable = st.isOk() && nthr > 0;
  if (st.isOk() && nthr > 0 && failAt < 0) count("executor.started");
  if (!st.isOk() && failAt < 0 && nthr > 0) violation("executor", "initialisation failed without a reason: %s", statusText(st).c_str());
  if (st.isOk() && nthr == 0) violation("no-progress", "an executor without threads was accepted: no submitted job can ever finish");
  if (!st.isOk()) count("executor.init_refused");
  i64 collect = drain ? (i64)jobs.size() : sc.get("collect", 0);
  i64 submitLimit = drain ? (i64)jobs.size() : sc.get("submit", 0);
  size_t next = 0, got = 0;
  std::vector<int> results(jobs.size(), 0);
  auto take = [&](jt::TrainingExecutionResult& r) {
    auto t = static_cast<FakeTrainer*>(r.trainer);
    bool mine = false;
    for (auto j : jobs) mine |= j == t;
    if (!mine) violation("result", "a result carries a trainer which was not submitted");
    if (++results[t->id] > t->submitted) violation("result", "job %d produced %d results for %d submissions", t->id, results[t->id], t->submitted);
    // plain reads: the result must be ordered after the work (checked by the race detector)
    if (t->computed != t->expectComputed(results[t->id]) || t->prepared != results[t->id])
      violation("result", "job %d: result %d came with prepare=%d compute=%d", t->id, results[t->id], t->prepared, t->computed);
    if (t->running) violation("result", "job %d is still running while its result is handed out", t->id);
    bool wantOk = t->mode == 0;
    if (r.processStatus.isOk() != wantOk)
      violation("result", "job %d of kind %d: status %s", t->id, t->mode, r.processStatus.isOk() ? "Ok" : statusText(r.processStatus).c_str());
    if (!wantOk) {
      std::string m = statusText(r.processStatus);
      if (m.find(t->comment) == std::string::npos || m.find(strf("line %d ", t->line)) == std::string::npos || m.find(t->file) == std::string::npos)
        violation("result", "error of job %d does not name its example: %s", t->id, m.c_str());
    }
    ++got;
    count("executor.results");
  };
  if (usable) {
    int resub = (int)sc.get("resubmit");
    std::vector<FakeTrainer*> todo(jobs.begin(), jobs.end());
    for (int k = 0; k < resub; ++k) todo.insert(todo.end(), jobs.begin(), jobs.end());
    if (drain) { submitLimit = (i64)todo.size(); collect = (i64)todo.size(); }
    size_t poll = (size_t)sc.get("poll");
    u64 spins = 0;
    while ((i64)next < std::min<i64>(submitLimit, (i64)todo.size()) || (i64)got < std::min<i64>(collect, (i64)next)) {
      bool progress = false;
      while ((i64)next < std::min<i64>(submitLimit, (i64)todo.size())) {
        FakeTrainer* t = todo[next];
        if (results[t->id] != t->submitted) break;  // still in flight
        t->submitted++;
        if (!ex->submitNext(t)) {
          t->submitted--;
          if (got == next) violation("executor", "a job was refused although nothing is outstanding");
          count("executor.refused");
          break;
        }
        ++next;
        progress = true;
      }
      if (got < next && (i64)got < collect) {
        jt::TrainingExecutionResult r;
        if (poll && (spins % (poll + 1)) != 0) {
          if (ex->resultWithoutWait(&r)) { take(r); progress = true; }
        } else {
          r = ex->waitOne();
          take(r);
          progress = true;
        }
      }
      ++spins;
      if (!progress) {
        if ((i64)got >= collect && (i64)next < submitLimit) break;  // queue full and nobody collects: destroy now
        spinPoint();
      }
    }
  }
  for (i64 k = 0; k < sc.get("delay"); ++k) yieldPoint();
  delete ex;
  count("executor.destroyed");
  if (next > got) count("executor.destroyed_with_outstanding", 1);
  schedStop();
  for (auto j : jobs) {
    if (j->running) violation("shutdown", "job %d was still running after the executor was destroyed", j->id);
    if (j->prepared > j->submitted) violation("result", "job %d ran %d times for %d submissions", j->id, j->prepared, j->submitted);
    if (drain && usable && j->prepared != j->submitted) violation("result", "job %d ran %d times for %d submissions", j->id, j->prepared, j->submitted);
  }
  stateMark(((u64)next << 32) ^ (got << 16) ^ schedSwitches());
  for (auto j : jobs) delete j;
}

void genQueueOps(Scenario& s, Rng& r, bool liveness) {
  s.p["mode"] = 0;
  s.p["n_capacity"] = r.range(1, 6);
  s.p["late_init"] = r.chance(1, 3);
  int nt = (int)r.range(2, 4);
  int nops = (int)r.range(4, 26);
  int style = (int)r.range(0, 2);
  for (int i = 0; i < nops; ++i) {
    int t = (int)r.below(nt);
    bool prod = style == 0 ? (t % 2 == 0) : r.chance(1, 2);
    u64 k = r.below(10);
    if (prod) s.ops.push_back(k == 0 ? Op("unblock", {t}) : k == 1 ? Op("yield", {t, r.range(1, 4)})
                                                                  : Op("offer", {t, r.chance(1, 4) ? r.range(1, 3) : 0}));
    else s.ops.push_back(k < (liveness ? 8u : 5u) ? Op("wait", {t}) : Op("recv", {t}));
  }
}
void genJobs(Scenario& s, Rng& r, bool failing) {
  int n = (int)r.range(1, 14);
  for (int i = 0; i < n; ++i)
    s.ops.push_back(Op("job", {failing && r.chance(1, 4) ? r.range(1, FakeTrainer::kKinds - 1) : 0, r.range(0, 6)}));
  s.p["n_threads"] = r.range(1, 5);
}

Scenario genC02(u64 seed) {
  Rng r(seed);
  Scenario s;
  genSched(s, r, true);
  if (r.chance(3, 5)) {
    genQueueOps(s, r, false);
  } else {
    s.p["mode"] = 1;
    genJobs(s, r, true);
    s.p["poll"] = r.range(0, 3);
    s.p["resubmit"] = r.range(0, 2);
    s.p["collect"] = 1000;
  }
  return s;
}
void execC02(const Scenario& s) {
  quiet();
  if (s.get("mode") == 0) runQueue(s, false);
  else runExecutor(s, true);
}

Scenario genC03(u64 seed) {
  Rng r(seed);
  Scenario s;
  genSched(s, r, true);
  u64 k = r.below(10);
  if (k < 2) {
    genQueueOps(s, r, true);
  } else if (k < 8) {
    s.p["mode"] = 1;
    genJobs(s, r, true);
    s.p["submit"] = r.range(0, 16);
    s.p["collect"] = r.chance(1, 3) ? 0 : r.range(0, 16);
    s.p["poll"] = r.range(0, 1);
    s.p["resubmit"] = r.range(0, 1);
    s.p["delay"] = r.chance(1, 2) ? 0 : r.range(0, 60);
    if (r.chance(1, 5)) s.p["create_fail"] = r.range(0, 4);
    if (r.chance(1, 25)) s.p["n_threads"] = 0;
  } else {
    genEnvShutdown(s, r);
  }
  return s;
}
void execC03(const Scenario& s) {
  quiet();
  if (s.get("mode") == 0) runQueue(s, true);
  else if (s.get("mode") == 2) runEnvShutdown(s);
  else runExecutor(s, false);
}
Registrar r2(Harness{"C02", nullptr, genC02, execC02, 20});
Registrar r3(Harness{"C03", trainWarm, genC03, execC03, 20});
}  // namespace
