// C06 history independence of analysis, C07 analyzers in several threads, C08 failing allocations.
#include "hcommon.h"
#include "world.h"
#include "anexec.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/impl/segmented_format.h"
#include "core/input/pex_stream_reader.h"
#include "core/proto/lattice_dump_output.h"
#include "jumandic/shared/jumandic_env.h"
#include <algorithm>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jd = jumanpp::jumandic;

using namespace an;
namespace {
// ------------------------------------------------------------------ C06
Scenario genC06(u64 seed) {
  Rng r(seed);
  Scenario s;
  genConfig(s, r);
  genHeap(s, r);
  genPages(s, r);
  int n = (int)r.range(2, 7);
  bool pages = r.chance(1, 12);   // inputs near the length limit
  s.p["b_reused"] = r.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 4)) {
      s.ops.push_back(Op("pex", {}, {genPex(r, 4)}));
      continue;
    }
    std::string t = genText(r, (int)r.pick<i64>({3, 6, 12}));
    if (pages && i + 1 < n && r.chance(1, 2)) {
      std::string b = t.empty() ? "京" : t;
      size_t want = r.pick<size_t>({400, 1000, 4096, 4097, 5000, 70000});
      // only rejected inputs are that long: accepted ones cost too much here
      if (want < 4096) want = 300 + r.below(300);
      t.clear();
      while (t.size() < want) t += b;
      if (want == 4096) t = t.substr(0, 4096 - r.below(3)) + std::string("あ");
    }
    Op o("raw", {}, {t, r.chance(1, 3) ? strf("c%d", i) : ""});
    s.ops.push_back(o);
    if (r.chance(1, 6)) s.ops.push_back(Op("again", {}, {}));
  }
  // come back to an earlier input
  if (r.chance(1, 2)) { Op o = s.ops[r.below(s.ops.size())]; if (o.kind != "again") s.ops.push_back(o); }
  if (r.chance(1, 3)) s.p["alone"] = (i64)r.below(s.ops.size());
  return s;
}
// the result of one operation in a process which does nothing else
bool aloneInProcess(Exec& e, const Op& o, Result* res) {
  int fd[2];
  fflush(nullptr);
  if (pipe(fd) != 0) harnessError("pipe");
  pid_t pid = fork();
  if (pid < 0) harnessError("fork");
  if (pid == 0) {
    ::close(fd[0]);
    Status f = e.fresh();
    if (!f) _exit(3);
    Result r = runOp(e, o);
    HostScope hs;
    std::string m = std::string(r.ok ? "1" : "0") + strf("%zu:", r.msg.size()) + r.msg + r.out;
    for (size_t p = 0; p < m.size();) {
      ssize_t n = ::write(fd[1], m.data() + p, m.size() - p);
      if (n <= 0) _exit(4);
      p += (size_t)n;
    }
    _exit(0);
  }
  HostScope hs;
  ::close(fd[1]);
  std::string m;
  char b[4096];
  for (ssize_t n; (n = ::read(fd[0], b, sizeof b)) > 0;) m.append(b, (size_t)n);
  ::close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || m.size() < 3) return false;
  size_t c = m.find(':');
  size_t len = (size_t)atoll(m.c_str() + 1);
  res->ok = m[0] == '1';
  res->msg = m.substr(c + 1, len);
  res->out = m.substr(c + 1 + len);
  return true;
}
void execC06(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  count(fmtName(s.get("format")));
  if (s.get("rnn")) count("model.with_rnn");
  Exec &a = *g_exec[s.get("rnn")][0], &b = *g_exec[s.get("rnn")][1];
  a.configure(s);
  b.configure(s);
  // one of the inputs is also analysed by a process of its own
  int alone = (int)s.get("alone", -1);
  Result ar;
  if (alone >= 0 && alone < (int)s.ops.size() && s.ops[alone].kind != "again") {
    if (!aloneInProcess(b, s.ops[alone], &ar)) alone = -1;
  } else alone = -1;
  Status st = a.fresh();
  Status st2 = b.fresh();
  if (st.isOk() != st2.isOk()) violation("history", "the analyzer could be created only once");
  if (!st) {
    event("config-rejected");
    count("probe.config_rejected");
    finishRun();
  }
  Result last;
  bool haveLast = false;
  int idx = 0;
  for (auto& o : s.ops) {
    if (o.kind == "again") {
      // formatting once more, without a new analysis
      if (!haveLast || !last.ok) continue;
      const Op* prev = nullptr;
      for (auto& p : s.ops) { if (&p == &o) break; prev = &p; }
      if (!prev || prev->kind != "raw") continue;
      Status fs = a.format()->format(*a.analyzerPtr(), prev->s.size() > 1 ? StringPiece(prev->s[1]) : EMPTY_SP);
      if (!fs) violation("format-again", "formatting the same analysis again fails: %s", statusText(fs).c_str());
      std::string o2 = a.output().str();
      if (o2 != last.out) violation("format-again", "formatting the same analysis again gives [%s] instead of [%s]", shorten(o2).c_str(), shorten(last.out).c_str());
      count("probe.formatted_again");
      continue;
    }
    Result ra = runOp(a, o);
    // a fresh analyzer and formatter
    Status f = b.fresh();
    if (!f) violation("history", "an analyzer cannot be created later: %s", statusText(f).c_str());
    Result rb = runOp(b, o);
    if (!(ra == rb)) {
      std::string al = ra.ok ? ra.out : ra.msg, bl = rb.ok ? rb.out : rb.msg;
      size_t d = 0;
      while (d < al.size() && d < bl.size() && al[d] == bl[d]) ++d;
      size_t from = d > 40 ? d - 40 : 0;
      while (from && ((unsigned char)al[from] & 0xc0) == 0x80) --from;
      violation("history", "input %d [%s] (%s): after earlier inputs %s, fresh %s; first difference at byte %zu: ...[%s] vs ...[%s]", idx, shorten(o.s[0]).c_str(), o.kind.c_str(),
                ra.ok ? "ok" : "error", rb.ok ? "ok" : "error", d, shorten(al.substr(std::min(from, al.size()))).c_str(), shorten(bl.substr(std::min(from, bl.size()))).c_str());
    }
    if (alone >= 0 && &o == &s.ops[alone]) {
      count("probe.process_of_its_own");
      if (!(ra == ar)) violation("history", "input %d [%s] (%s): after earlier inputs %s [%s], in a process of its own %s [%s]", idx, shorten(o.s[0]).c_str(), o.kind.c_str(), ra.ok ? "ok" : "error",
                                 shorten(ra.ok ? ra.out : ra.msg).c_str(), ar.ok ? "ok" : "error", shorten(ar.ok ? ar.out : ar.msg).c_str());
    }
    eventBytes("result", ra.ok ? ra.out.data() : ra.msg.data(), ra.ok ? ra.out.size() : ra.msg.size());
    trace("%s [%s] -> %s [%s]", o.kind.c_str(), shorten(o.s[0]).c_str(), ra.ok ? "ok" : "error", shorten(ra.ok ? ra.out : ra.msg).c_str());
    count(ra.ok ? "probe.accepted" : "probe.rejected");
    stateMark(hashBytes(ra.out.data(), ra.out.size()));
    last = ra;
    haveLast = true;
    ++idx;
  }
  finishRun();
}

// ------------------------------------------------------------------ C07
struct Worker {
  std::vector<const Op*> ops;
  std::vector<Result> expect, got;
  std::string error;
};
// an analyzer and a formatter of its own, from a shared environment
struct Own {
  core::analysis::Analyzer an;
  std::unique_ptr<Exec> fmtExec;
};
struct SharedFormat : Exec {};

Status makeFormat(const Scenario& s, Exec& shared, core::analysis::Analyzer& an, std::unique_ptr<core::OutputFormat>* out);
}  // namespace

#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/juman_pb_format.h"
#include "jumandic/shared/jumanpp_pb_format.h"
#include "core/impl/global_beam_position_fmt.h"

namespace {
Status makeFormat(const Scenario& s, Exec& shared, core::analysis::Analyzer& an, std::unique_ptr<core::OutputFormat>* out) {
  i32 n = (i32)s.get("beam_out");
  if (n == -1) n = (i32)s.get("beam");
  switch ((jd::OutputType)s.get("format")) {
    case jd::OutputType::Juman: { auto f = new jd::output::JumanFormat; out->reset(f); return f->initialize(an.output()); }
    case jd::OutputType::Morph: { auto f = new jd::output::MorphFormat(false); out->reset(f); return f->initialize(an.output()); }
    case jd::OutputType::FullMorph: { auto f = new jd::output::MorphFormat(true); out->reset(f); return f->initialize(an.output()); }
    case jd::OutputType::DicSubset: { auto f = new jd::output::SubsetFormat; out->reset(f); return f->initialize(an.output()); }
    case jd::OutputType::Lattice: { auto f = new jd::output::LatticeFormat{n}; out->reset(f); return f->initialize(an.output()); }
    case jd::OutputType::Segmentation: { auto f = new core::output::SegmentedFormat; out->reset(f); return f->initialize(an.output(), shared.core(), " "); }
    case jd::OutputType::JumanPb: { auto f = new jd::JumanPbFormat; out->reset(f); return f->initialize(an.output(), shared.ids(), true); }
    case jd::OutputType::LatticePb: { auto f = new jd::JumanppProtobufOutput; out->reset(f); return f->initialize(an.output(), shared.ids(), n, true); }
    case jd::OutputType::FullLatticeDump: {
      auto f = new core::output::LatticeDumpOutput{true, true};
      out->reset(f);
      JPP_RETURN_IF_ERROR(f->initialize(an.impl(), &shared.environment().featureScorer()->weights()));
      an.impl()->setStoreAllPatterns(true);
      return Status::Ok();
    }
    default: { auto f = new core::output::GlobalBeamPositionFormat{(i32)s.get("gbeam")}; out->reset(f); return f->initialize(an); }
  }
}
// what one thread does: creates its analyzer(s), analyses its inputs, destroys the analyzer
void runWorker(const Scenario& s, Exec& shared, const std::vector<const Op*>& ops, std::vector<Result>* got) {
  std::unique_ptr<core::analysis::Analyzer> an;
  std::unique_ptr<core::OutputFormat> fmt;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& o = *ops[i];
    Result r;
    Status st = Status::Ok();
    try {
      if (!an || o.arg(1)) {
        fmt.reset();
        an.reset(new core::analysis::Analyzer);
        st = shared.initAnalyzer(an.get());
        if (st) st = makeFormat(s, shared, *an, &fmt);
      }
      if (st && o.kind == "pex") {
        core::input::PexStreamReader rdr;
        st = rdr.initialize(shared.core(), '&');
        std::stringstream ss(o.s[0]);
        if (st) st = rdr.readExample(&ss);
        if (st) st = rdr.analyzeWith(an.get());
        if (st) st = fmt->format(*an, rdr.comment());
      } else if (st) {
        st = an->analyze(o.s[0]);
        if (st) st = fmt->format(*an, o.s.size() > 1 ? StringPiece(o.s[1]) : EMPTY_SP);
      }
    } catch (std::exception& e) {
      r.msg = std::string("exception: ") + e.what();
      got->push_back(r);
      continue;
    }
    r.ok = st.isOk();
    if (st) r.out = fmt->result().str();
    else r.msg = statusText(st);
    got->push_back(r);
    yieldPoint();
  }
}
Scenario genC07(u64 seed) {
  Rng r(seed);
  Scenario s;
  genConfig(s, r);
  genHeap(s, r);
  genPages(s, r);
  genSched(s, r, false);
  s.p["access_ppm"] = r.pick<i64>({0, 300, 3000, 20000});
  s.p["pct_len"] = r.pick<i64>({5000, 50000, 300000});
  int n = (int)r.range(2, 4);
  s.p["threads"] = n;
  s.p["cold"] = r.chance(1, 2);   // the expected results are computed after the concurrent ones
  for (int t = 0; t < n; ++t) {
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k; ++i) {
      bool again = r.chance(1, 4);
      if (r.chance(1, 5)) s.ops.push_back(Op("pex", {t, again}, {genPex(r, 2)}));
      else s.ops.push_back(Op("raw", {t, again}, {genText(r, 4), r.chance(1, 3) ? strf("c%d", i) : ""}));
    }
  }
  return s;
}
void execC07(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  count(fmtName(s.get("format")));
  if (s.get("rnn")) count("model.with_rnn");
  Exec& shared = *g_exec[s.get("rnn")][0];
  shared.configure(s);
  int n = (int)s.get("threads");
  std::vector<Worker> w(n);
  for (auto& o : s.ops) w[o.arg(0) % n].ops.push_back(&o);
  auto alone = [&] { for (auto& x : w) runWorker(s, shared, x.ops, &x.expect); };
  if (!s.get("cold")) alone();
  schedStart(schedCfg(s), s);
  {
    std::vector<std::unique_ptr<h::Thread>> ts;
    for (auto& x : w) ts.emplace_back(new h::Thread([&s, &shared, &x] { runWorker(s, shared, x.ops, &x.got); }));
    for (auto& t : ts) t->join();
  }
  schedStop();
  count(schedKind(s.get("strategy")));
  if (s.get("cold")) alone();
  for (int t = 0; t < n; ++t) {
    for (size_t i = 0; i < w[t].ops.size(); ++i) {
      auto &g = w[t].got[i], &e = w[t].expect[i];
      if (!(g == e))
        violation("concurrent-result", "thread %d, input [%s]: alone %s [%s], together with the other threads %s [%s]", t, shorten(w[t].ops[i]->s[0]).c_str(), e.ok ? "ok" : "error",
                  shorten(e.ok ? e.out : e.msg).c_str(), g.ok ? "ok" : "error", shorten(g.ok ? g.out : g.msg).c_str());
      eventBytes("result", g.out.data(), g.out.size());
      stateMark(hashBytes(g.out.data(), g.out.size()));
      count(g.ok ? "probe.accepted" : "probe.rejected");
    }
  }
  finishRun();
}

// ------------------------------------------------------------------ C08
Scenario genC08(u64 seed) {
  Rng r(seed);
  Scenario s;
  // the protobuf library makes no promise about its objects once an allocation of its own has
  // failed, so the formats which are built on it are left out here
  auto kind = jd::OutputType::Juman;
  do {
    s = Scenario();
    genConfig(s, r);
    kind = (jd::OutputType)s.get("format");
  } while (kind == jd::OutputType::JumanPb || kind == jd::OutputType::LatticePb || kind == jd::OutputType::FullLatticeDump);
  genHeap(s, r);
  genPages(s, r);
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 4)) s.ops.push_back(Op("pex", {}, {genPex(r, 3)}));
    else s.ops.push_back(Op("raw", {}, {genText(r, (int)r.pick<i64>({3, 8})), r.chance(1, 3) ? strf("c%d", i) : ""}));
  }
  // where memory runs out: in the creation of the analyzer (op -1), or in one of the analyses
  int k = (int)r.range(1, 3);
  for (int i = 0; i < k; ++i) {
    i64 where = r.range(-1, n - 1);
    i64 nth = r.chance(1, 4) ? r.range(0, 9) : r.chance(1, 2) ? r.range(0, 60) : r.range(0, 400);
    s.faults.push_back(Op("oom", {where, nth, r.pick<i64>({1, 1, 2, 5, -1})}));
  }
  return s;
}
Result guarded(Exec& e, const Op& o, const Op* fault, bool* hit) {
  Result r;
  u64 f0 = heapFailed();
  if (fault) heapFailAt(fault->arg(1), fault->arg(2, 1));
  // strings of the harness are copied while allocations work
  Status s = Status::Ok();
  int how = 0;  // 0 status, 1 bad_alloc, 2 other exception
  std::string what;
  try {
    if (o.kind == "pex") {
      core::input::PexStreamReader rdr;
      s = rdr.initialize(e.core(), '&');
      std::istringstream* ss = nullptr;
      {
        heapFailAt(-1, 0);
        HostScope hs;
        ss = new std::istringstream(o.s[0]);
      }
      u64 used = 0;
      (void)used;
      if (fault && heapFailed() == f0) heapFailAt(fault->arg(1), fault->arg(2, 1));
      struct Del { std::istringstream* p; ~Del() { HostScope hs; delete p; } } del{ss};
      if (s) s = rdr.readExample(ss);
      if (s) s = rdr.analyzeWith(e.analyzerPtr());
      if (s) s = e.format()->format(*e.analyzerPtr(), rdr.comment());
    } else {
      s = e.analyze(o.s[0], o.s.size() > 1 ? StringPiece(o.s[1]) : EMPTY_SP);
    }
  } catch (std::bad_alloc&) {
    how = 1;
  } catch (std::exception& x) {
    how = 2;
    heapFailAt(-1, 0);
    what = x.what();
  } catch (...) {
    how = 3;
  }
  heapFailAt(-1, 0);
  *hit = heapFailed() != f0;
  if (how == 3) violation("oom-exception", "an exception which is not a standard one leaves the analyzer");
  if (how == 2 && *hit) {
    // bad_alloc, or anything the library documents as an out-of-memory report, only
    violation("oom-exception", "out of memory is reported as the exception %s", what.c_str());
  }
  if (how == 2) { r.msg = what; return r; }
  if (how == 1) {
    if (!*hit && !pageShift()) violation("spurious-oom", "out of memory is reported although no allocation failed, input [%s]", shorten(o.s[0]).c_str());
    r.msg = "bad_alloc";
    return r;
  }
  r.ok = s.isOk();
  if (s) r.out = e.output().str();
  else r.msg = statusText(s);
  return r;
}
void execC08(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  Exec &a = *g_exec[s.get("rnn")][0], &b = *g_exec[s.get("rnn")][1];
  a.configure(s);
  b.configure(s);
  stepBudget(3000000000ull);
  // expected results, with memory available
  std::vector<Result> expect;
  {
    Status f = b.fresh();
    if (!f) { event("config-rejected"); finishRun(); }
    for (auto& o : s.ops) {
      if (!b.fresh()) harnessError("fresh");
      expect.push_back(runOp(b, o));
    }
  }
  auto faultFor = [&](i64 w) -> const Op* { for (auto& f : s.faults) if (f.arg(0) == w) return &f; return nullptr; };
  if (const Op* f = faultFor(-1)) {
    u64 f0 = heapFailed();
    heapFailAt(f->arg(1), f->arg(2, 1));
    Status st = Status::Ok();
    int how = 0;
    try {
      st = a.fresh();
    } catch (std::bad_alloc&) {
      how = 1;
    } catch (std::exception& x) {
      how = 2;
    }
    heapFailAt(-1, 0);
    bool hit = heapFailed() != f0;
    if (how == 2) violation("oom-exception", "running out of memory while an analyzer is created is not reported as std::bad_alloc");
    if (how == 1 && !hit && !pageShift()) violation("spurious-oom", "bad_alloc although no allocation failed");
    if (hit) {
      count("fault.allocation_in_creation");
      event("creation-failed", how, st.isOk());
      if (how == 0 && st.isOk()) count("probe.creation_survived");
      Status again = a.fresh();
      if (!again) violation("not-recoverable", "after running out of memory in its creation a new analyzer cannot be created: %s", statusText(again).c_str());
    }
  } else {
    Status st = a.fresh();
    if (!st) violation("not-recoverable", "cannot create an analyzer");
  }
  for (size_t i = 0; i < s.ops.size(); ++i) {
    bool hit = false;
    if (const Op* f = faultFor((i64)i)) {
      Result r = guarded(a, s.ops[i], f, &hit);
      if (hit) {
        count("fault.allocation_in_analysis");
        event("oom", r.ok);
        stateMark(hashBytes(r.msg.data(), r.msg.size()));
        // an implementation may do without the memory, but then the result must be right
        if (r.ok && !(r == expect[i])) violation("oom-wrong-result", "an allocation failed but the analysis of [%s] reports success with a wrong result [%s] instead of [%s]", shorten(s.ops[i].s[0]).c_str(), shorten(r.out).c_str(), shorten(expect[i].out).c_str());
        if (r.ok) count("probe.survived");
        trace("oom in op %zu: %s", i, r.ok ? "ok" : r.msg.c_str());
      }
    }
    Result r = guarded(a, s.ops[i], nullptr, &hit);
    if (!(r == expect[i]))
      violation("not-recoverable", "input %zu [%s] after running out of memory: %s [%s], normally %s [%s]", i, shorten(s.ops[i].s[0]).c_str(), r.ok ? "ok" : "error",
                shorten(r.ok ? r.out : r.msg).c_str(), expect[i].ok ? "ok" : "error", shorten(expect[i].ok ? expect[i].out : expect[i].msg).c_str());
    eventBytes("result", r.out.data(), r.out.size());
  }
  finishRun();
}

Registrar r6({"C06", warmExecs, genC06, execC06, 60});
Registrar r7({"C07", warmExecs, genC07, execC07, 120});
Registrar r8({"C08", warmExecs, genC08, execC08, 60});
}  // namespace
