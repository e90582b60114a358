// C01 batch accounting, C04 failing examples, C05 epoch coverage and schedule independence,
// and the training environment part of C03.  The real TrainingEnv runs; the entries prepare()/compute()
// of the trainers' dispatch tables are replaced by recorders which call the originals and can make them fail.
#include "hcommon.h"
#include "world.h"
#include "core/training/training_env.h"
#include "core/training/full_example.h"
#include "core/training/trainer.h"
#include "core/training/partial_trainer.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sys/mman.h>

using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jt = jumanpp::core::training;

namespace {
// ------------------------------------------------------------------ recording seam
enum FailMode { fNone, fStatPrepare, fStatCompute, fExcPrepare, fBadAlloc, fExcCompute, fOwnExc, fOomPrepare, fOomCompute, fLong, fModes };
const char* kFailNames[] = {"fault.page_too_small", "fault.status_in_prepare", "fault.status_in_compute", "fault.exception_in_prepare", "fault.bad_alloc_in_compute", "fault.exception_in_compute", "fault.custom_exception", "fault.allocation_in_prepare", "fault.allocation_in_compute", "fault.too_long_example"};
struct Ex {
  int id;
  bool partial;
  std::string comment;  // as written in the corpus
  i64 line;             // 1-based line where the example starts
  i64 lastLine;
  int fail;             // FailMode
  i64 nth;              // allocation to fail
  i64 cnt;
  bool once;            // only the first time
  int fired;
};
struct Rec {
  int batch;
  jt::ITrainer* t;
  int ex;               // index into g_ex
  bool done, ok;
  float loss;
  std::vector<jt::ScoredFeature> diff;
  u64 begin, end;
};
struct Seam {
  bool active = false;
  int batch = 0;
  std::vector<Ex> ex;
  std::vector<Rec> recs;
  std::map<jt::ITrainer*, int> cur;
  std::string corpusFile, partFile;
  u64 clock = 0;
  u64 oom = 0;
};
Seam* g_seam;

typedef Status (*PrepFn)(jt::ITrainer*);
typedef Status (*CompFn)(jt::ITrainer*, const core::analysis::ScorerDef*);
struct Orig { PrepFn prep; CompFn comp; };
Orig g_orig[2];
void* g_vt[2];

int which(jt::ITrainer* t) { return *(void**)t == g_vt[0] ? 0 : 1; }

int findExample(jt::ITrainer* t) {
  auto info = t->exampleInfo();
  bool partial = which(t) == 1;
  HostScope hs;
  std::string c(info.comment.char_begin(), info.comment.char_end());
  if (c.compare(0, 2, "# ") == 0) c = c.substr(2);
  for (size_t i = 0; i < g_seam->ex.size(); ++i) {
    auto& e = g_seam->ex[i];
    if (e.partial != partial) continue;
    if (e.comment == c) return (int)i;  // at most one example of each kind has no comment
  }
  violation("example-identity", "a trainer processes an example which is not in the corpus: comment [%s] line %ld", c.c_str(), (long)info.line);
}

Status hookPrep(jt::ITrainer* t) {
  Orig& o = g_orig[which(t)];
  if (!g_seam || !g_seam->active) return o.prep(t);
  int ex = findExample(t);
  Ex* e;
  {
    HostScope hs;
    auto it = g_seam->cur.find(t);
    if (it != g_seam->cur.end() && it->second >= 0 && !g_seam->recs[it->second].done)
      violation("double-run", "example %s is processed by two workers at the same time", g_seam->ex[ex].comment.c_str());
    Rec r{};
    r.batch = g_seam->batch;
    r.t = t;
    r.ex = ex;
    r.begin = ++g_seam->clock;
    g_seam->cur[t] = (int)g_seam->recs.size();
    g_seam->recs.push_back(std::move(r));
    e = &g_seam->ex[ex];
  }
  struct Fin {
    jt::ITrainer* t;
    bool ok = false;
    ~Fin() {
      heapFailHere(-1, 0);
      if (ok) return;
      HostScope hs;
      Rec& r = g_seam->recs[g_seam->cur[t]];
      r.done = true;
      r.end = ++g_seam->clock;
    }
  } fin{t};
  bool fire = e->fail && !(e->once && e->fired);
  if (fire) {
    if (e->fail == fStatPrepare) { e->fired++; return Status::InvalidState() << "scripted failure"; }
    if (e->fail == fExcPrepare) { e->fired++; throw std::runtime_error("scripted exception"); }
    if (e->fail == fOomPrepare) heapFailHere(e->nth, e->cnt);
  }
  u64 before = heapFailed();
  Status s = o.prep(t);
  heapFailHere(-1, 0);
  (void)before;
  if (s) fin.ok = true;
  return s;
}

Status hookComp(jt::ITrainer* t, const core::analysis::ScorerDef* sd) {
  Orig& o = g_orig[which(t)];
  if (!g_seam || !g_seam->active) return o.comp(t, sd);
  int ri;
  Ex* e;
  {
    HostScope hs;
    auto it = g_seam->cur.find(t);
    if (it == g_seam->cur.end()) violation("double-run", "an example is computed without being prepared");
    ri = it->second;
    e = &g_seam->ex[g_seam->recs[ri].ex];
    if (g_seam->recs[ri].done) violation("double-run", "example %s is computed twice after one preparation", e->comment.c_str());
  }
  struct Fin {
    int ri;
    ~Fin() {
      heapFailHere(-1, 0);
      HostScope hs;
      Rec& r = g_seam->recs[ri];
      r.done = true;
      r.end = ++g_seam->clock;
    }
  } fin{ri};
  bool fire = e->fail && !(e->once && e->fired);
  if (fire) {
    if (e->fail == fOomCompute) heapFailHere(e->nth, e->cnt);
  }
  Status s = o.comp(t, sd);
  heapFailHere(-1, 0);
  if (!s) return s;
  if (fire) {
    if (e->fail == fStatCompute) { e->fired++; return Status::InvalidParameter() << "scripted failure of computation"; }
    if (e->fail == fBadAlloc) { e->fired++; throw std::bad_alloc(); }
    if (e->fail == fExcCompute) { e->fired++; throw std::logic_error("scripted"); }
    struct Own : std::exception { const char* what() const noexcept override { return "own"; } };
    if (e->fail == fOwnExc) { e->fired++; throw Own(); }
  }
  float l = t->loss();
  auto d = t->featureDiff();
  {
    HostScope hs;
    Rec& r = g_seam->recs[ri];
    r.loss = l;
    r.diff.assign(d.begin(), d.end());
    r.ok = true;
  }
  return s;
}

template <class P> size_t slotOf(P p) {
  uintptr_t w[2];
  static_assert(sizeof(p) == sizeof(w), "member pointer layout");
  memcpy(w, &p, sizeof w);
  if (!(w[0] & 1)) harnessError("prepare/compute are not virtual");
  return (w[0] - 1) / sizeof(void*);
}
void patchSlot(void** slot, void* fn) {
  uintptr_t page = (uintptr_t)slot & ~(uintptr_t)4095;
  if (mprotect((void*)page, 8192, PROT_READ | PROT_WRITE)) harnessError("mprotect of the dispatch table failed");
  *slot = fn;
}
void installSeam() {
  static bool done;
  if (done) return;
  done = true;
  size_t sp = slotOf(&jt::ITrainer::prepare), sc = slotOf(&jt::ITrainer::compute);
  auto env = world::smallEnv();
  jt::TrainingConfig tc;
  tc.featureNumberExponent = 8;
  core::analysis::AnalyzerConfig ac;
  ac.pageSize = 128 * 1024;
  jt::TrainerFullConfig fc{&ac, env->coreHolder(), &env->spec().training, &tc};
  jt::OwningFullTrainer full(fc);
  jt::OwningPartialTrainer part;
  jt::ITrainer* objs[2] = {&full, &part};
  for (int i = 0; i < 2; ++i) {
    void** vt = *(void***)objs[i];
    g_vt[i] = vt;
    g_orig[i].prep = (PrepFn)vt[sp];
    g_orig[i].comp = (CompFn)vt[sc];
    patchSlot(&vt[sp], (void*)hookPrep);
    patchSlot(&vt[sc], (void*)hookComp);
  }
}
void warm() { quiet(); world::smallEnv(); installSeam(); }

// ------------------------------------------------------------------ building the run from the scenario
struct Setup {
  jt::TrainingArguments args;
  std::string corpus, partial;
  bool csv;
  int nFull = 0, nPart = 0;
};
i64 countLines(const std::string& s) { return std::count(s.begin(), s.end(), '\n'); }

std::string exText(const std::string& body, const std::string& comment, bool csv, int fail) {
  // body: morph line without comment and newline
  std::string b = body;
  if (fail == fLong) {
    b.clear();
    for (int i = 0; i < 720; ++i) { if (i) b += " "; b += "もの_N"; }
  }
  if (!csv) return b + (comment.empty() ? "" : " # " + comment) + "\n";
  std::string out = comment.empty() ? "" : "# " + comment + "\n";
  for (char c : b) out += c == ' ' ? '\n' : c == '_' ? ',' : c;
  return out + "\nEOS\n";
}

void build(const Scenario& s, Setup* u) {
  HostScope hs;
  u->csv = s.get("csv");
  g_seam = new Seam;
  for (auto& o : s.ops) {
    if (o.kind != "ex" && o.kind != "pex") continue;
    bool p = o.kind == "pex";
    std::string& dst = p ? u->partial : u->corpus;
    Ex e{};
    e.id = (int)g_seam->ex.size();
    e.partial = p;
    e.fail = (int)o.arg(0);
    e.nth = o.arg(1);
    e.cnt = o.arg(2, 1);
    e.once = o.arg(3);
    e.comment = o.s[1];
    if (p && e.fail == fLong) e.fail = fNone;
    e.line = countLines(dst) + 1;
    if (p) dst += (e.comment.empty() ? "" : "# " + e.comment + "\n") + o.s[0] + "\n";
    else dst += exText(o.s[0], e.comment, u->csv, e.fail);
    e.lastLine = countLines(dst);
    g_seam->ex.push_back(e);
    (p ? u->nPart : u->nFull)++;
  }
  auto& a = u->args;
  a.batchSize = (u32)std::max<i64>(1, s.get("n_batch", 1));
  a.numThreads = (u32)std::max<i64>(1, s.get("n_threads", 1));
  a.batchMaxIterations = (u32)std::max<i64>(1, s.get("n_iters", 1));
  a.batchLossEpsilon = s.get("eps") ? 0.05f : -1.f;
  a.maxEpochs = (u32)std::max<i64>(1, s.get("n_epochs", 1));
  a.trainingConfig.featureNumberExponent = (u32)s.get("exponent", 8);
  a.trainingConfig.beamSize = (i32)s.get("beam", 1);
  a.trainingConfig.mode = (jt::TrainingMode)(s.get("tmode"));
  a.trainingConfig.inputFormat = u->csv ? jt::InputFormat::Csv : jt::InputFormat::Morph;
  a.trainingConfig.randomSeed = (u32)s.get("rseed", 7);
  if (s.get("gbeam")) {
    a.globalBeam.minLeftBeam = 1;
    a.globalBeam.maxLeftBeam = 3;
    if (s.get("gbeam") > 1) {
      a.globalBeam.minRightBeam = 1;
      a.globalBeam.maxRightBeam = 3;
      a.globalBeam.minRightCheck = 1;
      a.globalBeam.maxRightCheck = 2;
    }
    a.globalBeam.fullFirstIter = s.get("gbeam_full");
  }
  a.corpusFilename = "corpus.txt";
  a.partialCorpus = "partial.txt";
  g_seam->corpusFile = a.corpusFilename;
  g_seam->partFile = a.partialCorpus;
  if (!u->csv && u->corpus.empty()) u->corpus = "";
  hostWrite("corpus.txt", u->corpus);
  hostWrite("partial.txt", u->partial);
}

std::vector<float> weights(jt::TrainingEnv& env) {
  core::model::ModelInfo mi;
  env.exportScwParams(&mi);
  auto sp = mi.parts.at(0).data.at(1);
  HostScope hs;
  std::vector<float> v(sp.size() / sizeof(float));
  memcpy(v.data(), sp.data(), sp.size());
  return v;
}
void declareWeights(jt::TrainingEnv& env) {
  core::model::ModelInfo mi;
  env.exportScwParams(&mi);
  auto sp = mi.parts.at(0).data.at(1);
  ignoreRaces(sp.data(), sp.size());  // the model is deliberately read while it is updated
}

// ------------------------------------------------------------------ reference: replay of updates
struct Step { int rec; };  // -1: start values subtracted after the first epoch
struct Replay {
  const jt::TrainingConfig& tc;
  std::vector<std::vector<int>> cands;  // possible histories so far (record indices)
  u64 tried = 0;
  explicit Replay(const jt::TrainingConfig& c) : tc(c), cands(1) {}
  std::vector<float> run(const std::vector<int>& h) {
    ++tried;
    jt::SoftConfidenceWeighted scw(tc);
    for (int i : h) {
      if (i < 0) { scw.substractInitValues(); continue; }
      Rec& r = g_seam->recs[i];
      scw.update(r.loss, r.diff);
    }
    core::model::ModelInfo mi;
    scw.exportModel(&mi);
    auto sp = mi.parts.at(0).data.at(1);
    HostScope hs;
    std::vector<float> v(sp.size() / sizeof(float));
    memcpy(v.data(), sp.data(), sp.size());
    return v;
  }
  static bool same(const std::vector<float>& a, const std::vector<float>& b) {
    return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(float));
  }
  void subtract() { for (auto& c : cands) c.push_back(-1); }
  // recs of the batch in completion order; subset: some may be missing.  false: no order explains w
  bool extend(const std::vector<int>& recs, const std::vector<float>& w, bool subset, bool* gaveUp) {
    HostScope hs;  // the reference runs outside of the simulated heap
    std::vector<std::vector<int>> next;
    size_t n = recs.size();
    std::vector<std::vector<int>> sets;
    if (!subset) {
      sets.push_back(recs);
    } else {
      for (u32 m = 0; m < (1u << std::min<size_t>(n, 10)); ++m) {
        std::vector<int> s;
        for (size_t i = 0; i < n; ++i) if (m >> i & 1) s.push_back(recs[i]);
        sets.push_back(s);
      }
    }
    u64 budget = 8000;
    for (auto& base : cands) {
      for (auto& set : sets) {
        // records without effect (no loss) may stand anywhere: keep them at the end
        std::vector<int> eff, rest;
        for (int i : set) (g_seam->recs[i].loss < 1e-5 ? rest : eff).push_back(i);
        std::vector<int> perm(eff.size());
        for (size_t i = 0; i < eff.size(); ++i) perm[i] = (int)i;
        do {
          if (budget-- == 0) { *gaveUp = true; goto out; }
          std::vector<int> h = base;
          for (int k : perm) h.push_back(eff[k]);
          auto got = run(h);
          if (same(got, w)) {
            next.push_back(h);
            if (next.size() >= 4) goto out;
          }
        } while (std::next_permutation(perm.begin(), perm.end()));
      }
    }
  out:
    if (next.empty()) return *gaveUp;
    cands = next;
    return true;
  }
};

std::vector<int> batchRecs(int batch) {
  std::vector<int> v;
  for (size_t i = 0; i < g_seam->recs.size(); ++i)
    if (g_seam->recs[i].batch == batch) v.push_back((int)i);
  std::sort(v.begin(), v.end(), [](int a, int b) { return g_seam->recs[a].end < g_seam->recs[b].end; });
  return v;
}

struct BatchObs {
  int batch;
  bool ok;
  std::string msg;
  double loss;
  std::vector<jt::ITrainer*> trainers;
  std::vector<float> w;
  size_t recsAtReturn;
  std::vector<int> okRecs;  // completed successfully before the call returned
};

BatchObs runBatch(jt::TrainingEnv& env, int iter) {
  BatchObs b{};
  {
    HostScope hs;
    b.batch = ++g_seam->batch;
  }
  int n = env.numTrainers();
  for (int i = 0; i < n; ++i) {
    auto t = env.trainer(i);
    HostScope hs;
    b.trainers.push_back(t);
  }
  Status s = env.trainOneBatch(iter);
  b.ok = s.isOk();
  if (!b.ok) {
    std::string m = statusText(s);
    HostScope hs;
    b.msg = std::string(m.data(), m.size());
  }
  b.loss = env.batchLoss();
  auto w = weights(env);
  HostScope hs;
  b.w = w;
  b.recsAtReturn = g_seam->recs.size();
  for (int i : batchRecs(b.batch))
    if (g_seam->recs[i].ok && g_seam->recs[i].done) b.okRecs.push_back(i);
  event("batch", b.batch, b.ok);
  eventBytes("w", b.w.data(), b.w.size() * 4);
  return b;
}

void checkGoodBatch(const BatchObs& b, Replay& rp) {
  auto rs = batchRecs(b.batch);
  for (auto t : b.trainers) {
    int n = 0;
    for (int i : rs) n += g_seam->recs[i].t == t;
    if (n != 1) violation("batch-accounting", "batch %d: one of its %zu examples was processed %d times", b.batch, b.trainers.size(), n);
  }
  if (rs.size() != b.trainers.size())
    violation("batch-accounting", "batch %d of %zu examples processed %zu", b.batch, b.trainers.size(), rs.size());
  double sum = 0;
  for (int i : rs) {
    if (!g_seam->recs[i].ok) violation("failure-hidden", "batch %d reported success although example %s failed", b.batch, g_seam->ex[g_seam->recs[i].ex].comment.c_str());
    sum += g_seam->recs[i].loss;
  }
  if (!(std::fabs(sum - b.loss) <= 1e-6 * (1 + std::fabs(sum))))
    violation("batch-loss", "batch %d reported loss %.9g, the sum over its %zu examples is %.9g", b.batch, b.loss, rs.size(), sum);
  bool gave = false;
  if (!rp.extend(rs, b.w, false, &gave))
    violation("not-serial", "batch %d: no serial order of the %zu updates explains the weights", b.batch, rs.size());
  if (gave) count("replay.gave_up");
}

bool hasNumber(const std::string& m, i64 n) {
  std::string d = strf("%ld", (long)n);
  for (size_t p = m.find(d); p != std::string::npos; p = m.find(d, p + 1)) {
    bool l = p == 0 || !isalnum((unsigned char)m[p - 1]);
    bool r = p + d.size() >= m.size() || !isdigit((unsigned char)m[p + d.size()]);
    if (l && r) return true;
  }
  return false;
}

void checkFailedBatch(const BatchObs& b, Replay& rp) {
  bool named = false, any = false;
  std::string who;
  for (int i : batchRecs(b.batch)) {
    Rec& r = g_seam->recs[i];
    if (r.ok || (size_t)i >= b.recsAtReturn) continue;
    any = true;
    Ex& e = g_seam->ex[r.ex];
    who += " [" + e.comment + strf("] line %ld", (long)e.line);
    const std::string& f = e.partial ? g_seam->partFile : g_seam->corpusFile;
    bool line = false;
    // counted from 0 or 1, of the comment or of what follows it
    for (i64 l = e.line - 1; l <= e.line + (e.comment.empty() ? 0 : 1); ++l) line |= hasNumber(b.msg, l);
    if (b.msg.find(f) != std::string::npos && line && (e.comment.empty() || b.msg.find("[" + e.comment + "]") != std::string::npos || b.msg.find(e.comment) != std::string::npos)) named = true;
  }
  if (!any) violation("false-failure", "batch %d returned an error although none of its examples failed: %s", b.batch, b.msg.c_str());
  if (!named) violation("error-naming", "batch %d: the error does not name a failed example (%s ): %s", b.batch, who.c_str(), b.msg.c_str());
  bool gave = false;
  if (!rp.extend(b.okRecs, b.w, true, &gave))
    violation("not-serial", "failed batch %d: the weights are not explained by any subset of its %zu successful examples", b.batch, b.okRecs.size());
  count("batch.failed");
}

// ------------------------------------------------------------------ generators
void genCommon(Scenario& s, Rng& r) {
  genSched(s, r, r.chance(1, 3));
  s.p["n_threads"] = r.range(1, 4);
  s.p["n_batch"] = r.range(1, 6);
  s.p["n_iters"] = r.range(1, 3);
  s.p["exponent"] = r.pick<i64>({1, 2, 3, 5, 7, 8, 10});
  s.p["beam"] = r.range(1, 4);
  s.p["tmode"] = r.range(0, 2);
  s.p["csv"] = r.chance(1, 4);
  s.p["rseed"] = r.range(1, 1000);
  if (r.chance(1, 4)) { s.p["gbeam"] = r.range(1, 2); s.p["gbeam_full"] = r.chance(1, 2); }
}
std::string body(Rng& r, int maxWords) {
  std::string l = world::smallExample(r, 1, maxWords, "");
  return l.substr(0, l.size() - 1);
}
void genEx(Scenario& s, Rng& r, int nFull, int nPart, bool failing) {
  auto fail = [&](bool part) -> std::vector<i64> {
    if (!failing || !r.chance(1, 4)) return {0, 0, 0, 0};
    i64 m = r.range(1, fModes - 1);
    if (m == fLong && part) m = fExcCompute;
    if (r.chance(1, 3)) m = r.chance(1, 2) ? fOomPrepare : fOomCompute;
    return {m, r.chance(1, 2) ? r.range(0, 4) : r.range(0, 40), r.chance(3, 4) ? 1 : r.range(2, 4), (i64)r.chance(1, 2)};
  };
  int bare = r.chance(1, 3) ? (int)r.below(nFull) : -1, bareP = nPart && r.chance(1, 3) ? (int)r.below(nPart) : -1;
  for (int i = 0; i < nFull; ++i)
    s.ops.push_back(Op("ex", fail(false), {body(r, 5), i == bare ? "" : strf("ex-%d", i)}));
  for (int i = 0; i < nPart; ++i) {
    std::string t = world::smallPartial(r, "");
    s.ops.push_back(Op("pex", fail(true), {t.substr(0, t.size() - 1), i == bareP ? "" : strf("part-%d", i)}));
  }
}

Scenario genC01(u64 seed) {
  Rng r(seed);
  Scenario s;
  genCommon(s, r);
  genEx(s, r, (int)r.range(1, 10), r.chance(1, 3) ? (int)r.range(1, 3) : 0, false);
  s.p["n_epochs"] = r.range(1, 2);
  return s;
}

jt::TrainingEnv* openEnv(const Scenario&, Setup& u, bool failCreate = false, int failAt = -1) {
  auto env = new jt::TrainingEnv(u.args, world::smallEnv());
  declareWeights(*env);
  if (failAt >= 0) schedFailCreate(failAt);
  Status st = env->initOther();
  if (failAt >= 0) schedFailCreate(-1);
  if (!st) {
    if (failAt >= 0) { delete env; return nullptr; }
    violation("training", "training environment failed to start: %s", statusText(st).c_str());
  }
  if (u.nPart) {
    st = env->loadPartialExamples(u.args.partialCorpus);
    if (!st) violation("training", "partial corpus refused: %s", statusText(st).c_str());
  }
  st = env->loadInput(u.args.corpusFilename);
  if (!st) violation("training", "corpus refused: %s", statusText(st).c_str());
  { HostScope hs; g_seam->active = true; }
  return env;
}

void execC01(const Scenario& s) {
  quiet();
  Setup& u = *new Setup;
  build(s, &u);
  if (u.nFull == 0) return;
  schedStart(schedCfg(s), s);
  count(schedKind(s.get("strategy")));
  auto* env = openEnv(s, u);
  std::vector<BatchObs>* obs;
  { HostScope hs; obs = new std::vector<BatchObs>; }
  // The partial corpus joins batches only after an epoch driven by trainOneEpoch
  std::vector<float> w1;
  int pre = 0;
  if (u.nPart && s.get("n_epochs") > 1) {
    { HostScope hs; g_seam->batch = 1; }
    Status st = env->trainOneEpoch();
    if (!st) violation("training", "training failed: %s", statusText(st).c_str());
    env->resetInput();
    pre = 1;
  }
  float ratio = 0.5f;
  env->changeGlobalBeam(ratio);
  for (int bn = 0; bn < 4; ++bn) {
    Status st = env->readOneBatch();
    if (!st) violation("training", "reading a batch failed: %s", statusText(st).c_str());
    env->prepareTrainers();
    if (env->numTrainers() <= 0) break;
    for (i64 it = 0; it < s.get("n_iters", 1); ++it) {
      auto b = runBatch(*env, (int)it);
      HostScope hs;
      obs->push_back(b);
    }
  }
  { HostScope hs; g_seam->active = false; }
  delete env;
  schedStop();
  HostScope hs;
  Replay rp(u.args.trainingConfig);
  if (pre) {
    // the epoch of the first phase is only known as a whole: take it over when a completion order explains it
    count("c01.with_partial");
    std::vector<int> rs = batchRecs(1);
    rp.cands[0] = rs;
    rp.subtract();
    // first observed batch validates; if the completion order was not the application order, skip exact replay
  }
  u64 h = 0;
  bool exact = true;
  for (auto& b : *obs) {
    if (!b.ok) violation("training", "batch %d failed: %s", b.batch, b.msg.c_str());
    if (pre && exact && &b == &(*obs)[0]) {
      bool gave = false;
      Replay probe = rp;
      if (!probe.extend(batchRecs(b.batch), b.w, false, &gave) || gave) exact = false;
    }
    if (!pre || exact) {
      checkGoodBatch(b, rp);
      count("batch.replayed");
    }
    for (int i : batchRecs(b.batch)) h = hashBytes(&g_seam->recs[i].ex, 4, h);
  }
  stateMark(h);
  count("batch.total", obs->size());
  count("examples", g_seam->recs.size());
  count("replay.orders", rp.tried);
}

// ------------------------------------------------------------------ C04
Scenario genC04(u64 seed) {
  Rng r(seed);
  Scenario s;
  genCommon(s, r);
  s.p["n_iters"] = r.range(1, 2);
  genEx(s, r, (int)r.range(1, 9), r.chance(1, 4) ? (int)r.range(1, 2) : 0, true);
  // make sure something fails in most runs
  if (r.chance(4, 5)) {
    auto& o = s.ops[r.below(s.ops.size())];
    if (!o.a[0]) o.a = {r.range(1, fExcCompute), 0, 1, (i64)r.chance(1, 2)};
  }
  if (r.chance(1, 25)) {  // a lattice which does not fit into a memory page
    s.p["beam"] = r.pick<i64>({900, 1500, 4000});
    s.p["n_batch"] = r.range(1, 3);
    while (s.ops.size() > 3) s.ops.pop_back();
  }
  s.p["after"] = r.range(0, 3);   // 0 stop, 1 next batch, 2 repeat the batch, 3 start over
  s.p["epoch_mode"] = r.chance(1, 4);
  s.p["n_epochs"] = r.range(1, 3);
  return s;
}

void execEpochFail(const Scenario& s, Setup& u) {
  auto* env = openEnv(s, u);
  int epochs = (int)s.get("n_epochs", 1) + 1;
  std::vector<std::pair<bool, std::string>>* res;
  { HostScope hs; res = new std::vector<std::pair<bool, std::string>>; }
  std::vector<size_t>* marks;
  { HostScope hs; marks = new std::vector<size_t>; }
  for (int e = 0; e < epochs; ++e) {
    env->resetInput();
    env->changeGlobalBeam(e / (float)epochs);
    { HostScope hs; g_seam->batch = e + 1; }
    Status st = env->trainOneEpoch();
    std::string m = st.isOk() ? "" : statusText(st);
    HostScope hs;
    res->push_back({st.isOk(), std::string(m.data(), m.size())});
    marks->push_back(g_seam->recs.size());
  }
  { HostScope hs; g_seam->active = false; }
  delete env;
  schedStop();
  HostScope hs;
  for (int e = 0; e < epochs; ++e) {
    std::vector<int> n(g_seam->ex.size());
    bool failed = false, named = false;
    for (auto& r : g_seam->recs) {
      if (r.batch != e + 1) continue;
      n[r.ex]++;
      if (!r.ok) {
        failed = true;
        if ((*res)[e].second.find(g_seam->ex[r.ex].comment) != std::string::npos) named = true;
      }
    }
    if ((*res)[e].first) {
      if (failed) violation("failure-hidden", "epoch %d reported success although an example failed", e);
      for (auto& x : g_seam->ex)
        if (!x.partial && n[x.id] != (int)u.args.batchMaxIterations)
          violation("batch-accounting", "after earlier failures: epoch %d processed example %s %d times instead of %u", e, x.comment.c_str(), n[x.id], u.args.batchMaxIterations);
      count("epoch.recovered", e > 0 && !(*res)[e - 1].first);
    } else {
      if (!failed) violation("false-failure", "epoch %d returned an error although none of its examples failed: %s", e, (*res)[e].second.c_str());
      if (!named) violation("error-naming", "epoch %d: the error does not name a failed example: %s", e, (*res)[e].second.c_str());
      count("epoch.failed");
    }
  }
}

void execC04(const Scenario& s) {
  quiet();
  Setup& u = *new Setup;
  build(s, &u);
  if (u.nFull == 0) return;
  schedStart(schedCfg(s), s);
  count(schedKind(s.get("strategy")));
  if (s.get("epoch_mode")) return execEpochFail(s, u);
  auto* env = openEnv(s, u);
  std::vector<BatchObs>* obs;
  { HostScope hs; obs = new std::vector<BatchObs>; }
  int after = (int)s.get("after");
  bool stop = false;
  int budget = 10, restarts = 0, repeats = 0;
  while (!stop && budget-- > 0) {
    Status st = env->readOneBatch();
    if (!st) violation("training", "reading a batch failed: %s", statusText(st).c_str());
    env->prepareTrainers();
    if (env->numTrainers() <= 0) break;
    for (i64 it = 0; it < s.get("n_iters", 1); ++it) {
      auto b = runBatch(*env, (int)it);
      bool ok = b.ok;
      { HostScope hs; obs->push_back(b); }
      if (!ok) {
        if (after == 0) { stop = true; break; }
        if (after == 2 && repeats++ < 2) { --it; continue; }
        if (after == 3 && restarts++ < 1) env->resetInput();
        break;
      }
    }
  }
  { HostScope hs; g_seam->active = false; }
  delete env;
  schedStop();
  HostScope hs;
  Replay rp(u.args.trainingConfig);
  u64 h = 0;
  bool hadFail = false;
  for (auto& b : *obs) {
    bool failed = false;
    for (int i : batchRecs(b.batch)) failed |= !g_seam->recs[i].ok;
    if (b.ok) {
      checkGoodBatch(b, rp);
      if (hadFail) count("batch.good_after_failure");
    } else {
      hadFail = true;
      checkFailedBatch(b, rp);
    }
    for (int i : batchRecs(b.batch)) { h = hashBytes(&g_seam->recs[i].ex, 4, h); h = hashBytes(&g_seam->recs[i].ok, 1, h); }
    if (rp.cands.empty()) break;
  }
  stateMark(h);
  for (auto& r : g_seam->recs) if (!r.ok) count(kFailNames[g_seam->ex[r.ex].fail]);
  count("batch.total", obs->size());
}

// ------------------------------------------------------------------ C05
Scenario genC05(u64 seed) {
  Rng r(seed);
  Scenario s;
  genCommon(s, r);
  s.p["n_epochs"] = r.range(1, 3);
  bool serial = r.chance(1, 2);
  s.p["serial"] = serial;
  if (serial) {
    s.p["n_batch"] = 1;
    genEx(s, r, (int)r.range(1, 6), 0, false);
    s.p["eps"] = r.chance(1, 4);
  } else {
    genEx(s, r, (int)r.range(1, 10), r.chance(1, 2) ? (int)r.range(1, 3) : 0, false);
    s.p["eps"] = r.chance(1, 5);
  }
  return s;
}

struct SerialRef { std::vector<float> w; std::vector<double> losses; };
// training by hand: one reader, a fresh trainer per example, one model
SerialRef serialTrain(Setup& u, const std::vector<jt::GlobalBeamTrainConfig>& beams) {
  SerialRef ref;
  auto env = world::smallEnv();
  core::analysis::AnalyzerConfig ac;
  ac.pageSize = 128 * 1024;
  ac.storeAllPatterns = true;
  jt::SoftConfidenceWeighted scw(u.args.trainingConfig);
  jt::TrainFieldsIndex tio;
  Status s = tio.initialize(*env->coreHolder());
  if (!s) harnessError("reference: %s", statusText(s).c_str());
  jt::TrainerFullConfig fc{&ac, env->coreHolder(), &env->spec().training, &u.args.trainingConfig};
  for (u32 e = 0; e < u.args.maxEpochs; ++e) {
    jt::FullExampleReader rdr;
    rdr.setTrainingIo(&tio);
    s = u.csv ? rdr.initCsv(u.corpus) : rdr.initDoubleCsv(u.corpus);
    rdr.setFilename("ref");
    double sum = 0, last = 0;
    int idx = -1;
    while (true) {
      jt::FullyAnnotatedExample skipped;
      s = rdr.readFullExample(&skipped);
      if (!s) harnessError("reference: %s", statusText(s).c_str());
      if (rdr.finished()) break;
      ++idx;
      for (u32 it = 0; it < u.args.batchMaxIterations; ++it) {
        // a trainer and reader of its own for every update
        jt::OwningFullTrainer tr(fc);
        s = tr.initAnalyzer(scw.scorers());
        tr.reset();
        jt::FullExampleReader one;
        one.setTrainingIo(&tio);
        if (s) s = u.csv ? one.initCsv(u.corpus) : one.initDoubleCsv(u.corpus);
        one.setFilename("ref");
        for (int i = 0; s && i < idx; ++i) { jt::FullyAnnotatedExample ex; s = one.readFullExample(&ex); }
        if (s) s = tr.readExample(&one);
        if (!s) harnessError("reference: %s", statusText(s).c_str());
        if (beams[e].isEnabled()) {
          if (u.args.globalBeam.fullFirstIter && it == 0) tr.setGlobalBeam({0, 0, 0});
          else tr.setGlobalBeam(beams[e]);
        }
        s = tr.prepare();
        if (s) s = tr.compute(scw.scorers());
        if (!s) violation("training", "serial training failed: %s", statusText(s).c_str());
        double l = (double)tr.loss();
        scw.update(tr.loss(), tr.featureDiff());
        double norm = std::abs(last - l);
        last = l;
        if (norm < u.args.batchLossEpsilon) break;
      }
      sum += last;
    }
    if (e == 0) scw.substractInitValues();
    HostScope hs;
    ref.losses.push_back(sum);
  }
  core::model::ModelInfo mi;
  scw.exportModel(&mi);
  auto sp = mi.parts.at(0).data.at(1);
  HostScope hs;
  ref.w.resize(sp.size() / sizeof(float));
  memcpy(ref.w.data(), sp.data(), sp.size());
  return ref;
}

void execC05(const Scenario& s) {
  quiet();
  Setup& u = *new Setup;
  build(s, &u);
  if (u.nFull == 0) return;
  std::vector<jt::GlobalBeamTrainConfig>* beams;
  std::vector<double>* losses;
  { HostScope hs; beams = new std::vector<jt::GlobalBeamTrainConfig>; losses = new std::vector<double>; }
  schedStart(schedCfg(s), s);
  count(schedKind(s.get("strategy")));
  auto* env = openEnv(s, u);
  int epochs = (int)u.args.maxEpochs;
  for (int e = 0; e < epochs; ++e) {
    env->resetInput();
    env->changeGlobalBeam(e / (float)epochs);
    { HostScope hs; g_seam->batch = e + 1; beams->push_back(env->globalBeam()); }
    Status st = env->trainOneEpoch();
    if (!st) violation("training", "training failed: %s", statusText(st).c_str());
    double l = env->epochLoss();
    HostScope hs;
    losses->push_back(l);
  }
  auto w = weights(*env);
  { HostScope hs; g_seam->active = false; }
  delete env;
  schedStop();
  eventBytes("w", w.data(), w.size() * 4);
  int iters = (int)u.args.batchMaxIterations;
  {
    HostScope hs;
    int b = (int)u.args.batchSize;
    int N = u.nFull;
    int k = (N + b - 1) / b;
    u64 h = 0;
    for (int e = 0; e < epochs; ++e) {
      std::vector<int> n(g_seam->ex.size());
      for (auto& r : g_seam->recs) if (r.batch == e + 1) { n[r.ex]++; h = hashBytes(&r.ex, 4, h); }
      int pc = -1;
      for (auto& x : g_seam->ex) {
        if (!x.partial) {
          if (u.args.batchLossEpsilon < 0 ? n[x.id] != iters : (n[x.id] < 1 || n[x.id] > iters))
            violation("coverage", "epoch %d processed example %s %d times with %d batch iterations", e, x.comment.c_str(), n[x.id], iters);
        } else if (e == 0) {
          if (n[x.id]) violation("partial-first-epoch", "partially annotated example %s was used %d times in the first epoch", x.comment.c_str(), n[x.id]);
        } else {
          if (pc >= 0 && pc != n[x.id]) violation("coverage", "epoch %d used partial examples %d and %d times", e, pc, n[x.id]);
          pc = n[x.id];
        }
      }
      if (pc >= 0 && u.args.batchLossEpsilon < 0 && pc != k * iters && pc != (k + 1) * iters)
        violation("coverage", "epoch %d: each partial example was used %d times, expected to join each of %d batches %d times", e, pc, k, iters);
      if (pc > 0) count("c05.partial_epochs");
      // one batch after the other, each iteration complete before the next one starts
      if (u.args.batchLossEpsilon < 0) {
        std::vector<int> seq;
        std::vector<std::pair<u64, int>> byBegin;
        for (auto& r : g_seam->recs) if (r.batch == e + 1 && !g_seam->ex[r.ex].partial) byBegin.push_back({r.begin, r.ex});
        std::sort(byBegin.begin(), byBegin.end());
        std::vector<int> order;  // full examples in corpus order
        for (auto& x : g_seam->ex) if (!x.partial) order.push_back(x.id);
        size_t pos = 0;
        for (int g = 0; g < k; ++g) {
          size_t lo = (size_t)g * b, hi = std::min<size_t>(order.size(), lo + b);
          for (int it = 0; it < iters; ++it) {
            std::vector<int> want(order.begin() + lo, order.begin() + hi), got;
            for (size_t i = lo; i < hi; ++i) got.push_back(byBegin[pos++].second);
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            if (want != got) violation("coverage", "epoch %d batch %d iteration %d did not process each of its examples exactly once", e, g, it);
          }
        }
      }
      count("epochs");
    }
    stateMark(h);
  }
  if (s.get("serial")) {
    { HostScope hs; g_seam->active = false; }
    SerialRef ref = serialTrain(u, *beams);
    HostScope hs;
    if (!Replay::same(ref.w, w)) {
      size_t i = 0;
      while (i < w.size() && !memcmp(&w[i], &ref.w[i], 4)) ++i;
      violation("schedule-dependent", "training with batch size 1 on %u threads differs from serial training (first at weight %zu: %.9g vs %.9g)", u.args.numThreads, i, i < w.size() ? w[i] : 0, i < ref.w.size() ? ref.w[i] : 0);
    }
    for (int e = 0; e < epochs; ++e)
      if (!(std::fabs((*losses)[e] - ref.losses[e]) <= 1e-6 * (1 + std::fabs(ref.losses[e]))))
        violation("schedule-dependent", "epoch %d reported loss %.9g, serial training %.9g", e, (*losses)[e], ref.losses[e]);
    count("c05.serial_compared");
  }
}
Registrar r1(Harness{"C01", warm, genC01, execC01, 40});
Registrar r4(Harness{"C04", warm, genC04, execC04, 40});
Registrar r5(Harness{"C05", warm, genC05, execC05, 40});
}  // namespace

// ------------------------------------------------------------------ C03 on the training environment
void trainWarm() { warm(); }
void genEnvShutdown(Scenario& s, Rng& r) {
  s.p["mode"] = 2;
  s.p["n_threads"] = r.range(1, 4);
  s.p["n_batch"] = r.range(1, 6);
  s.p["n_iters"] = 1;
  s.p["exponent"] = 8;
  s.p["beam"] = r.range(1, 3);
  genEx(s, r, (int)r.range(1, 6), r.chance(1, 3) ? 1 : 0, r.chance(2, 3));
  s.p["stage"] = r.range(0, 4);
  s.p["delay"] = r.chance(1, 2) ? 0 : r.range(0, 80);
  if (r.chance(1, 6)) s.p["create_fail"] = r.range(0, 3);
}
void runEnvShutdown(const Scenario& s) {
  quiet();
  Setup& u = *new Setup;
  build(s, &u);
  if (u.nFull == 0) return;
  schedStart(schedCfg(s), s);
  count(schedKind(s.get("strategy")));
  auto* env = openEnv(s, u, false, (int)s.get("create_fail", -1));
  if (env) {
    i64 stage = s.get("stage");
    if (stage >= 1) {
      if (stage == 4) {
        for (int e = 0; e < 2; ++e) { Status st = env->trainOneEpoch(); if (!st) { count("env.error"); break; } env->resetInput(); }
      } else {
        for (int i = 0; i < stage; ++i) {
          Status st = env->readOneBatch();
          env->prepareTrainers();
          if (!st || env->numTrainers() <= 0) break;
          st = env->trainOneBatch(0);
          if (!st) { count("env.error"); break; }
        }
      }
    }
    for (i64 k = 0; k < s.get("delay"); ++k) yieldPoint();
    delete env;
    count("env.destroyed");
  }
  { HostScope hs; g_seam->active = false; }
  schedStop();
}
