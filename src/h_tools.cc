// C11 failing saves, C18 reproducible builds and training, C19 unreadable auxiliary inputs: the command-line tools as
// whole processes.  The library part of C11 lives in h_model.cc.
#include "hcommon.h"
#include "world.h"
#include "core/impl/model_io.h"
#include "core/analysis/analyzer.h"
#include "core/analysis/analysis_result.h"
#include "core/dic/dic_builder.h"
#include "core/spec/spec_parser.h"
#include "core/env.h"
#include "jumandic/shared/jumandic_env.h"
#include <errno.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>

int jpp_main_jumanpp(int argc, const char** argv);
int jpp_main_train(int argc, const char** argv);
int jpp_main_bootstrap(int argc, const char** argv);
int jpp_main_tool(int argc, const char** argv);
namespace sim { std::string scratchDir(); void fsResetCounts(); }
using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jm = jumanpp::core::model;

// in h_model.cc, which may be left out of the build (see build.py)
sim::Scenario c11LibGen(u64 seed) __attribute__((weak));
void c11LibExec(const sim::Scenario& s) __attribute__((weak));

namespace {
std::string full(const std::string& f) { return scratchDir() + "/" + f; }
enum Kind { Bootstrap, Index, Train, ToolTrain, Embed, Analyze, ModelInfo, StaticFeatures };
const char* kindName(int k) {
  static const char* n[] = {"tool.bootstrap", "tool.index", "tool.train", "tool.tool_train", "tool.embed_rnn", "tool.jumanpp", "tool.jumanpp_model_info", "tool.static_features"};
  return n[k & 7];
}
std::string* g_dicHead;
std::vector<std::string>* g_dicRows;
std::string* g_seedBytes;    // small dictionary model
std::string* g_jdBytes;      // trained jumandic model
std::string* g_rnnBytes;
std::string* g_nnetBytes;

void warm() {
  if (g_dicHead) return;
  quiet();
  g_dicHead = new std::string;
  g_dicRows = new std::vector<std::string>;
  std::stringstream ss(world::jumandicDicText());
  std::string l;
  int n = 0;
  while (std::getline(ss, l)) {
    if (n++ < 40) *g_dicHead += l + "\n";
    else if (l.find('"') == std::string::npos) g_dicRows->push_back(l);
  }
  g_seedBytes = new std::string; g_jdBytes = new std::string; g_rnnBytes = new std::string; g_nnetBytes = new std::string;
  hostRead(full(world::smallSeed()), g_seedBytes);
  hostRead(full(world::jumandicModel()), g_jdBytes);
  hostRead(full(world::rnnFiles()), g_rnnBytes);
  hostRead(full(world::rnnFiles() + ".nnet"), g_nnetBytes);
  if (g_seedBytes->empty() || g_jdBytes->empty() || g_rnnBytes->empty() || g_nnetBytes->empty()) harnessError("world files are missing");
}

// ------------------------------------------------------------------ one invocation
struct Tool {
  int kind = 0;
  int (*fn)(int, const char**) = nullptr;
  std::vector<std::string> argv;
  std::vector<std::string> inputs;       // named by the user, in r_*
  std::vector<std::string> outputs;      // saved models
  std::string stdinData;
};
std::string smallSpecText(bool list) {
  std::string t = "field 1 a string trie_index\nfield 2 b string\nfield 3 c string\n";
  if (list) t += "feature m = match [b] with file \"r_list.csv\" then [a] else [b]\n";
  t += "unk katakana template row 1: chunking katakana surface to [a]\n";
  t += "ngram [a, b]\nngram [a][a]\nngram [b][b]\nngram [a, b][a, b]\nngram [a][a][a]\n";
  if (list) t += "ngram [m]\n";
  t += "train loss a 1, b 1\n";
  return t;
}
void genTool(Scenario& s, Rng& r, int kind) {
  s.p["kind"] = kind;
  switch (kind) {
    case Bootstrap:
      s.p["rows"] = r.pick<i64>({0, 5, 20, 60});
      s.p["dic_seed"] = (i64)r.below(1000);
      break;
    case Index:
    case StaticFeatures:
      s.p["list"] = r.below(2);
      s.p["rows"] = r.pick<i64>({0, 0, 10, 40});
      s.p["dic_seed"] = (i64)r.below(1000);
      break;
    case Train:
    case ToolTrain: {
      s.p["size"] = r.range(5, 9);
      s.p["batch"] = r.pick<i64>({1, 1, 2, 3});
      s.p["threads"] = r.range(1, 3);
      s.p["iters"] = r.range(1, 2);
      s.p["epochs"] = r.range(1, 3);
      s.p["beam"] = r.range(1, 4);
      s.p["csv"] = kind == ToolTrain && r.chance(1, 2);
      s.p["mode"] = r.below(3);
      s.p["dump"] = r.chance(1, 5);
      s.p["rseed"] = (i64)r.below(5);
      int n = (int)r.range(1, 5);
      for (int i = 0; i < n; ++i) {
        std::string c = r.chance(1, 4) ? strf("e%d", i) : "";
        s.ops.push_back(Op("ex", {}, {s.get("csv") ? world::smallExampleCsv(r, 1, 4, c) : world::smallExample(r, 1, 4, c)}));
      }
      s.p["partial"] = r.chance(1, 3);
      if (s.get("partial")) {
        int m = (int)r.range(1, 3);
        for (int i = 0; i < m; ++i) s.ops.push_back(Op("pex", {}, {world::smallPartial(r, "")}));
      }
      break;
    }
    case Embed:
      s.p["given_bias"] = r.below(2);
      break;
    case Analyze:
      s.p["rnn"] = r.below(2);
      s.p["config"] = r.below(2);
      s.p["beam"] = r.range(1, 5);
      s.ops.push_back(Op("text", {}, {r.pick(world::small().words)}));
      break;
  }
}
Tool makeTool(const Scenario& s) {
  Tool t;
  t.kind = (int)(s.get("kind") & 7);
  auto put = [&](const char* name, const std::string& d) { hostWrite(full(name), d); };
  auto in = [&](const char* name, const std::string& d) { put(name, d); t.inputs.push_back(name); };
  switch (t.kind) {
    case Bootstrap: {
      std::string d = *g_dicHead;
      Rng r((u64)s.get("dic_seed"));
      for (i64 i = 0; i < s.get("rows"); ++i) d += r.pick(*g_dicRows) + "\n";
      in("r_dic", d);
      t.fn = jpp_main_bootstrap;
      t.argv = {"jpp_jumandic_bootstrap", "r_dic", "r_model", "--dic-version=v7"};
      t.outputs = {"r_model"};
      break;
    }
    case Index: {
      std::string d = world::small().dic;
      Rng r((u64)s.get("dic_seed"));
      for (i64 i = 0; i < s.get("rows"); ++i) {
        std::string w;
        int n = (int)r.range(1, 4);
        for (int k = 0; k < n; ++k) w += r.pick(world::small().chars);
        d += w + "," + r.pick(world::small().tags) + strf(",%d\n", (int)r.below(9));
      }
      in("r_spec", smallSpecText(s.get("list")));
      in("r_dic", d);
      if (s.get("list")) in("r_list.csv", "N\nV\n");
      t.fn = jpp_main_tool;
      t.argv = {"jumanpp_tool", "index", "--spec", "r_spec", "--dict-file", "r_dic", "--model-output", "r_model", "--comment", "sim"};
      t.outputs = {"r_model"};
      break;
    }
    case StaticFeatures:
      in("r_spec", smallSpecText(s.get("list")));
      if (s.get("list")) in("r_list.csv", "N\nV\n");
      t.fn = jpp_main_tool;
      t.argv = {"jumanpp_tool", "static-features", "--spec", "r_spec", "--output", "r_d/r_cg", "--class-name", "Sim"};
      break;
    case Train:
    case ToolTrain: {
      in("r_seed", *g_seedBytes);
      std::string c, p;
      for (auto& o : s.ops) {
        if (o.kind == "ex" && !o.s.empty()) c += o.s[0];
        if (o.kind == "pex" && !o.s.empty()) p += o.s[0];
      }
      in("r_corpus", c);
      t.fn = t.kind == Train ? jpp_main_train : jpp_main_tool;
      t.argv.push_back(t.kind == Train ? "jumanpp_train" : "jumanpp_tool");
      if (t.kind == ToolTrain) t.argv.push_back("train");
      static const char* modes[] = {"full", "falloff", "violation"};
      for (auto& a : std::vector<std::string>{"--model-input", "r_seed", "--model-output", "r_model", "--corpus", "r_corpus",
               "--size", strf("%d", (int)s.get("size", 6)), "--batch", strf("%d", (int)s.get("batch", 1)), "--threads", strf("%d", (int)s.get("threads", 1)),
               "--max-batch-iters", strf("%d", (int)s.get("iters", 1)), "--max-epochs", strf("%d", (int)s.get("epochs", 1)),
               "--beam", strf("%d", (int)s.get("beam", 2)), "--training-mode", modes[s.get("mode") % 3], "--epsilon", "0", "--seed", strf("%d", (int)s.get("rseed"))})
        t.argv.push_back(a);
      if (s.get("partial") && !p.empty()) {
        in("r_partial", p);
        t.argv.push_back("--partial-corpus");
        t.argv.push_back("r_partial");
      }
      if (s.get("csv") && t.kind == ToolTrain) t.argv.push_back("--csv-corpus-format");
      t.outputs = {"r_model"};
      if (s.get("dump")) {
        hostMkdir(full("r_d"));
        t.argv.push_back("--scw-dump-dir=r_d");
        t.argv.push_back("--scw-dump-prefix=dmp");
        for (i64 i = 0; i < s.get("epochs", 1); ++i) t.outputs.push_back(strf("r_d/dmp.%06d.mdldump", (int)i));
      }
      break;
    }
    case Embed:
      in("r_seed", *g_jdBytes);
      in("r_rnn", *g_rnnBytes);
      in("r_rnn.nnet", *g_nnetBytes);
      t.fn = jpp_main_train;
      t.argv = {"jumanpp_train", "--model-input=r_seed", "--model-output=r_model", "--rnn-model=r_rnn", "--rnn-fields=baseform,pos"};
      if (s.get("given_bias")) t.argv.push_back("--rnn-nce-bias=9");
      t.outputs = {"r_model"};
      break;
    case Analyze:
    case ModelInfo: {
      in("r_seed", *g_jdBytes);
      t.fn = jpp_main_jumanpp;
      t.argv = {"jumanpp"};
      if (t.kind == ModelInfo) { t.argv.push_back("--model=r_seed"); t.argv.push_back("--model-info"); break; }
      std::string cfg = strf("--beam=%d", (int)s.get("beam", 3));
      std::string a = "--model=r_seed";
      if (s.get("config")) { in("r_cfg", cfg + "\n" + a + "\n"); t.argv.push_back("--config=r_cfg"); }
      else { t.argv.push_back(a); t.argv.push_back(cfg); }
      if (s.get("rnn")) {
        in("r_rnn", *g_rnnBytes);
        in("r_rnn.nnet", *g_nnetBytes);
        t.argv.push_back("--rnn-model=r_rnn");
        t.argv.push_back("--rnn-fields=baseform,pos");
        t.argv.push_back("--global-beam=3");
        t.argv.push_back("--right-check=1");
        t.argv.push_back("--right-beam=2");
      }
      for (auto& o : s.ops) if (o.kind == "text" && !o.s.empty()) t.stdinData += o.s[0] + "\n";
      break;
    }
  }
  return t;
}
const char* kAll[] = {"r_dic", "r_spec", "r_list.csv", "r_seed", "r_corpus", "r_partial", "r_rnn", "r_rnn.nnet", "r_cfg", "r_model", "r_model.tmp", "r_cmp"};
void cleanOutputs(const Tool& t) {
  for (auto& o : t.outputs) hostRemove(full(o));
}
void cleanAll() {
  for (auto f : kAll) { hostRemove(full(f)); rmdir(full(f).c_str()); }
  for (int i = 0; i < 4; ++i) hostRemove(full(strf("r_d/dmp.%06d.mdldump", i)));
  hostRemove(full("r_d/r_cg.cc"));
  hostRemove(full("r_d/r_cg.h"));
  rmdir(full("r_d").c_str());
}
bool threaded(const Tool& t) { return t.kind == Train || t.kind == ToolTrain; }

struct Outcome {
  ProcResult p;
  std::vector<std::string> models;     // contents of the outputs
  std::vector<bool> exists;
};
void finishOutcome(const Tool& t, Outcome& o);
Outcome runTool(const Tool& t, std::function<void(Outcome&)> onDeath = nullptr, i64 oomAt = -1, i64 oomCount = 1) {
  Outcome o;
  ProcCfg c;
  c.argv = t.argv;
  c.stdinData = t.stdinData;
  c.oomAt = oomAt;
  c.oomCount = oomCount;
  if (onDeath) c.onDeath = [&](ProcResult& p) {
    quiet();
    o.p = p;
    finishOutcome(t, o);
    onDeath(o);
  };
  util::logging::CurrentLogLevel = util::logging::Level::Trace;   // as in a new process
  o.p = runProcess(t.fn, c);
  quiet();
  finishOutcome(t, o);
  return o;
}
void finishOutcome(const Tool& t, Outcome& o) {
  HostScope hs;
  for (auto& f : t.outputs) {
    std::string d;
    o.exists.push_back(hostRead(full(f), &d));
    o.models.push_back(d);
  }
  if (g_verbose) {
    std::string a;
    for (auto& x : t.argv) a += " " + x;
    trace("command:%s", a.c_str());
    trace("exit status %d; standard output: %s", o.p.code, o.p.out.substr(0, 800).c_str());
    trace("messages: %s", o.p.err.substr(0, 1500).c_str());
  }
}

// log lines without their time stamp, progress without its changing part
std::string normal(const std::string& t) {
  std::string res, line;
  auto flush = [&] {
    // progress segments: "\rname.. 12.3%    "
    std::string l;
    size_t p = 0;
    while (p <= line.size()) {
      size_t e = line.find('\r', p);
      if (e == std::string::npos) e = line.size();
      std::string seg = line.substr(p, e - p);
      size_t z = seg.find_last_not_of(' ');
      bool progress = p > 0 && z != std::string::npos && seg[z] == '%' && seg.find("..") != std::string::npos;
      if (!progress) l += (p ? "\r" : "") + seg;
      p = e + 1;
    }
    if (l.size() > 13 && isdigit(l[0]) && isdigit(l[1]) && l[2] == ':' && l[5] == ':' && l[8] == '.' && l[12] == ' ') l = l.substr(13);
    res += l + "\n";
    line.clear();
  };
  for (char c : t) {
    if (c == '\n') flush();
    else line += c;
  }
  if (!line.empty()) flush();
  return res;
}
std::string lastLine(const Outcome& o) {
  std::string t = normal(o.p.err.empty() ? o.p.out : o.p.err);
  while (!t.empty() && t.back() == '\n') t.pop_back();
  size_t p = t.find_last_of("\n\r");
  return p == std::string::npos ? t : t.substr(p + 1);
}
// equal up to one number of at most 10 bytes (the recorded build time)
// what a loader sees of a model file
bool contents(const std::string& bytes, std::string* res) {
  std::string name = full("r_cmp");
  hostWrite(name, bytes);
  bool ok = false;
  {
    jm::FilesystemModel fm;
    jm::ModelInfo i;
    ok = fm.open("r_cmp") && fm.load(&i).isOk();
    res->clear();
    for (auto& p : i.parts) {
      *res += strf("part %d, %d blocks: ", (int)p.kind, (int)p.data.size()) + p.comment + "\n";
      for (auto& d : p.data) *res += strf("block %zu: ", (size_t)d.size()) + d.str() + "\n";
    }
  }
  hostRemove(name);
  return ok;
}
bool equalButTime(const std::string& a, const std::string& b, size_t* at) {
  *at = 0;
  if (a == b) return true;
  size_t p = 0, n = std::min(a.size(), b.size());
  while (p < n && a[p] == b[p]) ++p;
  *at = p;
  if (a.size() != b.size()) {
    // the number may be encoded in fewer bytes: the header has lengths, too
    return false;
  }
  size_t e = a.size();
  while (e > p && a[e - 1] == b[e - 1]) --e;
  return e - p <= 10;
}
bool accepted(const std::string& file) {
  jm::FilesystemModel fm;
  std::string name = file;
  if (!fm.open(name)) return false;
  jm::ModelInfo i;
  return fm.load(&i).isOk();
}
void startSched(const Scenario& s, const Tool& t) {
  if (!threaded(t)) return;
  SchedCfg c = schedCfg(s);
  c.race = false;
  c.accessPpm = std::min<u32>(c.accessPpm, 2000);
  c.stepBudget = 4000000000ull;
  schedStart(c, s);
  count(schedKind(s.get("strategy")));
}
void stopSched(const Tool& t) {
  if (threaded(t) && liveThreads() == 0) schedStop();
}
bool saysTime(int k) { return k == Bootstrap || k == Index; }

void compareModels(const char* cls, const Tool& t, const Outcome& got, const Outcome& want, const char* what, bool hadOld, bool faulted = false) {
  for (size_t i = 0; i < t.outputs.size(); ++i) {
    // weight dumps are made on the way: it is enough to tell that one failed
    if (faulted && i > 0 && (!got.exists[i] || got.models[i] != want.models[i]) && got.p.err.find("failed") != std::string::npos) {
      count("probe.dump_failure_reported");
      continue;
    }
    if (!got.exists[i]) violation(cls, "%s: %s does not exist", what, t.outputs[i].c_str());
    size_t at = 0;
    bool eq = saysTime(t.kind) ? equalButTime(got.models[i], want.models[i], &at) : got.models[i] == want.models[i];
    if (!eq && hadOld) {
      std::string a, b;
      eq = contents(got.models[i], &a) && contents(want.models[i], &b) && (saysTime(t.kind) ? equalButTime(a, b, &at) : a == b);
    }
    if (!eq) {
      size_t p = 0;
      while (p < got.models[i].size() && p < want.models[i].size() && got.models[i][p] == want.models[i][p]) ++p;
      if (g_verbose) {
        int shown = 0;
        for (size_t q = p; q < got.models[i].size() && q < want.models[i].size() && shown < 40; ++q)
          if (got.models[i][q] != want.models[i][q]) { trace("byte %zu: %02x, expected %02x", q, (u8)got.models[i][q], (u8)want.models[i][q]); ++shown; }
      }
      size_t e = 0;
      while (e < got.models[i].size() && e < want.models[i].size() && got.models[i][got.models[i].size() - 1 - e] == want.models[i][want.models[i].size() - 1 - e]) ++e;
      violation(cls, "%s: %s has %zu bytes, expected %zu; they differ from byte %zu to %zu before the end", what, t.outputs[i].c_str(), got.models[i].size(), want.models[i].size(), p, e);
    }
  }
}

// ------------------------------------------------------------------ C18
Scenario genC18(u64 seed) {
  Rng r(seed ^ 0x18);
  Scenario s;
  genTool(s, r, r.pick<int>({Bootstrap, Index, Index, Train, Train, ToolTrain, Embed}));
  if (s.p.count("batch")) {
    // several examples in flight: each is processed with the weights of the moment, which depend on the schedule by
    // design; partial examples are added to every batch
    s.p["batch"] = 1;
    s.p["partial"] = 0;
  }
  genSched(s, r, true);
  s.p["reps"] = r.range(1, 2);
  s.p["env_seed"] = (i64)r.below(1000000);
  return s;
}
void execC18(const Scenario& s) {
  HeapCfg hc;
  heapConfigure(hc);
  fsStart(full("r_"));
  cleanAll();
  Tool t = makeTool(s);
  count(kindName(t.kind));
  ClockCfg cc;
  clockConfigure(cc);
  memCheck(true);
  stepBudget(6000000000ull);
  startSched(s, t);
  cleanOutputs(t);
  Outcome ref = runTool(t);
  if (ref.p.code != 0) violation("failed", "%s fails without any fault: %s", t.argv[0].c_str(), normal(ref.p.err + ref.p.out).substr(0, 500).c_str());
  for (auto e : ref.exists) if (!e) violation("failed", "exit status 0 but no output");
  Rng r((u64)s.get("env_seed"));
  i64 reps = std::min<i64>(3, std::max<i64>(1, s.get("reps", 1)));
  for (i64 k = 0; k < reps; ++k) {
    hc.fill = (int)r.below(4);
    hc.fillSeed = r.next();
    hc.reuse = (int)r.below(3);
    hc.pad = r.pick<u64>({0, 16, 64, 4096});
    heapConfigure(hc);
    cc.mode = (int)r.below(4);
    cc.seed = r.next();
    // within the range in which the recorded number has one length
    cc.startNs = (i64)(1200000000ll + (i64)r.below(700000000)) * 1000000000ll + (i64)r.below(1000000000);
    cc.tickNs = r.pick<i64>({1, 1000, 1000000, 300000000, 5000000000ll});
    clockConfigure(cc);
    static const char* modes[] = {"clock.steady", "clock.jumps", "clock.frozen", "clock.backwards"};
    count(modes[cc.mode]);
    cleanOutputs(t);
    bool hadOld = false;
    // alignment gaps keep what an old file had there: contents are compared then
    if (r.chance(1, 3)) { hostWrite(full("r_model"), std::string((size_t)r.below(40000), 'z')); hadOld = true; count("probe.old_file_in_place"); }
    Outcome o = runTool(t);
    if (o.p.code != ref.p.code) violation("failed", "%s fails the next time: %s", t.argv[0].c_str(), normal(o.p.err + o.p.out).substr(0, 500).c_str());
    compareModels("model-bytes", t, o, ref, strf("run %d of the same build", (int)k + 2).c_str(), hadOld);
    std::string d1 = normal(ref.p.out) + "\n---\n" + normal(ref.p.err), d2 = normal(o.p.out) + "\n---\n" + normal(o.p.err);
    if (d1 != d2) {
      size_t p = 0;
      while (p < d1.size() && p < d2.size() && d1[p] == d2[p]) ++p;
      size_t f = p > 60 ? p - 60 : 0;
      violation("diagnostics", "the messages of two runs differ: [%s] and [%s]", d1.substr(f, 200).c_str(), d2.substr(f, 200).c_str());
    }
    count("probe.compared");
  }
  stopSched(t);
  for (auto& m : ref.models) stateMark(hashBytes(m.data(), m.size()));
  cleanAll();
  finishRun();
}

// ------------------------------------------------------------------ C11
Scenario genC11(u64 seed) {
  Rng r(seed ^ 0x11);
  if (r.chance(1, 3) && c11LibGen) {
    Scenario s = c11LibGen(seed);
    s.p["lib"] = 1;
    return s;
  }
  Scenario s;
  genTool(s, r, r.pick<int>({Bootstrap, Index, Index, Train, Train, ToolTrain, Embed}));
  // a reproducible result to compare with (see C18)
  if (s.p.count("batch")) { s.p["batch"] = 1; s.p["partial"] = 0; }
  genSched(s, r, false);
  genHeap(s, r);
  if (s.p.count("dump")) s.p["dump"] = r.chance(1, 3);
  s.p["old"] = r.chance(1, 3);
  switch (r.below(8)) {
    case 0: break;                                     // no fault at all
    case 1: s.p["capacity"] = r.chance(1, 3) ? 0 : 4096 * (i64)r.below(40); break;
    case 2: s.p["bad_output"] = r.range(1, 3); break;  // no such directory, a directory, not permitted
    default:
      s.p["fail_at"] = (i64)r.below(1000000);
      s.p["fail_err"] = r.below(4);
      s.p["fail_sticky"] = r.chance(1, 4);
      s.p["fail_late"] = r.chance(2, 3);               // in the last calls, where the saving is
  }
  s.p["short_w"] = r.chance(1, 4) ? r.range(1, 4) : 0;
  return s;
}
void execC11(const Scenario& s) {
  if (s.get("lib")) { c11LibExec(s); return; }
  useHeap(s);
  fsStart(full("r_"));
  cleanAll();
  Tool t = makeTool(s);
  count(kindName(t.kind));
  memCheck(true);
  stepBudget(6000000000ull);
  startSched(s, t);
  cleanOutputs(t);
  u64 c0 = fsCalls();
  Outcome ref = runTool(t);
  u64 calls = fsCalls() - c0;
  if (ref.p.code != 0) violation("failed", "%s fails without any fault: %s", t.argv[0].c_str(), normal(ref.p.err + ref.p.out).substr(0, 500).c_str());
  for (auto e : ref.exists) if (!e) violation("unreported", "nothing failed, exit status 0 but no output");
  std::string success = lastLine(ref);
  cleanOutputs(t);
  std::string oldBytes;
  if (s.get("old")) { oldBytes = t.kind == Embed ? *g_jdBytes : *g_seedBytes; hostWrite(full("r_model"), oldBytes); }
  fsStart(full("r_"));
  bool bad = false;
  Tool u = t;
  if (s.p.count("capacity")) fsCapacity(s.get("capacity"));
  if (s.get("bad_output")) {
    bad = true;
    std::string repl;
    switch (s.get("bad_output")) {
      case 1: repl = "r_nodir/model"; break;
      case 2: hostMkdir(full("r_dir")); repl = "r_dir"; break;
      default: repl = "r_denied"; fsPathFault("open", full("r_denied"), EACCES); fsPathFault("open", full("r_denied.tmp"), EACCES); break;
    }
    if (s.get("bad_output") == 3) { bad = false; }   // the name of a temporary file is the program's business
    else for (auto& a : u.argv) { size_t p = a.find("r_model"); if (p != std::string::npos) a.replace(p, 7, repl); }
    if (bad) for (auto& o : u.outputs) if (o == "r_model") o = repl;
    if (bad) count("fault.bad_output_name");
  }
  if (s.p.count("fail_at")) {
    i64 n = s.get("fail_at") % (i64)(calls + 2);
    if (s.get("fail_late")) { i64 w = std::min<i64>(20, (i64)calls); n = (i64)calls - w + s.get("fail_at") % (w + 1); }
    fsFailCall(n, (u64)s.get("fail_err"), s.get("fail_sticky"));
  }
  fsShortWrites((int)s.get("short_w"), s.seed);
  u64 fired = fsFaultsFired();
  Outcome o = runTool(u);
  bool faulted = bad || fsFaultsFired() != fired;
  fsClearFaults();
  count(faulted ? "runs.faulted" : "runs.clean");
  if (o.p.code == 0) {
    if (bad) violation("unreported", "the output cannot exist (%s) but the exit status is 0", u.outputs[0].c_str());
    compareModels("unreported", u, o, ref, faulted ? "a system call failed, the exit status is 0" : "nothing failed", !oldBytes.empty(), faulted);
    for (auto& f : {u.outputs[0]}) if (!accepted(f)) violation("unreported", "exit status 0 but %s is not accepted", f.c_str());
    if (faulted) count("probe.fault_was_harmless");
  } else {
    if (!faulted) violation("failed", "nothing failed but the exit status is %d: %s", o.p.code, normal(o.p.err + o.p.out).substr(0, 500).c_str());
    std::string all = normal(o.p.out) + normal(o.p.err);
    if (!success.empty() && all.find(success) != std::string::npos) violation("false-success", "the exit status is %d but the tool says [%s]", o.p.code, success.c_str());
    bool silent = o.p.err.empty() && normal(ref.p.out).compare(0, std::min(normal(o.p.out).size(), normal(ref.p.out).size()), normal(o.p.out)) == 0;
    if (silent && t.kind != Index) violation("message", "the exit status is %d and there is no message", o.p.code);
    count("probe.failure_reported");
  }
  if (!bad && o.p.code != 0 && s.get("old") && !o.models.empty() && o.models[0] != oldBytes && o.models[0].size() && accepted("r_model")) {
    size_t at;
    std::string a, b;
    bool eq = contents(o.models[0], &a) && contents(ref.models[0], &b) && (saysTime(t.kind) ? equalButTime(a, b, &at) : a == b);
    if (!eq) violation("mixture", "after the failed save the output file is accepted but it is neither the old nor the new model");
  }
  stateMark(hashBytes(&o.p.code, sizeof o.p.code, hashBytes(o.p.err.data(), o.p.err.size())));
  if (liveThreads() == 0) stopSched(t);
  rmdir(full("r_dir").c_str());
  cleanAll();
  finishRun();
}

// ------------------------------------------------------------------ C19
enum InFault { Gone, NoAccess, OpenIo, NoFds, StatIo, MapFails, Empty, IsDirectory, Malformed };
Scenario genC19(u64 seed) {
  Rng r(seed ^ 0x19);
  Scenario s;
  genTool(s, r, r.pick<int>({Bootstrap, Index, Index, Train, Train, ToolTrain, ToolTrain, Embed, Embed, Analyze, Analyze, ModelInfo, StaticFeatures}));
  if (s.p.count("partial")) s.p["partial"] = r.chance(2, 3);
  if (s.p.count("dump")) s.p["dump"] = 0;
  if (s.get("kind") == Index || s.get("kind") == StaticFeatures) s.p["list"] = r.chance(1, 2);
  genSched(s, r, false);
  genHeap(s, r);
  s.p["which"] = (i64)r.below(6);
  s.p["how"] = (i64)r.below(9);
  s.p["where"] = (i64)r.below(1000000);
  s.p["old"] = r.chance(1, 4);
  return s;
}
void execC19(const Scenario& s) {
  useHeap(s);
  fsStart(full("r_"));
  cleanAll();
  Tool t = makeTool(s);
  count(kindName(t.kind));
  memCheck(true);
  stepBudget(6000000000ull);
  startSched(s, t);
  cleanOutputs(t);
  Outcome ref = runTool(t);
  if (ref.p.code != 0) violation("failed", "%s fails although everything can be read: %s", t.argv[0].c_str(), normal(ref.p.err + ref.p.out).substr(0, 500).c_str());
  cleanOutputs(t);
  hostRemove(full("r_d/r_cg.cc"));
  hostRemove(full("r_d/r_cg.h"));
  std::string oldBytes;
  if (s.get("old") && !t.outputs.empty()) { oldBytes = t.kind == Embed ? *g_jdBytes : *g_seedBytes; hostWrite(full("r_model"), oldBytes); }
  std::string name = t.inputs[(size_t)s.get("which") % t.inputs.size()];
  int how = (int)(s.get("how") % 9);
  if (how == Malformed && (name == "r_list.csv" || name == "r_rnn")) how = Gone;   // any contents will do
  // an empty configuration or an empty list of partial examples is as good as none
  if (how == Empty && (name == "r_cfg" || name == "r_partial")) how = Gone;
  fsStart(full("r_"));
  static const char* hows[] = {"does not exist", "may not be opened", "cannot be opened (I/O error)", "cannot be opened (no descriptors)", "cannot be examined", "cannot be mapped", "is empty", "is a directory", "is malformed"};
  static const char* fn[] = {"fault.input_missing", "fault.input_denied", "fault.input_open_eio", "fault.input_emfile", "fault.input_stat_eio", "fault.input_mmap_enomem", "fault.input_empty", "fault.input_directory", "fault.input_malformed"};
  std::string p = full(name);
  switch (how) {
    case Gone: hostRemove(p); break;
    case NoAccess: fsPathFault("open", p, EACCES); break;
    case OpenIo: fsPathFault("open", p, EIO); break;
    case NoFds: fsPathFault("open", p, EMFILE); break;
    case StatIo: fsPathFault("stat", p, EIO); break;
    case MapFails: fsPathFault("mmap", p, ENOMEM); fsReadFailAt(p, 0, EIO); break;
    case Empty: hostWrite(p, ""); break;
    case IsDirectory: hostRemove(p); hostMkdir(p); break;
    case Malformed: {
      std::string d;
      hostRead(p, &d);
      size_t line = d.empty() ? 0 : (size_t)s.get("where") % d.size();
      line = d.rfind('\n', line) == std::string::npos ? 0 : d.rfind('\n', line) + 1;
      bool csv = t.kind == ToolTrain && s.get("csv");
      i64 w = s.get("where");
      if (name == "r_rnn.nnet" && w % 3 == 0) {
        // header of 98 bytes: version and layer size, size of the n-gram table, order of n-grams, ...
        u32 order = Rng((u64)w).pick<u32>({0, 5, 6, 17, 255, 0x7fffffff, 0xffffffff});
        d.replace(16, 4, std::string((char*)&order, 4));
      } else if (name == "r_rnn.nnet" && w % 3 == 1) {
        u64 have, vocab = (u64)std::count(g_rnnBytes->begin(), g_rnnBytes->end(), '\n'), ngrams = 0;
        memcpy(&have, d.data() + 8, 8);
        ngrams = Rng((u64)w).below(vocab + 1);   // none left for n-grams
        d.resize(d.size() - (have - ngrams) * 4);
        d.replace(8, 8, std::string((char*)&ngrams, 8));
      } else if (name == "r_seed" || name == "r_rnn.nnet") d.resize((size_t)s.get("where") % (name == "r_seed" ? 4096 : d.size()));
      else if (name == "r_cfg") d.insert(line, s.get("where") & 1 ? "--no-such-option\n" : "--beam=many\n");
      else if (name == "r_spec") d.insert(line, "field field field\n");
      else if (name == "r_partial") d += s.get("where") & 1 ? "x\ty\n\n" : "\tx\ty\n\n";
      else if (name == "r_corpus" && !csv) d.insert(line, s.get("where") & 1 ? "x\n" : "\"x_x_x\"y x_x_x\n");
      else d.insert(line, s.get("where") & 1 ? "x\n" : "\"x\"y,x,x,x,x\n");
      hostWrite(p, d);
      break;
    }
  }
  count(fn[how]);
  u64 fired = fsFaultsFired();
  Outcome o = runTool(t);
  bool happened = how == Gone || how == Empty || how == IsDirectory || how == Malformed || fsFaultsFired() != fired;
  if (!happened) {   // e.g. the size is not asked for
    if (o.p.code != 0) violation("failed", "nothing failed but the exit status is %d", o.p.code);
    count("probe.fault_not_reached");
  } else {
    std::string what = strf("%s: %s %s", t.argv[0].c_str(), name.c_str(), hows[how]);
    if (o.p.code == 0) violation("ignored", "%s but the exit status is 0: %s", what.c_str(), normal(o.p.err + o.p.out).substr(0, 300).c_str());
    std::string ro = normal(ref.p.out), go = normal(o.p.out);
    bool said = !o.p.err.empty() || ro.compare(0, std::min(go.size(), ro.size()), go.substr(0, ro.size())) != 0 || go.size() > ro.size();
    if (!said) violation("message", "%s, the exit status is %d and there is no message", what.c_str(), o.p.code);
    for (size_t i = 0; i < t.outputs.size(); ++i) {
      if (!o.exists[i]) continue;
      if (i == 0 && !oldBytes.empty() && o.models[i] == oldBytes) continue;
      if (accepted(t.outputs[i])) violation("output-left", "%s, and the output file is accepted as complete", what.c_str());
    }
    if ((t.kind == Analyze || t.kind == ModelInfo) && !o.p.out.empty()) violation("ignored", "%s, and results were written: %s", what.c_str(), o.p.out.substr(0, 200).c_str());
    if (t.kind == StaticFeatures && (hostExists(full("r_d/r_cg.cc")) || hostExists(full("r_d/r_cg.h")))) violation("output-left", "%s, and code was generated", what.c_str());
    count("probe.reported");
  }
  stateMark(hashBytes(&how, sizeof how, hashBytes(name.data(), name.size(), hashBytes(o.p.err.data(), o.p.err.size(), (u64)t.kind))));
  if (liveThreads() == 0) stopSched(t);
  cleanAll();
  finishRun();
}

// ------------------------------------------------------------------ C21: memory runs out
Scenario genC21(u64 seed) {
  Rng r(seed ^ 0x21);
  Scenario s;
  if (r.chance(1, 3)) {
    s.p["lib"] = 1 + r.below(4);
    s.p["rows"] = r.pick<i64>({0, 10, 40});
    s.p["list"] = r.below(2);
    s.p["dic_seed"] = (i64)r.below(1000);
    s.p["which"] = (i64)r.below(3);
    s.p["static"] = (i64)r.below(2);
  } else {
    // (the generator of static features is built on a library which does not handle it)
    genTool(s, r, r.pick<int>({Bootstrap, Index, Index, Train, Train, ToolTrain, Embed, Analyze, Analyze, ModelInfo}));
    if (s.p.count("batch")) { s.p["batch"] = 1; s.p["partial"] = 0; }
    if (s.p.count("dump")) s.p["dump"] = r.chance(1, 3);
    if (s.get("kind") == Analyze)
      for (i64 i = 0, n = r.range(0, 3); i < n; ++i) s.ops.push_back(Op("text", {}, {r.pick(world::small().words) + r.pick(world::small().words)}));
    genSched(s, r, false);
  }
  genHeap(s, r);
  s.p["old"] = r.chance(1, 3);
  s.p["oom_at"] = (i64)r.below(1ull << 40);
  s.p["oom_scale"] = r.pick<i64>({0, 0, 0, 20, 200});   // anywhere, or early
  s.p["oom_late"] = r.chance(1, 4);
  s.p["oom_n"] = r.pick<i64>({1, 1, 1, 2, 3, 10, -1});
  return s;
}
i64 oomPoint(const Scenario& s, u64 allocs) {
  i64 n = (i64)std::max<u64>(1, allocs);
  i64 w = s.get("oom_scale") ? std::min(n, s.get("oom_scale")) : n;
  i64 at = s.get("oom_at") % w;
  return s.get("oom_late") ? n - 1 - at : at;
}
// each complete block is the expected one or an empty result; the last one may be cut off when the command failed
bool blocksOk(const std::string& got, const std::string& want, bool failed, int* empty) {
  size_t g = 0, w = 0;
  *empty = 0;
  while (g < got.size()) {
    size_t e = want.find("EOS\n", w);
    if (e == std::string::npos) return false;
    std::string b = want.substr(w, e + 4 - w);
    w = e + 4;
    if (got.compare(g, b.size(), b) == 0) { g += b.size(); continue; }
    if (got.compare(g, 4, "EOS\n") == 0) { g += 4; ++*empty; continue; }
    return failed && b.compare(0, got.size() - g, got, g, std::string::npos) == 0;
  }
  return failed || w == want.size();
}
void execC21Tool(const Scenario& s) {
  useHeap(s);
  fsStart(full("r_"));
  cleanAll();
  Tool t = makeTool(s);
  count(kindName(t.kind));
  memCheck(true);
  stepBudget(6000000000ull);
  startSched(s, t);
  cleanOutputs(t);
  Outcome warmup = runTool(t);   // first use of what the libraries set up once
  cleanOutputs(t);
  heapCountReset();
  Outcome ref = runTool(t);
  u64 allocs = heapAllocCount();
  if (ref.p.code != 0) violation("failed", "%s fails without any fault: %s", t.argv[0].c_str(), normal(ref.p.err + ref.p.out).substr(0, 500).c_str());
  std::string success = lastLine(ref);
  cleanOutputs(t);
  hostRemove(full("r_d/r_cg.cc"));
  hostRemove(full("r_d/r_cg.h"));
  std::string oldBytes;
  if (s.get("old") && !t.outputs.empty()) { oldBytes = t.kind == Embed ? *g_jdBytes : *g_seedBytes; hostWrite(full("r_model"), oldBytes); }
  i64 at = oomPoint(s, allocs);
  u64 failed0 = heapFailed();
  auto judge = [&](Outcome& o) {
    bool faulted = heapFailed() != failed0;
    count(faulted ? "runs.faulted" : "runs.clean");
    if (faulted) count("fault.allocation", heapFailed() - failed0);
    count(faulted ? o.p.code == 134 ? "probe.terminated" : o.p.code ? "probe.reported" : "probe.unharmed" : "probe.not_reached");
    trace("allocation %ld of %lu: %s", (long)at, (unsigned long)allocs, faulted ? "failed" : "not reached");
    if (!faulted && o.p.code != 0) violation("failed", "no allocation failed but the exit status is %d: %s", o.p.code, normal(o.p.err + o.p.out).substr(0, 500).c_str());
    if (t.kind == Analyze) {
      int empty = 0;
      if (!blocksOk(o.p.out, ref.p.out, o.p.code != 0, &empty)) violation("results", "memory ran out, the exit status is %d and the output is [%s] instead of [%s]", o.p.code, o.p.out.substr(0, 400).c_str(), ref.p.out.substr(0, 400).c_str());
      if (empty && o.p.err.empty()) violation("unreported", "memory ran out, a sentence has an empty result and there is no message");
      if (empty) count("probe.empty_result");
    } else if (t.kind == ModelInfo && o.p.code == 0 && o.p.out + o.p.err != ref.p.out + ref.p.err) {
      violation("results", "memory ran out, the exit status is 0 and the information differs");
    }
    if (o.p.code == 0) {
      compareModels("unreported", t, o, ref, "memory ran out, the exit status is 0", !oldBytes.empty(), faulted);
      if (!t.outputs.empty() && !accepted(t.outputs[0])) violation("unreported", "exit status 0 but %s is not accepted", t.outputs[0].c_str());
    } else {
      std::string all = normal(o.p.out) + normal(o.p.err);
      if (!t.outputs.empty() && !success.empty() && all.find(success) != std::string::npos) violation("false-success", "the exit status is %d but the tool says [%s]", o.p.code, success.c_str());
      if (o.p.code != 134 && o.p.err.empty() && normal(ref.p.out).compare(0, normal(o.p.out).size(), normal(o.p.out)) == 0 && t.kind != Index) violation("message", "memory ran out, the exit status is %d and there is no message", o.p.code);
      if (!t.outputs.empty() && o.exists[0] && o.models[0] != oldBytes && !o.models[0].empty() && accepted(t.outputs[0])) {
        size_t p;
        std::string a, b;
        bool eq = contents(o.models[0], &a) && contents(ref.models[0], &b) && (saysTime(t.kind) ? equalButTime(a, b, &p) : a == b);
        if (!eq) violation("output-left", "memory ran out, the tool failed (%d) and the output file is accepted but is not the model", o.p.code);
        count("probe.complete_before_failing");
      }
    }
    stateMark(hashBytes(&at, sizeof at, hashBytes(&o.p.code, sizeof o.p.code, hashBytes(o.p.err.data(), o.p.err.size(), (u64)t.kind))));
    cleanAll();
    finishRun();
  };
  Outcome o = runTool(t, judge, at, s.get("oom_n", 1));
  judge(o);
}

// the library: loading a model, or building one, then the same again with memory
struct Lib {
  Status st = Status::Ok();
  int how = 0;      // 0 status, 1 bad_alloc, 2 another standard exception, 3 something else
  std::string what, out;
};
template <class F> Lib guard(F f) {
  Lib l;
  try {
    l.st = f(&l.out);
  } catch (std::bad_alloc&) {
    l.how = 1;
  } catch (std::exception& e) {
    heapFailAt(-1, 0);
    l.how = 2;
    l.what = e.what();
  } catch (...) {
    l.how = 3;
  }
  heapFailAt(-1, 0);
  return l;
}
Status libLoad(const Scenario& s, std::string* out) {
  core::JumanppEnv env;
  JPP_RETURN_IF_ERROR(env.loadModel("r_seed"));
  JPP_RETURN_IF_ERROR(env.initFeatures(s.get("static") ? jumandic::jumandicStaticFeatures() : nullptr));
  env.setBeamSize(3);
  if (s.get("which")) env.setGlobalBeam(3, 1, 2);
  core::analysis::Analyzer an;
  JPP_RETURN_IF_ERROR(env.makeAnalyzer(&an));
  JPP_RETURN_IF_ERROR(an.analyze("京都に行く"));
  core::analysis::AnalysisResult res;
  core::analysis::AnalysisPath top;
  JPP_RETURN_IF_ERROR(res.reset(an));
  JPP_RETURN_IF_ERROR(res.fillTop1(&top));
  heapFailAt(-1, 0);
  core::analysis::ConnectionPtr cp;
  while (top.nextBoundary()) while (top.nextNode(&cp)) *out += strf("%d/%d ", cp.boundary, cp.right);
  core::VersionInfo v;
  env.fillVersion(&v);
  *out += v.dictionary + "|" + v.model + "|" + v.rnn;
  return Status::Ok();
}
Status libBuild(const Scenario& s, const std::string& dic, std::string* out) {
  core::spec::AnalysisSpec sp;
  JPP_RETURN_IF_ERROR(core::spec::parseFromFile("r_spec", &sp));
  core::dic::DictionaryBuilder b;
  JPP_RETURN_IF_ERROR(b.importSpec(&sp));
  JPP_RETURN_IF_ERROR(b.importCsv("r_dic", dic));
  core::model::ModelInfo mi;
  mi.parts.emplace_back();
  JPP_RETURN_IF_ERROR(b.fillModelPart(&mi.parts.back()));
  if (s.get("lib") == 4) {   // read back at once
    core::dic::BuiltDictionary bd;
    JPP_RETURN_IF_ERROR(bd.restoreDictionary(mi));
    core::dic::DictionaryHolder dh;
    JPP_RETURN_IF_ERROR(dh.load(bd));
    core::CoreHolder ch(bd.spec, dh);
    JPP_RETURN_IF_ERROR(ch.initialize(nullptr));
  }
  core::model::ModelSaver sv;
  JPP_RETURN_IF_ERROR(sv.open("r_model"));
  JPP_RETURN_IF_ERROR(sv.save(mi));
  return Status::Ok();
}
void execC21Lib(const Scenario& s) {
  useHeap(s);
  fsStart(full("r_"));
  cleanAll();
  bool load = s.get("lib") <= 2;
  Scenario g = s;
  std::string dic;
  if (load) {
    std::string m;
    hostRead(full(s.get("which") ? world::jumandicRnnModel() : world::jumandicModel()), &m);
    hostWrite(full("r_seed"), m);
  } else {
    g.p["kind"] = Index;
    makeTool(g);
    hostRead(full("r_dic"), &dic);
  }
  count(load ? "lib.load" : "lib.build");
  memCheck(true);
  stepBudget(6000000000ull);
  auto work = [&](std::string* out) { return load ? libLoad(s, out) : libBuild(s, dic, out); };
  Lib w = guard(work);
  if (w.how || !w.st) violation("failed", "%s fails without any fault: %s", load ? "loading" : "building", statusText(w.st).c_str());
  std::string want, got;
  if (!load) { hostRead(full("r_model"), &got); contents(got, &want); }
  heapCountReset();
  guard(work);
  u64 allocs = heapAllocCount();
  int fds = fsOpenFds(), maps = fsLiveMappings();
  hostRemove(full("r_model"));
  std::string oldBytes;
  if (s.get("old") && !load) { oldBytes = *g_seedBytes; hostWrite(full("r_model"), oldBytes); }
  i64 at = oomPoint(s, allocs);
  u64 f0 = heapFailed();
  heapFailAt(at, s.get("oom_n", 1));
  Lib l = guard(work);
  bool faulted = heapFailed() != f0;
  trace("allocation %ld of %lu %s: %s", (long)at, (unsigned long)allocs, faulted ? "failed" : "was not reached", l.how == 1 ? "std::bad_alloc" : l.how ? l.what.c_str() : statusText(l.st).c_str());
  count(faulted ? "runs.faulted" : "runs.clean");
  bool ok = l.how == 0 && l.st.isOk();
  count(!faulted ? "probe.not_reached" : l.how ? "probe.bad_alloc" : ok ? "probe.unharmed" : "probe.reported");
  if (l.how > 1) violation("exception", "memory ran out and the exception is not std::bad_alloc: %s", l.what.c_str());
  if (!faulted && !ok) violation("failed", "no allocation failed but the work did: %s", statusText(l.st).c_str());
  auto model = [&](const char* when) {
    std::string d, c;
    if (load) return;
    if (!hostRead(full("r_model"), &d) || !contents(d, &c)) violation("unreported", "%s was successful but the model is not accepted", when);
    size_t p;
    if (!equalButTime(c, want, &p)) violation("unreported", "%s was successful but the model is another one (from byte %zu of its contents)", when, p);
  };
  if (ok) {
    if (l.out != w.out) violation("results", "memory ran out, nothing was reported and the result is [%s] instead of [%s]", l.out.c_str(), w.out.c_str());
    model("the work during which memory ran out");
  } else if (!load) {
    std::string d, c;
    if (hostRead(full("r_model"), &d) && d != oldBytes && contents(d, &c)) {
      size_t p;
      if (!equalButTime(c, want, &p)) violation("output-left", "memory ran out, building failed and the output file is accepted but is not the model");
    }
  }
  if (fsOpenFds() != fds || fsLiveMappings() != maps) violation("leak", "after memory ran out %d descriptors and %d mappings are open, before it were %d and %d", fsOpenFds(), fsLiveMappings(), fds, maps);
  Lib n = guard(work);
  if (n.how || !n.st) violation("afterwards", "memory ran out once; now %s fails although memory is available: %s", load ? "loading" : "building", n.how ? n.what.c_str() : statusText(n.st).c_str());
  if (n.out != w.out) violation("afterwards", "memory ran out once; now the result is [%s] instead of [%s]", n.out.c_str(), w.out.c_str());
  model("the work done afterwards");
  stateMark(hashBytes(&at, sizeof at, (u64)s.get("lib") * 100 + (u64)l.how));
  cleanAll();
  finishRun();
}
void execC21(const Scenario& s) {
  if (s.get("lib")) execC21Lib(s);
  else execC21Tool(s);
}
Registrar r21({"C21", [] { warm(); world::jumandicRnnModel(); }, genC21, execC21, 60});
Registrar r11({"C11", warm, genC11, execC11, 60});
Registrar r18({"C18", warm, genC18, execC18, 60});
Registrar r19({"C19", warm, genC19, execC19, 60});
}  // namespace
