// C20: a model with an embedded RNN analyses as the parts it was made from do.
#include "hcommon.h"
#include "world.h"
#include "anexec.h"
#include <cstring>

int jpp_main_jumanpp(int argc, const char** argv);
int jpp_main_train(int argc, const char** argv);
namespace sim { std::string scratchDir(); }
using namespace sim;
using namespace h;
using namespace jumanpp;

namespace {
std::string full(const std::string& f) { return scratchDir() + "/" + f; }
std::string* g_plain;
void warm() {
  if (g_plain) return;
  an::warmExecs();
  g_plain = new std::string;
  hostRead(full(world::jumandicModel()), g_plain);
  if (g_plain->empty()) harnessError("no model");
}
// settings: in hundredths, or absent
const char* kNum[] = {"nce", "unkc", "unkl", "wp", "wr"};
const char* kFlag[] = {"--rnn-nce-bias", "--rnn-unk-constant", "--rnn-unk-length", "--feature-weight-perceptron", "--feature-weight-rnn"};
i64 someValue(Rng& r, int i) {
  switch (i) {
    case 0: return r.range(-1200, 1200);
    case 1: return r.range(-1500, 200);
    case 2: return r.range(-400, 100);
    default: return r.pick<i64>({10, 25, 50, 70, 100, 130, 200, 333});
  }
}
Scenario gen(u64 seed) {
  Rng r(seed ^ 0x20);
  Scenario s;
  s.p["layer"] = r.pick<i64>({1, 2, 3, 5, 8, 16, 17, 40, 96});
  s.p["order"] = r.range(1, 3);
  s.p["extra"] = r.pick<i64>({7, 97, 997});
  s.p["rnn_seed"] = (i64)r.below(1000);
  s.p["vocab"] = r.pick<i64>({-1, -1, -1, 0, 1, 10, 40});
  s.p["symbols"] = (i64)r.below(8);
  for (int i = 0; i < 5; ++i) if (r.chance(1, 2)) s.p[kNum[i]] = someValue(r, i);
  if (r.chance(1, 2)) for (int i = 0; i < 5; ++i) if (r.chance(1, 3)) s.p[std::string("o_") + kNum[i]] = someValue(r, i);
  s.p["disable"] = r.chance(1, 8);
  s.p["format"] = (i64)r.below(4);
  s.p["nbest"] = r.range(1, 5);
  s.p["gbeam"] = r.range(1, 6);
  s.p["rcheck"] = r.range(0, 2);
  s.p["rbeam"] = r.range(1, 5);
  s.p["beam"] = r.range(1, 5);
  s.p["short_reads"] = (i64)r.below(4);
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    std::string t = an::genText(r, 8);
    for (auto& c : t) if (c == '\n') c = ' ';
    s.ops.push_back(Op("text", {}, {t}));
  }
  genHeap(s, r);
  return s;
}
void replaceAll(std::string* s, const std::string& a, const std::string& b) {
  for (size_t p = 0; (p = s->find(a, p)) != std::string::npos; p += b.size()) s->replace(p, a.size(), b);
}
void exec(const Scenario& s) {
  useHeap(s);
  fsStart(full("r_"));
  std::string dic, nnet;
  world::rnnFileText((int)s.get("layer", 8), (int)s.get("order", 3), (u64)s.get("extra", 97), (u64)s.get("rnn_seed"), &dic, &nnet, (int)s.get("vocab", -1));
  std::vector<std::string> sym = {"--rnn-fields=baseform,pos"};
  i64 y = s.get("symbols");
  if (y & 1) { replaceAll(&dic, "_", "|"); sym.push_back("--rnn-separator=|"); }
  if (y & 2) { replaceAll(&dic, "</s>", "<eos>"); sym.push_back("--rnn-eos=<eos>"); }
  if (y & 4) { replaceAll(&dic, "<unk>", "<?>"); sym.push_back("--rnn-unk=<?>"); }
  hostWrite(full("r_plain"), *g_plain);
  hostWrite(full("r_rnn"), dic);
  hostWrite(full("r_rnn.nnet"), nnet);
  hostRemove(full("r_model"));
  memCheck(true);
  stepBudget(20000000000ull);
  auto run = [&](int (*fn)(int, const char**), std::vector<std::string> argv, bool input) {
    ProcCfg c;
    c.argv = argv;
    c.seed = s.seed;
    if (input) {
      for (auto& o : s.ops) if (o.kind == "text" && !o.s.empty()) c.stdinData += o.s[0] + "\n";
      static const int chunks[] = {0, 1, 7, 100};
      c.stdinChunk = chunks[s.get("short_reads") & 3];
    }
    util::logging::CurrentLogLevel = util::logging::Level::None;
    ProcResult p = runProcess(fn, c);
    quiet();
    if (g_verbose) {
      std::string a;
      for (auto& x : argv) a += " " + x;
      trace("command:%s\nexit status %d\n%s\n%s", a.c_str(), p.code, p.out.substr(0, 3000).c_str(), p.err.substr(0, 1500).c_str());
    }
    return p;
  };
  auto num = [&](const char* pre, int i) { return std::string(kFlag[i]) + "=" + strf("%.2f", (double)s.get((std::string(pre) + kNum[i]).c_str()) / 100); };
  auto has = [&](const char* pre, int i) { return s.p.count(std::string(pre) + kNum[i]) != 0; };

  std::vector<std::string> a = {"jumanpp_train", "--model-input=r_plain", "--model-output=r_model", "--rnn-model=r_rnn"};
  for (auto& x : sym) a.push_back(x);
  for (int i = 0; i < 5; ++i) if (has("", i)) { a.push_back(num("", i)); count("probe.stored_setting"); }
  ProcResult e = run(jpp_main_train, a, false);
  if (e.code != 0) violation("embed", "the RNN could not be embedded: %s", e.err.substr(0, 500).c_str());

  std::vector<std::string> common = {"jumanpp", strf("--global-beam=%d", (int)s.get("gbeam", 3)), strf("--right-check=%d", (int)s.get("rcheck", 1)), strf("--right-beam=%d", (int)s.get("rbeam", 2)), strf("--beam=%d", (int)s.get("beam", 3))};
  switch (s.get("format")) {
    case 0: common.push_back(strf("--lattice=%d", (int)s.get("nbest", 2))); break;
    case 1: common.push_back("--juman"); break;
    case 2: common.push_back("--full-morph"); break;
    default: common.push_back("--segment"); break;
  }
  auto with = [&](std::vector<std::string> x) { std::vector<std::string> v = common; v.insert(v.end(), x.begin(), x.end()); return v; };
  bool over = false;
  for (int i = 0; i < 5; ++i) over |= has("o_", i);
  std::vector<std::string> stored = {"--model=r_model"}, apart = {"--model=r_plain", "--rnn-model=r_rnn"};
  bool disable = s.get("disable") && !has("", 3);
  if (disable) {
    stored.push_back("--feature-weight-rnn=0");
    apart = {"--model=r_plain"};
    count("probe.rnn_disabled");
  } else {
    for (auto& x : sym) apart.push_back(x);
    for (int i = 0; i < 5; ++i) {
      if (has("o_", i)) { stored.push_back(num("o_", i)); apart.push_back(num("o_", i)); count("probe.overridden_setting"); }
      else if (has("", i)) apart.push_back(num("", i));
    }
  }
  ProcResult p1 = run(jpp_main_jumanpp, with(apart), true);
  ProcResult p2 = run(jpp_main_jumanpp, with(stored), true);
  if (p1.code != 0) violation("failed", "the analysis with separate files failed: %s", p1.err.substr(0, 500).c_str());
  if (p2.code != 0) violation("failed", "the model with the embedded RNN cannot be used: %s", p2.err.substr(0, 500).c_str());
  if (p1.out != p2.out) {
    size_t at = 0;
    while (at < p1.out.size() && at < p2.out.size() && p1.out[at] == p2.out[at]) ++at;
    size_t b = p1.out.rfind('\n', at ? at - 1 : 0);
    b = b == std::string::npos ? 0 : b + 1;
    violation(disable ? "disabled" : over ? "override" : "result", "the analysis with the stored RNN differs (line of byte %zu):\n separate: %s\n stored:   %s", at, p1.out.substr(b, 300).c_str(), p2.out.substr(b, 300).c_str());
  }
  count(over ? "probe.equal_with_overrides" : "probe.equal");
  std::string after;
  hostRead(full("r_plain"), &after);
  if (after != *g_plain) violation("source", "the model file the new one was made from was changed");
  if (p1.err != p2.err) violation("messages", "the messages differ: [%s] and [%s]", p1.err.substr(0, 300).c_str(), p2.err.substr(0, 300).c_str());
  stateMark(hashBytes(p1.out.data(), p1.out.size()));
  for (auto f : {"r_plain", "r_rnn", "r_rnn.nnet", "r_model", "r_model.tmp"}) hostRemove(full(f));
  finishRun();
}
Registrar r20({"C20", warm, gen, exec, 60});
}  // namespace
