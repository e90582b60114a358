// C27: what one step of training does to the model.
#include "hcommon.h"
#include "world.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/output.h"
#include "core/analysis/unk_nodes_creator.h"
#include "core/env.h"
#include "core/impl/feature_computer.h"
#include "core/spec/spec_dsl.h"
#include "core/training/scw.h"
#include "core/training/trainer.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>

using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jt = jumanpp::core::training;
namespace ca = jumanpp::core::analysis;

namespace {
typedef std::string S;
typedef std::vector<S> VS;
typedef std::pair<u32, u32> Id;
S shorten(const S& s, size_t n = 120) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

struct World {
  core::JumanppEnv* env = nullptr;
  core::input::TrainFieldsIndex tio;
  VS empty;                    // how the absence of a value is written
  S shownAs(size_t k, const S& x) const { return x == empty[k] ? S() : x; }
  VS names;                    // of the training fields
  std::vector<double> weight;
  S allowKey; int allowField = -1;   // unknown words are accepted for a word with this field
  S kvField;
  VS words;                    // annotated words to make examples of, fields separated by _
  VS chars;
};
const int kWorlds = 3;
World* g_w[kWorlds];

VS split(const S& s, char c) {
  VS r(1);
  for (char x : s) { if (x == c) r.emplace_back(); else r.back() += x; }
  return r;
}
int codepoints(const S& s) {
  int n = 0;
  for (unsigned char c : s) n += (c & 0xc0) != 0x80;
  return n;
}
// fields are stored in another order than they have in the data, and some training fields are only stored
core::JumanppEnv* ownEnv(World* w) {
  Rng r(4711);
  static const char* cs[] = {"も", "の", "京", "東", "山"};
  static const char* bs[] = {"N", "V", "P"};
  static const char* ts[] = {"x", "y", "z", "*"};
  static const char* rs[] = {"も", "きょう", "とう", "山", "ん"};
  S d = "n0,UNK,x,r0,N,est:V\nn1,UNK,y,r1,V,est:P\n";
  std::set<S> seen;
  for (int i = 0; i < 60; ++i) {
    S a;
    int n = i < 4 ? 1 : (int)r.range(1, 3);
    for (int k = 0; k < n; ++k) a += i < 4 ? cs[i] : cs[r.below(5)];
    S row = strf("n%d,", i) + a + "," + ts[r.below(4)] + "," + rs[r.below(5)] + "," + bs[r.below(3)] + "," + (r.chance(1, 2) ? "NIL" : "k:v q");
    auto f = split(row, ',');
    if (!seen.insert(f[1] + "_" + f[3] + "_" + f[4] + "_" + f[2]).second) continue;
    d += row + "\n";
  }
  w->words.assign(seen.begin(), seen.end());
  core::spec::AnalysisSpec spec;
  core::spec::dsl::ModelSpecBuilder bldr;
  bldr.field(1, "note").strings();
  auto& a = bldr.field(2, "a").strings().trieIndex();
  auto& t = bldr.field(3, "t").strings().emptyValue("*");
  auto& rd = bldr.field(4, "r").strings();
  auto& b = bldr.field(5, "b").strings();
  auto& f = bldr.field(6, "f").kvLists().emptyValue("NIL");
  auto& len = bldr.feature("len").numCodepoints(a);
  bldr.unigram({b});
  bldr.unigram({a, b});
  bldr.unigram({b, t});
  bldr.unigram({len});
  bldr.bigram({a}, {b});
  bldr.bigram({a, b}, {a, b});
  bldr.bigram({t}, {t});
  bldr.trigram({b}, {b}, {b});
  bldr.train().field(a, 1.0f).field(rd, 0.0f).field(b, 2.0f).field(t, 0.5f).allowGoldUnkWith(b, f, "est");
  bldr.unk("katakana", 1).chunking(chars::CharacterClass::KATAKANA).outputTo({a});
  bldr.unk("digits", 2).single(chars::CharacterClass::FAMILY_DIGITS).outputTo({a});
  Status s = bldr.build(&spec);
  if (s) s = world::saveDic(spec, d, "learn.seed");
  auto* e = new core::JumanppEnv;
  if (s) s = e->loadModel("learn.seed");
  if (s) s = e->initFeatures(nullptr);
  if (!s) harnessError("own specification: %s", statusText(s).c_str());
  return e;
}
void warm() {
  quiet();
  if (g_w[0]) return;
  for (int k = 0; k < kWorlds; ++k) {
    auto* w = new World;
    if (k == 0) {
      w->env = world::smallEnv();
      for (auto& x : world::small().words) for (auto& t : world::small().tags) w->words.push_back(x + "_" + t);
      w->chars = world::small().chars;
    } else if (k == 1) {
      auto* e = new core::JumanppEnv;   // as the training command does it
      Status s = e->loadModel(world::jumandicSeed());
      if (s) s = e->initFeatures(nullptr);
      if (!s) harnessError("jumandic: %s", statusText(s).c_str());
      w->env = e;
      for (auto& l : world::trainLines()) for (auto& x : split(l.substr(0, l.find(" # ")), ' ')) if (split(x, '_').size() == 7) w->words.push_back(x);
      w->kvField = "features";
      w->chars = {"京", "の", "人", "カ", "ー", "5", "a", "が", "お", "々"};
    } else {
      w->env = ownEnv(w);
      w->kvField = "f";
      w->chars = {"も", "の", "京", "東", "カ", "ラ", "5", "山"};
    }
    auto& spec = w->env->spec();
    ca::AnalyzerImpl an(w->env->coreHolder(), core::ScoringConfig{1, 1}, ca::AnalyzerConfig{});   // constants are made on the first use
    an.resetForInput("5カの");
    an.prepareNodeSeeds();
    Status s = w->tio.initialize(*w->env->coreHolder());
    if (!s) harnessError("training fields: %s", statusText(s).c_str());
    for (auto& f : spec.training.fields) {
      w->empty.push_back(spec.dictionary.fields[f.fieldIdx].emptyString);
      w->names.push_back(spec.dictionary.fields[f.fieldIdx].name);
      w->weight.push_back(f.weight);
    }
    for (auto& a : spec.training.allowedUnk) {
      w->allowKey = a.sourceKey;
      for (size_t i = 0; i < w->names.size(); ++i) if (w->names[i] == spec.dictionary.fields[a.targetField].name) w->allowField = (int)i;
    }
    g_w[k] = w;
  }
}

// ------------------------------------------------------------------ generation
S genWord(Rng& r, const World& w, int k) {
  VS f = split(r.pick(w.words), '_');
  auto other = [&](size_t i) { f[i] = split(r.pick(w.words), '_')[i]; };
  switch (r.below(9)) {
    case 0: other(r.below(f.size())); break;
    case 1: {   // a word the dictionary does not have
      S t;
      int n = (int)r.range(1, 3);
      for (int i = 0; i < n; ++i) t += r.pick(w.chars);
      f[0] = t;
      if (k == 1) { if (r.chance(3, 4)) f[1] = f[2] = t; else { f[1] = t + "ん"; f[2] = t + "る"; } }
      break;
    }
    case 2: {   // katakana
      static const char* u[] = {"カ", "ラ", "ガラ", "ラカカ", "ケマペ", "カラカラ"};
      f[0] = u[r.below(6)];
      if (k == 1) { f[1] = f[2] = f[0]; if (r.chance(1, 2)) { f[3] = "名詞"; f[4] = r.chance(1, 2) ? "普通名詞" : "固有名詞"; f[5] = f[6] = "*"; } }
      break;
    }
    case 3: {   // two words in one
      VS g = split(r.pick(w.words), '_');
      f[0] += g[0];
      if (k == 1) { f[1] += g[1]; f[2] += g[2]; }
      break;
    }
    case 4: if (r.chance(1, 2)) f[r.below(f.size())] = "なぞ"; break;   // maybe a value which is not known
    default: break;
  }
  S t;
  for (size_t i = 0; i < f.size(); ++i) t += (i ? "_" : "") + f[i];
  return t;
}
S genPart(Rng& r, const World& w, int k) {
  S l;
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    VS f = split(r.pick(w.words), '_');
    if (r.chance(1, 2)) {
      int m = (int)r.range(1, 3);
      for (int j = 0; j < m; ++j) {
        if (j && r.chance(1, 3)) l += "&";
        l += r.chance(1, 2) ? split(r.pick(w.words), '_')[0] : r.pick(w.chars);
      }
      l += "\n";
    } else {
      l += "\t" + f[0];
      for (size_t j = 0; j < f.size(); ++j)
        if (w.weight[j] != 0 && r.chance(1, 4)) l += "\t" + w.names[j] + ":" + (r.chance(3, 4) ? f[j] : split(r.pick(w.words), '_')[j]);
      l += "\n";
    }
  }
  (void)k;
  return l;
}
Scenario genC27(u64 seed) {
  Rng r(seed ^ 0x27);
  Scenario s;
  int k = (int)r.below(kWorlds);
  const World& w = *g_w[k];
  s.p["world"] = k;
  s.p["exponent"] = r.pick<i64>({6, 10, 12, 14});
  s.p["beam"] = r.range(1, 5);
  s.p["tmode"] = r.range(0, 2);
  s.p["csv"] = r.chance(1, 4);
  s.p["rseed"] = r.range(1, 1000);
  s.p["c_pct"] = r.pick<i64>({100, 100, 1, 10, 1000});
  s.p["phi_pct"] = r.pick<i64>({500, 500, 50, 100, 164});
  s.p["batch"] = r.range(1, 4);
  s.p["rounds"] = r.range(1, 3);
  s.p["shuffle"] = r.chance(1, 2);
  if (r.chance(1, 3)) { s.p["gbeam"] = r.range(1, 4); s.p["rcheck"] = r.range(0, 2); s.p["rbeam"] = r.range(1, 4); }
  int n = (int)r.range(1, 6), m = r.chance(1, 2) ? (int)r.range(1, 3) : 0;
  for (int i = 0; i < n; ++i) {
    S t;
    int c = (int)r.range(1, r.pick<i64>({2, 5, 9}));
    for (int j = 0; j < c; ++j) t += (j ? " " : "") + genWord(r, w, k);
    s.ops.push_back(Op("ex", {}, {t}));
  }
  for (int i = 0; i < m; ++i) s.ops.push_back(Op("pex", {}, {genPart(r, w, k)}));
  if (r.chance(1, 4))
    for (int i = 0; i < 2; ++i) s.faults.push_back(Op("oom", {(i64)r.below(12), (i64)r.below(r.pick<i64>({4, 30, 200})), r.pick<i64>({1, 1, 3, -1})}, {}));
  genHeap(s, r);
  return s;
}

// ------------------------------------------------------------------ reference
struct Part {  // constraints of a partially annotated example
  S surface;
  std::vector<int> bounds, noBreak;
  struct Node { int at, len; std::map<S, S> tags; };
  std::vector<Node> nodes;
};
Part parsePart(const S& text) {
  Part p;
  int at = 0;
  for (auto& l : split(text, '\n')) {
    if (l.empty()) break;
    if (l[0] != '\t') {
      for (auto& part : split(l, '&')) {
        p.surface += part;
        at += codepoints(part);
        p.noBreak.push_back(at);
      }
      p.noBreak.pop_back();
      p.bounds.push_back(at);
    } else {
      VS f = split(l.substr(1), '\t');
      Part::Node n{at, codepoints(f[0]), {}};
      for (size_t i = 1; i < f.size(); ++i) { size_t c = f[i].find(':'); n.tags[f[i].substr(0, c)] = f[i].substr(c + 1); }
      for (int i = 1; i < n.len; ++i) p.noBreak.push_back(at + i);
      p.nodes.push_back(n);
      p.surface += f[0];
      at += n.len;
      p.bounds.push_back(at);
    }
  }
  return p;
}
bool isFake(const ca::ConnectionBeamElement& e) { return ca::EntryBeam::isFake(e); }

struct Look {  // at one analysed example
  const World& w;
  ca::Lattice* lat;
  const ca::OutputManager& om;
  S text;
  u32 mask;
  std::deque<ca::StringField> fields;
  ca::KVListField kv;
  size_t nf;
  Look(const World& w_, jt::ITrainer* t, const S& text_, u32 mask_) : w(w_), lat(t->lattice()), om(t->outputMgr()), text(text_), mask(mask_) {
    for (size_t i = 0; i < w.names.size(); ++i) fields.emplace_back();
    Status s = Status::Ok();
    for (size_t i = 0; s && i < w.names.size(); ++i) s = om.stringField(w.names[i], &fields[i]);
    if (s && !w.kvField.empty()) s = om.kvListField(w.kvField, &kv);
    if (!s) harnessError("fields: %s", statusText(s).c_str());
    nf = w.env->spec().features.ngram.size();
  }
  u32 eos() const { return lat->createdBoundaryCount() - 1; }
  int len(Id n) const { return lat->boundary(n.first)->starts()->nodeInfo().at(n.second).numCodepoints(); }
  core::EntryPtr eptr(Id n) const { return lat->boundary(n.first)->starts()->nodeInfo().at(n.second).entryPtr(); }
  i32 raw(Id n, size_t field) const { return lat->boundary(n.first)->starts()->entryData().row(n.second).at(w.env->spec().training.fields[field].dicIdx); }
  VS strings(Id n) const {
    ca::NodeWalker nw;
    if (!om.locate(ca::LatticeNodePtr::make(n.first, n.second), &nw) || !nw.next()) violation("lattice", "[%s]: candidate %u at position %d cannot be looked at", shorten(text).c_str(), n.second, (int)n.first - 2);
    VS r;
    for (auto& f : fields) r.push_back(f[nw].str());
    return r;
  }
  S shown(Id n) const {
    if (n.first == eos()) return "the end";
    S t;
    for (auto& x : strings(n)) t += (t.empty() ? "" : "_") + x;
    return t + strf(" at %d", (int)n.first - 2);
  }
  S kvValue(Id n) const {
    ca::NodeWalker nw;
    S r = "?";
    if (!om.locate(ca::LatticeNodePtr::make(n.first, n.second), &nw) || !nw.next()) return r;
    auto it = kv[nw];
    while (it.next()) if (it.key().str() == w.allowKey) r = it.value().str();
    return r;
  }
  std::vector<u32> features(Id t2, Id t1, Id t0, bool masked = true) const {
    std::vector<u32> r(nf);
    core::features::NgramFeaturesComputer nc{lat, w.env->coreHolder()->features()};
    util::MutableArraySlice<u32> rs{r.data(), r.size()};
    nc.calculateNgramFeatures({ca::LatticeNodePtr::make(t2.first, t2.second), ca::LatticeNodePtr::make(t1.first, t1.second), ca::LatticeNodePtr::make(t0.first, t0.second)}, rs);
    if (masked) for (auto& x : r) x &= mask;
    return r;
  }
  struct Step { Id id; double total; };
  std::vector<Step> best() const {   // words and the end
    std::vector<Step> r;
    if (eos() == 2) return r;
    auto* el = &lat->boundary(eos())->starts()->beamData().row(0).at(0);
    if (isFake(*el)) violation("lattice", "[%s] has no best path", shorten(text).c_str());
    const ca::ConnectionPtr* p = &el->ptr;
    while (p->boundary >= 2) {
      r.push_back(Step{Id(p->boundary, p->right), reinterpret_cast<const ca::ConnectionBeamElement*>(p)->totalScore});
      p = p->previous;
    }
    std::reverse(r.begin(), r.end());
    return r;
  }
};
Id before(const std::vector<Id>& path, int i) {   // index -1 and -2: the start
  return i >= 0 ? path[i] : Id((u32)(2 + i), 0);
}
typedef std::map<u32, double> Diff;

struct Expect { double loss = 0; Diff diff; bool vague = false; };
Expect expectFull(const Look& lk, const std::vector<Id>& gold, const std::vector<float>& weights, int mode) {
  Expect e;
  auto best = lk.best();
  std::vector<Id> g = gold, top;
  u32 eos = lk.eos();
  g.push_back(Id(eos, 0));
  for (auto& b : best) top.push_back(b.id);
  // scores along the annotated path
  std::vector<double> gs;
  std::vector<std::vector<u32>> gf, tf;
  double sum = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    gf.push_back(lk.features(before(g, (int)i - 2), before(g, (int)i - 1), g[i]));
    for (u32 f : gf.back()) sum += weights[f];
    gs.push_back(sum);
  }
  for (size_t i = 0; i < top.size(); ++i) tf.push_back(lk.features(before(top, (int)i - 2), before(top, (int)i - 1), top[i]));
  double full = 0;
  for (double x : lk.w.weight) full += x;
  struct Cmp { int g, t; double viol, loss; bool error, inBeam; };
  std::vector<Cmp> cmp;
  size_t gi = 0, ti = 0;
  double last = 0;
  while (gi < g.size() || ti < top.size()) {
    bool both = gi < g.size() && ti < top.size() && g[gi].first == top[ti].first;
    Cmp c{-1, -1, 0, 0, true, false};
    if (both || ti >= top.size() || (gi < g.size() && g[gi].first < top[ti].first)) {
      c.g = (int)gi;
      last = gs[gi];
      c.inBeam = gi == 0;
      auto row = lk.lat->boundary(g[gi].first)->starts()->beamData().row(g[gi].second);
      for (auto& el : row) {
        if (gi == 0 || isFake(el)) break;
        if (Id(el.ptr.previous->boundary, el.ptr.previous->right) == g[gi - 1]) c.inBeam = true;
      }
      ++gi;
    }
    if (both || c.g < 0) {
      c.t = (int)ti;
      c.viol = best[ti].total - last;
      ++ti;
    }
    if (both) {
      bool diff = false;
      if (g[c.g].first != eos)
        for (size_t f = 0; f < lk.w.weight.size(); ++f)
          if (lk.w.weight[f] != 0 && lk.raw(g[c.g], f) != lk.raw(top[c.t], f)) { diff = true; c.loss += lk.w.weight[f]; }
      double tol = 5e-4 + 4e-6 * (std::fabs(best[c.t].total) + std::fabs(last));
      if (!diff && std::fabs(c.viol - 1e-3) < tol) e.vague = true;
      c.error = diff || c.viol > 1e-3;
    } else c.loss = full;
    trace("   %d.%d (%g) against %d.%d (%g)", c.g >= 0 ? (int)g[c.g].first : -1, c.g >= 0 ? (int)g[c.g].second : -1, last, c.t >= 0 ? (int)top[c.t].first : -1, c.t >= 0 ? (int)top[c.t].second : -1, c.t >= 0 ? best[c.t].total : 0);
    trace("  step gold %d top %d violation %f loss %f error %d in beam %d", c.g, c.t, c.viol, c.loss, (int)c.error, (int)c.inBeam);
    cmp.push_back(c);
  }
  int n = (int)cmp.size(), till = n;
  if (mode == 1) {
    for (int i = 0; i < n; ++i) if (cmp[i].g >= 0 && !cmp[i].inBeam) { till = std::min(i + 2, n - 1); break; }
  } else if (mode == 2) {
    double m = 0;
    int at = 0;
    for (int i = 0; i < n; ++i) {
      if (cmp[i].t < 0) continue;
      double tol = 1e-4 + 4e-6 * (std::fabs(best[cmp[i].t].total) + 1);
      if (std::fabs(cmp[i].viol - m) < tol && (i != 0 || cmp[i].viol != 0)) e.vague = true;
      if (cmp[i].viol > m) { m = cmp[i].viol; at = i; }
    }
    till = std::min(at + 2, n - 1);
  }
  for (int i = 0; i < n; ++i) {
    e.loss += cmp[i].loss;
    if (i >= till || !cmp[i].error) continue;
    if (cmp[i].g >= 0) for (u32 f : gf[cmp[i].g]) e.diff[f] += 1;
    if (cmp[i].t >= 0) for (u32 f : tf[cmp[i].t]) e.diff[f] -= 1;
  }
  e.loss /= n * full;
  double pos = 0, neg = 0;
  for (auto& d : e.diff) (d.second > 0 ? pos : neg) += std::fabs(d.second);
  double ratio = neg != 0 ? pos / neg : 1;
  bool scaleGold = ratio > 2 && pos != 0;
  for (auto& d : e.diff) {
    if (scaleGold && d.second > 0) d.second *= neg / pos;
    if (!scaleGold && d.second < 0) d.second *= ratio;
  }
  return e;
}

// corrections for words of the best path which contradict a partial annotation
struct PartExpect {
  const Look& lk;
  const Part& p;
  std::function<bool(Id)> matches;
  size_t beam;
  Diff diff;
  size_t entries = 0;
  bool vague = false;
  struct Cand { Id t2, t1, t0; float score; };
  typedef std::vector<Cand> Cands;
  PartExpect(const Look& l, const Part& p_, std::function<bool(Id)> m, size_t b) : lk(l), p(p_), matches(m), beam(b) {}

  static Id id(const ca::ConnectionPtr& c) { return Id(c.boundary, c.right); }
  void best(Cands* c, size_t n) {
    std::stable_sort(c->begin(), c->end(), [](const Cand& a, const Cand& b) { return a.score > b.score; });
    if (c->size() > n) {
      if ((*c)[n - 1].score == (*c)[n].score) vague = true;
      c->resize(n);
    }
  }
  bool fits(const Cand& c) const { return matches(c.t0) && matches(c.t1) && matches(c.t2); }
  void addRow(Id n, Cands* r) const {
    for (auto& el : lk.lat->boundary(n.first)->starts()->beamData().row(n.second)) {
      if (isFake(el)) break;
      Cand c{id(*el.ptr.previous->previous), id(*el.ptr.previous), id(el.ptr), el.totalScore};
      if (fits(c)) r->push_back(c);
    }
  }
  template <typename F> void ending(u32 b, F f) const {
    for (auto& x : lk.lat->boundary(b)->ends()->nodePtrs()) f(Id(x.boundary, x.position));
  }
  Cands endingOn(u32 b, u32 before) const {
    Cands r;
    ending(b, [&](Id n) { if (n.first < before) addRow(n, &r); });
    return r;
  }
  Cands spanning(u32 b) {
    Cands r;
    for (u32 e = b + 1; e < lk.eos(); ++e) {
      auto c = endingOn(e, b);
      best(&c, 5);
      r.insert(r.end(), c.begin(), c.end());
      if (r.size() >= beam) break;
    }
    for (u32 e = b + 1; e < lk.eos() && r.empty(); ++e) {
      ending(e, [&](Id t0) {
        if (t0.first >= b || !matches(t0)) return;
        ending(t0.first, [&](Id t1) {
          if (!matches(t1)) return;
          for (auto& el : lk.lat->boundary(t1.first)->starts()->beamData().row(t1.second)) {
            if (isFake(el)) break;
            Id t2 = id(*el.ptr.previous);
            if (matches(t2)) r.push_back(Cand{t2, t1, t0, el.totalScore + -1000.f});
          }
        });
      });
      best(&r, 5);
    }
    best(&r, beam);
    return r;
  }
  void add(const Cands& good, Id b2, Id b1, Id b0, const Id* next, const Id* next2) {
    std::set<u32> g, w;
    auto put = [&](std::set<u32>& s, Id x, Id y, Id z) { for (u32 f : lk.features(x, y, z, false)) s.insert(f); };
    for (auto& c : good) put(g, c.t2, c.t1, c.t0);
    if (g.empty()) return;
    if (next && matches(*next)) {
      if (good.size() > 1 && good[0].score == good[1].score) vague = true;
      auto& c = good[0];
      bool adjacent = false;
      ending(next->first, [&](Id n) { adjacent |= n == c.t0; });
      if (adjacent) {
        put(g, c.t1, c.t0, *next);
        put(w, b1, b0, *next);
        if (next2 && matches(*next2)) {
          put(g, c.t0, *next, *next2);
          put(w, b0, *next, *next2);
        }
      }
    }
    put(w, b2, b1, b0);
    size_t ng = 0, nw = 0;
    for (u32 f : w) if (!g.count(f)) { ++nw; diff[f & lk.mask] -= 1; }
    for (u32 f : g) ng += !w.count(f);
    for (u32 f : g) if (!w.count(f)) diff[f & lk.mask] += (double)nw / ng;
    entries += nw + ng;
  }
  void compute(const std::vector<Id>& top) {
    int n = (int)top.size() - 1;
    for (int i = n - 1; i >= 0; --i) {
      u32 from = top[i].first, to = top[i + 1].first;
      if (matches(top[i])) continue;
      Cands c;
      int kind = 0;
      for (int x : p.noBreak) {
        if ((u32)x + 2 == from) kind = 1;
        else if ((u32)x + 2 == to) kind = 2;
        if (kind) break;
      }
      for (int x : p.bounds)
        if (!kind && (u32)x + 2 > from && (u32)x + 2 < to) { kind = 3; c = endingOn(x + 2, x + 2); }
      if (!kind) {
        for (auto& x : p.nodes) if ((u32)x.at + 2 == from && from + x.len != to) kind = 2;
        if (!kind) for (u32 k = 0; k < lk.lat->boundary(from)->localNodeCount(); ++k) addRow(Id(from, k), &c);
      }
      if (kind == 1) c = spanning(from);
      if (kind == 2) c = spanning(to);
      best(&c, beam);
      add(c, before(top, i - 2), before(top, i - 1), top[i], &top[i + 1], i + 2 <= n ? &top[i + 2] : nullptr);
    }
    Id l1 = before(top, n - 1), l2 = before(top, n - 2);
    if (matches(l1) && matches(l2)) return;
    Cands c;
    auto row = lk.lat->boundary(lk.eos())->starts()->beamData().row(0);
    for (size_t i = 1; i < row.size() && !isFake(row.at(i)); ++i) {
      auto& el = row.at(i);
      Cand x{id(*el.ptr.previous->previous), id(*el.ptr.previous), top[n], el.totalScore};
      if (matches(x.t1) && matches(x.t2)) c.push_back(x);
    }
    best(&c, beam);
    add(c, l2, l1, top[n], nullptr, nullptr);
  }
};

struct Run {
  const Scenario& s;
  const World& w;
  jt::TrainingConfig tc{};
  std::unique_ptr<jt::SoftConfidenceWeighted> scw;
  std::vector<float> cur;
  std::vector<double> conf;
  u32 mask;
  explicit Run(const Scenario& s_) : s(s_), w(*g_w[s_.get("world")]) {}

  std::vector<float> weights() {
    core::model::ModelInfo mi;
    scw->exportModel(&mi);
    auto sp = mi.parts.at(0).data.at(1);
    std::vector<float> v(sp.size() / sizeof(float));
    memcpy(v.data(), sp.data(), sp.size());
    return v;
  }
  // the annotated words are in the lattice
  void checkGold(const Look& lk, const S& op, const std::vector<Id>& gold) {
    auto words = split(op, ' ');
    S sh = shorten(op, 200);
    if (gold.size() != words.size()) violation("gold", "[%s]: the path which is trained towards has %zu words", sh.c_str(), gold.size());
    int at = 0;
    auto& tf = lk.w.env->spec().training;
    for (size_t i = 0; i < words.size(); ++i) {
      auto f = split(words[i], '_');
      int n = codepoints(f[0]);
      Id id = gold[i];
      if (id.first != (u32)at + 2 || id.second >= lk.lat->boundary(id.first)->localNodeCount() || lk.len(id) != n)
        violation("gold", "[%s]: word %zu is not the one which is trained towards, but candidate %u at %d", sh.c_str(), i, id.second, (int)id.first - 2);
      at += n;
      bool allow = true;   // no restriction
      auto fits = [&](Id x, bool unk) {
        auto st = lk.strings(x);
        for (size_t k = 0; k < f.size(); ++k) {
          if (lk.w.weight[k] == 0) continue;
          if (unk && lk.raw(x, k) < 0) continue;
          if (st[k] != w.shownAs(k, f[k])) return false;
        }
        return true;
      };
      bool made = false;
      auto unkNode = [&](Id x) { return lk.eptr(x).isSpecial(); };
      auto isMade = [&](Id x) {
        return unkNode(x) && (i64)lk.eptr(x).extPtr() > lastUnk;
      };
      auto allowed = [&](Id x) { return lk.w.allowField < 0 ? allow : lk.kvValue(x) == f[lk.w.allowField]; };
      made = isMade(id);
      bool dicFits = false, unkFits = false, unkAllowed = false;
      for (u32 k = 0; k < lk.lat->boundary(id.first)->localNodeCount(); ++k) {
        Id x(id.first, k);
        if (lk.len(x) != n) continue;
        if (!unkNode(x)) dicFits |= fits(x, false);
        else if (!isMade(x)) { bool ft = fits(x, true); unkFits |= ft; unkAllowed |= allowed(x); }
      }
      bool known = lk.w.tio.fields()[tf.surfaceIdx].str2int->count(StringPiece(f[0])) != 0;
      if (!unkNode(id)) {
        count("gold.dictionary");
        if (!fits(id, false)) violation("gold", "[%s]: %s is annotated, but %s is trained towards", sh.c_str(), words[i].c_str(), lk.shown(id).c_str());
      } else if (!made) {
        count("gold.unknown");
        if (dicFits) violation("gold", "[%s]: the dictionary has %s, but an unknown word is trained towards", sh.c_str(), words[i].c_str());
        if (!fits(id, true) && (unkFits || !allowed(id))) violation("gold", "[%s]: %s is annotated, but the unknown word %s is trained towards", sh.c_str(), words[i].c_str(), lk.shown(id).c_str());
      } else {
        count("gold.added");
        if (dicFits) violation("gold", "[%s]: the dictionary has %s, but another word was made", sh.c_str(), words[i].c_str());
        if (!known && (unkFits || unkAllowed)) violation("gold", "[%s]: an unknown word fits %s, but another word was made", sh.c_str(), words[i].c_str());
        for (size_t k = 0; k < f.size(); ++k) {
          if (tf.fields[k].dicIdx < 0) continue;
          auto& m = *lk.w.tio.fields()[k].str2int;
          auto it = m.find(StringPiece(f[k]));
          i32 want = it == m.end() ? ca::hashUnkString(f[k]) : it->second;
          if (lk.raw(id, k) != want) violation("gold", "[%s]: %s of the word made for %s is not %s", sh.c_str(), lk.w.names[k].c_str(), words[i].c_str(), f[k].c_str());
        }
        if (lk.strings(id)[0] != f[0]) violation("gold", "[%s]: the surface of the word made for %s is %s", sh.c_str(), words[i].c_str(), lk.strings(id)[0].c_str());
      }
    }
    if ((u32)at + 2 != lk.eos()) violation("gold", "[%s]: the lattice has %d positions", sh.c_str(), (int)lk.eos() - 2);
  }
  i64 lastUnk = -1;
  std::unique_ptr<ca::AnalyzerImpl> ref;

  void checkFull(jt::ITrainer* t, const S& op) {
    S text;
    for (auto& x : split(op, ' ')) text += split(x, '_')[0];
    Look lk(w, t, text, mask);
    lastUnk = -1;   // words added for the annotation come after the unknown words of the analysis
    ref->resetForInput(text);
    ref->prepareNodeSeeds();
    for (auto& sd : ref->latticeBldr()->seeds()) if (sd.entryPtr.isSpecial()) lastUnk = std::max(lastUnk, (i64)sd.entryPtr.extPtr());
    std::vector<Id> gold;
    t->markGold([&](ca::LatticeNodePtr p) { gold.emplace_back(p.boundary, p.position); });
    checkGold(lk, op, gold);
    auto e = expectFull(lk, gold, cur, (int)s.get("tmode"));
    S sh = shorten(op, 200);
    if (!(std::fabs(t->loss() - e.loss) <= 1e-5)) violation("loss", "[%s]: the loss is %.7f, but %.7f of the annotation is wrong", sh.c_str(), t->loss(), e.loss);
    Diff got;
    for (auto& f : t->featureDiff()) got[f.feature] += f.score;
    if (e.vague) { count("probe.threshold"); return; }
    for (auto& d : e.diff) got[d.first] += 0;
    for (auto& d : got) trace("  feature %u: %g, expected %g", d.first, d.second, e.diff.count(d.first) ? e.diff[d.first] : 0.0);
    for (auto& d : got) {
      auto it = e.diff.find(d.first);
      double want = it == e.diff.end() ? 0 : it->second;
      if (!(std::fabs(d.second - want) <= 1e-4 * (1 + std::fabs(want))))
        violation("difference", "[%s]: feature %u is changed by %g, but the annotated path has %s of it than the best one (%g)", sh.c_str(), d.first, d.second, want > 0 ? "more" : want < 0 ? "less" : "as much", want);
    }
    if (e.loss > 0) count("step.with_errors"); else count("step.without_errors");
  }
  void checkPart(jt::ITrainer* t, const S& op) {
    Part p = parsePart(op);
    Look lk(w, t, p.surface, mask);
    S sh = shorten(op, 200);
    for (auto& c : sh) if (c == '\n') c = '|';
    auto matches = [&](Id n) {
      if (n.first < 2) return true;
      int from = (int)n.first - 2, to = from + (n.first == lk.eos() ? 0 : lk.len(n));
      for (int b : p.noBreak) if (b == from || b == to) return false;
      for (int b : p.bounds) if (b > from && b < to) return false;
      for (auto& c : p.nodes) {
        if (c.at != from) continue;
        if (c.len != to - from) return false;
        if (c.tags.empty()) return true;
        auto st = lk.strings(n);
        for (auto& tg : c.tags)
          for (size_t k = 0; k < w.names.size(); ++k)
            if (w.names[k] == tg.first && st[k] != w.shownAs(k, tg.second)) return false;
        return true;
      }
      return true;
    };
    std::set<Id> want, got;
    for (u32 b = 2; b < lk.eos(); ++b)
      for (u32 k = 0; k < lk.lat->boundary(b)->localNodeCount(); ++k)
        if (matches(Id(b, k))) want.insert(Id(b, k));
    t->markGold([&](ca::LatticeNodePtr x) { if (x.boundary >= 2 && x.boundary < lk.eos()) got.insert(Id(x.boundary, x.position)); });
    for (auto& x : want) if (!got.count(x)) violation("gold", "[%s]: %s fits the annotation, but is taken for wrong", sh.c_str(), lk.shown(x).c_str());
    for (auto& x : got) if (!want.count(x)) violation("gold", "[%s]: %s contradicts the annotation, but is taken for right", sh.c_str(), lk.shown(x).c_str());
    auto best = lk.best();
    std::vector<Id> top;
    for (auto& b : best) top.push_back(b.id);
    int bad = 0, n = (int)top.size() - 1;
    for (int i = 0; i < n; ++i) bad += !matches(top[i]);
    double loss = n > 0 ? (double)bad / n : 0;
    PartExpect e(lk, p, matches, (size_t)tc.beamSize);
    if (n > 0) e.compute(top);
    if (e.vague) { count("probe.tie"); return; }
    if (e.entries <= 1) loss = 0;   // there is nothing to learn from
    if (!(std::fabs(t->loss() - loss) <= 1e-5)) violation("loss", "[%s]: the loss is %.7f, but %d of %d words contradict the annotation", sh.c_str(), t->loss(), bad, n);
    Diff have;
    for (auto& f : t->featureDiff()) have[f.feature] += f.score;
    for (auto& d : e.diff) have[d.first] += 0;
    for (auto& d : have) {
      auto it = e.diff.find(d.first);
      double want = it == e.diff.end() ? 0 : it->second;
      if (!(std::fabs(d.second - want) <= 1e-4 * (1 + std::fabs(want)))) violation("difference", "[%s]: feature %u is changed by %g instead of %g", sh.c_str(), d.first, d.second, want);
    }
    count(loss > 0 ? "partial.with_errors" : bad ? "partial.no_other_way" : "partial.without_errors");
  }
  void checkUpdate(jt::ITrainer* t, const S& op) {
    double loss = t->loss();
    auto fd = t->featureDiff();
    scw->update(t->loss(), fd);
    auto now = weights();
    if (now.size() != cur.size()) violation("weights", "the model has %zu weights, had %zu", now.size(), cur.size());
    double C = tc.scw.C, phi = tc.scw.phi, zeta = 1 + phi * phi, psi = 1 + phi * phi / 2, vt = 0, m = 0;
    for (auto& f : fd) { m += cur[f.feature] * (double)f.score; vt += (double)f.score * f.score * conf[f.feature]; }
    std::map<u32, double> want;
    S sh = shorten(op, 100);
    if (loss >= 1e-5 && vt > 0) {
      m *= loss;
      double alpha = (-m * psi + std::sqrt(m * m * phi * phi * phi * phi / 4 + vt * phi * phi * zeta)) / (vt * zeta);
      alpha = std::min(C, std::max(0.0, alpha));
      double x = -alpha * vt * phi + std::sqrt(alpha * alpha * vt * vt * phi * phi + 4 * vt);
      double u = x * x / 4, beta = alpha * phi / (std::sqrt(u) + vt * alpha * phi);
      for (auto& f : fd) want[f.feature] += alpha * loss * conf[f.feature] * f.score;
      for (auto& f : fd) { double c = conf[f.feature]; conf[f.feature] = c - beta * c * c * f.score * f.score; }
      count("update.some");
    } else count("update.none");
    for (size_t i = 0; i < now.size(); ++i) {
      auto it = want.find((u32)i);
      double d = it == want.end() ? 0 : it->second;
      if (d == 0 ? now[i] != cur[i] && !(std::isnan(now[i]) && std::isnan(cur[i])) : !(std::fabs(now[i] - (cur[i] + d)) <= 2e-6 * (1 + std::fabs(cur[i])) + 2e-3 * std::fabs(d)))
        violation("weights", "[%s]: weight %zu changes from %.8f by %.8f, the update is %.8f", sh.c_str(), i, cur[i], (double)now[i] - cur[i], d);
    }
    cur = now;
  }
  void step(jt::ITrainer* t, int nth) {
    for (auto& f : s.faults) {
      if (f.arg(0) != nth) continue;
      u64 f0 = heapFailed();
      try {
        heapFailAt(f.arg(1), f.arg(2));
        Status st = t->prepare();
        if (st) st = t->compute(scw->scorers());
      } catch (std::bad_alloc&) {
      }
      heapFailAt(-1, 0);
      if (heapFailed() != f0) count("fault.allocation_while_training");
    }
    auto info = t->exampleInfo();
    S c = info.comment.str();
    size_t at = c.find("ex-");
    if (at == S::npos) violation("example", "an example has the comment [%s]", c.c_str());
    auto& o = s.ops.at((size_t)atoi(c.c_str() + at + 3));
    bool part = o.kind == "pex";
    Status st = t->prepare();
    if (!st) {
      if (part) { count("partial.rejected"); return; }
      violation("refused", "[%s] is annotated, but cannot be trained on: %s", shorten(o.s[0], 200).c_str(), statusText(st).c_str());
    }
    st = t->compute(scw->scorers());
    if (!st) violation("refused", "[%s] cannot be trained on: %s", shorten(o.s[0], 200).c_str(), statusText(st).c_str());
    if (part) checkPart(t, o.s[0]); else checkFull(t, o.s[0]);
    event("loss", (u64)(t->loss() * 1e6));
    event("features", t->featureDiff().size());
    stateMark((u64)(t->loss() * 1e6) * 1000 + t->featureDiff().size());
    trace("%s [%s] loss %f, %zu features", o.kind.c_str(), shorten(o.s[0]).c_str(), t->loss(), t->featureDiff().size());
    checkUpdate(t, o.s[0]);
  }
  void go() {
    useHeap(s);
    memCheck(true);
    stepBudget(6000000000ull);
    tc.mode = s.get("tmode") == 0 ? jt::TrainingMode::Full : s.get("tmode") == 1 ? jt::TrainingMode::FalloffBeam : jt::TrainingMode::MaxViolation;
    tc.featureNumberExponent = (u32)s.get("exponent");
    tc.beamSize = (int)s.get("beam", 1);
    tc.randomSeed = (u32)s.get("rseed");
    tc.scw.C = (float)s.get("c_pct") / 100;
    tc.scw.phi = (float)s.get("phi_pct") / 100;
    mask = tc.numFeatures() - 1;
    scw.reset(new jt::SoftConfidenceWeighted(tc));
    cur = weights();
    conf.assign(cur.size(), 1.0);
    S full, part;
    bool csv = s.get("csv");
    for (size_t i = 0; i < s.ops.size(); ++i) {
      auto& o = s.ops[i];
      if (o.kind == "pex") part += strf("# ex-%zu\n", i) + o.s[0] + "\n";
      else if (!csv) full += o.s[0] + strf(" # ex-%zu\n", i);
      else {
        full += strf("# ex-%zu\n", i);
        for (auto& x : split(o.s[0], ' ')) { S l = x; for (auto& c : l) if (c == '_') c = ','; full += l + "\n"; }
        full += "EOS\n";
      }
    }
    ca::AnalyzerConfig ac{};
    ac.pageSize = 128 * 1024;
    ac.storeAllPatterns = true;
    ref.reset(new ca::AnalyzerImpl(w.env->coreHolder(), core::ScoringConfig{1, 1}, ac));
    jt::TrainerFullConfig tfc{&ac, w.env->coreHolder(), &w.env->spec().training, &tc};
    jt::FullExampleReader rdr;
    rdr.setTrainingIo(&w.tio);
    rdr.setFilename("corpus");
    Status st = csv ? rdr.initCsv(full) : rdr.initDoubleCsv(full);
    jt::TrainerBatch batch;
    if (st) st = batch.initialize(tfc, scw->scorers(), (int)s.get("batch", 1));
    core::input::PartialExampleReader pr;
    if (st) st = pr.initialize(const_cast<core::input::TrainFieldsIndex*>(&w.tio));
    if (st && !part.empty()) st = pr.setData(part);
    if (st && !part.empty()) st = batch.readPartialExamples(&pr);
    if (!st) violation("read", "the examples cannot be read: %s", statusText(st).c_str());
    int nth = 0;
    for (int round = 0; round < s.get("rounds", 1); ++round) {
      rdr.resetInput(full);
      size_t seen = 0;
      do {
        st = batch.readFullBatch(&rdr);
        if (!st) violation("read", "the examples cannot be read: %s", statusText(st).c_str());
        batch.shuffleData(round > 0 || full.empty());
        for (int i = 0; i < batch.totalTrainers(); ++i) {
          auto* t = batch.trainer(i);
          if (s.get("gbeam")) {
            if (round == 1 && s.get("shuffle")) t->setGlobalBeam({0, 0, 0});
            else t->setGlobalBeam({(int)s.get("gbeam"), (int)s.get("rbeam"), (int)s.get("rcheck")});
          }
          step(t, nth++);
        }
        seen += batch.activeFullTrainers();
      } while (!rdr.finished());
      size_t n = 0;
      for (auto& o : s.ops) n += o.kind == "ex";
      if (seen != n) violation("read", "%zu examples were read, there are %zu", seen, n);
      if (round == 0) {
        scw->substractInitValues();
        auto now = weights();
        double b = 1.01 / std::sqrt((double)now.size());
        for (size_t i = 0; i < now.size(); ++i)
          if (now[i] != cur[i] && !(now[i] == 0 && std::fabs(cur[i]) < b)) violation("weights", "weight %zu is %g after the initial values are taken away, it was %g", i, now[i], cur[i]);
        cur = now;
      }
    }
    scw.reset();
    ref.reset();
    finishRun();
  }
};
void execC27(const Scenario& s) {
  Run r(s);
  r.go();
}
Registrar r27({"C27", warm, genC27, execC27, 60});
}  // namespace
