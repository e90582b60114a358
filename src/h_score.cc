// C23 scores of an analysis: sums of its parts, whatever the beams and the history; the beams hold the best paths.
#include "hcommon.h"
#include "world.h"
#include "anexec.h"
#include "jumandic/shared/jumandic_env.h"
#include "jpp_jumandic_cg.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/score_processor.h"
#include "core/impl/feature_impl_combine.h"
#include "core/input/pex_stream_reader.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <unordered_map>

using namespace sim;
using namespace h;
using namespace jumanpp;
using namespace an;
namespace ca = jumanpp::core::analysis;

namespace {
// ------------------------------------------------------------------ environments
struct Env {
  core::JumanppEnv env;
  ca::Analyzer an;
  int order = 0;
  bool dyn = false;
};
Env* g_env[5][2];
Env* g_ref;       // dynamic features, no language model
// an independent implementation of the language model
struct Rnn {
  int layer, order;
  u64 vocab, hashMax;
  std::unordered_map<std::string, int> ids;
  std::vector<double> emb, nce, mat, maxent;
};
Rnn* g_rnn[5];

Env* makeEnv(int order, bool dyn) {
  auto* e = new Env;
  e->order = order;
  e->dyn = dyn;
  auto& sc = world::scoredModel(order);
  Status s = e->env.loadModel(sc.file);
  if (s) {
    jumanpp_generated::JumandicStatic sf;
    s = e->env.initFeatures(dyn ? nullptr : &sf);
  }
  if (!s) harnessError("scored model: %s", statusText(s).c_str());
  return e;
}
Rnn* makeRnn(int order) {
  auto& sc = world::scoredModel(order);
  auto* r = new Rnn;
  r->layer = sc.layer;
  r->order = order;
  std::stringstream ss(sc.dic);
  std::string w, n;
  int id = 0;
  while (ss >> w >> n) r->ids[w] = id++;
  r->vocab = (u64)id;
  const char* p = sc.nnet.data() + 8 + 8 + 4 + 1 + 4 + 1 + 64 + 4 + 4;
  auto take = [&](size_t cnt, std::vector<double>* out) {
    for (size_t i = 0; i < cnt; ++i) {
      float f;
      memcpy(&f, p, 4);
      p += 4;
      out->push_back(f);
    }
  };
  take(r->vocab * r->layer, &r->emb);
  take(r->vocab * r->layer, &r->nce);
  take((size_t)r->layer * r->layer, &r->mat);
  size_t left = (size_t)(sc.nnet.data() + sc.nnet.size() - p) / 4;
  take(left, &r->maxent);
  r->hashMax = left - r->vocab;
  return r;
}
void warm() {
  warmExecs();
  if (g_ref) return;
  for (int o = 0; o < 5; ++o) {
    for (int d = 0; d < 2; ++d) g_env[o][d] = makeEnv(o, d);
    if (o) g_rnn[o] = makeRnn(o);
  }
  g_ref = makeEnv(0, true);
}

// ------------------------------------------------------------------ language model
typedef std::vector<double> Vec;
Vec rnnStep(const Rnn& r, const Vec& h, int id) {
  Vec o(r.layer);
  for (int i = 0; i < r.layer; ++i) {
    double x = r.emb[(size_t)id * r.layer + i];
    for (int j = 0; j < r.layer; ++j) x += r.mat[(size_t)i * r.layer + j] * h[j];
    o[i] = 1 / (1 + std::exp(-x));
  }
  return o;
}
const u64 kPrimes[] = {108641969, 116049371, 125925907, 133333309, 145678979, 175308587, 197530793, 234567803, 251851741, 264197411, 330864029, 399999781,
                       407407183, 459258997, 479012069, 545678687, 560493491, 607407037, 629629243, 656789717, 716048933, 718518067, 725925469, 733332871,
                       753085943, 755555077, 782715551, 790122953, 812345159, 814814293, 893826581, 923456189, 940740127, 953085797, 985184539, 990122807};
double rnnScore(const Rnn& r, const Vec& h, const std::vector<int>& hist, int id, double bias) {
  double s = 0;
  for (int i = 0; i < r.layer; ++i) s += r.nce[(size_t)id * r.layer + i] * h[i];
  for (int i = 0; i < r.order; ++i) {
    u64 x = kPrimes[0] * kPrimes[1];
    for (int j = 1; j <= i; ++j) {
      int ctx = (int)hist.size() - j >= 0 ? hist[hist.size() - j] : 0;
      x += kPrimes[((u64)i * kPrimes[j] + j) % 36] * ((u64)ctx + 1);
    }
    s += r.maxent[(x % r.hashMax + (u64)id) % r.hashMax];
  }
  return s - bias;
}

// ------------------------------------------------------------------ reference lattice
struct Pex {  // constraints of a partially annotated input
  std::string surface;
  std::vector<int> bounds, noBreak;
  struct Node { int at, len; std::string pos; bool hasPos; };
  std::vector<Node> nodes;
};
int codepoints(const std::string& s) {
  int n = 0;
  for (unsigned char c : s) n += (c & 0xc0) != 0x80;
  return n;
}
Pex parsePex(const std::string& text) {
  Pex p;
  std::stringstream ss(text);
  std::string l;
  int at = 0;
  bool first = true;
  while (std::getline(ss, l)) {
    if (first && l.compare(0, 2, "# ") == 0) { first = false; continue; }
    first = false;
    if (l.empty()) break;
    if (l[0] != '\t') {
      std::string part;
      for (char c : l + "&") {
        if (c != '&') { part += c; continue; }
        p.surface += part;
        at += codepoints(part);
        part.clear();
        p.noBreak.push_back(at);
      }
      p.noBreak.pop_back();
      p.bounds.push_back(at);
    } else {
      std::string w = l.substr(1), pos;
      bool has = false;
      size_t t = w.find('\t');
      if (t != std::string::npos) { pos = w.substr(t + 1 + 4); has = true; w.resize(t); }
      Pex::Node n{at, codepoints(w), pos, has};
      for (int i = 1; i < n.len; ++i) p.noBreak.push_back(at + i);
      p.nodes.push_back(n);
      p.surface += w;
      at += n.len;
      p.bounds.push_back(at);
    }
  }
  return p;
}
struct Ref {
  ca::Lattice* lat;
  const core::features::impl::NgramDynamicFeatureApply* feats;
  const ca::FeatureScorer* scorer;
  size_t numFeats;
  std::unordered_map<u64, double> cache;
  core::analysis::StringField pos, base, surf;
  core::dic::FieldsHolder const* fields;
  const Pex* pex = nullptr;
  static u64 key(ca::LatticeNodePtr a, ca::LatticeNodePtr b, ca::LatticeNodePtr c) {
    // at most 2^11 boundaries, 2^10 nodes per boundary
    return ((u64)a.boundary << 53) ^ ((u64)a.position << 42) ^ ((u64)b.boundary << 32) ^ ((u64)b.position << 21) ^ ((u64)c.boundary << 10) ^ c.position;
  }
  double local(ca::LatticeNodePtr t2, ca::LatticeNodePtr t1, ca::LatticeNodePtr t0) {
    u64 k = key(t2, t1, t0);
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    auto row = [&](ca::LatticeNodePtr p) { return lat->boundary(p.boundary)->starts()->patternFeatureData().row(p.position); };
    std::vector<u32> res(numFeats);
    util::MutableArraySlice<u32> rs{res.data(), res.size()};
    util::Sliceable<u32> out{rs, res.size(), 1};
    auto r0 = row(t0);
    util::ArraySlice<u64> r0s{r0.data(), r0.size()};
    util::ConstSliceable<u64> s0{r0s, r0.size(), 1};
    core::features::impl::NgramFeatureData nfd{out, row(t2), row(t1), s0};
    feats->applyBatch(&nfd);
    auto& w = scorer->weights();
    size_t mask = w.size() - 1;
    double s = 0;
    for (u32 f : res) s += w.at(f & mask);
    cache[k] = s;
    return s;
  }
  // penalty of a word which contradicts the annotation
  double penalty(const core::analysis::OutputManager& om, ca::LatticeNodePtr t0) {
    if (!pex) return 0;
    auto& ni = lat->boundary(t0.boundary)->starts()->nodeInfo().at(t0.position);
    int from = (int)t0.boundary - 2, to = from + ni.numCodepoints();
    for (int b : pex->noBreak) if (b == from || b == to) return -10000;
    for (int b : pex->bounds) if (b > from && b < to) return -10000;
    for (auto& n : pex->nodes) {
      if (n.at != from) continue;
      if (n.len != to - from) return -10000;
      if (n.hasPos) {
        core::analysis::NodeWalker nw;
        if (!om.locate(t0, &nw) || pos[nw].str() != n.pos) return -1000;
      }
      break;  // the first one
    }
    return 0;
  }
};
bool isFake(const ca::ConnectionBeamElement& e) { return ca::EntryBeam::isFake(e); }

struct Checker {
  const Scenario& s;
  const Op& o;
  Env& e;
  Ref& ref;
  ca::Lattice* lat;
  const core::analysis::OutputManager& om;
  std::map<const ca::ConnectionPtr*, double> perc;   // sum of the first scores along a path
  double tolLocal(double x) const { return 1e-3 + 4e-7 * std::fabs(x); }
  double tolTotal(double x) const { return 5e-3 + 2e-6 * std::fabs(x); }
  static const ca::ConnectionBeamElement* elem(const ca::ConnectionPtr* p) { return reinterpret_cast<const ca::ConnectionBeamElement*>(p); }

  struct Cand { u16 left, beam; const ca::ConnectionBeamElement* el; double total; };
  std::vector<Cand> ending(u32 b) {
    std::vector<Cand> r;
    auto ptrs = lat->boundary(b)->ends()->nodePtrs();
    for (u16 l = 0; l < ptrs.size(); ++l) {
      auto p = ptrs.at(l);
      auto& ni = lat->boundary(p.boundary)->starts()->nodeInfo().at(p.position);
      if (p.boundary >= 2 && p.boundary + ni.numCodepoints() != b)
        violation("score-path", "input [%s]: a word of %d codepoints at position %d is listed as ending at %d", shorten(o.s[0]).c_str(), ni.numCodepoints(), (int)p.boundary - 2, (int)b - 2);
      auto row = lat->boundary(p.boundary)->starts()->beamData().row(p.position);
      for (u16 i = 0; i < row.size(); ++i) {
        if (isFake(row.at(i))) break;
        r.push_back(Cand{l, i, &row.at(i), perc.at(&row.at(i).ptr)});
      }
    }
    return r;
  }
  std::string where(u32 b, u32 node) {
    core::analysis::NodeWalker nw;
    std::string w = "?";
    if (b + 1 == lat->createdBoundaryCount()) w = "EOS";
    else if (om.locate(ca::LatticeNodePtr::make(b, node), &nw)) w = ref.surf[nw].str() + "_" + ref.pos[nw].str();
    return strf("word %s (candidate %u at position %d) of [%s]", w.c_str(), node, (int)b - 2, shorten(o.s[0]).c_str());
  }
  void checkScore(const char* what, u32 b, u32 node, double got, double want, double tol) {
    if (!(std::fabs(got - want) <= tol)) violation("score-value", "%s: %s is %.6f, but should be %.6f", where(b, node).c_str(), what, got, want);
  }
  // the kept ones are the best ones
  void checkBest(u32 b, u32 node, const char* what, std::vector<double> kept, std::vector<double> rest, size_t limit) {
    double m = 0;
    for (double x : kept) m = std::max(m, std::fabs(x));
    for (double x : rest) m = std::max(m, std::fabs(x));
    double tol = tolTotal(m);
    for (size_t i = 1; i < kept.size(); ++i)
      if (kept[i] > kept[i - 1] + tol) violation("score-order", "%s: the %s is not ordered: %.5f follows %.5f", where(b, node).c_str(), what, kept[i], kept[i - 1]);
    if (kept.size() > limit) violation("score-beam", "%s: the %s has %zu paths, %zu were asked for", where(b, node).c_str(), what, kept.size(), limit);
    if (kept.size() < limit && !rest.empty()) violation("score-beam", "%s: the %s has %zu paths of %zu, but %zu paths are missing from it", where(b, node).c_str(), what, kept.size(), limit, rest.size());
    if (kept.empty()) return;
    for (double x : rest)
      if (x > kept.back() + tol) violation("score-beam", "%s: the %s keeps a path of score %.5f, but not one of score %.5f", where(b, node).c_str(), what, kept.back(), x);
  }
  void run() {
    auto& an = *e.an.impl();
    u32 n = lat->createdBoundaryCount();
    auto& w = e.env.scorers()->scoreWeights;
    auto& cfg = lat->config();
    bool gbeam = an.cfg().globalBeamSize > 0;
    bool rnn = w.size() == 2;
    int rcheck = an.cfg().rightGbeamCheck, rsize = an.cfg().rightGbeamSize;
    // configured sizes
    i64 beam = s.get("beam"), g = s.get("gbeam");
    if (s.get("auto_step")) {
      beam = std::min<i64>(beam + (i64)(n - 3) / s.get("auto_step"), g);
      g = beam;
    }
    if (cfg.beamSize != (u32)beam || (gbeam && cfg.globalBeamSize != (u32)g))
      violation("score-config", "beam sizes %u and %u were used, configured were %lld and %lld", cfg.beamSize, cfg.globalBeamSize, (long long)beam, (long long)g);
    perc[&lat->boundary(0)->starts()->beamData().row(0).at(0).ptr] = 0;
    perc[&lat->boundary(1)->starts()->beamData().row(0).at(0).ptr] = 0;
    if (n <= 3) return;   // nothing to analyse
    u64 paths = 0;
    for (u32 b = 2; b < n; ++b) {
      auto bnd = lat->boundary(b);
      if (bnd->localNodeCount() == 0) continue;
      auto all = ending(b);
      auto ptrs = bnd->ends()->nodePtrs();
      std::vector<Cand> cands = all;
      bool eos = b == n - 1;
      if (gbeam) {
        auto gb = bnd->ends()->globalBeam();
        std::vector<double> kept, rest;
        cands.clear();
        std::vector<char> used(all.size());
        for (auto* el : gb) {
          size_t i = 0;
          while (i < all.size() && all[i].el != el) ++i;
          if (i == all.size() || used[i]) violation("score-beam", "%s: the global beam holds a path which does not end here, or holds it twice", where(b, 0).c_str());
          used[i] = 1;
          cands.push_back(all[i]);
          kept.push_back(all[i].total);
        }
        for (size_t i = 0; i < all.size(); ++i) if (!used[i]) rest.push_back(all[i].total);
        checkBest(b, 0, "global beam", kept, rest, cfg.globalBeamSize);
      }
      auto start = bnd->starts();
      u32 nodes = (u32)start->numEntries();
      // local scores
      std::vector<std::vector<double>> local(nodes, std::vector<double>(cands.size()));
      for (u32 t0 = 0; t0 < nodes; ++t0) {
        double pen = eos && !ref.pex ? 0 : ref.penalty(om, ca::LatticeNodePtr::make(b, t0));
        for (size_t c = 0; c < cands.size(); ++c) {
          auto t1 = ptrs.at(cands[c].left);
          auto t2 = cands[c].el->ptr.previous->latticeNodePtr();
          local[t0][c] = ref.local(t2, t1, ca::LatticeNodePtr::make(b, t0)) + pen;
        }
      }
      // words which are scored with the whole global beam
      std::vector<int> whole(nodes, 1);   // 1 yes, 0 no, 2 may be
      size_t head = cands.size();
      if (gbeam && rcheck > 0) {
        head = std::min<size_t>({(size_t)rcheck, nodes, cands.size()});
        size_t keep = std::min<size_t>((size_t)rsize, nodes);
        if (keep < nodes) {
          std::vector<double> cut(nodes);
          for (u32 t0 = 0; t0 < nodes; ++t0) for (size_t c = 0; c < head; ++c) cut[t0] += local[t0][c];
          auto sorted = cut;
          std::sort(sorted.begin(), sorted.end(), std::greater<double>());
          double in = sorted[keep - 1], out = sorted[keep];
          double tol = tolTotal(std::max(std::fabs(sorted.front()), std::fabs(sorted.back())));
          for (u32 t0 = 0; t0 < nodes; ++t0) whole[t0] = cut[t0] > out + tol ? 1 : cut[t0] < in - tol ? 0 : 2;
          count("probe.right_beam_cut");
        }
      }
      for (u32 t0 = 0; t0 < nodes; ++t0) {
        auto row = start->beamData().row(t0);
        auto cells = bnd->scores()->nodeScores((i32)t0);
        std::vector<size_t> kept;
        bool end = false;
        for (u16 i = 0; i < row.size(); ++i) {
          auto& el = row.at(i);
          if (isFake(el)) { end = true; continue; }
          if (end) violation("score-path", "%s: a gap in the beam", where(b, t0).c_str());
          if (el.ptr.boundary != b || el.ptr.right != t0) violation("score-path", "%s: a path in its beam belongs to another word", where(b, t0).c_str());
          size_t c = 0;
          while (c < cands.size() && (cands[c].left != el.ptr.left || cands[c].beam != el.ptr.beam)) ++c;
          if (c == cands.size()) violation("score-path", "%s: a path in its beam continues one which was not kept", where(b, t0).c_str());
          if (el.ptr.previous != &cands[c].el->ptr) violation("score-path", "%s: a path in its beam is not connected to the path it continues", where(b, t0).c_str());
          if (std::find(kept.begin(), kept.end(), c) != kept.end()) violation("score-path", "%s: the same path is twice in its beam", where(b, t0).c_str());
          kept.push_back(c);
          double cell = cells.beamLeft(el.ptr.beam, el.ptr.left).at(0);
          checkScore("the score of its features", b, t0, cell, local[t0][c], tolLocal(local[t0][c]));
          perc[&el.ptr] = cands[c].total + local[t0][c];
          ++paths;
        }
        if (rnn && eos) {
          // ordered by all scores
          for (size_t c = 0; c < cands.size(); ++c) checkScore("the score of its features", b, t0, cells.beamLeft(cands[c].beam, cands[c].left).at(0), local[t0][c], tolLocal(local[t0][c]));
          finalBeam(cands, cells, kept, row, w, cfg.beamSize);
          continue;
        }
        auto totals = [&](size_t lim, std::vector<double>* k, std::vector<double>* r) {
          for (size_t c : kept) k->push_back(cands[c].total + local[t0][c]);
          for (size_t c = 0; c < lim; ++c) if (std::find(kept.begin(), kept.end(), c) == kept.end()) r->push_back(cands[c].total + local[t0][c]);
        };
        bool onlyHead = true;
        for (size_t c : kept) onlyHead = onlyHead && c < head;
        if (whole[t0] == 0 && !onlyHead) count("probe.more_than_needed");
        std::vector<double> k, r;
        bool useHead = whole[t0] == 0 ? onlyHead : whole[t0] == 2 ? onlyHead && kept.size() == std::min<size_t>(head, cfg.beamSize) : false;
        totals(useHead ? head : cands.size(), &k, &r);
        checkBest(b, t0, "beam", k, r, cfg.beamSize);
        if (!rnn) {
          for (size_t i = 0; i < kept.size(); ++i) checkScore("the total score of a path to it", b, t0, row.at((u16)i).totalScore, k[i], tolTotal(k[i]));
        }
      }
    }
    count("probe.paths", paths);
    checkTop(n);
    if (rnn) checkRnn(n);
  }
  void finalBeam(const std::vector<Cand>& cands, ca::NodeScores cells, const std::vector<size_t>& kept, util::ArraySlice<ca::ConnectionBeamElement> row, const std::vector<float>& w, u32 beam) {
    u32 b = lat->createdBoundaryCount() - 1;
    auto total = [&](size_t c) {
      auto sc = cells.beamLeft(cands[c].beam, cands[c].left);
      return pathTotal(cands[c].el, w) + (double)sc.at(0) * w[0] + (double)sc.at(1) * w[1];
    };
    std::vector<double> k, r;
    for (size_t c : kept) k.push_back(total(c));
    for (size_t c = 0; c < cands.size(); ++c) if (std::find(kept.begin(), kept.end(), c) == kept.end()) r.push_back(total(c));
    checkBest(b, 0, "beam", k, r, beam);
    for (size_t i = 0; i < kept.size(); ++i) checkScore("the total score of a path to it", b, 0, row.at((u16)i).totalScore, k[i], tolTotal(k[i]));
  }
  double pathTotal(const ca::ConnectionBeamElement* el, const std::vector<float>& w) {
    double t = 0;
    for (auto* p = &el->ptr; p->boundary >= 2; p = p->previous) {
      auto sc = lat->boundary(p->boundary)->scores()->forPtr(*p);
      for (size_t i = 0; i < w.size(); ++i) t += (double)sc.at(i) * w[i];
    }
    return t;
  }
  // the best paths cover the input
  void checkTop(u32 n) {
    auto row = lat->boundary(n - 1)->starts()->beamData().row(0);
    if (n > 3 && isFake(row.at(0))) violation("score-path", "no path through [%s] was found", shorten(o.s[0]).c_str());
    if (n <= 3) return;
    for (u16 i = 0; i < row.size() && !isFake(row.at(i)); ++i) {
      u32 end = n - 1;
      for (auto* p = row.at(i).ptr.previous; p->boundary >= 2; p = p->previous) {
        auto& ni = lat->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
        if (p->boundary + ni.numCodepoints() != end) violation("score-path", "path %d through [%s] does not cover the input at %d", i, shorten(o.s[0]).c_str(), (int)end - 2);
        end = p->boundary;
      }
      if (end != 2) violation("score-path", "path %d through [%s] starts at %d", i, shorten(o.s[0]).c_str(), (int)end - 2);
    }
  }
  void checkRnn(u32 n) {
    auto& rn = *g_rnn[e.order];
    auto& sc = world::scoredModel(e.order);
    int unk = rn.ids.at("<unk>");
    Vec zero(rn.layer, 0.0), bos = rnnStep(rn, zero, 0);
    auto eosBnd = lat->boundary(n - 1);
    if (n <= 3) return;
    auto ptrs = eosBnd->ends()->nodePtrs();
    for (auto* el : eosBnd->ends()->globalBeam()) {
      std::vector<const ca::ConnectionPtr*> path;
      for (auto* p = &el->ptr; p->boundary >= 2; p = p->previous) path.push_back(p);
      std::reverse(path.begin(), path.end());
      Vec h = bos;
      std::vector<int> hist{0};
      for (auto* p : path) {
        core::analysis::NodeWalker nw;
        if (!om.locate(p->latticeNodePtr(), &nw)) violation("score-path", "a word of [%s] cannot be looked at", shorten(o.s[0]).c_str());
        auto& ni = lat->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
        bool special = ni.entryPtr().isSpecial();
        std::string w = ref.base[nw].str() + "_" + ref.pos[nw].str();
        auto it = rn.ids.find(w);
        int id = it == rn.ids.end() ? unk : it->second;
        // a word made for an unknown string is known only by that string
        if (special && it != rn.ids.end() && dicBase(ref.base[nw].str())) id = unk;
        double want = id == unk ? sc.unkConst + (double)sc.unkLen * ni.numCodepoints() : rnnScore(rn, h, hist, id, sc.nceBias);
        double got = lat->boundary(p->boundary)->scores()->forPtr(*p).at(1);
        checkScore(id == unk ? "the language model's score (unknown word)" : "the language model's score", p->boundary, p->right, got, want, 2e-3);
        count(id == unk ? "probe.rnn_unknown_word" : special ? "probe.rnn_unknown_string" : "probe.rnn_word");
        h = rnnStep(rn, h, id);
        hist.push_back(id);
      }
      // EOS
      bool found = false;
      for (u16 l = 0; l < ptrs.size() && !found; ++l) {
        auto q = ptrs.at(l);
        if (q.boundary != el->ptr.boundary || q.position != el->ptr.right) continue;
        auto row = lat->boundary(q.boundary)->starts()->beamData().row(q.position);
        for (u16 bi = 0; bi < row.size(); ++bi) {
          if (&row.at(bi) != el) continue;
          double got = eosBnd->scores()->nodeScores(0).beamLeft(bi, l).at(1);
          checkScore("the language model's score of the end", n - 1, 0, got, rnnScore(rn, h, hist, 0, sc.nceBias), 2e-3);
          found = true;
          break;
        }
      }
      count("probe.rnn_paths");
      stateMark(hashBytes(hist.data(), hist.size() * sizeof(int)));
    }
  }
  static bool dicBase(const std::string& w) {
    static std::unordered_map<std::string, bool>* m;
    if (!m) {
      HostScope hs;
      m = new std::unordered_map<std::string, bool>;
      std::stringstream ss(world::jumandicDicText());
      std::string l;
      while (std::getline(ss, l)) {
        std::stringstream ls(l);
        std::string x;
        for (int i = 0; i < 10 && std::getline(ls, x, ','); ++i) if (i == 0 || i == 8 || i == 9) (*m)[x] = true;
      }
    }
    return m->count(w) != 0;
  }
};

// ------------------------------------------------------------------ runs
Scenario gen(u64 seed) {
  Rng r(seed);
  Scenario s;
  s.p["order"] = r.pick<i64>({0, 0, 1, 2, 3, 3, 4, 4});
  s.p["dyn"] = r.chance(1, 3);
  s.p["gbeam"] = s.get("order") || r.chance(2, 3) ? r.pick<i64>({1, 2, 3, 5, 8, 20}) : r.pick<i64>({0, -1});
  s.p["beam"] = r.pick<i64>({1, 1, 2, 3, 5, 10});
  s.p["rbeam"] = r.range(1, 5);
  s.p["rcheck"] = r.pick<i64>({0, 0, 1, 2, 3, 8});
  s.p["auto_step"] = r.chance(1, 5) && s.get("gbeam") > 0 ? r.range(1, 8) : 0;
  s.p["store_all"] = r.chance(1, 6);
  genHeap(s, r);
  genPages(s, r);
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 4)) s.ops.push_back(Op("pex", {}, {genPex(r, 4)}));
    else s.ops.push_back(Op("raw", {}, {genText(r, (int)r.pick<i64>({2, 4, 8}))}));
    if (r.chance(1, 3)) s.faults.push_back(Op("oom", {(i64)i, (i64)r.below(r.pick<i64>({20, 200, 1500})), r.pick<i64>({1, 1, 3, -1})}, {}));
  }
  return s;
}
Status analyse(Env& e, const Op& o, core::input::PexStreamReader* rdr) {
  if (o.kind == "pex") {
    Status s = rdr->initialize(*e.env.coreHolder(), '&');
    std::stringstream ss(o.s[0]);
    if (s) s = rdr->readExample(&ss);
    if (s) s = rdr->analyzeWith(&e.an);
    return s;
  }
  return e.an.analyze(o.s[0]);
}
void exec(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  stepBudget(6000000000ull);
  Env& e = *g_env[s.get("order")][s.get("dyn")];
  e.env.setBeamSize((u32)s.get("beam"));
  e.env.setGlobalBeam((i32)s.get("gbeam"), (i32)s.get("rcheck"), (i32)s.get("rbeam"));
  if (s.get("auto_step")) e.env.setAutoBeam((i32)s.get("beam"), (i32)s.get("auto_step"), (i32)s.get("gbeam"));
  if (s.get("auto_step") && s.get("gbeam") < s.get("beam")) { event("skip"); finishRun(); }
  try {
    Status st = e.env.makeAnalyzer(&e.an);
    if (!st) violation("score-config", "the analyzer cannot be created: %s", statusText(st).c_str());
  } catch (std::bad_alloc&) {
    if (!pageShift()) throw;
    count("probe.page_too_small");
    finishRun();
  }
  if (s.get("store_all")) e.an.impl()->setStoreAllPatterns(true);
  count(s.get("order") ? "model.with_rnn" : "model.without_rnn");
  count(s.get("dyn") ? "features.dynamic" : "features.static");
  count(s.get("gbeam") > 0 ? "beam.global" : "beam.local");
  int shift = pageShift();
  pageShift(0);
  g_ref->env.setBeamSize(1);
  g_ref->env.setGlobalBeam(0, 0, 0);
  if (!g_ref->env.makeAnalyzer(&g_ref->an)) harnessError("reference analyzer");
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& o = s.ops[i];
    pageShift(shift);
    for (auto& f : s.faults) {
      if (f.arg(0) != (i64)i) continue;
      u64 f0 = heapFailed();
      try {
        core::input::PexStreamReader rdr;
        heapFailAt(f.arg(1), f.arg(2));
        analyse(e, o, &rdr);
      } catch (std::exception&) {
      }
      heapFailAt(-1, 0);
      if (heapFailed() != f0) count("fault.allocation_in_earlier_analysis");
    }
    core::input::PexStreamReader rdr;
    Status st = Status::Ok();
    try {
      st = analyse(e, o, &rdr);
    } catch (std::bad_alloc&) {
      if (!shift) throw;
      count("probe.page_too_small");
      finishRun();
    }
    pageShift(0);
    Pex pex;
    std::string text = o.s[0];
    if (o.kind == "pex") {
      if (!st) { count("probe.rejected"); event("rejected"); continue; }
      pex = parsePex(o.s[0]);
      text = pex.surface;
      if (rdr.surface().str() != text) { count("probe.rejected"); continue; }
      count("probe.partially_annotated");
    }
    Status rs = g_ref->an.analyze(text);
    if (rs.isOk() != st.isOk()) violation("score-input", "input [%s] is %s, with other settings it is %s", shorten(text).c_str(), st.isOk() ? "accepted" : "rejected", rs.isOk() ? "accepted" : "rejected");
    if (!st) { count("probe.rejected"); event("rejected"); continue; }
    count("probe.accepted");
    Ref ref;
    ref.lat = g_ref->an.impl()->lattice();
    ref.feats = g_ref->env.coreHolder()->features().ngramDynamic.get();
    ref.scorer = g_ref->env.featureScorer();
    ref.numFeats = g_ref->env.spec().features.ngram.size();
    ref.pex = o.kind == "pex" ? &pex : nullptr;
    Status fs = e.an.output().stringField("pos", &ref.pos);
    if (fs) fs = e.an.output().stringField("baseform", &ref.base);
    if (fs) fs = e.an.output().stringField("surface", &ref.surf);
    if (!fs) harnessError("fields: %s", statusText(fs).c_str());
    auto* lat = e.an.impl()->lattice();
    if (lat->createdBoundaryCount() != ref.lat->createdBoundaryCount()) violation("score-lattice", "the lattice of [%s] has another length with other settings", shorten(text).c_str());
    for (u32 b = 0; b < lat->createdBoundaryCount(); ++b) {
      auto x = lat->boundary(b)->starts()->nodeInfo(), y = ref.lat->boundary(b)->starts()->nodeInfo();
      bool same = x.size() == y.size();
      for (size_t k = 0; same && k < x.size(); ++k) same = x.at(k).numCodepoints() == y.at(k).numCodepoints() && x.at(k).entryPtr() == y.at(k).entryPtr();
      if (!same) violation("score-lattice", "the candidates at position %d of [%s] are other ones with other settings", (int)b - 2, shorten(text).c_str());
    }
    Checker c{s, o, e, ref, lat, e.an.output(), {}};
    c.run();
    auto top = lat->boundary(lat->createdBoundaryCount() - 1)->starts()->beamData().row(0);
    float t = isFake(top.at(0)) ? 0 : top.at(0).totalScore;
    u32 tb;
    memcpy(&tb, &t, 4);
    event("top", tb);
    stateMark(tb);
    trace("%s [%s] -> %f", o.kind.c_str(), shorten(text).c_str(), t);
  }
  finishRun();
}
Registrar r23({"C23", warm, gen, exec, 120});
}  // namespace
