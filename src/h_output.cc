// C24 every output format tells the same analysis, C25 the candidates of an analysis.
#include "anexec.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/score_processor.h"
#include "core/impl/feature_debug.h"
#include "core/input/pex_stream_reader.h"
#include "core/proto/lattice_dump_output.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/jumandic_spec.h"
#include "util/characters.h"
#include "juman.pb.h"
#include "jumanpp.pb.h"
#include "lattice_dump.pb.h"
#include <google/protobuf/io/coded_stream.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

using namespace sim;
using namespace h;
using namespace jumanpp;
using namespace an;
namespace ca = jumanpp::core::analysis;
typedef std::string S;
typedef std::vector<S> VS;

namespace {
// ------------------------------------------------------------------ dictionaries
enum { SURF, POS, SUB, FORM, TYPE, BASE, READ, CANON, NFLD };
struct Row {
  S f[NFLD];
  VS feats;   // key or key \x1e value, in the order they are told
  bool operator==(const Row& o) const {
    for (int i = 0; i < NFLD; ++i) if (f[i] != o.f[i]) return false;
    VS a = feats, b = o.feats;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
  }
};
struct Group { S key; std::vector<Row> rows; bool lexicalized = false; int bits = 0; };
struct World {
  Exec* e[2] = {nullptr, nullptr};   // long lived, fresh
  bool rnn = false;
  std::vector<Row> templates;
  std::map<S, std::vector<Group>> words;   // by surface
  std::set<S> prefixes;
  // without the rows of the templates, which are no words
  std::map<S, std::vector<Group>> dict;
  std::set<S> dictPrefixes;
  VS surf, longs;
  int normIdx = 0, prefixIdx = 1;
};
const int kWorlds = 6;
World* g_w[kWorlds];

S featText(const S& f, const char* sep = ":") {
  size_t p = f.find('\x1e');
  return p == S::npos ? f : f.substr(0, p) + sep + f.substr(p + 1);
}
S joinFeats(const VS& v, const char* sep) {
  S r;
  for (auto& x : v) r += (r.empty() ? "" : sep) + featText(x);
  return r;
}
std::vector<VS> csvRows(const S& text) {
  std::vector<VS> res;
  VS row;
  S c;
  bool any = false;
  for (size_t i = 0; i < text.size(); ++i) {
    char ch = text[i];
    if (ch == '"' && c.empty()) {
      for (++i; i < text.size(); ++i) {
        if (text[i] == '"') { if (i + 1 < text.size() && text[i + 1] == '"') { c += '"'; ++i; } else break; }
        else c += text[i];
      }
      any = true;
    } else if (ch == ',') { row.push_back(c); c.clear(); any = true; }
    else if (ch == '\n') { if (any || !c.empty()) { row.push_back(c); res.push_back(row); } row.clear(); c.clear(); any = false; }
    else { c += ch; any = true; }
  }
  if (any || !c.empty()) { row.push_back(c); res.push_back(row); }
  return res;
}
Row toRow(const VS& v) {
  static const int cols[] = {0, 4, 5, 6, 7, 8, 9, 10};
  Row r;
  for (int i = 0; i < NFLD; ++i) {
    r.f[i] = v[(size_t)cols[i]];
    if ((i >= POS && i <= TYPE) || i == CANON) if (r.f[i] == "*") r.f[i] = "";
  }
  if (v[11] != "NIL") {
    std::stringstream ss(v[11]);
    S x;
    while (std::getline(ss, x, ' ')) {
      size_t p = x.find(':');
      if (!x.empty()) r.feats.push_back(p == S::npos ? x : x.substr(0, p) + "\x1e" + x.substr(p + 1));
    }
  }
  return r;
}
bool hasKey(const Row& r, const S& k) {
  for (auto& f : r.feats) if (f.substr(0, f.find('\x1e')) == k) return true;
  return false;
}
std::set<S>* g_lex;
Group bare(const Row& r) {
  Group g;
  for (int i = 0; i <= READ; ++i) g.key += r.f[i] + "\x1f";
  g.bits = (hasKey(r, "濁音化D") ? 1 : 0) | (hasKey(r, "連用形名詞化") ? 2 : 0);
  g.lexicalized = g_lex->count(r.f[BASE] + "," + (r.f[POS].empty() ? "*" : r.f[POS]) + "," + (r.f[SUB].empty() ? "*" : r.f[SUB]) + "," + (r.f[TYPE].empty() ? "*" : r.f[TYPE])) != 0;
  return g;
}
// lists have no order
bool sameRows(const std::vector<Row>& a, const std::vector<Row>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    Row x = a[i], y = b[i];
    std::sort(x.feats.begin(), x.feats.end());
    std::sort(y.feats.begin(), y.feats.end());
    if (!(x == y)) return false;
  }
  return true;
}
VS codepoints(const S& t) {
  VS r;
  for (size_t i = 0; i < t.size();) {
    size_t n = 1;
    while (i + n < t.size() && ((unsigned char)t[i + n] & 0xc0) == 0x80) ++n;
    r.push_back(t.substr(i, n));
    i += n;
  }
  return r;
}
void learnDic(World* w, const S& csv) {
  int n = 0;
  for (auto& v : csvRows(csv)) {
    if (v.size() < 12) harnessError("dictionary row of %zu cells", v.size());
    Row r = toRow(v);
    if (++n <= 8) { w->templates.push_back(r); }
    Group g = bare(r);
    auto& gs = w->words[r.f[SURF]];
    size_t i = 0;
    while (i < gs.size() && gs[i].key != g.key) ++i;
    if (i == gs.size()) gs.push_back(g);
    gs[i].rows.push_back(r);
    S p;
    for (auto& c : codepoints(r.f[SURF])) { p += c; w->prefixes.insert(p); }
    if (n <= 8) continue;
    auto& ds = w->dict[r.f[SURF]];
    for (i = 0; i < ds.size() && ds[i].key != g.key;) ++i;
    if (i == ds.size()) ds.push_back(g);
    ds[i].rows.push_back(r);
    p.clear();
    for (auto& c : codepoints(r.f[SURF])) { p += c; w->dictPrefixes.insert(p); }
  }
  // templates are not words
  for (auto& kv : w->words) {
    w->surf.push_back(kv.first);
    if (codepoints(kv.first).size() >= 8) w->longs.push_back(kv.first);
  }
}
S quoteCsv(const S& s) {
  if (s.find_first_of("\",") == S::npos) return s;
  S r = "\"";
  for (char c : s) { if (c == '"') r += '"'; r += c; }
  return r + "\"";
}
// a dictionary with words which are hard to print
S customDic(u64 seed) {
  Rng r(seed);
  auto base = csvRows(world::jumandicDicText());
  std::vector<VS> rows(base.begin(), base.begin() + 8);
  auto feats = [&](bool special) -> S {
    static const char* f[] = {"カテゴリ:人", "カテゴリ:数量;時間", "ドメイン:文化・芸術", "濁音化D", "連用形名詞化:形態・意味", "k:v:w", "a\"b", "c,d:e", "\"q\"", "用言弱化", "同義:x/y;z/w", "自動認識", "漢字読み:音", "値:1,2", "値段:\"高\""};
    if (!special && r.chance(1, 3)) return "NIL";
    S t;
    std::set<int> used;
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      int k = (int)r.below(sizeof f / sizeof *f);
      if (used.insert(k).second) t += (t.empty() ? "" : " ") + S(f[k]);
    }
    return t;
  };
  auto posOf = [&](VS& v) {
    auto& p = jd::posInfo[r.below(jd::posInfoCount)];
    v[4] = p.part1.str();
    v[5] = p.part2.str();
    if (r.chance(1, 6)) v[5] = "*";
    v[6] = v[7] = "*";
    if (r.chance(1, 3)) {
      auto& c = jd::conjInfo[r.below(jd::conjInfoCount)];
      v[7] = c.part1.str();
      v[6] = c.part2.str();
      if (r.chance(1, 8)) v[6] = "*";
    }
  };
  bool own = seed & 1;
  if (own) for (auto& v : rows) { posOf(v); v[11] = feats(true); v[10] = r.chance(1, 2) ? "型/かた" : "*"; }
  for (int i = 0; i < 250; ++i) rows.push_back(base[8 + r.below(base.size() - 8)]);
  static const char* parts[] = {"あ", "い", "か", "た", "わ", "く", "ね", "え", "う", "お", "カ", "ア", "ー", "ッ", "っ", "ぁ", "ぇ", "京", "都", "人", "々", "数", "千", "万", "一", "5", "1", "の", "分", "a", "B", "〜", "、", "。", "!", "\"", ",", " ", "\t", "|", "_", "#", "/", "'"};
  for (int i = 0; i < 160; ++i) {
    VS v(12, "0");
    if (i == 0) v[0] = " ";
    else if (i == 1) v[0] = "\t";
    else if (i == 2) v[0] = "\"";
    else if (i == 3) v[0] = ",";
    else if (i < 10) { S a = parts[r.below(12)], b = i < 8 ? S("～") : S(parts[r.below(12)]); v[0] = a + a + b; }   // the trie has a path that skips a character of a repetition
    else if (i >= 150) {   // long words, some of them the beginning of another one
      int n = (int)r.range(8, 130);
      v[0] = i % 3 == 1 ? rows.back()[0] : S();
      for (int k = 0; k < n; ++k) v[0] += parts[r.below(33)];
    }
    else if (r.chance(1, 3)) v[0] = rows[8 + r.below(rows.size() - 8)][0];
    else {
      int n = (int)r.range(1, 4);
      v[0].clear();
      for (int k = 0; k < n; ++k) v[0] += parts[r.below(r.chance(3, 4) ? 33 : sizeof parts / sizeof *parts)];
    }
    posOf(v);
    v[8] = r.chance(1, 2) ? v[0] : rows[8 + r.below(rows.size() - 8)][0];
    v[9] = r.chance(1, 2) ? v[0] : rows[8 + r.below(rows.size() - 8)][0];
    v[10] = r.chance(1, 2) ? "*" : v[8] + "/" + v[9];
    v[11] = feats(false);
    rows.push_back(v);
    while (r.chance(1, 4)) {   // the same word with another meaning
      v[10] = r.chance(1, 2) ? "*" : v[8] + "/" + r.pick(rows)[0];
      v[11] = feats(false);
      rows.push_back(v);
    }
  }
  for (size_t i = rows.size() - 1; i > 8; --i) std::swap(rows[i], rows[8 + r.below(i - 7)]);
  S t;
  for (auto& v : rows) {
    for (size_t i = 0; i < v.size(); ++i) t += (i ? "," : "") + quoteCsv(v[i]);
    t += "\n";
  }
  return t;
}
S customModel(int k, S* csv) {
  *csv = customDic(77 + (u64)k);
  core::spec::AnalysisSpec spec;
  Status s = jd::SpecFactory::makeSpec(&spec);
  if (!s) harnessError("spec: %s", statusText(s).c_str());
  S seed = strf("output%d.seed", k), file = strf("output%d.model", k);
  s = world::saveDic(spec, *csv, seed);
  if (!s) harnessError("dictionary: %s", statusText(s).c_str());
  core::JumanppEnv dicEnv, env;
  s = dicEnv.loadModel(seed);
  if (s) s = env.loadModel(world::jumandicModel());
  if (!s) harnessError("model: %s", statusText(s).c_str());
  auto info = dicEnv.modelInfoCopy();
  std::vector<float> w;
  for (auto& part : env.modelInfoCopy().parts) {
    if (part.kind != core::model::ModelPartKind::Perceprton) continue;
    w.resize(part.data[1].size() / sizeof(float));
    Rng r(31 + (u64)k);
    for (auto& x : w) x = (float)(r.unit() * 2 - 1);
    info.parts.push_back(part);
    info.parts.back().data[1] = StringPiece{reinterpret_cast<const char*>(w.data()), w.size() * sizeof(float)};
  }
  core::model::ModelSaver saver;
  s = saver.open(file);
  if (s) s = saver.save(info);
  if (!s) harnessError("save: %s", statusText(s).c_str());
  return file;
}
void warm() {
  warmExecs();
  if (g_w[0]) return;
  g_lex = new std::set<S>;
  std::stringstream ls(jd::SpecFactory::lexicalizedData.str());
  S l;
  while (std::getline(ls, l)) g_lex->insert(l);
  for (int k = 0; k < kWorlds; ++k) {
    auto* w = new World;
    S file, csv = world::jumandicDicText();
    if (k == 0) file = world::scoredModel(0).file;
    else if (k == 1) file = world::scoredModel(3).file;
    else if (k == 2) file = world::jumandicModel();
    else file = customModel(k, &csv);
    w->rnn = k == 1;
    for (int i = 0; i < 2; ++i) {
      w->e[i] = new Exec;
      jd::JumanppConf c;
      c.modelFile = S(file);
      Status s = w->e[i]->init(c);
      if (!s) harnessError("analyzer %d: %s", k, statusText(s).c_str());
    }
    learnDic(w, csv);
    for (auto& p : w->e[0]->core().spec().features.primitive) {
      if (p.name == "nonstdSurf") w->normIdx = p.references[0];
      if (p.name == "notPrefix") w->prefixIdx = p.references[0];
    }
    g_w[k] = w;
  }
}

// ------------------------------------------------------------------ the analysis, as it is in the lattice
struct Fields {
  ca::StringField s[NFLD];
  ca::KVListField kv;
};
Fields* fieldsOf(const ca::OutputManager& om) {
  auto* f = new Fields;
  static const char* names[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic"};
  Status s = om.kvListField("features", &f->kv);
  for (int i = 0; i < NFLD; ++i) if (s) s = om.stringField(StringPiece((jumanpp::StringPiece::pointer_t)names[i], strlen(names[i])), &f->s[i]);
  if (!s) harnessError("fields: %s", statusText(s).c_str());
  return f;
}
struct Node {
  u32 b, pos;
  int start, end;
  bool special;
  i32 eptr;
  int norm = 0, notPrefix = 0;
  S text;                 // that part of the input
  std::vector<Row> rows;
  const Group* group = nullptr;   // of a word of the dictionary
};
typedef std::pair<u32, u32> Id;
bool isFake(const ca::ConnectionBeamElement& e) { return ca::EntryBeam::isFake(e); }
struct Path {
  struct Step { Id id; const ca::ConnectionPtr* c; u32 beam; };
  double total;
  std::vector<Step> steps;   // from the start
};
struct Analysis {
  World& w;
  ca::Lattice* lat;
  const ca::OutputManager& om;
  std::vector<float> weights;
  S text;
  VS cps;
  std::map<Id, Node> nodes;
  std::vector<Path> paths;
  u32 n;
  bool annotated = false;

  const Node& node(Id id) const { return nodes.at(id); }
  S where(const Node& x) const { return strf("word %s_%s (candidate %u at position %d) of [%s]", x.text.c_str(), x.rows.empty() ? "?" : x.rows[0].f[POS].c_str(), x.pos, x.start, shorten(text).c_str()); }
  void load() {
    cps = codepoints(text);
    n = lat->createdBoundaryCount();
    if (n != cps.size() + 3) violation("lattice", "[%s] has %zu characters, but its lattice has %d positions", shorten(text).c_str(), cps.size(), (int)n - 3);
    std::unique_ptr<Fields> f{fieldsOf(om)};
    for (u32 b = 2; b + 1 < n; ++b) {
      auto infos = lat->boundary(b)->starts()->nodeInfo();
      for (u32 i = 0; i < infos.size(); ++i) {
        auto& ni = infos.at(i);
        Node x;
        x.b = b;
        x.pos = i;
        x.start = (int)b - 2;
        x.end = x.start + ni.numCodepoints();
        if (ni.start() != x.start || ni.end() != x.end || x.end > (int)cps.size() || x.end <= x.start)
          violation("candidate", "[%s]: candidate %u at position %d goes from %d to %d", shorten(text).c_str(), i, x.start, (int)ni.start(), (int)ni.end());
        for (int k = x.start; k < x.end; ++k) x.text += cps[(size_t)k];
        x.special = ni.entryPtr().isSpecial();
        x.eptr = ni.entryPtr().rawValue();
        ca::NodeWalker nw;
        if (!om.locate(ca::LatticeNodePtr::make(b, i), &nw)) violation("candidate", "[%s]: candidate %u at position %d cannot be looked at", shorten(text).c_str(), i, x.start);
        if (x.special) {
          x.norm = om.valueOfUnkPlaceholder(ni.entryPtr(), w.normIdx);
          x.notPrefix = om.valueOfUnkPlaceholder(ni.entryPtr(), w.prefixIdx);
        }
        while (nw.next()) {
          Row r;
          for (int k = 0; k < NFLD; ++k) r.f[k] = f->s[k][nw].str();
          auto it = f->kv[nw];
          while (it.next()) {
            r.feats.push_back(it.key().str() + (it.hasValue() ? "\x1e" + it.value().str() : ""));
            if (r.feats.size() > 10000) violation("candidate", "a list of features does not end");
          }
          x.rows.push_back(r);
          if (x.rows.size() > 10000) violation("candidate", "the meanings of a word do not end");
        }
        if (x.rows.empty()) violation("candidate", "%s has no fields", where(x).c_str());
        nodes[{b, i}] = x;
      }
    }
    if (n <= 3) return;
    auto row = lat->boundary(n - 1)->starts()->beamData().row(0);
    for (u32 r = 0; r < row.size() && !isFake(row.at(r)); ++r) {
      Path p;
      p.total = row.at(r).totalScore;
      u32 beam = row.at(r).ptr.beam;
      for (auto* c = row.at(r).ptr.previous; c->boundary >= 2; c = c->previous) {
        p.steps.push_back({{c->boundary, c->right}, c, beam});
        beam = c->beam;
      }
      std::reverse(p.steps.begin(), p.steps.end());
      paths.push_back(p);
    }
    if (paths.empty()) violation("lattice", "no path through [%s]", shorten(text).c_str());
  }
  // the fields of every candidate are those of a word of the dictionary, or of a template
  void matchRows() {
    for (auto& kv : nodes) {
      Node& x = kv.second;
      if (!x.special) {
        auto it = w.words.find(x.text);
        if (it != w.words.end()) for (auto& g : it->second) if (sameRows(g.rows, x.rows)) x.group = &g;
        if (!x.group) {
          S known;
          if (it != w.words.end()) for (auto& g : it->second) known += " | " + show(g.rows);
          violation("candidate-fields", "%s: the dictionary has no such word: %s, but%s", where(x).c_str(), show(x.rows).c_str(), known.empty() ? " none" : known.c_str());
        }
      } else if (x.norm) {
        // another spelling of a word of the dictionary: only the surface is taken from the input
        std::vector<Row> rows = x.rows;
        for (auto& r : rows) if (r.f[SURF] != x.text) violation("candidate-fields", "%s: its surface is %s", where(x).c_str(), r.f[SURF].c_str());
        bool ok = false;
        for (auto& ws : w.words) {
          for (auto& g : ws.second) {
            if (g.rows.size() != rows.size()) continue;
            for (auto& r : rows) r.f[SURF] = ws.first;
            if (sameRows(g.rows, rows)) { ok = true; x.group = &g; }
          }
        }
        if (!ok) violation("candidate-fields", "%s: it should be another spelling of a word of the dictionary: %s", where(x).c_str(), show(x.rows).c_str());
      } else {
        bool ok = false;
        for (auto& t : w.templates) {
          Row r = t;
          r.f[SURF] = r.f[BASE] = r.f[READ] = x.text;
          if (!w.words.count(t.f[SURF])) continue;
          // rows which are equal to the template's in all fields but the canonic form and the features are told with it
          for (auto& g : w.words[t.f[SURF]]) {
            if (g.key != bare(t).key) continue;
            std::vector<Row> want = g.rows;
            for (auto& q : want) q.f[SURF] = q.f[BASE] = q.f[READ] = x.text;
            ok = ok || sameRows(want, x.rows);
          }
        }
        if (!ok) violation("candidate-fields", "%s: it has the fields of no template: %s", where(x).c_str(), show(x.rows).c_str());
      }
    }
  }
  static S show(const std::vector<Row>& rows) {
    S t;
    for (auto& r : rows) {
      t += "(";
      for (int i = 0; i < NFLD; ++i) t += r.f[i] + ",";
      t += joinFeats(r.feats, " ") + ")";
    }
    return shorten(t);
  }
};

// ------------------------------------------------------------------ formats
S orStar(const S& s) { return s.empty() ? "*" : s; }
struct JumanId { int pos = 0, sub = 0, type = 0, form = 0; };
JumanId jumanId(const Row& r) {
  JumanId j;
  for (u32 i = 0; i < jd::posInfoCount; ++i) {
    auto& p = jd::posInfo[i];
    if (p.part1.str() == r.f[POS] && p.part2.str() == orStar(r.f[SUB])) { j.pos = p.id1; j.sub = p.id2; }
  }
  if (!r.f[TYPE].empty()) {
    for (u32 i = 0; i < jd::conjInfoCount; ++i) {
      auto& p = jd::conjInfo[i];
      if (p.part1.str() != r.f[TYPE]) continue;
      if (p.part2.str() == orStar(r.f[FORM])) { j.type = p.id1; j.form = p.id2; }
      else if (r.f[FORM].empty()) { j.type = p.id1; j.form = 0; }
    }
  }
  return j;
}
S escJuman(const S& s) { return s == "\t" ? "\\t" : s == " " ? "\\␣" : s; }
S escTab(const S& s) { return s == "\t" ? "\\t" : s; }
S normText(int v) {
  // letters of the documentation
  static const std::pair<int, const char*> l[] = {{0x4, "R"}, {0x2, "s"}, {0x10, "p"}, {0x200, "e"}, {0x8, "D"}, {0x40, "P"}, {0x100, "S"}, {0x80, "H"}, {0x20, "L"}};
  S t = "非標準表記:";
  for (auto& x : l) if (v & x.first) t += x.second;
  return t;
}
S jumanText(const Analysis& a, const S& comment) {
  S t = comment.empty() ? "" : "# " + comment + "\n";
  if (!a.paths.empty()) for (auto& st : a.paths[0].steps) {
    auto& x = a.node(st.id);
    for (size_t i = 0; i < x.rows.size(); ++i) {
      auto& r = x.rows[i];
      auto id = jumanId(r);
      t += i ? "@ " : "";
      t += escJuman(r.f[SURF]) + " " + escJuman(r.f[READ]) + " " + escJuman(r.f[BASE]) + " ";
      t += orStar(r.f[POS]) + strf(" %d ", id.pos) + orStar(r.f[SUB]) + strf(" %d ", id.sub) + orStar(r.f[TYPE]) + strf(" %d ", id.type) + orStar(r.f[FORM]) + strf(" %d ", id.form);
      VS fs;
      if (!r.f[CANON].empty()) fs.push_back("代表表記:" + r.f[CANON]);
      for (auto& f : r.feats) fs.push_back(featText(f));
      if (x.special && x.norm) fs.push_back(normText(x.norm));
      S j;
      for (auto& f : fs) j += (j.empty() ? "" : " ") + f;
      t += fs.empty() ? x.special ? "\"\"" : "NIL" : "\"" + j + "\"";
      t += "\n";
    }
  }
  return t + "EOS\n";
}
S morphText(const Analysis& a, const S& comment, bool full) {
  S t;
  if (!a.paths.empty()) for (auto& st : a.paths[0].steps) {
    auto& r = a.node(st.id).rows[0];
    if (full) t += r.f[SURF] + "_" + r.f[READ] + "_" + r.f[BASE] + "_" + r.f[POS] + "_" + orStar(r.f[SUB]) + "_" + orStar(r.f[TYPE]) + "_" + orStar(r.f[FORM]);
    else t += r.f[SURF] + "_" + r.f[POS] + ":" + orStar(r.f[SUB]);
    t += " ";
  }
  if (!comment.empty()) t += "# " + comment;
  return t + "\n";
}
S segText(const Analysis& a, const S& sep) {
  S t;
  if (!a.paths.empty()) for (size_t i = 0; i < a.paths[0].steps.size(); ++i) t += (i ? sep : "") + a.node(a.paths[0].steps[i].id).text;
  return t + "\n";
}
void differ(const char* fmt, const Analysis& a, const S& got, const S& want) {
  size_t p = 0;
  while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
  size_t b = p;
  while (b > 0 && got[b - 1] != '\n') --b;
  violation("format", "%s of [%s] is {%s} but the analysis is {%s}", fmt, shorten(a.text).c_str(), shorten(got.substr(b)).c_str(), shorten(want.substr(b)).c_str());
}
struct TopN {   // words of the best paths
  struct Info { std::vector<int> ranks; std::vector<u32> beams; std::vector<const ca::ConnectionPtr*> conns; std::set<Id> prev; };
  std::map<Id, Info> m;
  TopN(const Analysis& a, int n) {
    for (int r = 0; r < n && r < (int)a.paths.size(); ++r)
      for (auto& st : a.paths[(size_t)r].steps) {
        auto& i = m[st.id];
        i.ranks.push_back(r + 1);
        i.beams.push_back(st.beam);
        i.conns.push_back(st.c);
        i.prev.insert({st.c->previous->boundary, st.c->previous->right});
      }
  }
};
bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 + 2e-5 * std::fabs(b); }
void checkLattice(const Analysis& a, const S& comment, const S& got, int n) {
  TopN top(a, n);
  std::map<Id, int> ids;
  int next = 1;
  for (auto& kv : top.m) ids[kv.first] = next++;
  VS lines;
  std::stringstream ss(got);
  S l;
  while (std::getline(ss, l)) lines.push_back(l);
  size_t at = 0;
  auto line = [&]() -> S { return at < lines.size() ? lines[at++] : S("(nothing)"); };
  auto bad = [&](const S& g, const S& w) { violation("format", "lattice of [%s]: line %zu is {%s}, but the analysis is {%s}", shorten(a.text).c_str(), at, shorten(g).c_str(), shorten(w).c_str()); };
  if (a.n <= 3) {
    if (lines.size() == 2 && lines[0] == "# " + comment) ++at;
    else if (!comment.empty()) bad(lines.empty() ? "" : lines[0], "# " + comment);
  } else if (!comment.empty()) {
    S g = line();
    if (g != "# " + comment) bad(g, "# " + comment);
  } else {
    S g = line();
    S head = "# MA-SCORE\t";
    if (g.compare(0, head.size(), head)) bad(g, head);
    std::stringstream rs(g.substr(head.size()));
    S x;
    size_t i = 0;
    for (; rs >> x; ++i) {
      S p = strf("rank%zu:", i + 1);
      if (i >= a.paths.size() || (int)i >= n || x.compare(0, p.size(), p) || !near(strtod(x.c_str() + p.size(), nullptr), a.paths[i].total))
        bad(x, i < a.paths.size() && (int)i < n ? p + strf("%g", a.paths[i].total) : "no more ranks");
    }
    if (i != std::min<size_t>((size_t)n, a.paths.size())) bad(g, strf("%zu ranks", std::min<size_t>((size_t)n, a.paths.size())));
  }
  if (a.n > 3) for (auto& kv : top.m) {
    auto& x = a.node(kv.first);
    for (auto& r : x.rows) {
      S prev;
      for (auto& p : kv.second.prev) prev += (prev.empty() ? "" : ";") + strf("%d", p.first < 2 ? 0 : ids.at(p));
      auto id = jumanId(r);
      S w = strf("-\t%d\t", ids[kv.first]) + prev + strf("\t%d\t%d\t", x.start, x.end - 1) + escTab(x.text) + "\t";
      w += (r.f[CANON].empty() ? r.f[BASE] + "/" + r.f[READ] : r.f[CANON]) + "\t" + escTab(r.f[READ]) + "\t" + escTab(r.f[BASE]) + "\t";
      w += r.f[POS] + strf("\t%d\t", id.pos) + orStar(r.f[SUB]) + strf("\t%d\t", id.sub) + orStar(r.f[TYPE]) + strf("\t%d\t", id.type) + orStar(r.f[FORM]) + strf("\t%d\t", id.form);
      for (auto& f : r.feats) w += featText(f) + "|";
      if (x.special && x.norm) w += normText(x.norm) + "|";
      S ranks = "ランク:";
      for (size_t i = 0; i < kv.second.ranks.size(); ++i) ranks += (i ? ";" : "") + strf("%d", kv.second.ranks[i]);
      S g = line();
      if (g.compare(0, w.size(), w)) bad(g, w + "...");
      S rest = g.substr(w.size());
      VS parts;
      std::stringstream ps(rest);
      S y;
      while (std::getline(ps, y, '|')) parts.push_back(y);
      size_t need = a.weights.size() == 2 ? 4 : 3;
      static const char* names[] = {"特徴量スコア:", "言語モデルスコア:", "形態素解析スコア:"};
      if (parts.size() != need) bad(rest, strf("%zu parts", need));
      double v[3] = {0, 0, 0};
      for (size_t i = 0, k = 0; i + 1 < need; ++i, ++k) {
        if (need == 3 && k == 1) ++k;
        S nm = names[k];
        if (parts[i].compare(0, nm.size(), nm)) bad(parts[i], nm);
        v[k] = strtod(parts[i].c_str() + nm.size(), nullptr);
      }
      if (parts.back() != ranks) bad(parts.back(), ranks);
      bool ok = false;
      for (auto* c : kv.second.conns) {
        auto sc = a.lat->boundary(c->boundary)->scores()->forPtr(*c);
        double s0 = (double)sc.at(0) * a.weights[0], s1 = need == 4 ? (double)sc.at(1) * a.weights[1] : 0;
        ok = ok || (near(v[0], s0) && near(v[1], s1) && near(v[2], s0 + s1));
      }
      if (!ok) bad(rest, "the scores of none of its connections");
    }
  }
  S g = line();
  if (g != "EOS" || at != lines.size() || (!got.empty() && got.back() != '\n')) bad(g, "EOS");
  count("probe.lattice_words", top.m.size());
}
template <class M> void parsePb(const char* fmt, const Analysis& a, const S& got, M* m) {
  google::protobuf::io::CodedInputStream in(reinterpret_cast<const google::protobuf::uint8*>(got.data()), (int)got.size());
  google::protobuf::uint64 len = 0;
  if (!in.ReadVarint64(&len) || len + (u64)in.CurrentPosition() != got.size()) violation("format", "%s of [%s]: the length is %llu, the data has %zu bytes", fmt, shorten(a.text).c_str(), (unsigned long long)len, got.size());
  if (!m->ParseFromString(got.substr((size_t)in.CurrentPosition()))) violation("format", "%s of [%s] cannot be parsed", fmt, shorten(a.text).c_str());
}
template <class F> S pbFeats(const F& fs) {
  S t;
  for (auto& f : fs) t += f.key() + (f.has_value() ? "\x1e" + f.value() : "") + "\x1f";
  return t;
}
S pbFeats(const VS& v) {
  S t;
  for (auto& f : v) t += f + "\x1f";
  return t;
}
void expectPb(const char* fmt, const Analysis& a, const Node& x, const char* what, const S& got, const S& want) {
  if (got != want) violation("format", "%s of %s: %s is {%s}, but should be {%s}", fmt, a.where(x).c_str(), what, shorten(got).c_str(), shorten(want).c_str());
}
template <class P> S posText(const P& p) { return strf("%u %u %u %u", p.pos(), p.subpos(), p.conj_type(), p.conj_form()); }
template <class P> S strPosText(const P& p) { return p.pos() + " " + p.subpos() + " " + p.conj_type() + " " + p.conj_form(); }
S posWant(const Row& r) { auto j = jumanId(r); return strf("%d %d %d %d", j.pos, j.sub, j.type, j.form); }
S strPosWant(const Row& r) { return orStar(r.f[POS]) + " " + orStar(r.f[SUB]) + " " + orStar(r.f[TYPE]) + " " + orStar(r.f[FORM]); }
void checkJumanPb(const Analysis& a, const S& comment, const S& got) {
  JumanSentence m;
  parsePb("juman protobuf", a, got, &m);
  if (m.comment() != comment) violation("format", "juman protobuf of [%s]: the comment is [%s], given was [%s]", shorten(a.text).c_str(), shorten(m.comment()).c_str(), shorten(comment).c_str());
  size_t n = a.paths.empty() ? 0 : a.paths[0].steps.size();
  if ((size_t)m.morphemes_size() != n) violation("format", "juman protobuf of [%s] has %d words, the analysis %zu", shorten(a.text).c_str(), m.morphemes_size(), n);
  for (size_t i = 0; i < n; ++i) {
    auto& x = a.node(a.paths[0].steps[i].id);
    auto& mm = m.morphemes((int)i);
    if ((size_t)mm.variants_size() + 1 != x.rows.size()) violation("format", "juman protobuf of %s has %d variants, the word has %zu", a.where(x).c_str(), mm.variants_size(), x.rows.size() - 1);
    for (size_t k = 0; k < x.rows.size(); ++k) {
      auto& y = k ? mm.variants((int)k - 1) : mm;
      auto& r = x.rows[k];
      const char* f = "juman protobuf";
      expectPb(f, a, x, "the surface", y.surface(), r.f[SURF]);
      expectPb(f, a, x, "the reading", y.reading(), r.f[READ]);
      expectPb(f, a, x, "the base form", y.baseform(), r.f[BASE]);
      expectPb(f, a, x, "the part of speech", posText(y.posinfo()), posWant(r));
      expectPb(f, a, x, "the part of speech", strPosText(y.string_pos()), strPosWant(r));
      VS fs;
      if (!r.f[CANON].empty()) fs.push_back("代表表記\x1e" + r.f[CANON]);
      fs.insert(fs.end(), r.feats.begin(), r.feats.end());
      S g = pbFeats(y.features()), w = pbFeats(fs);
      if (g != w && x.norm) { fs.push_back("非標準表記\x1e" + normText(x.norm).substr(S("非標準表記:").size())); w = pbFeats(fs); }
      expectPb(f, a, x, "the list of features", g, w);
    }
  }
}
void checkLatticePb(const Analysis& a, const S& comment, const S& got, int n) {
  Lattice m;
  const char* f = "lattice protobuf";
  parsePb(f, a, got, &m);
  if (m.comment() != comment) violation("format", "lattice protobuf of [%s]: the comment is [%s], given was [%s]", shorten(a.text).c_str(), shorten(m.comment()).c_str(), shorten(comment).c_str());
  TopN top(a, n);
  size_t rows = 0;
  for (auto& kv : top.m) rows += a.node(kv.first).rows.size();
  if (a.n > 3 && (size_t)m.nodes_size() != rows) violation("format", "lattice protobuf of [%s] has %d words, the best paths have %zu", shorten(a.text).c_str(), m.nodes_size(), rows);
  if (a.n <= 3 && m.nodes_size()) violation("format", "lattice protobuf of an empty input has %d words", m.nodes_size());
  size_t ns = std::min<size_t>((size_t)n, a.paths.size());
  if ((size_t)m.scores_size() != ns) violation("format", "lattice protobuf of [%s] has %d scores of %zu paths", shorten(a.text).c_str(), m.scores_size(), ns);
  for (size_t i = 0; i < ns; ++i) if (!near(m.scores((int)i), a.paths[i].total)) violation("format", "lattice protobuf of [%s]: score %zu is %g, but should be %g", shorten(a.text).c_str(), i, m.scores((int)i), a.paths[i].total);
  if (a.n <= 3) return;
  std::map<Id, u32> pbId;
  std::map<u32, Id> back;
  int at = 0;
  for (auto& kv : top.m) {
    auto& x = a.node(kv.first);
    for (size_t k = 0; k < x.rows.size(); ++k) {
      auto& y = m.nodes(at++);
      auto& r = x.rows[k];
      if (!k) {
        pbId[kv.first] = y.node_id();
        if (!back.insert({y.node_id(), kv.first}).second) violation("format", "lattice protobuf of %s: another word has its id", a.where(x).c_str());
      } else if (pbId[kv.first] != y.node_id()) violation("format", "lattice protobuf of %s: its variants have other ids", a.where(x).c_str());
      S prev, want;
      std::set<u32> gp(y.prev_nodes().begin(), y.prev_nodes().end()), wp;
      for (auto& p : kv.second.prev) if (p.first >= 2) wp.insert(pbId.count(p) ? pbId[p] : 0xffffffffu);
      if (gp != wp) violation("format", "lattice protobuf of %s: it follows other words than in the analysis", a.where(x).c_str());
      if ((int)y.start_index() != x.start || (int)y.end_index() != x.end) violation("format", "lattice protobuf of %s: it goes from %u to %u", a.where(x).c_str(), y.start_index(), y.end_index());
      expectPb(f, a, x, "the surface", y.surface(), x.text);
      expectPb(f, a, x, "the reading", y.reading(), r.f[READ]);
      expectPb(f, a, x, "the base form", y.dicform(), r.f[BASE]);
      expectPb(f, a, x, "the canonic form", y.canonical(), r.f[CANON].empty() ? r.f[BASE] + "/" + r.f[READ] : r.f[CANON]);
      expectPb(f, a, x, "the part of speech", posText(y.pos()), posWant(r));
      expectPb(f, a, x, "the part of speech", strPosText(y.string_pos()), strPosWant(r));
      S g = pbFeats(y.features()), w = pbFeats(r.feats);
      if (g != w && x.norm) w += "非標準表記\x1e" + normText(x.norm).substr(S("非標準表記:").size()) + "\x1f";
      expectPb(f, a, x, "the list of features", g, w);
      auto& ranks = kv.second.ranks;
      if (std::vector<int>(y.ranks().begin(), y.ranks().end()) != ranks) violation("format", "lattice protobuf of %s: the ranks of its paths are wrong", a.where(x).c_str());
      if ((size_t)y.cumulative_scores_size() != ranks.size() || (size_t)y.score_details_size() != ranks.size()) violation("format", "lattice protobuf of %s: %d scores of %zu paths", a.where(x).c_str(), y.cumulative_scores_size(), ranks.size());
      for (size_t i = 0; i < ranks.size(); ++i) {
        // the sum of what the path has so far
        double total = 0, mag = 0;
        const Path& p = a.paths[(size_t)ranks[i] - 1];
        for (auto& st : p.steps) {
          auto sc = a.lat->boundary(st.c->boundary)->scores()->forPtr(*st.c);
          for (size_t j = 0; j < a.weights.size(); ++j) { total += (double)sc.at(j) * a.weights[j]; mag += std::fabs((double)sc.at(j) * a.weights[j]); }
          if (st.id == kv.first) {
            if (!near(y.score_details((int)i).linear(), sc.at(0)) || (size_t)y.score_details((int)i).additional_size() + 1 != a.weights.size() ||
                (a.weights.size() == 2 && !near(y.score_details((int)i).additional(0), sc.at(1))))
              violation("format", "lattice protobuf of %s: the score in path %d is wrong", a.where(x).c_str(), ranks[i]);
            break;
          }
        }
        if (std::fabs(y.cumulative_scores((int)i) - total) > 2e-3 + 2e-6 * mag) violation("format", "lattice protobuf of %s: the score of path %d until here is %g, but should be %g", a.where(x).c_str(), ranks[i], y.cumulative_scores((int)i), total);
      }
    }
  }
}
void checkSubset(const Analysis& a, const S& comment, const S& got) {
  S head = "#### MRPH output ####\n" + morphText(a, comment, true) + "\n\n### SUBSET OF DICTIONARY\n";
  if (got.compare(0, head.size(), head)) differ("dictionary subset", a, got.substr(0, head.size()), head);
  auto rows = csvRows(got.substr(head.size()));
  std::set<S> g, w;
  auto text = [](const Row& r) {
    S t;
    for (int i = 0; i < NFLD; ++i) t += r.f[i] + "\x1f";
    VS f = r.feats;
    std::sort(f.begin(), f.end());
    return t + joinFeats(f, "\x1f");
  };
  for (auto& v : rows) {
    if (v.size() != 12 || v[1] != "0" || v[2] != "0" || v[3] != "0") violation("format", "dictionary subset of [%s]: a row with %zu cells", shorten(a.text).c_str(), v.size());
    g.insert(text(toRow(v)));
  }
  for (auto& kv : a.nodes) if (!kv.second.special) for (auto& r : kv.second.rows) w.insert(text(r));
  if (g == w) return;
  for (auto& x : w) if (!g.count(x)) violation("format", "dictionary subset of [%s]: the row {%s} is missing", shorten(a.text).c_str(), shorten(x).c_str());
  for (auto& x : g) if (!w.count(x)) violation("format", "dictionary subset of [%s]: the row {%s} is no word of the analysis", shorten(a.text).c_str(), shorten(x).c_str());
}
void checkGbeamPos(const Analysis& a, const S& comment, const S& got) {
  S t = got;
  if (!comment.empty()) {
    if (t.compare(0, comment.size() + 3, "# " + comment + "\n")) differ("global beam positions", a, t, "# " + comment + "\n");
    t = t.substr(comment.size() + 3);
  }
  VS lines;
  std::stringstream ss(t);
  S l;
  while (std::getline(ss, l)) lines.push_back(l);
  size_t n = a.paths.empty() ? 0 : a.paths[0].steps.size();
  if (lines.size() != n + 1 || !lines.back().empty()) violation("format", "global beam positions of [%s]: %zu lines of %zu words", shorten(a.text).c_str(), lines.size(), n);
  double after = a.paths.empty() ? 0 : a.paths[0].total;
  for (size_t i = 0; i < n; ++i) {
    auto& st = a.paths[0].steps[n - 1 - i];
    auto& x = a.node(st.id);
    S w = x.text + "\t";
    if (lines[i].compare(0, w.size(), w)) differ("global beam positions", a, lines[i], w);
    VS cells;
    S rest = lines[i].substr(w.size());
    size_t tab = rest.find('\t');
    S pos = rest.substr(0, tab);
    double sc = tab == S::npos ? NAN : strtod(rest.c_str() + tab + 1, nullptr);
    if (!near(sc, after)) violation("format", "global beam positions of %s: the score after it is %g, but should be %g", a.where(x).c_str(), sc, after);
    // its rank among all paths which end there, the last one is kept
    after = a.lat->boundary(st.id.first)->starts()->beamData().row(st.id.second).at((u16)st.beam).totalScore;
    u32 end = st.id.first + (u32)(x.end - x.start);
    int better = 0, same = 0;
    auto ptrs = a.lat->boundary(end)->ends()->nodePtrs();
    for (u32 k = 0; k < ptrs.size(); ++k) {
      auto row = a.lat->boundary(ptrs.at(k).boundary)->starts()->beamData().row(ptrs.at(k).position);
      for (u32 j = 0; j < row.size() && !isFake(row.at(j)); ++j) {
        if (row.at(j).totalScore > after) ++better;
        if (row.at(j).totalScore == after) ++same;
      }
    }
    // the language model changes the scores after the beams were made
    if (a.weights.size() > 1) continue;
    bool star = pos == "*";
    int p = atoi(pos.c_str());
    if (star ? false : p < better || p >= better + same) violation("format", "global beam positions of %s: position %s, but %d paths are better", a.where(x).c_str(), pos.c_str(), better);
  }
}
const S& feature(const jumanpp::FieldValue& v) { return v.string(); }
void checkDump(const Analysis& a, const S& comment, const S& got) {
  LatticeDump m;
  const char* fm = "lattice dump";
  parsePb(fm, a, got, &m);
  if (m.comment() != comment) violation("format", "lattice dump of [%s]: the comment is [%s], given was [%s]", shorten(a.text).c_str(), shorten(m.comment()).c_str(), shorten(comment).c_str());
  if (m.surface() != a.text) violation("format", "lattice dump of [%s] is of another input: [%s]", shorten(a.text).c_str(), shorten(m.surface()).c_str());
  if (m.boundaries_size() != (int)a.n - 2) violation("format", "lattice dump of [%s] has %d positions", shorten(a.text).c_str(), m.boundaries_size());
  static const char* names[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic"};
  int fld[NFLD], ffeat = -1;
  for (int i = 0; i < NFLD; ++i) fld[i] = -1;
  for (int k = 0; k < m.field_names_size(); ++k) {
    for (int i = 0; i < NFLD; ++i) if (m.field_names(k) == names[i]) fld[i] = k;
    if (m.field_names(k) == "features") ffeat = k;
  }
  for (int i = 0; i < NFLD; ++i) if (fld[i] < 0) violation("format", "lattice dump: field %s is missing", names[i]);
  if (ffeat < 0 || m.surface_idx() != fld[SURF]) violation("format", "lattice dump: fields are wrong");
  std::map<Id, std::vector<int>> ranks;
  for (size_t r = 0; r < a.paths.size(); ++r) for (auto& st : a.paths[r].steps) ranks[st.id].push_back((int)r);
  for (u32 b = 2; b + 1 < a.n; ++b) {
    auto& mb = m.boundaries((int)b - 2);
    u32 cnt = a.lat->boundary(b)->localNodeCount();
    if ((u32)mb.nodes_size() != cnt) violation("format", "lattice dump of [%s]: %d words at position %d of %u", shorten(a.text).c_str(), mb.nodes_size(), (int)b - 2, cnt);
    for (u32 i = 0; i < cnt; ++i) {
      auto& x = a.node({b, i});
      auto& y = mb.nodes((int)i);
      expectPb(fm, a, x, "the surface", y.surface(), x.text);
      if (y.length() != x.end - x.start) violation("format", "lattice dump of %s: the length is %d", a.where(x).c_str(), y.length());
      if (y.entry_ptr() != x.eptr) violation("format", "lattice dump of %s: the entry is another one", a.where(x).c_str());
      if ((size_t)y.variants_size() + 1 != x.rows.size()) violation("format", "lattice dump of %s: %d variants of %zu", a.where(x).c_str(), y.variants_size(), x.rows.size() - 1);
      for (size_t k = 0; k < x.rows.size(); ++k) {
        auto& z = k ? y.variants((int)k - 1) : y;
        auto& r = x.rows[k];
        if (z.values_size() != m.field_names_size()) violation("format", "lattice dump of %s: %d values", a.where(x).c_str(), z.values_size());
        for (int f = 0; f < NFLD; ++f) expectPb(fm, a, x, names[f], z.values(fld[f]).string(), r.f[f]);
        S g, w = pbFeats(r.feats);
        for (auto& kv : z.values(ffeat).kvlist().values()) g += kv.key() + (kv.value().empty() ? "" : "\x1e" + kv.value()) + "\x1f";
        expectPb(fm, a, x, "the list of features", g, w);
      }
      auto& want = ranks[{b, i}];
      if (std::vector<int>(y.ranks().begin(), y.ranks().end()) != want) violation("format", "lattice dump of %s: the ranks are wrong", a.where(x).c_str());
      auto row = a.lat->boundary(b)->starts()->beamData().row(i);
      int beams = 0;
      while (beams < (int)row.size() && !isFake(row.at((u16)beams))) ++beams;
      if (y.beams_size() != beams) violation("format", "lattice dump of %s: %d paths of %d", a.where(x).c_str(), y.beams_size(), beams);
      for (int k = 0; k < beams; ++k) {
        auto& el = row.at((u16)k);
        auto& p = y.beams(k);
        if (!near(p.cum_score(), el.totalScore)) violation("format", "lattice dump of %s: the score of path %d is %g, but should be %g", a.where(x).c_str(), k, p.cum_score(), el.totalScore);
        auto sc = a.lat->boundary(b)->scores()->forPtr(el.ptr);
        if ((size_t)p.raw_scores_size() != a.weights.size()) violation("format", "lattice dump of %s: %d scores", a.where(x).c_str(), p.raw_scores_size());
        for (size_t j = 0; j < a.weights.size(); ++j) if (!near(p.raw_scores((int)j), sc.at(j))) violation("format", "lattice dump of %s: score %zu of path %d is %g, but should be %g", a.where(x).c_str(), j, k, p.raw_scores((int)j), sc.at(j));
        auto* t1 = el.ptr.previous;
        auto* t2 = t1->previous;
        bool ok = p.nodes_size() == 3;
        ok = ok && p.nodes(2).boundary() == (int)b && p.nodes(2).node() == (int)i && p.nodes(2).beam() == k;
        ok = ok && p.nodes(1).boundary() == t1->boundary && p.nodes(1).node() == t1->right && p.nodes(1).beam() == el.ptr.beam;
        ok = ok && p.nodes(0).boundary() == t2->boundary && p.nodes(0).node() == t2->right && p.nodes(0).beam() == t1->beam;
        if (!ok) violation("format", "lattice dump of %s: path %d leads through other words", a.where(x).c_str(), k);
        std::vector<int> pr;
        for (size_t q = 0; q < a.paths.size(); ++q) for (auto& st : a.paths[q].steps) if (st.c == &el.ptr) pr.push_back((int)q);
        if (std::vector<int>(p.ranks().begin(), p.ranks().end()) != pr) violation("format", "lattice dump of %s: the ranks of path %d are wrong", a.where(x).c_str(), k);
        double sum = 0, mag = 0;
        for (auto& ft : p.features()) { sum += ft.weight(); mag += std::fabs(ft.weight()); }
        auto fits = [&](double pen) { return std::fabs(sum + pen - sc.at(0)) <= 1e-3 + 1e-5 * mag + 1e-6 * std::fabs(pen); };
        // a contradicted annotation costs one of these (C23)
        if (!fits(0) && !(a.annotated && (fits(-1000) || fits(-10000)))) violation("format", "lattice dump of %s: the weights of its features are %g together, the score is %g", a.where(x).c_str(), sum, sc.at(0));
      }
    }
  }
}

// ------------------------------------------------------------------ runs
u32 codeOf(const S& c) {
  unsigned char b = (unsigned char)c[0];
  if (b < 0x80) return b;
  u32 v = b < 0xe0 ? b & 31 : b < 0xf0 ? b & 15 : b & 7;
  for (size_t i = 1; i < c.size(); ++i) v = v << 6 | ((unsigned char)c[i] & 63);
  return v;
}
// well-formed UTF-8, each character in its shortest form
bool wellFormed(const S& t) {
  for (auto& c : codepoints(t)) {
    unsigned char b = (unsigned char)c[0];
    u32 u = codeOf(c);
    size_t n = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
    if (b == 0 || u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff) || (b >= 0x80 && b < 0xc2) || b > 0xf4 || c.size() != n || (n == 1) != (b < 0x80) || (n == 2) != (b >= 0xc2 && b < 0xe0) || (n == 3) != (b >= 0xe0 && b < 0xf0)) return false;
  }
  return true;
}
Scenario genC24(u64 seed) {
  Rng r(seed);
  Scenario s;
  genConfig(s, r);
  s.p["world"] = r.below(kWorlds);
  if (s.get("world") == 1 && s.get("gbeam") <= 0) s.p["gbeam"] = 3;
  s.p["beam"] = r.pick<i64>({1, 2, 3, 5, 8});
  s.p["dump"] = s.get("gbeam") > 0 && r.chance(1, 3);
  s.p["shuffle"] = (i64)r.below(1000000);
  s.p["same_object"] = r.chance(1, 2);
  genHeap(s, r);
  genPages(s, r);
  World& w = *g_w[s.get("world")];
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    S t;
    if (r.chance(1, 6)) { s.ops.push_back(Op("pex", {}, {genPex(r, 4)})); continue; }
    int k = (int)r.below(5);
    if (k < 2) t = genText(r, (int)r.pick<i64>({2, 4, 8}));
    else {
      int m = (int)r.range(1, k < 4 ? 4 : 8);
      for (int j = 0; j < m; ++j) t += r.pick(w.surf);
    }
    if (r.chance(1, 120)) {   // a word longer than 255 bytes
      int m = (int)r.range(86, 92);
      S c = r.pick<S>({"カ", "京"});
      for (int j = 0; j < m; ++j) t += c;
      s.p["dump"] = 0;
      s.p["beam"] = r.pick<i64>({1, 2});
    }
    s.ops.push_back(Op("raw", {}, {t, r.chance(1, 2) ? r.pick<S>({"S-ID:1 a:b", "c", " x", "# y", "日本"}) : S()}));
    if (r.chance(1, 4)) s.faults.push_back(Op("oom", {(i64)i, (i64)r.below(r.pick<i64>({3, 20, 200})), r.pick<i64>({1, 1, 3, -1})}, {}));
  }
  return s;
}
bool analyse(Exec& e, const Op& o, S* comment, S* text) {
  if (o.kind == "pex") {
    core::input::PexStreamReader rdr;
    Status s = rdr.initialize(e.core(), '&');
    std::stringstream ss(o.s[0]);
    if (s) s = rdr.readExample(&ss);
    if (s) s = rdr.analyzeWith(e.analyzerPtr());
    if (!s) return false;
    *comment = rdr.comment().str();
    *text = rdr.surface().str();
    return true;
  }
  *comment = o.s.size() > 1 ? o.s[1] : "";
  *text = o.s[0];
  return e.analyzerPtr()->analyze(o.s[0]).isOk();
}
void execC24(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  stepBudget(6000000000ull);
  World& w = *g_w[s.get("world")];
  Exec& e = *w.e[0];
  if (s.get("auto_step") && s.get("gbeam") < s.get("beam")) { event("skip"); finishRun(); }
  typedef jd::OutputType O;
  std::vector<O> kinds{O::Juman, O::Morph, O::FullMorph, O::Segmentation, O::DicSubset, O::Lattice, O::JumanPb, O::LatticePb};
  try {
    e.configure(s);
    e.setFormat(s.get("dump") ? O::FullLatticeDump : O::Juman);
    Status st = e.fresh();
    if (!st) violation("format", "the analyzer cannot be created: %s", statusText(st).c_str());
  } catch (std::bad_alloc&) {
    if (!pageShift()) throw;
    count("probe.page_too_small");
    finishRun();
  }
  int shift = pageShift();
  Rng order((u64)s.get("shuffle"));
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& o = s.ops[i];
    S comment, text;
    pageShift(shift);
    bool ok = false;
    try {
      ok = analyse(e, o, &comment, &text);
    } catch (std::bad_alloc&) {
      if (!shift) throw;
      count("probe.page_too_small");
      finishRun();
    }
    if (!ok) { count("probe.rejected"); event("rejected"); continue; }
    count(o.kind == "pex" ? "probe.partially_annotated" : "probe.accepted");
    // the library takes some byte sequences for characters which are none; protobuf does not
    if (!wellFormed(text)) { count("probe.not_utf8"); continue; }
    pageShift(0);
    Analysis a{w, e.analyzerPtr()->impl()->lattice(), e.analyzerPtr()->output(), e.analyzerPtr()->scorer()->scoreWeights, text, {}, {}, {}, 0};
    a.annotated = o.kind == "pex";
    a.load();
    a.matchRows();
    for (auto& kv : a.nodes) if (kv.second.rows.size() > 1) count("probe.word_with_variants");
    if (!a.paths.empty()) for (auto& st : a.paths[0].steps) {
      auto& x = a.node(st.id);
      count(!x.special ? "word.dictionary" : x.norm ? "word.normalized" : "word.unknown");
    }
    std::vector<O> ks = kinds;
    if (s.get("dump")) ks.push_back(O::FullLatticeDump);
    if (s.get("gbeam") > 0) ks.push_back(O::GlobalBeamPos);
    for (size_t k = ks.size() - 1 - (s.get("gbeam") > 0); k > 0; --k) std::swap(ks[k], ks[order.below(k + 1)]);
    for (auto kind : ks) {
      e.setFormat(kind);
      Status st = e.freshFormat();
      if (!st) violation("format", "a format cannot be initialised: %s", statusText(st).c_str());
      pageShift(kind == O::GlobalBeamPos ? 0 : shift);
      for (auto& f : s.faults) {
        if (f.arg(0) != (i64)i) continue;
        // protobuf takes an allocation which fails for the end of the process
        if (kind == O::JumanPb || kind == O::LatticePb || kind == O::FullLatticeDump) continue;
        u64 f0 = heapFailed();
        try {
          heapFailAt(f.arg(1), f.arg(2));
          e.format()->format(*e.analyzerPtr(), comment);
        } catch (std::bad_alloc&) {
        }
        heapFailAt(-1, 0);
        if (heapFailed() != f0) {
          count("fault.allocation_while_formatting");
          if (!s.get("same_object")) e.freshFormat();
        }
      }
      int times = order.chance(1, 4) ? 2 : 1;
      S got;
      for (int t = 0; t < times; ++t) {
        try {
          st = e.format()->format(*e.analyzerPtr(), comment);
        } catch (std::bad_alloc&) {
          if (!shift) throw;
          count("probe.page_too_small");
          finishRun();
        }
        if (!st) violation("format", "%s of [%s] cannot be told: %s", fmtName((i64)kind), shorten(text).c_str(), statusText(st).c_str());
        S again = e.output().str();
        if (t && again != got) violation("format", "%s of [%s], told twice, is another one", fmtName((i64)kind), shorten(text).c_str());
        got = again;
      }
      pageShift(0);
      count(fmtName((i64)kind));
      int beamN = (int)s.get("beam_out") == -1 ? (int)s.get("beam") : (int)s.get("beam_out");
      int autoN = beamN;
      if (s.get("auto_step")) autoN = (int)std::min<i64>(s.get("beam") + (i64)a.cps.size() / s.get("auto_step"), s.get("gbeam"));
      switch (kind) {
        case O::Juman: { S want = jumanText(a, comment); if (got != want) differ("juman format", a, got, want); break; }
        case O::Morph: { S want = morphText(a, comment, false); if (got != want) differ("morph format", a, got, want); break; }
        case O::FullMorph: { S want = morphText(a, comment, true); if (got != want) differ("full morph format", a, got, want); break; }
        case O::Segmentation: { S want = segText(a, s.get("sep") ? "|" : " "); if (got != want) differ("segmentation", a, got, want); break; }
        case O::DicSubset: checkSubset(a, comment, got); break;
        case O::Lattice: checkLattice(a, comment, got, autoN); break;
        case O::JumanPb: checkJumanPb(a, comment, got); break;
        case O::LatticePb: checkLatticePb(a, comment, got, beamN); break;
        case O::FullLatticeDump: checkDump(a, comment, got); break;
        case O::GlobalBeamPos: checkGbeamPos(a, comment, got); break;
        default: break;
      }
      event("out", hashBytes(got.data(), got.size()));
      if (kind == O::Lattice || kind == O::Juman) stateMark(hashBytes(got.data(), got.size()));
    }
    trace("%s [%s]: %zu candidates, %zu paths", o.kind.c_str(), shorten(text).c_str(), a.nodes.size(), a.paths.size());
  }
  finishRun();
}
Registrar r24({"C24", warm, genC24, execC24, 120});

// ------------------------------------------------------------------ C25
// What a sentence can be made of: every word of the dictionary which is written there, and what the rules of the
// specification say about other strings. This is written from the rules; it shares no code with the library.
enum : int { kPunc = 1, kKanji = 2, kFigure = 4, kPeriod = 8, kDot = 16, kComma = 32, kAlpha = 64, kSym = 128, kKata = 256, kHira = 512, kKanjiFig = 1024, kSlash = 2048,
             kColon = 4096, kEra = 8192, kChoon = 1 << 14, kHalfKana = 1 << 15, kBracket = 1 << 16, kFigExc = 1 << 17, kDigitWord = 1 << 18, kSmall = 1 << 19, kSpace = 1 << 20 };
bool oneOf(const S& c, const char* list) { for (auto& x : codepoints(list)) if (x == c) return true; return false; }
// -1 if the class is a matter of taste which the generator stays away from
int classOf(const S& c) {
  u32 u = codeOf(c);
  if (u == 0x20 || u == 0x3000 || u == 0xa0 || (u >= 0x2000 && u <= 0x200b)) return kSpace;
  if (oneOf(c, "、。")) return kPunc;
  if (oneOf(c, "㍻㍼㍽㍾")) return kSym | kEra;
  if (oneOf(c, "ー〜～")) return kHira | kKata | kChoon;
  if (oneOf(c, "ぁぃぅぇぉっゃゅょゎ")) return kHira | kSmall;
  if (oneOf(c, "ァィゥェォッャュョヮヵヶ")) return kKata | kSmall;
  if (oneOf(c, "ヽヾ")) return kKata;
  if (u >= 0x3040 && u <= 0x309f) return kHira;
  if (u >= 0x30a0 && u <= 0x30fa) return kKata;
  if (u == 0xff70) return kHalfKana | kChoon;
  if (u >= 0xff66 && u <= 0xff9f) return kHalfKana;
  if (oneOf(c, "・·")) return kDot;
  if (oneOf(c, ",，")) return kComma;
  if (oneOf(c, "/／")) return kSlash;
  if (oneOf(c, ":：")) return kColon;
  if (c == "．") return kPeriod;
  if ((u >= '0' && u <= '9') || (u >= 0xff10 && u <= 0xff19)) return kFigure;
  if (oneOf(c, "○〇零一二三四五六七八九")) return kKanjiFig | kKanji;
  if (oneOf(c, "数何幾")) return kFigExc | kKanji;
  if (oneOf(c, "十百千万億兆")) return kKanjiFig | kDigitWord;
  if ((u >= 'A' && u <= 'Z') || (u >= 'a' && u <= 'z') || (u >= 0xff21 && u <= 0xff3a) || (u >= 0xff41 && u <= 0xff5a) || (u >= 0x370 && u <= 0x4ff) || (u >= 0xc0 && u <= 0xff)) return kAlpha;
  if (oneOf(c, "()[]「」『』【】（）")) return c == "[" ? kAlpha : kBracket;
  if (c == "々" || (u >= 0x4e00 && u <= 0x9fff)) return kKanji;
  if (oneOf(c, "@`{＠［｀｛")) return kAlpha;
  return kSym;
}
struct Candidate {
  S key;              // what it is
  std::set<int> flags;   // how it may be marked
};
struct Candidates {
  const World& w;
  VS c;
  std::vector<int> cls;
  std::vector<std::multimap<S, Candidate>> at;   // by position of the first character
  bool connected = false, second = false;

  S sub(size_t i, size_t j) const { S t; for (; i < j; ++i) t += c[i]; return t; }
  static S rowText(const std::vector<Row>& rows) {
    S t;
    for (auto& r : rows) {
      for (int i = 0; i < NFLD; ++i) t += r.f[i] + "\x1f";
      VS f = r.feats;
      std::sort(f.begin(), f.end());
      for (auto& x : f) t += x + "\x1d";
      t += "\n";
    }
    return t;
  }
  void put(size_t i, size_t j, const char* kind, const S& what, std::set<int> flags) { at[i].insert({strf("%s %zu ", kind, j) + what, Candidate{kind, std::move(flags)}}); }
  void unknown(size_t i, size_t j, int tmpl, int flag) {
    Row r = w.templates[(size_t)tmpl - 1];
    r.f[SURF] = r.f[BASE] = r.f[READ] = sub(i, j);
    put(i, j, "unknown", rowText({r}), {flag});
  }
  bool word(const S& t) const { return w.dict.count(t) != 0; }
  bool prefix(const S& t) const { return w.dictPrefixes.count(t) != 0; }

  void words() {
    for (size_t i = 0; i < c.size(); ++i) {
      S t;
      for (size_t j = i; j < c.size(); ++j) {
        t += c[j];
        auto it = w.dict.find(t);
        if (it != w.dict.end()) for (auto& g : it->second) put(i, j + 1, "word", rowText(g.rows), {0});
      }
    }
  }
  void chunks(int tmpl, int mask) {
    for (size_t i = 0; i < c.size(); ++i)
      for (size_t j = i; j < c.size() && (cls[j] & mask); ++j) {
        S t = sub(i, j + 1);
        if (!word(t)) unknown(i, j + 1, tmpl, prefix(t) ? 0 : 1);
      }
  }
  void singles(int tmpl, int mask) {
    for (size_t i = 0; i < c.size(); ++i) if ((cls[i] & mask) && !word(c[i])) unknown(i, i + 1, tmpl, 0);
  }
  bool follows(size_t i, const char* t) const {
    for (auto& x : codepoints(t)) { if (i >= c.size() || c[i] != x) return false; ++i; }
    return true;
  }
  // numbers
  static constexpr int kNumber = kFigure | kKanjiFig | kDigitWord;
  bool is(size_t i, int mask) const { return i < c.size() && (cls[i] & mask); }
  size_t unitAt(size_t start, size_t i) const {   // a unit after a number
    if (i <= start || i >= c.size() || !is(i - 1, kFigure | kKanjiFig | kFigExc)) return 0;
    for (auto t : {"キロ", "メガ", "ギガ", "テラ", "ミリ"}) if (follows(i, t)) return 2;
    return 0;
  }
  size_t specialAt(size_t start, size_t i) const {
    // some, how many: before a digit word or a unit
    size_t unit = unitAt(start, i + 1);
    if (oneOf(c[i], "数何幾") && i + 1 < c.size() && (is(i + 1, kDigitWord) || unit)) return 1 + unit;
    if (i > start && is(i - 1, kNumber)) {   // fractions
      for (auto t : {"ぶんの", "分の"}) {
        size_t n = codepoints(t).size();
        if (follows(i, t) && is(i + n, kNumber)) return n;
      }
    }
    if (size_t n = unitAt(start, i)) return n;
    if (i > start && is(i, kComma)) {   // thousands
      size_t n = 0;
      while (n < 5 && is(i + 1 + n, kFigure)) ++n;
      if (n == 3) return 1;
    }
    if (i > start && is(i, kPeriod | kDot) && is(i - 1, kNumber) && is(i + 1, kNumber)) return 1;
    return 0;
  }
  void numbers(int tmpl) {
    const Row& t = w.templates[(size_t)tmpl - 1];
    Group tg = bare(t);
    for (size_t i = 0; i < c.size(); ++i) {
      size_t j = i;
      while (j < c.size() && j - i <= 64) {
        size_t n = 1;
        if (!is(j, kNumber)) n = specialAt(i, j);
        if (!n) break;
        j += n;
      }
      if (j == i) continue;
      // a word which is this number already?
      bool known = false;
      auto it = w.dict.find(sub(i, j));
      if (it != w.dict.end()) for (auto& g : it->second) {
        bool same = g.bits == tg.bits;
        for (int f : {POS, SUB, FORM, TYPE}) same = same && g.rows[0].f[f] == t.f[f];
        known = known || same;
      }
      if (!known) unknown(i, j, tmpl, 0);
      count(known ? "number.known" : j - i > 1 ? "number.long" : "number.one");
    }
  }
  void onomatopoeia(int tmpl) {
    for (size_t i = 0; i < c.size(); ++i) {
      if (!(cls[i] & (kKata | kHira | kHalfKana | kSmall))) continue;
      for (size_t h = 2; h <= 4 && i + 2 * h <= c.size(); ++h) {
        bool ok = true;
        for (size_t k = 0; k < h; ++k) ok = ok && c[i + k] == c[i + h + k] && (cls[i + k] & cls[i]);
        if (!ok || word(sub(i, i + 2 * h))) continue;
        unknown(i, i + 2 * h, tmpl, 0);
        count(i + 2 * h == c.size() ? "onomatopoeia.at_the_end" : "onomatopoeia");
      }
    }
  }
  // other spellings
  enum : int { kOriginal = 1, kSmallKana = 2, kReplace = 4, kDelete = 8, kProlong = 16, kDeleteLast = 32, kDelProlong = 64, kDelHatsuon = 128, kDelSmall = 256, kErow = 512 };
  struct Change { S to; int flag; };
  std::vector<std::vector<Change>> changes() const {
    static const char* vowels[][2] = {{"かがばまゃ", "あ"}, {"いきしちにひじけせへめれげぜでべぺえね", "い"}, {"くすつふゆぐずぷゅおこそとのほもよろごぞどぼぽょ", "う"}};
    static const char* smalls[][2] = {{"かさたなはまやらわがざだばぱ", "ぁ"}, {"いしにりぎじねれぜ", "ぃ"}, {"うくすふむるよ", "ぅ"}, {"けせてめで", "ぇ"}, {"こそのもろぞど", "ぉ"}};
    std::vector<std::vector<Change>> res(c.size());
    bool gone = false;
    for (size_t i = 0; i < c.size(); ++i) {
      bool was = gone;
      gone = false;
      if (!(cls[i] & (kKata | kHira | kHalfKana | kSmall | kKanji | kChoon))) continue;
      const S &x = c[i], prev = i ? c[i - 1] : S();
      bool choon = cls[i] & kChoon;
      S vowel;
      if (i && choon) for (auto& v : vowels) if (oneOf(prev, v[0])) vowel = v[1];
      if (!vowel.empty()) {
        res[i].push_back({vowel, kReplace | kProlong});
        if (oneOf(prev, "えけげせぜてでねへべめれ")) res[i].push_back({"え", kReplace | kProlong | kErow});
      } else {
        static const char* big[][2] = {{"ぁ", "あ"}, {"ぃ", "い"}, {"ぅ", "う"}, {"ぇ", "え"}, {"ぉ", "お"}, {"ゎ", "わ"}, {"ヶ", "ケ"}, {"ケ", "ヶ"}};
        for (auto& b : big) if (x == b[0]) res[i].push_back({b[1], kReplace | kSmallKana});
      }
      int del = 0;
      if (i) {
        if (choon && (was || (cls[i - 1] & (kKanji | kHira | kKata)))) del = kDelProlong;
        else if (x == "っ" || x == "ッ") {
          bool last = i + 1 == c.size();
          if (was || last || (cls[i + 1] & (kSpace | kPunc | kFigure | kPeriod | kDot | kAlpha | kSym | kBracket | kSlash | kColon | kComma)) || x == c[i + 1] || (cls[i - 1] & cls[i] & cls[i + 1] & (kHira | kKata))) del = kDelHatsuon;
        }
        if (!del) {
          for (auto& m : smalls) {
            // two small characters stand after one character in the list of the library, the first counts
            if (x == m[1] && oneOf(prev, m[0])) del = kDelSmall;
          }
          if (was && oneOf(x, "ぁぃぅぇぉ") && x == prev) del = kDelSmall;
        }
      }
      if (del) { res[i].push_back({"", kDelete | del}); gone = true; }
    }
    return res;
  }
  void spellings() {
    auto ch = changes();
    for (size_t i = 0; i < c.size(); ++i) {
      if (!prefix(c[i])) continue;
      std::set<std::pair<S, int>> states{{c[i], kOriginal}};
      for (size_t j = i + 1; j < c.size() && !states.empty(); ++j) {
        std::set<std::pair<S, int>> next;
        std::map<S, std::set<int>> found;
        auto step = [&](const S& t, int flags, bool del) {
          if (!prefix(t)) return;
          if (word(t) && flags != kOriginal) found[t].insert(flags | (del ? kDeleteLast : 0));
          next.insert({t, flags});
        };
        for (auto& st : states) {
          step(st.first + c[j], st.second | kOriginal, false);
          for (auto& x : ch[j]) step(st.first + x.to, st.second | x.flag, x.to.empty());
        }
        for (auto& f : found)
          for (auto& g : w.dict.at(f.first)) {
            std::vector<Row> rows = g.rows;
            for (auto& r : rows) r.f[SURF] = sub(i, j + 1);
            // words of different spelling may be alike in everything else
            put(i, j + 1, "spelling", rowText(rows), f.second);
          }
        states.swap(next);
      }
    }
  }
  bool reach() {
    std::vector<bool> ok(c.size() + 1);
    ok[0] = true;
    for (size_t i = 0; i < c.size(); ++i)
      if (ok[i]) for (auto& kv : at[i]) ok[(size_t)atoi(kv.first.c_str() + kv.first.find(' ') + 1)] = true;
    return ok.back();
  }
  Candidates(const World& w_, const S& text) : w(w_), c(codepoints(text)), at(c.size()) {
    for (auto& x : c) cls.push_back(classOf(x));
    words();
    singles(1, kSym);
    chunks(2, kKata);
    chunks(3, kKanji | kKanjiFig);
    chunks(5, kAlpha);
    numbers(6);
    onomatopoeia(7);
    spellings();
    if (!reach()) {
      second = true;
      chunks(4, kHira);
      singles(8, ~0);
    }
    connected = reach();
  }
};
S genCandidateText(Rng& r, const World& w) {
  static const char* nums[] = {"１", "2", "０", "一", "三", "十", "百", "千", "万", "億", "数", "何", "幾", "，", ",", "．", "・", "分の", "ぶんの", "キロ", "ミリ", "メガ", "5", "000", "00", "／", "円", "あ", "〇", "分"};
  static const char* kana[] = {"か", "け", "え", "ね", "て", "お", "さ", "ん", "ー", "〜", "っ", "ッ", "ぁ", "ぇ", "ぃ", "ゎ", "わ", "あ", "い", "う", "く", "ゆ", "よ", "カ", "ア", "ケ", "ヶ", "ょ", "き", "ょ", "う", "れ", "～", "ー", "っ"};
  static const char* other[] = {"A", "b", "é", "ω", "京", "々", "都", "！", "…", "「", "」", " ", "　", "ｶ", "ﾞ", "ｰ", "㍻", "😀", "@", ":", "、", "。", "ヽ", "×", "Ａ", "\"", "#", "_", "="};
  auto some = [&](const char** l, size_t n) { return S(l[r.below(n)]); };
  S t;
  int parts = (int)r.range(1, 5);
  for (int k = 0; k < parts; ++k) {
    switch (r.below(8)) {
      case 0: { int n = (int)r.range(1, 7); for (int i = 0; i < n; ++i) t += some(nums, sizeof nums / sizeof *nums); break; }
      case 1: { int n = (int)r.range(1, 6); for (int i = 0; i < n; ++i) t += some(kana, sizeof kana / sizeof *kana); break; }
      case 2: { int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) t += some(other, sizeof other / sizeof *other); break; }
      case 3: {   // repeated
        S h;
        int n = (int)r.range(1, 5);
        const char** l = r.chance(1, 5) ? other : kana;
        for (int i = 0; i < n; ++i) h += l == kana ? some(kana, sizeof kana / sizeof *kana) : some(other, sizeof other / sizeof *other);
        if (r.chance(1, 3)) {
          for (int i = 0; i < 400; ++i) {
            auto cs = codepoints(r.pick(w.surf));
            if (cs.size() == 3 && cs[0] == cs[1]) { h = cs[0] + cs[2]; break; }
          }
        } else if (r.chance(1, 3)) { auto cs = codepoints(r.pick(w.surf)); h.clear(); for (size_t i = 0; i < cs.size() && i < 4; ++i) h += cs[i]; if (cs.size() == 1) h += some(kana, 20); }
        t += h + h;
        break;
      }
      case 4: case 5:
        if (!w.longs.empty() && r.chance(1, 6)) {   // a long one, whole or nearly
          auto cs = codepoints(r.pick(w.longs));
          size_t n = r.chance(2, 3) ? cs.size() : r.below(cs.size());
          for (size_t i = 0; i < n; ++i) t += cs[i];
        } else t += r.pick(w.surf);
        break;
      case 6: {   // a word, spelt in another way
        for (auto& x : codepoints(r.pick(w.surf))) {
          t += x;
          if (r.chance(1, 3)) { S y = r.pick<S>({"ー", "〜", "っ", "ッ", "ぁ", "ぃ", "ぅ", "ぇ", "ぉ"}); t += y; while (r.chance(1, 3)) t += y; }
        }
        static const char* sm[][2] = {{"あ", "ぁ"}, {"い", "ぃ"}, {"う", "ぅ"}, {"え", "ぇ"}, {"お", "ぉ"}, {"わ", "ゎ"}, {"い", "ー"}, {"う", "ー"}, {"え", "ー"}, {"あ", "〜"}};
        auto cs = codepoints(t);
        t.clear();
        for (auto& x : cs) { S y = x; for (auto& p : sm) if (x == p[0] && r.chance(1, 4)) y = p[1]; t += y; }
        break;
      }
      case 7: t += genText(r, 3); break;
    }
  }
  if (r.chance(1, 60)) for (int i = 0; i < 70; ++i) t += some(nums, 10);
  return t;
}
Scenario genC25(u64 seed) {
  Rng r(seed ^ 0x25);
  Scenario s;
  genConfig(s, r);
  s.p["world"] = r.below(kWorlds);
  s.p["beam"] = r.range(1, 3);
  s.p["gbeam"] = s.get("world") == 1 ? r.range(1, 4) : r.pick<i64>({0, 1, 3});
  s.p["auto_step"] = 0;
  genHeap(s, r);
  genPages(s, r);
  int n = (int)r.range(1, 5);
  World& w = *g_w[s.get("world")];
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 10)) s.ops.push_back(Op("pex", {}, {genPex(r, 3)}));
    else s.ops.push_back(Op("raw", {}, {genCandidateText(r, w), ""}));
    if (r.chance(1, 5)) s.faults.push_back(Op("oom", {(i64)i, (i64)r.below(r.pick<i64>({3, 20, 200})), r.pick<i64>({1, 1, 3, -1})}, {}));
  }
  return s;
}
void execC25(const Scenario& s) {
  useHeap(s);
  memCheck(true);
  stepBudget(6000000000ull);
  World& w = *g_w[s.get("world")];
  Exec& e = *w.e[0];
  try {
    e.configure(s);
    Status st = e.fresh();
    if (!st) violation("analyzer", "the analyzer cannot be created: %s", statusText(st).c_str());
  } catch (std::bad_alloc&) {
    if (!pageShift()) throw;
    count("probe.page_too_small");
    finishRun();
  }
  for (size_t i = 0; i < s.ops.size(); ++i) {
    auto& o = s.ops[i];
    S comment, text;
    for (auto& f : s.faults) {
      if (f.arg(0) != (i64)i) continue;
      u64 f0 = heapFailed();
      try {
        heapFailAt(f.arg(1), f.arg(2));
        analyse(e, o, &comment, &text);
      } catch (std::bad_alloc&) {
      }
      heapFailAt(-1, 0);
      if (heapFailed() != f0) count("fault.allocation_while_analysing");
    }
    bool ok = false;
    try {
      ok = analyse(e, o, &comment, &text);
    } catch (std::bad_alloc&) {
      if (!pageShift()) throw;
      count("probe.page_too_small");
      finishRun();
    }
    if (!ok) {
      if (o.kind == "raw" && o.s[0].size() < 4096 && wellFormed(o.s[0])) violation("rejected", "[%s] can not be analysed", shorten(o.s[0]).c_str());
      count("probe.rejected");
      event("rejected");
      continue;
    }
    count(o.kind == "pex" ? "probe.partially_annotated" : "probe.accepted");
    if (!wellFormed(text)) { count("probe.not_utf8"); continue; }
    HostScope hs;
    Analysis a{w, e.analyzerPtr()->impl()->lattice(), e.analyzerPtr()->output(), e.analyzerPtr()->scorer()->scoreWeights, text, {}, {}, {}, 0};
    a.load();
    Candidates want(w, text);
    if (!want.connected && !a.cps.empty()) harnessError("[%s] is not connected", text.c_str());
    count(want.second ? "probe.second_stage" : "probe.first_stage");
    for (auto& kv : a.nodes) {
      const Node& x = kv.second;
      const char* kind = !x.special ? "word" : x.norm ? "spelling" : "unknown";
      S key = strf("%s %d ", kind, x.end) + Candidates::rowText(x.rows);
      auto& m = want.at[(size_t)x.start];
      auto range = m.equal_range(key);
      int flag = !x.special ? 0 : x.norm ? x.norm : x.notPrefix;
      auto it = range.first;
      while (it != range.second && !it->second.flags.count(flag)) ++it;
      if (it == range.second)
        violation("candidate-extra", "[%s]: %s is a candidate (%s, marked %d) which %s", shorten(text).c_str(), a.where(x).c_str(), kind, flag, range.first == range.second ? "should not be there" : "is marked in another way or there too often");
      m.erase(it);
      count(strf("candidate.%s", kind).c_str());
    }
    for (size_t p = 0; p < want.at.size(); ++p)
      for (auto& kv : want.at[p]) {
        S k = kv.first;
        for (auto& ch : k) if (ch == '\x1f') ch = ',';
        violation("candidate-missing", "[%s]: no candidate at position %zu for: %s", shorten(text).c_str(), p, shorten(k).c_str());
      }
    u64 hsh = hashBytes(text.data(), text.size(), a.nodes.size());
    event("candidates", hsh);
    stateMark(hsh);
  }
  finishRun();
}
Registrar r25({"C25", warm, genC25, execC25, 120});
}  // namespace
