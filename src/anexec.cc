// Analyzers, inputs and configurations shared by the analysis and command harnesses.
#include "anexec.h"
#include "core/impl/segmented_format.h"
#include "core/input/pex_stream_reader.h"
#include <algorithm>
#include <cstring>

using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jd = jumanpp::jumandic;

namespace an {
Exec* g_exec[2][2];  // [rnn][long lived, fresh]
std::vector<std::string>* g_surf;   // surfaces of the training corpus, in order, "" between sentences
std::vector<std::string>* g_dicSurf;

void warmCommon() {
  quiet();
  g_surf = new std::vector<std::string>;
  g_dicSurf = new std::vector<std::string>;
  for (auto& l : world::trainLines()) {
    std::stringstream ss(l);
    std::string w;
    while (std::getline(ss, w, ' ')) g_surf->push_back(w.substr(0, w.find('_')));
    g_surf->push_back("");
  }
  std::stringstream ss(world::jumandicDicText());
  std::string l;
  while (std::getline(ss, l)) {
    auto w = l.substr(0, l.find(','));
    if (!w.empty() && w[0] != '"') g_dicSurf->push_back(w);
  }
}
void warmExecs() {
  if (g_exec[0][0]) return;
  warmCommon();
  for (int rnn = 0; rnn < 2; ++rnn) {
    for (int k = 0; k < 2; ++k) {
      jd::JumanppConf c;
      c.modelFile = std::string(rnn ? world::jumandicRnnModel() : world::jumandicModel());
      auto* e = new Exec;
      Status s = e->init(c);
      if (!s) harnessError("cannot create the analyzer: %s", statusText(s).c_str());
      g_exec[rnn][k] = e;
    }
  }
}

// ------------------------------------------------------------------ inputs
std::string genText(Rng& r, int maxWords) {
  static const char* chars[] = {"あ", "い", "の", "が", "カ", "ア", "ー", "ッ", "京", "都", "人", "々", "１", "5", "0", ".", "、", "。", "a", "B", "~", "〜", "…", "！", "😀", "é", " ", "　", "ぁ", "っ", "#", "千", "万", "ワ", "ク", "．", "・", "，", "数", "分", "の", "キ", "ロ", "ぴ", "～"};
  std::string t;
  int kind = (int)r.below(16);
  int n = (int)r.range(1, maxWords);
  if (kind < 5) {
    size_t p = r.below(g_surf->size());
    for (int i = 0; i < n; ++i) {
      auto& w = (*g_surf)[(p + i) % g_surf->size()];
      if (w.empty()) break;
      t += w;
    }
    if (t.empty()) t = (*g_surf)[0];
  } else if (kind < 8) {
    for (int i = 0; i < n; ++i) t += r.pick(*g_dicSurf);
  } else if (kind < 11) {
    for (int i = 0; i < n * 2; ++i) t += chars[r.below(sizeof chars / sizeof *chars)];
  } else if (kind < 12) {  // a long run of one or two characters
    auto a = chars[r.below(sizeof chars / sizeof *chars)], b = chars[r.below(sizeof chars / sizeof *chars)];
    for (int i = 0; i < n * 2; ++i) t += i & 1 ? b : a;
  } else if (kind < 14) {  // broken UTF-8
    for (int i = 0; i < n; ++i) t += r.pick(*g_dicSurf);
    int m = (int)r.range(1, 3);
    for (int i = 0; i < m && !t.empty(); ++i) {
      size_t p = r.below(t.size());
      switch (r.below(4)) {
        case 0: t[p] = (char)r.range(1, 255); break;
        case 1: t.erase(p, 1); break;
        case 2: t.insert(p, 1, (char)r.range(128, 255)); break;
        case 3: t = t.substr(0, p); break;
      }
    }
    for (auto& c : t) if (c == '\n' || c == 0) c = '?';
  } else if (kind < 15) {
    if (r.chance(1, 2)) t = "";
    else t = r.chance(1, 2) ? " " : "# x";
  } else {
    for (int i = 0; i < n; ++i) t += i % 3 == 2 ? chars[r.below(sizeof chars / sizeof *chars)] : r.pick(*g_surf).c_str();
  }
  return t;
}
std::string genPex(Rng& r, int maxWords) {
  std::string t;
  if (r.chance(1, 2)) t += strf("# p%d\n", (int)r.below(100));
  int n = (int)r.range(1, maxWords);
  for (int i = 0; i < n; ++i) {
    std::string w = r.pick(*g_dicSurf);
    switch (r.below(5)) {
      case 0:
      case 1: t += w; if (r.chance(1, 3)) t += "&" + r.pick(*g_dicSurf); t += "\n"; break;
      case 2: t += "\t" + w + "\n"; break;
      case 3: t += "\t" + w + "\tpos:" + (r.chance(1, 2) ? "名詞" : "助詞") + "\n"; break;
      case 4: if (r.chance(1, 6)) t += "\t" + w + "\tnofield:x\n"; else t += w + r.pick(*g_dicSurf) + "\n"; break;
    }
  }
  return t;
}
void genConfig(Scenario& s, Rng& r) {
  static const jd::OutputType kinds[] = {jd::OutputType::Juman, jd::OutputType::Morph, jd::OutputType::FullMorph, jd::OutputType::DicSubset,
                                         jd::OutputType::Lattice, jd::OutputType::Segmentation, jd::OutputType::JumanPb, jd::OutputType::LatticePb,
                                         jd::OutputType::FullLatticeDump, jd::OutputType::GlobalBeamPos};
  int f = (int)r.below(10);
  s.p["rnn"] = r.chance(1, 4);
  s.p["gbeam"] = s.get("rnn") || f == 9 || r.chance(2, 3) ? r.range(1, 6) : r.pick<i64>({0, -1});
  if (f == 8 && s.get("gbeam") <= 0) f = 0;
  s.p["format"] = (i64)kinds[f];
  s.p["beam"] = r.range(1, 6);
  s.p["beam_out"] = r.pick<i64>({1, 2, 3, 5, -1});
  s.p["rbeam"] = r.range(1, 5);
  s.p["rcheck"] = r.range(0, 2);
  s.p["auto_step"] = r.chance(1, 4) && s.get("gbeam") > 0 ? r.range(1, 8) : 0;
  s.p["sep"] = r.below(2);
}
const char* fmtName(i64 f) {
  switch ((jd::OutputType)f) {
    case jd::OutputType::Juman: return "format.juman";
    case jd::OutputType::Morph: return "format.morph";
    case jd::OutputType::FullMorph: return "format.full_morph";
    case jd::OutputType::DicSubset: return "format.dic_subset";
    case jd::OutputType::Lattice: return "format.lattice";
    case jd::OutputType::Segmentation: return "format.segment";
    case jd::OutputType::JumanPb: return "format.juman_pb";
    case jd::OutputType::LatticePb: return "format.lattice_pb";
    case jd::OutputType::FullLatticeDump: return "format.lattice_dump";
    case jd::OutputType::GlobalBeamPos: return "format.gbeam_pos";
    default: return "format.other";
  }
}

// ------------------------------------------------------------------ one analysis
Result runRaw(Exec& e, const std::string& text, const std::string& comment) {
  Result r;
  Status s = e.analyze(text, comment);
  r.ok = s.isOk();
  if (s) r.out = e.output().str();
  else r.msg = statusText(s);
  return r;
}
Result runPex(Exec& e, const std::string& text) {
  Result r;
  core::input::PexStreamReader rdr;
  Status s = rdr.initialize(e.core(), '&');
  std::stringstream ss(text);
  if (s) s = rdr.readExample(&ss);
  if (s) s = rdr.analyzeWith(e.analyzerPtr());
  if (s) s = e.format()->format(*e.analyzerPtr(), rdr.comment());
  r.ok = s.isOk();
  if (s) r.out = e.output().str();
  else r.msg = statusText(s);
  return r;
}
Result runOp(Exec& e, const Op& o) {
  if (pageShift()) {
    // something may be too big for one of the smaller pages
    try {
      return o.kind == "pex" ? runPex(e, o.s[0]) : runRaw(e, o.s[0], o.s.size() > 1 ? o.s[1] : std::string());
    } catch (std::bad_alloc&) {
      Result r;
      r.msg = "bad_alloc";
      count("probe.page_too_small");
      return r;
    }
  }
  return o.kind == "pex" ? runPex(e, o.s[0]) : runRaw(e, o.s[0], o.s.size() > 1 ? o.s[1] : std::string());
}
std::string shorten(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n";
    else if (c < 32) r += strf("\\x%02x", c);
    else r += (char)c;
    if (r.size() > 300) { r += "..."; break; }
  }
  return r;
}

}  // namespace an
