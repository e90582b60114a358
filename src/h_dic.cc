// C22: a saved dictionary answers with the rows it was built from.
#include "hcommon.h"
#include "world.h"
#include "core/env.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/output.h"
#include "core/dic/dic_builder.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_parser.h"
#include <errno.h>
#include <map>
#include <set>
#include <unistd.h>

int jpp_main_tool(int argc, const char** argv);
namespace sim { std::string scratchDir(); void fsWriteback(u32 ppm, u64 seed); }
using namespace sim;
using namespace h;
using namespace jumanpp;
namespace ja = jumanpp::core::analysis;

namespace {
std::string full(const std::string& f) { return scratchDir() + "/" + f; }
enum Type { Str = 0, Int = 1, List = 2, KV = 3 };
enum Usage { Data = 0, Feature = 1, LossZero = 2, Loss = 3, Matched = 4 };

// op field: {id, column, type, align, storage (field id or -1), is surface, usage}, {empty, list_sep, kv_sep}
struct Field {
  int id, col, type, align, storage, usage;
  bool surface;
  std::string empty, lsep, ksep;
  std::string name() const { return surface ? "surface" : strf("f%d", id); }
};
struct Match { int id; std::vector<int> fields; std::vector<std::string> lines; };
struct Desc {
  std::vector<Field> fields;
  std::vector<Match> matches;
  std::vector<int> unk;      // template rows, 1-based
  int cols = 0;
  bool train = false, matchFile = false;
  int noSep = 0;             // 1: list separators empty, 2: key-value separators empty
  const Field* byId(int id) const { for (auto& f : fields) if (f.id == id) return &f; return nullptr; }
  const Field* surface() const { for (auto& f : fields) if (f.surface) return &f; return nullptr; }
};
Desc describe(const Scenario& s) {
  Desc d;
  d.matchFile = s.get("matchfile") != 0;
  std::set<int> ids;
  for (auto& o : s.ops)
    if (o.kind == "field" && o.s.size() >= 3) {
      Field f;
      f.id = (int)(o.arg(0) & 63);
      if (!ids.insert(f.id).second) continue;
      f.col = 1 + (int)((u64)(o.arg(1) - 1) % 15);
      f.type = (int)(o.arg(2) & 3);
      f.align = (int)(o.arg(3) & 7);
      f.storage = (int)o.arg(4);
      f.surface = o.arg(5) && !d.surface();
      f.usage = (int)(o.arg(6) & 3);
      f.empty = o.s[0]; f.lsep = o.s[1]; f.ksep = o.s[2];
      if (f.surface) { f.type = Str; f.empty.clear(); if (f.usage == Data) f.usage = Feature; }
      if (f.type == Int) f.empty.clear();
      if (f.type >= List) f.usage = Data;
      const Field* st = f.storage < 0 || f.type == Int ? nullptr : d.byId(f.storage);
      if (!st || st->type == Int) f.storage = -1;
      else f.align = 0;
      d.cols = std::max(d.cols, f.col);
      if (f.usage == LossZero || f.usage == Loss) d.train = true;
      d.fields.push_back(f);
      if (d.fields.size() >= 12) break;
    }
  for (auto& o : s.ops) {
    if (o.kind == "match" && !o.s.empty() && d.matches.size() < 3) {
      Match m;
      m.id = (int)d.matches.size();
      for (auto x : o.a) if (const Field* f = d.byId((int)x)) m.fields.push_back(f->id);
      if (m.fields.size() != o.a.size() || m.fields.empty()) continue;
      bool ok = true;
      for (auto x : m.fields) {
        int t = d.byId(x)->type;
        ok = ok && (t == Str || (t >= List && m.fields.size() == 1));
      }
      if (!ok) continue;
      m.lines = o.s;
      if (d.byId(m.fields[0])->type >= List) {
        m.lines.resize(1);
        if (m.lines[0].find(',') != std::string::npos) continue;
      }
      // a string field that a condition looks at is a feature
      for (auto& f : d.fields) if (f.type == Str && f.usage == Data && std::count(m.fields.begin(), m.fields.end(), f.id)) f.usage = Matched;
      d.matches.push_back(m);
    }
    if (o.kind == "unk") d.unk.push_back((int)std::max<i64>(1, o.arg(0)));
  }
  return d;
}
std::string q(const std::string& v) {  // quoted string of the specification
  std::string r = "\"";
  for (char c : v) { r += c; if (c == '"') r += c; }
  return r + "\"";
}
std::string specText(const Desc& d) {
  std::string t = "# simulated\n";
  static const char* types[] = {"string", "int", "string_list", "kv_list"};
  for (auto& f : d.fields) {
    t += strf("field %d %s %s", f.col, f.name().c_str(), types[f.type]);
    if (f.surface) t += " trie_index";
    if (!f.empty.empty()) t += " empty " + q(f.empty);
    if (f.storage >= 0) t += " storage " + d.byId(f.storage)->name();
    if (f.align) t += strf(" align %d", f.align);
    if (f.type >= List && (d.noSep == 1 || !f.lsep.empty())) t += " list_sep " + q(d.noSep == 1 ? "" : f.lsep);
    if (f.type == KV && (d.noSep == 2 || !f.ksep.empty())) t += " kv_sep " + q(d.noSep == 2 ? "" : f.ksep);
    t += "\n";
  }
  for (auto& m : d.matches) {
    bool list = d.byId(m.fields[0])->type >= List;
    t += strf("feature m%d = match %s", m.id, list ? "" : "[");
    for (size_t i = 0; i < m.fields.size(); ++i) t += (i ? ", " : "") + d.byId(m.fields[i])->name();
    std::string l;
    for (size_t i = 0; i < m.lines.size(); ++i) l += (i ? "\n" : "") + m.lines[i];
    t += list ? " with " : "] with ";
    if (d.matchFile) {
      t += strf("file \"r_match%d\"\n", m.id);
      hostWrite(full(strf("r_match%d", m.id)), list ? l : l + "\n");
    } else t += q(l) + "\n";
  }
  int n = 0;
  for (auto r : d.unk) t += strf("unk u%d template row %d: chunking %s surface to [surface]\n", n++, r, n % 2 ? "FAMILY_ANYTHING" : "FAMILY_DIGITS");
  t += "ngram [surface]\n";
  for (auto& f : d.fields) if (f.usage && f.usage != Matched && !f.surface) t += "ngram [surface, " + f.name() + "]\nngram [" + f.name() + "][" + f.name() + "]\n";
  for (auto& m : d.matches) t += strf("ngram [m%d]\n", m.id);
  if (d.train) {
    t += "train loss ";
    bool first = true;
    int w = 1;
    for (auto& f : d.fields) if (f.usage == LossZero || f.usage == Loss || (f.surface && f.usage)) {
      int fw = f.usage == LossZero ? 0 : w++;
      if (f.surface) fw = 1;
      t += (first ? "" : ", ") + f.name() + strf(": %d", fw);
      first = false;
    }
    t += "\n";
  }
  return t;
}
// ---- rows
std::vector<std::string> words(Rng& r, int n) {
  static const char* ch[] = {"a", "b", "c", "あ", "い", "漢", "字", "x", "1"};
  std::vector<std::string> v;
  for (int i = 0; i < n; ++i) {
    std::string w;
    int k = (int)r.range(1, 3);
    for (int j = 0; j < k; ++j) w += ch[r.below(9)];
    v.push_back(w);
  }
  return v;
}
std::vector<std::string> splitBy(const std::string& v, const std::string& sep);
std::string word(Rng& r, bool plain) {
  static const char* ch[] = {"a", "b", "c", "あ", "い", "漢", "字", "x", "1"};
  static const char* odd[] = {",", "\"", "'", "\n", "-", ":", ";", " ", "=", "*", "𠮷", "é", "|"};
  std::string w;
  int k = r.chance(1, 40) ? (int)r.range(30, 90) : (int)r.range(1, 3);
  if (r.chance(1, 400)) k = (int)r.range(100, 9000);
  for (int j = 0; j < k; ++j) w += !plain && r.chance(1, 12) ? odd[r.below(13)] : ch[r.below(9)];
  if (w.size() > 3000) for (auto& c : w) if (c == '"') c = 'q';  // such cells are refused, with a message
  return w;
}
std::string value(Rng& r, const Field& f) {
  switch (f.type) {
    case Int: return r.chance(1, 10) ? "" : r.chance(1, 10) ? strf("%lld", (long long)r.pick<i64>({2147483647, 2147483646, 1073741824, 268435456, 2097152, 16384, 16383, 128, 127})) : strf("%d", (int)r.below(r.chance(1, 2) ? 5 : 300));
    case List:
    case KV: {
      if (r.chance(1, 6)) return "";
      if (!f.empty.empty() && r.chance(1, 6)) return f.empty;
      std::string v, sep = f.lsep.empty() ? " " : f.lsep, ks = f.ksep.empty() ? ":" : f.ksep;
      int n = (int)r.range(1, r.chance(1, 6) ? 12 : 4);
      for (int i = 0; i < n; ++i) {
        if (i) v += sep;
        v += word(r, true);
        if (f.type == KV && r.chance(1, 2)) v += ks + (r.chance(1, 8) ? "" : word(r, true));
      }
      return v;
    }
    default:
      if (!f.surface && r.chance(1, 8)) return "";
      if (!f.empty.empty() && r.chance(1, 6)) return f.empty;
      return word(r, false);
  }
}
std::vector<std::string> genRow(Rng& r, const Desc& d) {
  std::vector<std::string> v((size_t)d.cols);
  std::vector<bool> set((size_t)d.cols);
  for (auto& c : v) c = r.chance(1, 2) ? "" : word(r, false);
  for (auto& f : d.fields) {
    auto i = (size_t)f.col - 1;
    if (set[i]) continue;
    v[i] = value(r, f);
    set[i] = true;
  }
  return v;
}
Scenario gen(u64 seed) {
  Rng r(seed ^ 0x22);
  Scenario s;
  int n = (int)r.range(1, r.chance(1, 4) ? 9 : 5);
  int cols = n + (int)r.below(3);
  std::vector<int> perm;
  for (int i = 1; i <= cols; ++i) perm.push_back(i);
  if (r.chance(2, 3)) for (int i = cols - 1; i > 0; --i) std::swap(perm[(size_t)i], perm[r.below((u64)i + 1)]);
  int surf = r.chance(1, 2) ? 0 : (int)r.below((u64)n);
  bool train = r.chance(1, 2);
  std::vector<int> types;
  bool wide = r.chance(1, 8);   // many string fields, and conditions on most of them
  if (wide) { n = (int)r.range(5, 9); cols = n + 1; perm.clear(); for (int i = 1; i <= cols; ++i) perm.push_back(i); surf = (int)r.below((u64)n); }
  for (int i = 0; i < n; ++i) {
    int type = i == surf || (wide && r.chance(5, 6)) ? Str : r.pick<int>({Str, Str, Str, Int, List, KV});
    types.push_back(type);
    int usage = r.chance(1, 2) ? Data : train ? (r.chance(1, 4) ? LossZero : Loss) : Feature;
    int storage = -1;
    if (i && r.chance(1, 4)) storage = (int)r.below((u64)i);
    std::string empty, lsep, ksep;
    if (r.chance(1, 3)) empty = r.pick<std::string>({"*", "NULL", "-"});
    if (r.chance(1, 3)) lsep = r.pick<std::string>({" ", ";", "|", ","});
    if (r.chance(1, 3)) ksep = r.pick<std::string>({":", "=", "::"});
    s.ops.push_back(Op("field", {i, perm[(size_t)i], type, r.chance(1, 3) ? r.range(0, 6) : 0, storage, i == surf, i == surf ? (train ? Loss : Feature) : usage}, {empty, lsep, ksep}));
  }
  Desc d = describe(s);
  int rows = (int)r.range(1, 14);
  std::vector<std::vector<std::string>> all;
  for (int i = 0; i < rows; ++i) {
    std::vector<std::string> row = genRow(r, d);
    if (!all.empty() && r.chance(1, 2)) {
      // as an earlier row, with some columns changed
      auto& o = all[r.below(all.size())];
      for (size_t k = 0; k < row.size() && k < o.size(); ++k) if (!r.chance(1, 4)) row[k] = o[k];
      if (r.chance(3, 4)) row[(size_t)d.surface()->col - 1] = o[(size_t)d.surface()->col - 1];
    } else if (r.chance(1, 2) && !all.empty()) {
      row[(size_t)d.surface()->col - 1] = all[r.below(all.size())][(size_t)d.surface()->col - 1] + word(r, true);
    }
    all.push_back(row);
    s.ops.push_back(Op("row", {}, row));
  }
  if (wide || r.chance(1, 3)) {
    // conditions that hold for some of the rows
    std::vector<i64> fs;
    std::vector<std::string> lines;
    auto& first = all[r.below(all.size())];
    auto good = [&](int id) {
      auto* f = d.byId(id);
      auto& v = first[(size_t)f->col - 1];
      return !v.empty() && v != f->empty && v.find_first_of(",\"\n\r") == std::string::npos;
    };
    for (int i = 0; i < n; ++i) if ((!wide || good(i)) && types[(size_t)i] == Str && (wide ? r.chance(5, 6) : r.chance(1, 2) && fs.size() < 3)) fs.push_back(i);
    if (!wide && r.chance(1, 3)) for (int i = 0; i < n; ++i) if (types[(size_t)i] >= List) { fs = {i}; break; }
    if (!fs.empty()) {
      int k = (int)r.range(1, 3);
      for (int i = 0; i < k; ++i) {
        auto& row = wide && i == 0 ? first : all[r.below(all.size())];
        std::string l;
        bool bad = false;
        for (auto id : fs) {
          auto* f = d.byId((int)id);
          std::string v = row[(size_t)f->col - 1];
          if (f->type >= List) {
            std::string sep = f->lsep.empty() ? " " : f->lsep;
            auto parts = splitBy(v, sep);
            v = parts.empty() ? "" : r.pick(parts);
            if (f->type == KV) v = v.substr(0, v.find(f->ksep.empty() ? ":" : f->ksep));
          }
          if (v.empty() || v == f->empty || v.find_first_of(",\"\n\r") != std::string::npos) bad = true;
          if (id != fs[0]) l += ",";
          l += v;
        }
        if (!bad) lines.push_back(l);
      }
      if (!lines.empty()) s.ops.push_back(Op("match", fs, lines));
    }
  }
  int nu = (int)r.range(0, 2);
  for (int i = 0; i < nu; ++i) s.ops.push_back(Op("unk", {r.range(1, rows)}));
  for (int i = 0; i < 2; ++i) {
    std::string t;
    int k = (int)r.range(1, 4);
    for (int j = 0; j < k; ++j) t += r.chance(2, 3) ? all[r.below(all.size())][(size_t)d.surface()->col - 1] : word(r, true);
    if (t.size() > 3000) continue;
    s.ops.push_back(Op("text", {}, {t}));
  }
  s.p["bulk"] = r.chance(1, 25) ? r.range(200, 2500) : 0;
  if (r.chance(1, 300)) s.p["huge"] = r.range(1, 3);
  s.p["bulk_seed"] = (i64)r.below(100000);
  s.p["matchfile"] = r.chance(1, 3);
  s.p["quote"] = (i64)r.below(3);
  s.p["crlf"] = r.chance(1, 6);
  s.p["no_eol"] = r.chance(1, 4);
  s.p["tool"] = r.chance(1, 2);
  s.p["old"] = (i64)r.below(3);
  s.p["short"] = r.chance(1, 2) ? (i64)r.below(4) : 0;
  s.p["writeback"] = r.chance(1, 2) ? r.pick<i64>({50000, 300000, 1000000}) : 0;
  if (r.chance(1, 2)) { s.p["before"] = r.range(1, 2); s.p["at"] = (i64)r.below(60); s.p["sel"] = (i64)r.below(4); }
  s.p["powerloss"] = r.range(1, 7);
  s.p["load_fail"] = r.chance(1, 4) ? r.range(1, 8) : 0;
  if (r.chance(1, 6)) { s.p["bad"] = r.range(1, 3); s.p["bad_at"] = (i64)r.below(1000); }
  s.p["clock"] = (i64)r.below(4);
  if (r.chance(1, 25)) s.p["nosep"] = r.range(1, 2);
  genHeap(s, r);
  return s;
}
std::string csvText(const Scenario& s, const std::vector<std::vector<std::string>>& rows) {
  Rng r(s.seed ^ 0xc5f);
  std::string t;
  i64 quote = s.get("quote");
  for (auto& row : rows) {
    bool first = true;
    for (auto& v : row) {
      if (!first) t += ",";
      first = false;
      bool need = v.find_first_of(",\"\n\r") != std::string::npos;
      if (need || quote == 2 || (quote == 1 && r.chance(1, 4))) {
        t += '"';
        for (char c : v) { t += c; if (c == '"') t += c; }
        t += '"';
      } else t += v;
    }
    t += s.get("crlf") ? "\r\n" : "\n";
  }
  if (s.get("no_eol")) { t.pop_back(); if (s.get("crlf")) t.pop_back(); }
  return t;
}
// ---- the reference
std::vector<std::string> splitBy(const std::string& v, const std::string& sep) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < v.size()) {
    size_t e = v.find(sep, p);
    if (e == std::string::npos) e = v.size();
    r.push_back(v.substr(p, e - p));
    p = e + sep.size();
  }
  return r;
}
std::string canonList(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  std::string r = "[";
  for (auto& x : v) r += x + "\x1f";
  return r + "]";
}
std::string expected(const Field& f, const std::string& v) {
  if (f.type == Int) return v.empty() ? "0" : strf("%lld", (long long)strtoll(v.c_str(), nullptr, 10));
  bool none = v.empty() || (!f.empty.empty() && v == f.empty);
  if (f.type == Str) return none ? "" : v;
  if (none) return "[]";
  std::vector<std::string> p = splitBy(v, f.lsep.empty() ? " " : f.lsep);
  if (f.type == KV) {
    std::string ks = f.ksep.empty() ? ":" : f.ksep;
    for (auto& x : p) {
      size_t e = x.find(ks);
      x = e == std::string::npos ? x : x.substr(0, e) + "\x1e" + x.substr(e + ks.size());
    }
  }
  return canonList(p);
}
bool matches(const Desc& d, const Match& m, const std::vector<std::string>& row) {
  for (auto& l : m.lines) {
    if (d.byId(m.fields[0])->type >= List) {
      const Field& f = *d.byId(m.fields[0]);
      std::string ks = f.ksep.empty() ? ":" : f.ksep;
      const std::string& v = row[(size_t)f.col - 1];
      if (v == f.empty && !v.empty()) continue;
      for (auto& x : splitBy(v, f.lsep.empty() ? " " : f.lsep)) if ((f.type == KV ? x.substr(0, x.find(ks)) : x) == l) return true;
      continue;
    }
    std::string c;
    for (auto id : m.fields) c += (id == m.fields[0] ? "" : ",") + row[(size_t)d.byId(id)->col - 1];
    if (c == l) return true;
  }
  return false;
}
typedef std::vector<std::string> RowValues;      // one per field, then one per match
typedef std::vector<RowValues> Node;             // the rows merged into one node
RowValues rowValues(const Desc& d, const std::vector<std::string>& row) {
  RowValues v;
  for (auto& f : d.fields) v.push_back(expected(f, row[(size_t)f.col - 1]));
  for (auto& m : d.matches) v.push_back(matches(d, m, row) ? "1" : "0");
  return v;
}
struct Ref {
  std::map<std::string, std::vector<Node>> nodes;
  std::set<std::string> prefixes;
};
std::vector<std::string> codepoints(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = 1;
    while (i + n < s.size() && ((u8)s[i + n] & 0xc0) == 0x80) ++n;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
Ref reference(const Desc& d, const std::vector<std::vector<std::string>>& rows) {
  Ref ref;
  std::map<std::string, std::map<std::string, size_t>> at;
  bool anyTrain = d.train;
  const Field* sf = d.surface();
  for (size_t i = 0; i < rows.size(); ++i) {
    if (std::find(d.unk.begin(), d.unk.end(), (int)i + 1) != d.unk.end()) continue;
    RowValues v = rowValues(d, rows[i]);
    std::string key;
    for (size_t k = 0; k < d.fields.size(); ++k) {
      auto& f = d.fields[k];
      bool in = anyTrain ? f.usage == Loss || f.surface : f.usage != Data;
      if (in) key += v[k] + "\x1d";
    }
    const std::string& surf = rows[i][(size_t)sf->col - 1];
    auto& m = at[surf];
    auto& list = ref.nodes[surf];
    auto it = m.find(key);
    if (it == m.end()) {
      m[key] = list.size();
      list.push_back({v});
    } else {
      Node& nd = list[it->second];
      // values that are features are those of the first row
      for (size_t k = 0; k < v.size(); ++k) if (k >= d.fields.size() || d.fields[k].usage != Data) v[k] = nd[0][k];
      nd.push_back(v);
    }
    std::string p;
    for (auto& c : codepoints(surf)) { p += c; ref.prefixes.insert(p); }
  }
  return ref;
}
std::string show(const RowValues& v) {
  std::string r;
  for (auto& x : v) {
    r += (r.empty() ? "" : " | ");
    for (char c : x.substr(0, 40)) r += c == '\n' ? "\\n" : c == '\x1f' ? ";" : c == '\x1e' ? ":" : std::string(1, c);
  }
  return "{" + r + "}";
}
std::string show(const std::vector<Node>& v) {
  std::string r;
  for (auto& n : v) {
    r += "node";
    for (auto& x : n) r += " " + show(x);
    r += "; ";
  }
  return r.empty() ? "nothing" : r.substr(0, 500);
}

struct Loaded {
  core::JumanppEnv env;
  std::unique_ptr<ja::OutputManager> out;
  std::map<int, std::unique_ptr<ja::StringField>> sf;
  std::map<int, std::unique_ptr<ja::IntField>> inf;
  std::map<int, std::unique_ptr<ja::StringListField>> lf;
  std::map<int, std::unique_ptr<ja::KVListField>> kf;
  std::vector<std::pair<int, int>> bits;
};
void openFields(Loaded& l, const Desc& d) {
  l.out.reset(new ja::OutputManager(nullptr, &l.env.coreHolder()->dic(), nullptr));
  for (auto& f : d.fields) {
    Status st = Status::Ok();
    std::string nm = f.name();
    if (f.type == Str) { l.sf[f.id].reset(new ja::StringField); st = l.out->stringField(nm, l.sf[f.id].get()); }
    if (f.type == Int) { l.inf[f.id].reset(new ja::IntField); st = l.out->intField(nm, l.inf[f.id].get()); }
    if (f.type == List) { l.lf[f.id].reset(new ja::StringListField); st = l.out->stringListField(nm, l.lf[f.id].get()); }
    if (f.type == KV) { l.kf[f.id].reset(new ja::KVListField); st = l.out->kvListField(nm, l.kf[f.id].get()); }
    if (!st) violation("field", "field %s of the loaded dictionary cannot be read: %s", nm.c_str(), statusText(st).c_str());
  }
  for (auto& m : d.matches) {
    bool found = false;
    for (auto& f : l.env.spec().features.dictionary)
      if (f.name == strf("m%d", m.id)) { l.bits.push_back({f.target, f.shift}); found = true; }
    if (!found) violation("field", "condition m%d is not in the loaded dictionary", m.id);
  }
}
Node readNode(Loaded& l, const Desc& d, core::EntryPtr ptr, size_t most) {
  Node nd;
  auto w = l.out->nodeWalker();
  if (!l.out->locate(ptr, &w)) violation("entry", "an entry cannot be read");
  while (w.next()) {
    HostScope hs;
    RowValues v;
    for (auto& f : d.fields) {
      if (f.type == Str) v.push_back((*l.sf[f.id])[w].str());
      if (f.type == Int) v.push_back(strf("%d", (*l.inf[f.id])[w]));
      if (f.type == List) {
        std::vector<std::string> x;
        auto it = (*l.lf[f.id])[w];
        StringPiece sp;
        for (;;) {
          bool more = it.hasNext();
          bool got = it.next(&sp);
          if (more != got) violation("entry", "a list claims to have %s elements after %zu", more ? "more" : "no more", x.size());
          if (!got) break;
          x.push_back(sp.str());
          if (x.size() > 10000) violation("entry", "a list does not end");
        }
        v.push_back(x.empty() ? "[]" : canonList(x));
      }
      if (f.type == KV) {
        std::vector<std::string> x;
        auto it = (*l.kf[f.id])[w];
        for (;;) {
          bool more = it.hasNext();
          bool got = it.next();
          if (more != got) violation("entry", "a list claims to have %s elements after %zu", more ? "more" : "no more", x.size());
          if (!got) break;
          std::string e = it.key().str();
          if (it.hasValue()) e += "\x1e" + it.value().str();
          x.push_back(e);
          if (x.size() > 10000) violation("entry", "a list does not end");
        }
        v.push_back(x.empty() ? "[]" : canonList(x));
      }
    }
    for (auto& b : l.bits) v.push_back((w.features().at(b.first) >> b.second) & 1 ? "1" : "0");
    nd.push_back(v);
    if (nd.size() > most) break;
  }
  return nd;
}
// what the dictionary says about one string
std::vector<Node> lookup(Loaded& l, const Desc& d, const Ref& ref, const std::string& text, size_t most) {
  auto t = l.env.coreHolder()->dic().entries().traversal();
  std::vector<Node> res;
  std::string p;
  auto cps = codepoints(text);
  for (size_t i = 0; i < cps.size(); ++i) {
    p += cps[i];
    auto st = t.step(cps[i]);
    bool word = ref.nodes.count(p) != 0, pre = ref.prefixes.count(p) != 0;
    if ((st == core::dic::TraverseStatus::Ok) != word)
      violation("lookup", "[%s]: the dictionary %s this word", p.substr(0, 100).c_str(), word ? "does not find" : "invents");
    if (st == core::dic::TraverseStatus::NoNode) {
      if (pre) violation("lookup", "[%s]: the dictionary stops before the end of a word", p.substr(0, 100).c_str());
      break;
    }
    if (i + 1 == cps.size() && word) {
      auto e = t.entries();
      while (e.readOnePtr()) {
        res.push_back(readNode(l, d, e.currentPtr(), most));
        if (res.size() > most) break;
      }
    }
  }
  return res;
}
void compareNodes(const Desc& d, const std::string& text, std::vector<Node> got, std::vector<Node> want) {
  bool noData = true;
  for (auto& f : d.fields) noData = noData && f.usage != Data;
  if (noData) {
    // there is nothing to tell merged rows apart: once is enough
    for (auto* v : {&got, &want}) for (auto& n : *v) if (n.size() > 1) { bool same = true; for (auto& x : n) same = same && x == n[0]; if (same) n.resize(1); }
  }
  auto g = got, w = want;
  std::sort(g.begin(), g.end());
  std::sort(w.begin(), w.end());
  if (g != w) violation("rows", "[%s]: the dictionary has %s but its rows are %s", text.substr(0, 100).c_str(), show(got).c_str(), show(want).c_str());
}
Status buildLib(const std::string& csv) {
  core::spec::AnalysisSpec spec;
  JPP_RETURN_IF_ERROR(core::spec::parseFromFile("r_spec", &spec));
  core::dic::DictionaryBuilder bldr;
  JPP_RETURN_IF_ERROR(bldr.importSpec(&spec));
  util::FullyMappedFile f;
  JPP_RETURN_IF_ERROR(f.open("r_dic", util::MMapType::ReadOnly));
  JPP_RETURN_IF_ERROR(bldr.importCsv("r_dic", f.contents()));
  core::model::ModelInfo nfo{};
  nfo.parts.emplace_back();
  JPP_RETURN_IF_ERROR(bldr.fillModelPart(&nfo.parts.back(), "sim"));
  core::model::ModelSaver saver;
  JPP_RETURN_IF_ERROR(saver.open("r_model"));
  return saver.save(nfo);
}
void exec(const Scenario& s) {
  Desc d = describe(s);
  const Field* sf = d.surface();
  if (!sf) finishRun();
  useHeap(s);
  quiet();
  fsStart(full("r_"));
  std::vector<std::vector<std::string>> rows;
  std::vector<std::string> texts;
  for (auto& o : s.ops) {
    if (o.kind == "row") {
      auto v = o.s;
      v.resize((size_t)d.cols);
      for (auto& f : d.fields) {
        auto& c = v[(size_t)f.col - 1];
        if (f.type == Int && c.find_first_not_of("0123456789") != std::string::npos) c = "0";
      }
      if (v[(size_t)sf->col - 1].empty()) v[(size_t)sf->col - 1] = "a";
      rows.push_back(v);
    }
    if (o.kind == "text" && !o.s.empty() && o.s[0].size() < 4000) texts.push_back(o.s[0]);
  }
  if (rows.empty()) finishRun();
  Rng br((u64)s.get("bulk_seed"));
  for (i64 i = 0; i < s.get("bulk"); ++i) {
    auto v = genRow(br, d);
    if (br.chance(1, 2)) {
      auto& o = rows[br.below(rows.size())];
      v[(size_t)sf->col - 1] = o[(size_t)sf->col - 1] + (br.chance(1, 2) ? "" : word(br, true));
    }
    if (v[(size_t)sf->col - 1].size() > 200) v[(size_t)sf->col - 1].resize(3, 'a'), v[(size_t)sf->col - 1] = "abc";
    rows.push_back(v);
  }
  for (i64 i = 0; i < s.get("huge"); ++i) {
    // values whose lengths and positions need many bytes
    auto v = genRow(br, d);
    for (auto& f : d.fields) if (f.type == Str && !f.surface) v[(size_t)f.col - 1] = std::string(br.below(900000), (char)('a' + i)) + word(br, true);
    rows.insert(rows.begin() + (i64)br.below(rows.size() + 1), v);
  }
  std::vector<int> unk;
  for (auto u : d.unk) if (u <= (int)rows.size()) unk.push_back(u);
  d.unk = unk;
  std::string csv = csvText(s, rows), spec = specText(d);
  if (g_verbose) trace("specification:\n%s\ndictionary:\n%s", spec.c_str(), csv.substr(0, getenv("FULLCSV") ? csv.size() : 3000).c_str());
  hostWrite(full("r_spec"), spec);
  hostWrite(full("r_dic"), csv);
  hostRemove(full("r_model"));
  if (s.get("old") == 1) hostWrite(full("r_model"), std::string(50000, 'z'));
  if (s.get("old") == 2) {
    std::string o;
    hostRead(full(world::smallSeed()), &o);
    hostWrite(full("r_model"), o);
  }
  fsStart(full("r_"));
  memCheck(true);
  stepBudget(30000000000ull);
  if (s.get("writeback")) fsWriteback((u32)s.get("writeback"), s.seed);
  if (s.get("short")) { fsShortReads((int)s.get("short"), s.seed); fsShortWrites((int)s.get("short"), s.seed); }
  ClockCfg cc;
  cc.mode = (int)(s.get("clock") & 3);
  cc.seed = s.seed;
  clockConfigure(cc);
  bool tool = s.get("tool") != 0;
  std::string why;
  auto build = [&]() -> bool {
    if (!tool) {
      Status st = buildLib(csv);
      why = statusText(st);
      return st.isOk();
    }
    ProcCfg c;
    c.argv = {"jumanpp_tool", "index", "--spec", "r_spec", "--dict-file", "r_dic", "--model-output", "r_model"};
    c.seed = s.seed;
    util::logging::CurrentLogLevel = util::logging::Level::None;
    ProcResult p = runProcess(jpp_main_tool, c);
    quiet();
    why = p.err + p.out;
    return p.code == 0;
  };
  // data with a line that cannot be understood
  if (s.get("bad")) {
    int at = (int)(s.get("bad_at") % (i64)(rows.size() + 1)), kind = (int)s.get("bad");
    std::vector<std::vector<std::string>> head(rows.begin(), rows.begin() + at), tail(rows.begin() + at, rows.end());
    Scenario plain = s;
    plain.p["no_eol"] = 0;
    std::vector<std::string> v((size_t)d.cols, "1");
    const Field* inf = nullptr;
    for (auto& f : d.fields) if (f.type == Int) inf = &f;
    if (kind == 3 && !inf) kind = 2;
    if (kind == 1 && d.cols < 2) kind = 2;
    std::string line;
    if (kind == 1) v.pop_back();
    static const char* notInt[] = {"1x", "-", "x1", "2147483648", "1 ", "99999999999999999999", "1.5"};
    if (kind == 3) v[(size_t)inf->col - 1] = notInt[s.get("bad_at") % 7];
    if (kind == 2) v[(size_t)(s.get("bad_at") % d.cols)] = s.get("bad_at") & 1 ? "a\"b" : "\"a\"b";
    for (size_t i = 0; i < v.size(); ++i) line += (i ? "," : "") + v[i];
    std::string text = (head.empty() ? "" : csvText(plain, head)) + line + "\n" + (tail.empty() ? "" : csvText(plain, tail));
    hostWrite(full("r_dic"), text);
    if (build()) violation("accepted", "line %d [%s] was accepted", at + 1, line.c_str());
    if (why.find(strf("line %d", at + 1)) == std::string::npos && why.find(strf("line #%d", at + 1)) == std::string::npos)
      violation("message", "line %d [%s] was refused with: %s", at + 1, line.c_str(), why.substr(0, 300).c_str());
    count(strf("fault.bad_line.%d", kind).c_str());
    hostWrite(full("r_dic"), csv);
  }
  // a specification with an empty separator is refused, and that ends
  if (s.get("nosep")) {
    Desc e = d;
    e.noSep = (int)s.get("nosep");
    bool any = false;
    for (auto& f : d.fields) any |= f.type == KV || (f.type == List && e.noSep == 1);
    if (any) {
      hostWrite(full("r_spec"), specText(e));
      stepBudget(3000000000ull);
      if (build()) violation("accepted", "a field with an empty separator was accepted");
      stepBudget(30000000000ull);
      count("fault.empty_separator");
      hostWrite(full("r_spec"), spec);
    }
  }
  // an earlier attempt that meets a fault or is cut short
  if (s.get("before") == 1) {
    fsFailCall(s.get("at"), (u64)s.get("sel"), false);
    bool ok = build();
    fsClearFaults();
    count(ok ? "probe.survived_fault" : "probe.failed_attempt");
  } else if (s.get("before") == 2 && !tool) {
    fsCrashAt(s.get("at"));
    bool crashed = fsRunUntilCrash([&] { build(); });
    fsCrashAt(-1);
    if (crashed) {
      count("probe.crashed_attempt");
      fsPowerLoss((int)(1 + s.get("at") % 7), s.seed ^ 7);
    }
  }
  if (!build()) violation("refused", "this dictionary cannot be built: %s", why.substr(0, 500).c_str());
  fsPowerLoss((int)s.get("powerloss"), s.seed);
  hostRemove(full("r_spec"));
  hostRemove(full("r_dic"));
  for (auto& m : d.matches) hostRemove(full(strf("r_match%d", m.id)));

  std::unique_ptr<Loaded> l(new Loaded);
  if (s.get("load_fail")) {
    fsFailCall(s.get("load_fail") - 1, s.seed & 3, false);
    Status st = l->env.loadModel("r_model");
    fsClearFaults();
    count(st.isOk() ? "probe.load_survived" : "probe.load_failed");
    if (st.isOk()) l.reset(new Loaded);
  }
  Status st = l->env.loadModel("r_model");
  if (!st) violation("not-durable", "the saved dictionary cannot be loaded: %s", statusText(st).c_str());
  st = l->env.initFeatures(nullptr);
  if (!st) violation("not-durable", "the loaded dictionary cannot be used: %s", statusText(st).c_str());
  openFields(*l, d);
  Ref ref;
  {
    HostScope hs;
    ref = reference(d, rows);
  }
  count("probe.words", ref.nodes.size());
  // template rows
  auto& us = l->env.spec().unkCreators;
  if (us.size() != d.unk.size()) violation("template", "%zu unknown word handlers loaded, %zu declared", us.size(), d.unk.size());
  for (size_t i = 0; i < us.size(); ++i) {
    Node n = readNode(*l, d, core::EntryPtr{us[i].patternPtr}, 3);
    if (n.size() != 1 || n[0] != rowValues(d, rows[(size_t)d.unk[i] - 1]))
      violation("template", "template row %d is read as %s, not %s", d.unk[i], show(std::vector<Node>{n}).c_str(), show(rowValues(d, rows[(size_t)d.unk[i] - 1])).c_str());
    count("probe.template");
  }
  // every word, and strings that are not words
  std::set<std::string> ask;
  {
    HostScope hs;
    for (auto& n : ref.nodes) ask.insert(n.first);
    Rng r(s.seed ^ 0x9);
    for (auto& row : rows) {
      const std::string& w = row[(size_t)sf->col - 1];
      ask.insert(w);
      if (ask.size() < 4000) { ask.insert(w + word(r, true)); if (w.size() > 3) ask.insert(w.substr(0, codepoints(w)[0].size())); }
      if (ask.size() < 200) for (auto& v : row) if (!v.empty() && v.size() < 300) ask.insert(v);
    }
  }
  size_t merged = 0, multi = 0;
  for (auto& a : ask) {
    auto it = ref.nodes.find(a);
    std::vector<Node> want;
    if (it != ref.nodes.end()) want = it->second;
    compareNodes(d, a, lookup(*l, d, ref, a, rows.size() + 2), want);
    if (want.size() > 1) ++multi;
    for (auto& n : want) if (n.size() > 1) ++merged;
  }
  if (merged) count("probe.merged_rows", merged);
  if (multi) count("probe.ambiguous_words", multi);
  // the words found in a text
  {
    ja::AnalyzerConfig cfg;
    ja::AnalyzerImpl an(l->env.coreHolder(), core::ScoringConfig{1, 0}, cfg);
    for (auto& t : texts) {
      Status x = an.resetForInput(t);
      if (!x) continue;
      x = an.makeNodeSeedsFromDic();
      if (!x) violation("lattice", "no nodes for [%s]: %s", t.c_str(), statusText(x).c_str());
      std::map<std::pair<int, int>, std::vector<Node>> got;
      for (auto& sd : an.latticeBldr()->seeds()) {
        Node n = readNode(*l, d, sd.entryPtr, rows.size() + 2);
        HostScope hs;
        got[{sd.codepointStart, sd.codepointEnd}].push_back(n);
      }
      auto cps = codepoints(t);
      for (size_t b = 0; b < cps.size(); ++b) {
        std::string w;
        for (size_t e = b; e < cps.size(); ++e) {
          w += cps[e];
          auto it = ref.nodes.find(w);
          auto g = got.find({(int)b, (int)e + 1});
          std::vector<Node> have = g == got.end() ? std::vector<Node>{} : g->second;
          compareNodes(d, w, have, it == ref.nodes.end() ? std::vector<Node>{} : it->second);
          if (g != got.end()) got.erase(g);
          if (!ref.prefixes.count(w)) break;
        }
      }
      if (!got.empty()) violation("lattice", "nodes outside of [%s]", t.c_str());
      count("probe.texts");
    }
  }
  l.reset();
  if (fsOpenFds() || fsLiveMappings()) violation("leak", "files left open");
  stateMark(hashBytes(csv.data(), csv.size(), hashBytes(spec.data(), spec.size())));
  hostRemove(full("r_model"));
  hostRemove(full("r_model.tmp"));
  finishRun();
}
void warm() { world::smallSeed(); }
Registrar r22({"C22", warm, gen, exec, 60});
}  // namespace
