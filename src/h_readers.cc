// C16: readers of sentences and of annotated examples against an independent parser of the same bytes.
#include "hcommon.h"
#include "world.h"
#include "anexec.h"
#include "core/analysis/unk_nodes_creator.h"
#include "core/input/partial_example_io.h"
#include "core/input/pex_stream_reader.h"
#include "core/input/stream_reader.h"
#include "core/training/full_example.h"
#include <cstring>
#include <istream>
#include <streambuf>

namespace sim { std::string scratchDir(); }
using namespace sim;
using namespace h;
using namespace jumanpp;
namespace ji = jumanpp::core::input;
namespace jt = jumanpp::core::training;

namespace {
std::string full(const std::string& f) { return scratchDir() + "/" + f; }
enum Kind { Plain, PexStream, Partial, Csv, DblCsv };
ji::TrainFieldsIndex* g_tio;
ji::PexStreamReader* g_pexProto;

void warm() {
  if (g_tio) return;
  quiet();
  an::warmExecs();
  world::small();
  auto* env = world::smallEnv();
  g_tio = new ji::TrainFieldsIndex;
  Status s = g_tio->initialize(*env->coreHolder());
  if (!s) harnessError("training fields: %s", statusText(s).c_str());
  g_pexProto = new ji::PexStreamReader;
  s = g_pexProto->initialize(*env->coreHolder());
  if (!s) harnessError("pex reader: %s", statusText(s).c_str());
}

// ------------------------------------------------------------------ the model: what the bytes mean
struct Tag { int field; i64 value; };
struct Node { i64 boundary, length; std::string surface; std::vector<Tag> tags; };
struct Word { std::string surface; std::vector<std::string> unk; std::vector<i64> ids; i64 pos, len; };
struct Example {
  bool error = false, eof = false, hasLine = false;
  std::string surface, comment;
  i64 line = 0;                       // of the error, or of the first line
  std::vector<i64> boundaries, noBreak;
  std::vector<Node> nodes;
  std::vector<Word> words;
};

// number of code points, -1 when the bytes are not UTF-8
i64 codepoints(const std::string& s, std::vector<std::string>* cps = nullptr) {
  i64 n = 0;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i];
    size_t len = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
    if (!len || i + len > s.size()) return -1;
    for (size_t k = 1; k < len; ++k) if (((unsigned char)s[i + k] >> 6) != 2) return -1;
    if (cps) cps->push_back(s.substr(i, len));
    i += len;
    ++n;
  }
  return n;
}

struct Row { bool ok = true, end = false; std::vector<std::string> f; std::string raw; i64 line = 0; };
struct Rows {
  const std::string& d;
  size_t at = 0;
  i64 line = 0;
  char sep;
  bool quotes;
  Rows(const std::string& dd, char s, bool q) : d(dd), sep(s), quotes(q) {}
  Row next() {
    Row r;
    if (at >= d.size()) { r.end = true; r.line = line; return r; }
    r.line = ++line;
    size_t start = at, i = at;
    std::string cur;
    for (;;) {
      // i is at the start of a field
      cur.clear();
      if (quotes && i < d.size() && d[i] == '"') {
        ++i;
        bool closed = false;
        while (i < d.size()) {
          if (d[i] != '"') { cur += d[i++]; continue; }
          if (i + 1 < d.size() && d[i + 1] == '"') { cur += '"'; i += 2; continue; }
          closed = true;
          ++i;
          break;
        }
        if (!closed || (i < d.size() && d[i] != sep && d[i] != '\n' && d[i] != '\r')) { r.ok = false; return r; }
      } else {
        while (i < d.size() && d[i] != sep && d[i] != '\n' && !(d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n')) {
          if (quotes && d[i] == '"') { r.ok = false; return r; }
          cur += d[i++];
        }
      }
      r.f.push_back(cur);
      if (i >= d.size()) break;
      if (d[i] == sep) { ++i; continue; }
      if (d[i] == '\r') ++i;
      if (i < d.size() && d[i] == '\n') {
        ++i;
        if (i < d.size() && d[i] == '\r') ++i;
      }
      break;
    }
    at = i;
    r.raw = d.substr(start, i - start);
    return r;
  }
};

bool addWord(Example& e, const std::vector<std::string>& f) {
  auto fields = g_tio->fields();
  if (f.size() < fields.size()) return false;
  Word w;
  w.surface = f[0];
  w.len = codepoints(f[0]);
  if (w.len < 0) return false;
  w.pos = 0;
  for (auto& x : e.words) w.pos += x.len;
  for (size_t i = 0; i < fields.size(); ++i) {
    auto it = fields[i].str2int->find(StringPiece{f[i]});
    if (it == fields[i].str2int->end()) { w.ids.push_back(-1); w.unk.push_back(f[i]); }
    else w.ids.push_back(it->second);
  }
  e.surface += f[0];
  e.words.push_back(w);
  return true;
}
Example failed(i64 line) { Example e; e.error = true; e.line = line; return e; }

std::vector<Example> refCsv(const std::string& d) {
  std::vector<Example> res;
  Rows rows(d, ',', true);
  for (;;) {
    Example e;
    for (;;) {
      Row r = rows.next();
      if (r.end) { if (!e.words.empty()) res.push_back(e); return res; }
      if (!r.ok) { res.push_back(failed(r.line)); return res; }
      if (r.f.size() == 1 && (r.f[0].empty() || r.f[0] == "EOS")) break;
      if (r.raw.compare(0, 2, "# ") == 0) { e.comment = r.raw.substr(2); while (!e.comment.empty() && (e.comment.back() == '\n' || e.comment.back() == '\r')) e.comment.pop_back(); continue; }
      if (!addWord(e, r.f)) { res.push_back(failed(r.line)); return res; }
    }
    res.push_back(e);
  }
}
std::vector<Example> refDbl(const std::string& d) {
  std::vector<Example> res;
  Rows rows(d, ' ', true);
  for (;;) {
    Row r = rows.next();
    if (r.end) return res;
    if (!r.ok) { res.push_back(failed(r.line)); return res; }
    Example e;
    for (size_t i = 0; i < r.f.size(); ++i) {
      if (r.f[i] == "#") {
        for (size_t k = i + 1; k < r.f.size(); ++k) e.comment += (k > i + 1 ? " " : "") + r.f[k];
        break;
      }
      Rows in(r.f[i], '_', true);
      Row w = in.next();
      if (w.end || !w.ok || !addWord(e, w.f)) { res.push_back(failed(r.line)); return res; }
    }
    res.push_back(e);
  }
}
// one example; `rows` stops behind it
Example refPartialOne(Rows& rows) {
  Example e;
  i64 bnd = 2;
  for (;;) {
    Row r = rows.next();
    if (r.end) { e.eof = true; return e; }
    if (!e.hasLine) { e.line = r.line; e.hasLine = true; }
    if (r.raw.size() > 2 && r.raw[0] == '#' && r.raw[1] == ' ') { e.comment = r.raw.substr(2); if (!e.comment.empty() && e.comment.back() == '\n') e.comment.pop_back(); continue; }
    if (r.f.size() == 1) {
      if (r.f[0].empty()) return e;
      std::vector<std::string> cps;
      if (codepoints(r.f[0], &cps) < 0) return failed(r.line);
      for (auto& c : cps) {
        if (c == "&") e.noBreak.push_back(bnd);
        else { e.surface += c; ++bnd; }
      }
      e.boundaries.push_back(bnd);
      continue;
    }
    if (!r.f[0].empty()) return failed(r.line);
    Node n;
    n.surface = r.f[1];
    n.length = codepoints(n.surface);
    if (n.length < 0) return failed(r.line);
    n.boundary = bnd;
    for (i64 i = 1; i < n.length; ++i) e.noBreak.push_back(bnd + i);
    bnd += n.length;
    e.surface += n.surface;
    e.boundaries.push_back(bnd);
    for (size_t i = 2; i < r.f.size(); ++i) {
      size_t c = r.f[i].find(':');
      if (c == std::string::npos) return failed(r.line);
      std::string name = r.f[i].substr(0, c), val = r.f[i].substr(c + 1);
      if (codepoints(val) < 0) return failed(r.line);
      const ji::TrainingExampleField* fld = nullptr;
      for (auto& f : g_tio->fields()) if (f.name == StringPiece{name}) fld = &f;
      if (!fld) return failed(r.line);
      auto it = fld->str2int->find(StringPiece{val});
      n.tags.push_back({fld->dicFieldIdx, it == fld->str2int->end() ? (i64)core::analysis::hashUnkString(StringPiece{val}) : (i64)it->second});
    }
    e.nodes.push_back(n);
  }
}
std::vector<Example> refPartial(const std::string& d) {
  std::vector<Example> res;
  Rows rows(d, '\t', false);
  for (;;) {
    res.push_back(refPartialOne(rows));
    if (res.back().error || res.back().eof) return res;
  }
}
std::vector<std::string> lines(const std::string& d) {
  std::vector<std::string> l;
  for (size_t p = 0; p < d.size();) {
    size_t e = d.find('\n', p);
    if (e == std::string::npos) { l.push_back(d.substr(p)); break; }
    l.push_back(d.substr(p, e - p));
    p = e + 1;
  }
  return l;
}
std::vector<Example> refPlain(const std::string& d, size_t maxIn, size_t maxCom) {
  std::vector<Example> res;
  std::string com;
  bool have = false;
  for (auto& l : lines(d)) {
    if (l.size() > 2 && l[0] == '#' && l[1] == ' ') { com = l; have = true; continue; }
    Example e;
    e.surface = l;
    e.comment = have ? com.substr(2) : "";
    e.error = l.size() > maxIn || com.size() > maxCom;
    res.push_back(e);
    com.clear();
    have = false;
  }
  if (have) { Example e; e.comment = com.substr(2); e.error = com.size() > maxCom; res.push_back(e); }
  return res;
}
std::vector<Example> refPexStream(const std::string& d) {
  std::vector<Example> res;
  std::string blk;
  auto ls = lines(d);
  for (size_t i = 0; i <= ls.size(); ++i) {
    if (i < ls.size() && !ls[i].empty()) { blk += ls[i] + "\n"; continue; }
    if (i == ls.size() && blk.empty()) break;
    Rows rows(blk, '\t', false);
    res.push_back(refPartialOne(rows));
    blk.clear();
  }
  return res;
}

// ------------------------------------------------------------------ arrival of the bytes
struct ChunkBuf : std::streambuf {
  std::string data;
  size_t at = 0;
  int mode;
  Rng rng;
  char* cur = nullptr;
  ChunkBuf(const std::string& d, int m, u64 seed) : data(d), mode(m), rng(seed) {}
  ~ChunkBuf() { delete[] cur; }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (at >= data.size()) return traits_type::eof();
    size_t n = mode == 0 ? data.size() : mode == 1 ? 1 : mode == 2 ? (size_t)rng.range(1, 5) : (size_t)rng.range(1, 200);
    if (n > data.size() - at) n = data.size() - at;
    delete[] cur;                      // bytes handed out earlier are gone
    cur = new char[n];
    memcpy(cur, data.data() + at, n);
    at += n;
    setg(cur, cur, cur + n);
    return traits_type::to_int_type(*cur);
  }
};

std::string sp(StringPiece p) { return std::string(p.char_begin(), p.char_end()); }
std::string show(const std::string& s) {
  std::string r;
  for (unsigned char c : s.substr(0, 120)) r += c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : std::string(1, (char)c);
  return r;
}
const char* kNames[] = {"reader.plain_stream", "reader.partial_stream", "reader.partial_corpus", "reader.csv_corpus", "reader.morph_corpus"};

void sameBasic(const char* k, size_t i, const Example& e, bool ok, const std::string& msg, const std::string& surf, const std::string& com) {
  if (e.error && ok) violation("accepted", "%s: example %zu is malformed but it was read as [%s]", k, i, show(surf).c_str());
  if (!e.error && !ok) violation("rejected", "%s: example %zu [%s] was rejected: %s", k, i, show(e.surface).c_str(), msg.c_str());
  event("example", i, ok);
  if (e.error) { count("probe.malformed_reported"); return; }
  eventBytes("surface", surf.data(), surf.size());
  eventBytes("comment", com.data(), com.size());
  if (surf != e.surface) violation("text", "%s: example %zu is [%s] but was read as [%s]", k, i, show(e.surface).c_str(), show(surf).c_str());
  if (com != e.comment) violation("comment", "%s: the comment of example %zu is [%s] but was read as [%s]", k, i, show(e.comment).c_str(), show(com).c_str());
  if (!e.comment.empty()) count("probe.comment");
  count("probe.example");
}

// ------------------------------------------------------------------ one document
struct Doc { u64 id = 0; std::string data; int chunk = 0; i64 stop = -1; u64 seed = 1; bool file = false; };

struct PlainAccess : ji::PlainStreamReader {};

void readStream(ji::StreamReader* rd, const std::vector<Example>& ref, const Doc& d, bool pex, u64* h) {
  ChunkBuf buf(d.data, d.chunk, d.seed);
  std::istream is(&buf);
  size_t i = 0;
  const char* k = kNames[pex ? PexStream : Plain];
  while (is.peek() != std::char_traits<char>::eof()) {
    if (d.stop >= 0 && (i64)i >= d.stop) { count("probe.stopped_early"); return; }
    Status s = rd->readExample(&is);
    if (i >= ref.size()) violation("extra", "%s: there are %zu examples but one more was read", k, ref.size());
    std::string surf, com = sp(rd->comment());
    if (pex) surf = sp(static_cast<ji::PexStreamReader*>(rd)->surface());
    else {
      // the text is seen by giving it to an analyzer
      surf = ref[i].surface;
      if (s) {
        auto* an = an::g_exec[0][0]->analyzerPtr();
        Status a = rd->analyzeWith(an);
        (void)a;                       // some texts cannot be analysed
        surf = sp(an->impl()->input().surface());
      }
    }
    sameBasic(k, i, ref[i], (bool)s, s ? "" : statusText(s), surf, com);
    *h = hashBytes(surf.data(), surf.size(), *h);
    ++i;
  }
  if (i != ref.size()) violation("missing", "%s: %zu examples were read of %zu", k, i, ref.size());
}

std::string ints(const std::vector<i64>& v) { std::string r; for (auto x : v) r += strf("%lld ", (long long)x); return r; }

void readPartial(ji::PartialExampleReader* rd, const std::vector<Example>& ref, const Doc& d, std::vector<std::unique_ptr<ji::PartialExample>>* pool, u64* h) {
  char* mem = nullptr;
  std::string name = "<memory>";
  if (d.file && !d.data.empty()) {   // an empty file cannot be mapped
    name = full(strf("r_partial%llu", (unsigned long long)d.id));
    hostWrite(name, d.data);
    Status s = rd->openFile(name);
    if (!s) violation("rejected", "the corpus cannot be opened: %s", statusText(s).c_str());
  } else {
    mem = new char[d.data.size() + 1];
    memcpy(mem, d.data.data(), d.data.size());
    Status s = rd->setData(StringPiece{mem, mem + d.data.size()});
    if (!s) violation("rejected", "the corpus cannot be set: %s", statusText(s).c_str());
  }
  struct Seen { ji::PartialExample* p; size_t i; bool ok; std::string msg; };
  std::vector<Seen> seen;
  for (size_t i = 0;; ++i) {
    if (d.stop >= 0 && (i64)i >= d.stop) { count("probe.stopped_early"); break; }
    if (i >= ref.size()) violation("extra", "partial corpus: there are %zu examples but one more was read", ref.size());
    if (pool->size() <= i % 4) pool->emplace_back(new ji::PartialExample);
    auto* ex = (*pool)[i % 4].get();
    bool eof = (d.seed >> i) & 1;
    Status s = rd->readExample(ex, &eof);
    if (s && eof != ref[i].eof) violation(eof ? "missing" : "extra", "partial corpus: example %zu %s the last one", i, eof ? "is reported as" : "is not reported as");
    seen.push_back({ex, i, (bool)s, s ? "" : statusText(s)});
    bool stop = !s || eof;
    if (seen.size() == pool->size() || stop || (d.seed >> 3 & 3) == 0) {
      for (auto& o : seen) {
        auto& e = ref[o.i];
        const char* k = kNames[Partial];
        sameBasic(k, o.i, e, o.ok, o.msg, sp(o.p->surface()), sp(o.p->exampleInfo().comment));
        if (e.error) {
          if (o.msg.find(strf(":%lld", (long long)e.line)) == std::string::npos) violation("line", "%s: the error is in line %lld but the message is %s", k, (long long)e.line, o.msg.c_str());
          continue;
        }
        if (e.hasLine && o.p->line() != e.line) violation("line", "%s: example %zu starts in line %lld, not %lld", k, o.i, (long long)e.line, (long long)o.p->line());
        if (sp(o.p->exampleInfo().file) != name) violation("file", "%s: example %zu is from file [%s]", k, o.i, show(sp(o.p->exampleInfo().file)).c_str());
        std::vector<i64> b, nb, eb = e.boundaries;
        for (auto x : o.p->boundaries()) b.push_back(x);
        for (auto x : o.p->forbidBreak()) nb.push_back(x);
        // the end of the sentence may or may not be listed
        if (!eb.empty() && b.size() < eb.size()) eb.pop_back();
        if (b != eb) violation("annotation", "%s: the boundaries of example %zu are %s, not %s", k, o.i, ints(eb).c_str(), ints(b).c_str());
        if (nb != e.noBreak) violation("annotation", "%s: the unbreakable positions of example %zu are %s, not %s", k, o.i, ints(e.noBreak).c_str(), ints(nb).c_str());
        auto nodes = o.p->nodes();
        if (nodes.size() != e.nodes.size()) violation("annotation", "%s: example %zu has %zu words, not %zu", k, o.i, e.nodes.size(), (size_t)nodes.size());
        for (size_t n = 0; n < e.nodes.size(); ++n) {
          auto& x = nodes[n];
          auto& y = e.nodes[n];
          bool eq = x.boundary == y.boundary && x.length == y.length && x.surface == y.surface && x.tags.size() == y.tags.size();
          for (size_t t = 0; eq && t < y.tags.size(); ++t) eq = x.tags[t].field == y.tags[t].field && x.tags[t].value == (i32)y.tags[t].value;
          if (!eq) violation("annotation", "%s: word %zu of example %zu is [%s] at %lld with %zu tags, not [%s] at %d with %zu tags", k, n, o.i, show(y.surface).c_str(), (long long)y.boundary, y.tags.size(), show(x.surface).c_str(), x.boundary, x.tags.size());
          count("probe.annotation");
        }
        *h = hashBytes(&b[0], b.size() * 8, *h);
      }
      seen.clear();
    }
    if (stop) break;
  }
  delete[] mem;
}

void readFull(jt::FullExampleReader* rd, bool dbl, bool init, const std::vector<Example>& ref, const Doc& d, int batch, std::vector<std::unique_ptr<jt::FullyAnnotatedExample>>* pool, u64* h) {
  const char* k = kNames[dbl ? DblCsv : Csv];
  char* mem = new char[d.data.size() + 1];
  memcpy(mem, d.data.data(), d.data.size());
  StringPiece data{mem, mem + d.data.size()};
  if (init) {
    Status s = dbl ? rd->initDoubleCsv(data) : rd->initCsv(data);
    if (!s) violation("rejected", "%s: cannot be set: %s", k, statusText(s).c_str());
  } else rd->resetInput(data);
  rd->setFilename("some-file");
  size_t i = 0;
  bool done = false;
  while (!done) {
    // a batch of examples stays in use while the following ones are read
    size_t first = i;
    while (i - first < (size_t)batch) {
      if (d.stop >= 0 && (i64)i >= d.stop) { count("probe.stopped_early"); done = true; break; }
      if (pool->size() <= i - first) pool->emplace_back(new jt::FullyAnnotatedExample);
      auto* ex = (*pool)[i - first].get();
      ex->reset();
      i64 before = rd->lineNumber();
      Status s = rd->readFullExample(ex);
      ex->setInfo(rd->filename(), before);
      if (!s) {
        if (i >= ref.size() || !ref[i].error) violation("rejected", "%s: example %zu was rejected: %s", k, i, statusText(s).c_str());
        if (rd->lineNumber() != ref[i].line) violation("line", "%s: the error is in line %lld, not in %lld", k, (long long)ref[i].line, (long long)rd->lineNumber());
        count("probe.malformed_reported");
        done = true;
        break;
      }
      if (rd->finished()) {
        if (i < ref.size()) violation("missing", "%s: the reader stops after %zu examples but there is [%s]", k, i, ref[i].error ? "a malformed one" : show(ref[i].surface).c_str());
        done = true;
        break;
      }
      if (i >= ref.size()) violation("extra", "%s: there are %zu examples but one more was read: [%s]", k, ref.size(), show(sp(ex->surface())).c_str());
      if (ref[i].error) violation("accepted", "%s: example %zu (line %lld) is malformed but was read as [%s]", k, i, (long long)ref[i].line, show(sp(ex->surface())).c_str());
      ++i;
    }
    for (size_t j = first; j < i; ++j) {
      auto* ex = (*pool)[j - first].get();
      auto& e = ref[j];
      std::string com = sp(ex->exampleInfo().comment);
      if (!dbl && com == "# " + e.comment) com = e.comment;   // the mark belongs to the comment in this format
      sameBasic(k, j, e, true, "", sp(ex->surface()), com);
      if (ex->numNodes() != (i32)e.words.size()) violation("annotation", "%s: example %zu has %zu words, not %d", k, j, e.words.size(), ex->numNodes());
      for (size_t w = 0; w < e.words.size(); ++w) {
        auto n = ex->nodeAt((i32)w);
        auto& y = e.words[w];
        bool eq = n.position == y.pos && n.length == y.len && n.data.size() == y.ids.size();
        for (size_t x = 0; eq && x < y.ids.size(); ++x) eq = y.ids[x] < 0 ? n.data[x] < 0 : n.data[x] == y.ids[x];
        if (!eq) violation("annotation", "%s: word %zu of example %zu ([%s] at %lld) was read differently", k, w, j, show(y.surface).c_str(), (long long)y.pos);
        if (sp(n.surface) != y.surface) violation("annotation", "%s: the text of word %zu of example %zu is [%s], not [%s]", k, w, j, show(sp(n.surface)).c_str(), show(y.surface).c_str());
        size_t u = 0;
        for (size_t x = 0; x < y.ids.size(); ++x) {
          if (y.ids[x] >= 0) continue;
          auto& want = y.unk[u++];
          i32 at = ~n.data[x];
          if (at >= (i32)n.strings.size() || sp(n.strings[at]) != want) violation("annotation", "%s: a new string in word %zu of example %zu is [%s], not [%s]", k, w, j, at < (i32)n.strings.size() ? show(sp(n.strings[at])).c_str() : "?", show(want).c_str());
        }
        if (u) count("probe.new_string");
        *h = hashBytes(&n.position, sizeof n.position, *h);
      }
    }
  }
  delete[] mem;
}

// ------------------------------------------------------------------ scenarios
std::string commentText(Rng& r) {
  return r.pick<std::string>({"e1", "S-ID:7 KNP", "# x", "a,b", "も", "EOS", "x\ty"}) + strf("%d", (int)r.below(50));
}
std::string bad(Rng& r) { return r.pick<std::string>({"\xff", "\xe3\x81", "a\xc0\xaf" "b\xfe", "\x80\x80"}); }
std::string quoted(const std::string& s) {
  std::string q = "\"";
  for (char c : s) { if (c == '"') q += '"'; q += c; }
  return q + "\"";
}
std::string strangeWord(Rng& r) {
  static const char* p[] = {"も", "\"", ",", "_", " ", "#", "a", "のの", "\"\"", "カ"};
  std::string s;
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) s += p[r.below(10)];
  if (r.chance(1, 40)) for (int i = 0; i < 3000; ++i) s += r.chance(1, 300) ? "\"" : "カ";
  return s;
}
std::string piece(Rng& r, int kind, bool crlf) {
  std::string nl = crlf ? "\r\n" : "\n";
  std::string com = r.chance(1, 4) && !(crlf && kind == Csv) ? commentText(r) : "";   // a comment line would keep its CR
  switch (kind) {
    case Plain:
      if (r.chance(1, 12)) return "\n";
      if (r.chance(1, 14)) { std::string l = "#" + std::string(r.chance(1, 2) ? " " : "") ; return l + "\n"; }
      if (r.chance(1, 14)) return std::string((size_t)r.pick<i64>({39, 40, 41, 42, 500}), 'a') + "\n";
      if (r.chance(1, 14)) return "# " + std::string((size_t)r.pick<i64>({17, 18, 19, 100}), 'c') + "\n" + (r.chance(1, 2) ? "もの\n" : "");
      if (r.chance(1, 14)) return "# x\n# y" + strf("%d", (int)r.below(9)) + "\nの\n";
      return (com.empty() ? "" : "# " + com + "\n") + world::smallSentence(r, 12) + "\n";
    case PexStream:
    case Partial: {
      if (r.chance(1, 14)) return "\n";
      if (r.chance(1, 10)) {
        std::string m = com.empty() ? "" : "# " + com + "\n";
        if (r.chance(1, 2)) m += r.pick(world::small().words) + "\n";
        switch (r.below(6)) {
          case 0: m += "x\tも\tb:N\n"; break;
          case 1: m += "\tも\tN\n"; break;
          case 2: m += "\tも\tzz:N\n"; break;
          case 3: m += bad(r) + "\n"; break;
          case 4: m += "\t" + bad(r) + "\n"; break;
          case 5: m += "\tも\tb:" + bad(r) + "\n"; break;
        }
        if (r.chance(1, 2)) m += "\tの\tb:V\n";
        return m + "\n";
      }
      std::string t = world::smallPartial(r, com);
      if (r.chance(1, 6)) t.insert(t.size() - 1, "\t" + r.pick(world::small().words) + "\tb:新\ta:" + r.pick(world::small().words) + "\n");
      if (r.chance(1, 8)) t.insert(0, "# first\n");
      if (r.chance(1, 8)) t.insert(t.size() - 1, "#\n");
      if (crlf && com.empty() && t.find('#') == std::string::npos) {
        std::string u;
        for (char c : t) { if (c == '\n') u += '\r'; u += c; }
        t = u;
      }
      return t;
    }
    case Csv: {
      std::string t;
      if (!com.empty()) t += "# " + com + "\n";
      int n = (int)r.range(r.chance(1, 15) ? 0 : 1, 4);
      for (int i = 0; i < n; ++i) {
        std::string a = r.chance(1, 5) ? strangeWord(r) : r.pick(world::small().words);
        std::string b = r.chance(1, 8) ? strangeWord(r) : r.pick(world::small().tags);
        bool qa = a.find_first_of("\",#") != std::string::npos || r.chance(1, 6);
        bool qb = b.find_first_of("\",") != std::string::npos || r.chance(1, 8);
        t += (qa ? quoted(a) : a) + "," + (qb ? quoted(b) : b);
        if (r.chance(1, 6)) t += r.chance(1, 2) ? ",rest" : ",";
        t += nl;
      }
      if (r.chance(1, 16)) switch (r.below(5)) {
        case 0: t += "alone" + nl; break;
        case 1: t += "\"x\"y,N" + nl; break;
        case 2: t += "も,\"N" + nl; break;
        case 3: t += bad(r) + ",N" + nl; break;
        case 4: t += "も\",N" + nl; break;
      }
      return t + (r.chance(1, 2) ? "EOS" : "") + nl;
    }
    default: {
      std::string t;
      int n = (int)r.range(1, 5);
      for (int i = 0; i < n; ++i) {
        std::string a = r.pick(world::small().words), b = r.pick(world::small().tags);
        if (i) t += " ";
        if (r.chance(1, 6)) {
          std::string w = strangeWord(r);
          bool inner = w.find_first_of("\"_") != std::string::npos || r.chance(1, 4);
          std::string tok = (inner ? quoted(w) : w) + "_" + b;
          t += tok.find_first_of("\" ") != std::string::npos || tok == "#" ? quoted(tok) : tok;
        } else t += a + "_" + b + (r.chance(1, 8) ? "_rest" : "");
      }
      if (r.chance(1, 18)) switch (r.below(8)) {
        case 0: t += " alone"; break;
        case 1: t += " \"x\"y_N"; break;
        case 2: t += " \"も_N"; break;
        case 3: t += " " + bad(r) + "_N"; break;
        case 4: t += " も\"_N"; break;
        case 5: t += "  も_N"; break;
        case 6: t = " " + t; break;
        case 7: t = (r.chance(1, 2) ? "alone " : bad(r) + "_N ") + t; break;
      }
      if (!com.empty()) t += " # " + com;
      return t + nl;
    }
  }
}
Scenario gen(u64 seed) {
  Rng r(seed ^ 0x16);
  Scenario s;
  s.p["kind"] = (i64)r.below(5);
  int docs = (int)r.range(1, 3);
  s.p["batch"] = r.range(1, 5);
  for (int d = 0; d < docs; ++d) {
    s.ops.push_back(Op("doc", {(i64)r.below(4), r.chance(1, 4) ? (i64)r.below(5) : -1, (i64)r.below(1 << 20), (i64)r.chance(1, 3), (i64)r.chance(1, 2), (i64)r.chance(1, 5)}));
    bool crlf = s.get("kind") != PexStream && r.chance(1, 5);   // streams have lines of their own
    int n = (int)r.range(0, 7);
    for (int i = 0; i < n; ++i) s.ops.push_back(Op("piece", {}, {piece(r, (int)s.get("kind"), crlf)}));
  }
  genHeap(s, r);
  return s;
}
void exec(const Scenario& s) {
  useHeap(s);
  fsStart(full("r_"));
  memCheck(true);
  stepBudget(2000000000ull);
  int kind = (int)(s.get("kind") % 5);
  count(kNames[kind]);
  std::vector<Doc> docs;
  std::vector<char> inits;
  for (auto& o : s.ops) {
    if (o.kind == "doc" || docs.empty()) {
      Doc d;
      if (o.kind == "doc") { d.chunk = (int)(o.arg(0) & 3); d.stop = o.arg(1, -1); d.seed = (u64)o.arg(2); d.file = o.arg(3) != 0; inits.push_back((char)o.arg(4)); }
      else inits.push_back(1);
      d.id = docs.size();
      docs.push_back(d);
      if (o.kind == "doc") {
        if (docs.size() > 1 && o.arg(5)) docs[docs.size() - 2].data += "";   // keeps ids stable
        continue;
      }
    }
    if (!o.s.empty()) docs.back().data += o.s[0];
  }
  // the end of the last example may be missing
  for (auto& d : docs) {
    if (d.seed % 3 == 0 && !d.data.empty() && d.data.back() == '\n' && (kind == Csv || kind == DblCsv || kind == Plain || kind == Partial || kind == PexStream)) {
      std::string t = d.data;
      while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
      size_t ln = t.rfind('\n');
      std::string last = ln == std::string::npos ? t : t.substr(ln + 1);
      if (kind == Csv && last == "EOS") { t = ln == std::string::npos ? "" : t.substr(0, ln); while (!t.empty() && t.back() == '\r') t.pop_back(); ln = t.rfind('\n'); last = ln == std::string::npos ? t : t.substr(ln + 1); }
      if (last.compare(0, 1, "#") != 0) { d.data = t; count("probe.no_final_newline"); }
    }
  }
  u64 h = 0x16;
  if (kind == Plain) {
    ji::PlainStreamReader rd;
    rd.setMaxSizes(40, 20);
    for (auto& d : docs) readStream(&rd, refPlain(d.data, 40, 20), d, false, &h);
  } else if (kind == PexStream) {
    ji::PexStreamReader rd;
    Status st = rd.initialize(*g_pexProto);
    if (!st) violation("rejected", "the reader cannot be initialised: %s", statusText(st).c_str());
    for (auto& d : docs) readStream(&rd, refPexStream(d.data), d, true, &h);
  } else if (kind == Partial) {
    ji::PartialExampleReader rd;
    Status st = rd.initialize(g_tio);
    if (!st) violation("rejected", "the reader cannot be initialised: %s", statusText(st).c_str());
    std::vector<std::unique_ptr<ji::PartialExample>> pool;
    for (auto& d : docs) readPartial(&rd, refPartial(d.data), d, &pool, &h);
  } else {
    jt::FullExampleReader rd;
    rd.setTrainingIo(g_tio);
    std::vector<std::unique_ptr<jt::FullyAnnotatedExample>> pool;
    for (size_t i = 0; i < docs.size(); ++i)
      readFull(&rd, kind == DblCsv, i == 0 || inits[i], kind == DblCsv ? refDbl(docs[i].data) : refCsv(docs[i].data), docs[i], (int)s.get("batch", 1), &pool, &h);
  }
  if (docs.size() > 1) count("probe.reader_reused");
  stateMark(h);
  memCheck(false);
  for (auto& d : docs) hostRemove(full(strf("r_partial%llu", (unsigned long long)d.id)));
  finishRun();
}
Registrar r16({"C16", warm, gen, exec, 60});
}  // namespace
