// C13 the jumanpp command over every arrival of its input, C14 several and unreadable inputs, C15 failing output.
#include "hcommon.h"
#include "world.h"
#include "anexec.h"
#include <errno.h>
#include <sys/stat.h>
#include <unistd.h>

int jpp_main_jumanpp(int argc, const char** argv);
namespace sim { std::string scratchDir(); void fsResetCounts(); }
using namespace sim;
using namespace h;
using namespace jumanpp;
using namespace an;

namespace {
std::string full(const std::string& f) { return scratchDir() + "/" + f; }

// ------------------------------------------------------------------ what is given to the command
enum FileMode { Readable, Missing, Denied, Directory, ReadError, NoDescriptors };
struct Input {
  int mode = Readable;
  i64 failAt = -1;
  std::string data;
};
struct Example { bool reject = false; std::string text, comment; };
struct Job {
  bool isStdin = true, pex = false;
  std::vector<Input> in;
};

Job makeJob(const Scenario& s) {
  Job j;
  j.pex = s.get("pex");
  bool stream = s.get("stdin", 1);
  j.isStdin = stream;
  if (stream) j.in.emplace_back();
  for (auto& o : s.ops) {
    if (o.kind == "file") {
      if (stream) continue;
      j.in.emplace_back();
      j.in.back().mode = (int)o.arg(0);
      j.in.back().failAt = o.arg(1, -1);
    } else if (o.kind == "line") {
      if (j.in.empty()) j.in.emplace_back();
      auto& d = j.in.back().data;
      if (o.s.size() > 1 && !o.s[1].empty()) d += "# " + o.s[1] + "\n";
      d += o.s.empty() ? std::string() : o.s[0];
      bool last = o.arg(0) == 1;   // no newline at the end of the file
      if (last && (o.s.empty() || o.s[0].empty() || (o.s[0].compare(0, 2, "# ") == 0 && o.s[0].size() > 2))) last = false;
      d += last ? "" : "\n";
      if (last) d += std::string(1, '\0');  // marker: removed below when nothing follows
    } else if (o.kind == "pex") {
      if (j.in.empty()) j.in.emplace_back();
      auto& d = j.in.back().data;
      d += o.s[0];
      if (!d.empty() && d.back() != '\n') d += "\n";
      d += o.arg(0) == 1 ? std::string(1, '\0') : "\n";
    }
  }
  if (j.in.empty()) j.in.emplace_back();
  for (auto& i : j.in) {
    auto& d = i.data;
    if (!d.empty() && d.back() == 0) d.pop_back();
    for (auto& c : d) if (c == 0) c = '\n';
  }
  if (stream) {
    j.in[0].mode = s.get("stdin_fail", -1) >= 0 ? ReadError : Readable;
    j.in[0].failAt = s.get("stdin_fail", -1);
  }
  for (auto& i : j.in)
    if (i.mode == ReadError) { if (i.failAt < 0) i.failAt = 0; i.failAt %= (i64)i.data.size() + 1; }
  return j;
}

// the sentences which are completely readable
std::vector<Example> examples(const Job& j, const Input& in) {
  std::vector<Example> res;
  if (in.mode != Readable && in.mode != ReadError) return res;
  std::string d = in.mode == ReadError ? in.data.substr(0, (size_t)in.failAt) : in.data;
  std::vector<std::string> lines;
  size_t p = 0;
  bool torn = false;
  while (p < d.size()) {
    size_t e = d.find('\n', p);
    if (e == std::string::npos) {
      if (in.mode == ReadError) torn = true;
      else lines.push_back(d.substr(p));
      break;
    }
    lines.push_back(d.substr(p, e - p));
    p = e + 1;
  }
  if (j.pex) {
    std::string blk;
    for (auto& l : lines) {
      if (l.empty()) { Example e; e.text = blk; res.push_back(e); blk.clear(); continue; }
      blk += l + "\n";
    }
    if (!blk.empty() && in.mode != ReadError) { Example e; e.text = blk; res.push_back(e); }
    return res;
  }
  std::string comment;
  bool have = false;
  for (auto& l : lines) {
    if (l.size() > 2 && l[0] == '#' && l[1] == ' ') { comment = l; have = true; continue; }
    Example e;
    e.text = l;
    e.comment = have ? comment.substr(2) : "";
    e.reject = l.size() > 65535 || comment.size() > 1024;
    res.push_back(e);
    comment.clear();
    have = false;
  }
  // comments without a sentence: the command treats the end of the file as an empty sentence
  if (have && in.mode != ReadError) { Example e; e.comment = comment.substr(2); e.reject = comment.size() > 1024; res.push_back(e); }
  (void)torn;
  return res;
}

bool textFormat(i64 f) {
  switch ((jd::OutputType)f) {
    case jd::OutputType::Juman: case jd::OutputType::Morph: case jd::OutputType::FullMorph: case jd::OutputType::Lattice: return true;
    default: return false;
  }
}
// result of one sentence by a new analyzer
std::string answer(Exec& e, const Job& j, const Example& x, bool* failed) {
  std::string res;
  bool ok = false;
  if (!x.reject) {
    Status f = e.fresh();
    if (!f) harnessError("the reference analyzer cannot be created: %s", statusText(f).c_str());
    Result r = j.pex ? runPex(e, x.text) : runRaw(e, x.text, x.comment);
    ok = r.ok;
    if (ok) res = r.out;
  }
  if (!ok) {
    res = e.emptyResult().str();
    *failed = true;
    count("probe.sentence_rejected");
  } else count("probe.sentence_analysed");
  return res;
}

std::vector<std::string> makeArgs(const Scenario& s, const Job& j, const std::string& out) {
  std::vector<std::string> a{"jumanpp"};
  a.push_back("--model=" + (s.get("rnn") ? world::jumandicRnnModel() : world::jumandicModel()));
  int spell = (int)s.get("spell");
  auto fmt = [&](const char* flag, const char* name) { a.push_back(spell & 1 ? flag : std::string("--format=") + name); };
  switch ((jd::OutputType)s.get("format")) {
    case jd::OutputType::Juman: if (spell & 2) fmt("--juman", "juman"); break;
    case jd::OutputType::Morph: fmt("-M", "morph"); break;
    case jd::OutputType::FullMorph: fmt("-F", "full-morph"); break;
    case jd::OutputType::DicSubset: fmt("--dic-subset", "dic-subset"); break;
    case jd::OutputType::Lattice:
      if (s.get("beam_out") == -1) { a.push_back("--format=lattice"); break; }
      a.push_back(spell & 1 ? "-s" : "--lattice"); a.push_back(strf("%d", (int)s.get("beam_out"))); break;
    case jd::OutputType::Segmentation: fmt("--segment", "segment"); if (s.get("sep")) a.push_back("--segment-separator=|"); break;
    case jd::OutputType::JumanPb: a.push_back("--format=juman-pb"); break;
    case jd::OutputType::LatticePb: a.push_back("--format=lattice-pb"); break;
    case jd::OutputType::FullLatticeDump: a.push_back("--format=lattice-dump"); break;
    case jd::OutputType::GlobalBeamPos: a.push_back("--global-beam-pos"); break;
    default: break;
  }
  if (s.get("auto_step")) a.push_back(strf("--auto-nbest=%d:%d:%d", (int)s.get("beam"), (int)s.get("auto_step"), (int)s.get("gbeam")));
  else {
    a.push_back(strf("--beam=%d", (int)s.get("beam")));
    a.push_back(strf("--global-beam=%d", (int)s.get("gbeam")));
  }
  a.push_back(strf("--right-check=%d", (int)s.get("rcheck")));
  a.push_back(strf("--right-beam=%d", (int)s.get("rbeam")));
  if (j.pex) a.push_back("--partial-input");
  if (!out.empty()) { a.push_back(spell & 1 ? "-o" : "--output"); a.push_back(out); }
  if (!j.isStdin) for (size_t i = 0; i < j.in.size(); ++i) a.push_back(strf("r_in%d", (int)i));
  return a;
}
void genCmdConfig(Scenario& s, Rng& r) {
  genConfig(s, r);
  // as the command line sets them
  if ((jd::OutputType)s.get("format") != jd::OutputType::Lattice) s.p["beam_out"] = 1;
  s.p["spell"] = r.below(4);
}
// the configuration the command line stands for
void refConfig(Scenario c, Exec& e) {
  if ((jd::OutputType)c.get("format") == jd::OutputType::Lattice) {
    if (c.get("beam_out") == -1) c.p["beam_out"] = 1;   // --format=lattice alone
    if (!c.get("auto_step") && c.get("beam") < c.get("beam_out")) c.p["beam"] = c.get("beam_out");
  }
  e.configure(c);
}

void genLines(Scenario& s, Rng& r, int n, bool valid, bool longLines) {
  for (int i = 0; i < n; ++i) {
    if (s.get("pex")) {
      std::string t = genPex(r, 3);
      if (valid) while (t.find("nofield") != std::string::npos) t = genPex(r, 3);
      s.ops.push_back(Op("pex", {i + 1 == n ? (i64)r.below(2) : 0}, {t}));
      if (r.chance(1, 12)) s.ops.push_back(Op("pex", {0}, {""}));
      continue;
    }
    std::string t;
    while (true) {
      t = genText(r, (int)r.pick<i64>({2, 4, 8}));
      if (t.find('\n') != std::string::npos || t.find('\0') != std::string::npos) continue;
      if (valid) {
        std::vector<jumanpp::chars::InputCodepoint> cp;
        if (!jumanpp::chars::preprocessRawData(t, &cp)) continue;
      }
      break;
    }
    if (r.chance(1, 20)) t += "\r";
    std::string c;
    if (r.chance(1, 4)) c = r.chance(1, 3) ? "S-ID:" + strf("%d", i) : r.pick(*g_dicSurf);
    if (longLines && r.chance(1, 4)) {
      std::string b = t.empty() ? "京" : t;
      size_t want = r.pick<size_t>({4095, 4096, 4097, 5000, 65535, 65536, 70000});
      if (r.chance(1, 3)) { c.assign(r.pick<size_t>({1021, 1022, 1023, 1024, 3000}), 'c'); }
      else if (want > 4096) { t.clear(); while (t.size() < want) t += b; if (want == 65535 || want == 65536) t.resize(want); }
      else c.assign(1000, 'd');
    }
    s.ops.push_back(Op("line", {i + 1 == n ? (i64)r.below(2) : 0}, {t, c}));
  }
}

void putFiles(const Job& j) {
  hostRemove(full("r_out"));
  if (j.isStdin) return;
  for (size_t i = 0; i < j.in.size(); ++i) {
    std::string p = full(strf("r_in%d", (int)i));
    hostRemove(p);
    rmdir(p.c_str());
    if (j.in[i].mode == Directory) hostMkdir(p);
    else if (j.in[i].mode != Missing) hostWrite(p, j.in[i].data);
    if (j.in[i].mode == ReadError) fsReadFailAt(p, (u64)j.in[i].failAt, EIO);
  }
}
void cleanFiles(const Job& j) {
  hostRemove(full("r_out"));
  if (j.isStdin) return;
  for (size_t i = 0; i < j.in.size(); ++i) {
    std::string p = full(strf("r_in%d", (int)i));
    hostRemove(p);
    rmdir(p.c_str());
  }
}
// opening the i-th input file is the i-th fopen
void openFaults(const Job& j) {
  for (size_t i = 0; i < j.in.size(); ++i) {
    int e = j.in[i].mode == Denied ? EACCES : j.in[i].mode == NoDescriptors ? EMFILE : 0;
    if (!e) continue;
    fsPathFault("open", full(strf("r_in%d", (int)i)), e);
  }
}

[[noreturn]] void wrongOutput(const char* cls, const std::string& got, const std::string& want, const char* what) {
  size_t d = 0;
  while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
  size_t from = d > 30 ? d - 30 : 0;
  while (from && ((unsigned char)want[std::min(from, want.size() - 1)] & 0xc0) == 0x80) --from;
  violation(cls, "%s: output of %zu bytes differs from the %zu expected ones at byte %zu: [%s] instead of [%s]", what, got.size(), want.size(), d,
            shorten(got.size() > from ? got.substr(from) : "").c_str(), shorten(want.size() > from ? want.substr(from) : "").c_str());
}

struct Expect { std::string out; bool rejected = false; std::vector<size_t> per; };
Expect expected(const Scenario& s, const Job& j) {
  Expect x;
  Exec& e = *g_exec[s.get("rnn")][1];
  refConfig(s, e);
  Status st = e.fresh();
  if (!st) {
    event("config-rejected");
    count("probe.config_rejected");
    finishRun();
  }
  if (textFormat(s.get("format")) && e.emptyResult().size() == 0) violation("empty-result", "nothing stands for a sentence which cannot be analysed");
  for (auto& i : j.in) {
    for (auto& ex : examples(j, i)) { x.out += answer(e, j, ex, &x.rejected); x.per.push_back(x.out.size()); }
  }
  return x;
}

ProcCfg procCfg(const Scenario& s, const Job& j, const std::string& outFile) {
  ProcCfg c;
  c.argv = makeArgs(s, j, outFile);
  c.seed = s.seed;
  if (j.isStdin) {
    c.stdinData = j.in[0].data;
    c.stdinChunk = (int)s.get("chunk");
    c.stdinFailAt = j.in[0].mode == ReadError ? j.in[0].failAt : -1;
  }
  return c;
}
void arrival(const Scenario& s, const Job& j) {
  if (!j.isStdin) {
    fsShortReads((int)s.get("chunk"), s.seed);
    fsEintr((u32)s.get("eintr"), s.seed);
  }
  count(j.isStdin ? "input.stdin" : "input.files");
  if (j.pex) count("input.partial_annotation");
  count(fmtName(s.get("format")));
}
void logCommand(const ProcCfg& c, const ProcResult& r) {
  if (!g_verbose) return;
  std::string a;
  for (auto& x : c.argv) a += " " + x;
  trace("command:%s", a.c_str());
  trace("exit status %d, %zu bytes of output, messages: %s", r.code, r.out.size(), shorten(r.err).c_str());
}
const u64 kSteps = 4000000000ull;

// ------------------------------------------------------------------ C13
Scenario genC13(u64 seed) {
  Rng r(seed ^ 0x13);
  Scenario s;
  genCmdConfig(s, r);
  genHeap(s, r);
  s.p["stdin"] = r.chance(1, 2);
  s.p["pex"] = r.chance(1, 4);
  s.p["chunk"] = r.range(0, 4);
  s.p["eintr"] = r.chance(1, 3) ? r.pick<i64>({10000, 100000, 400000}) : 0;
  if (!s.get("stdin")) s.ops.push_back(Op("file", {0}));
  genLines(s, r, (int)r.range(0, 6), false, r.chance(1, 25));
  return s;
}
void execC13(const Scenario& s) {
  useHeap(s);
  Job j = makeJob(s);
  for (auto& i : j.in) if (i.mode != Readable) i.mode = Readable;
  if (!j.isStdin && j.in.size() > 1) j.in.resize(1);
  Expect x = expected(s, j);
  fsStart(full("r_"));
  putFiles(j);
  memCheck(true);
  stepBudget(kSteps);
  arrival(s, j);
  ProcCfg c = procCfg(s, j, "");
  ProcResult r = runProcess(jpp_main_jumanpp, c);
  logCommand(c, r);
  if (r.out != x.out) wrongOutput("output", r.out, x.out, j.isStdin ? "standard input" : "one file");
  if (!x.rejected && r.code != 0) violation("exit-status", "all sentences were analysed but the exit status is %d: %s", r.code, shorten(r.err).c_str());
  if (x.rejected && r.err.empty()) violation("message", "a sentence could not be analysed and there is no message");
  stateMark(hashBytes(r.out.data(), r.out.size(), hashBytes(j.in[0].data.data(), j.in[0].data.size())));
  cleanFiles(j);
  finishRun();
}

// ------------------------------------------------------------------ C14
Scenario genC14(u64 seed) {
  Rng r(seed ^ 0x14);
  Scenario s;
  genCmdConfig(s, r);
  genHeap(s, r);
  s.p["stdin"] = r.chance(1, 6);
  s.p["pex"] = r.chance(1, 5);
  s.p["chunk"] = r.range(0, 4);
  s.p["eintr"] = r.chance(1, 4) ? r.pick<i64>({10000, 100000}) : 0;
  if (s.get("stdin")) {
    s.p["stdin_fail"] = r.chance(1, 4) ? 0 : (i64)r.below(300);
    genLines(s, r, (int)r.range(0, 5), false, false);
    return s;
  }
  int n = (int)r.range(1, 5);
  bool faults = r.chance(3, 4);
  for (int i = 0; i < n; ++i) {
    int mode = faults && r.chance(2, 5) ? (int)r.range(1, 5) : 0;
    s.ops.push_back(Op("file", {mode, mode == ReadError ? (r.chance(1, 4) ? 0 : (i64)r.below(300)) : -1}));
    genLines(s, r, (int)r.pick<i64>({0, 0, 1, 1, 2, 3, 5}), false, false);
  }
  return s;
}
void execC14(const Scenario& s) {
  useHeap(s);
  Job j = makeJob(s);
  Expect x = expected(s, j);
  fsStart(full("r_"));
  putFiles(j);
  openFaults(j);
  memCheck(true);
  stepBudget(kSteps);
  arrival(s, j);
  bool bad = false;
  int nbad = 0;
  static const char* names[] = {"", "fault.input_missing", "fault.input_denied", "fault.input_is_directory", "fault.input_read_error", "fault.input_no_descriptors"};
  for (auto& i : j.in) if (i.mode != Readable) { bad = true; ++nbad; count(names[i.mode % 6]); }
  ProcCfg c = procCfg(s, j, "");
  ProcResult r = runProcess(jpp_main_jumanpp, c);
  logCommand(c, r);
  if (r.out != x.out) wrongOutput(bad ? "output-with-unreadable-input" : "output", r.out, x.out, strf("%d inputs, %d of them unreadable", (int)j.in.size(), nbad).c_str());
  if (bad && r.code == 0) violation("exit-status", "%d of %d inputs could not be read but the exit status is 0", nbad, (int)j.in.size());
  if (bad && r.err.empty()) violation("message", "%d of %d inputs could not be read and there is no message", nbad, (int)j.in.size());
  if (!bad && !x.rejected && r.code != 0) violation("exit-status", "everything was read and analysed but the exit status is %d: %s", r.code, shorten(r.err).c_str());
  u64 h = hashBytes(r.out.data(), r.out.size());
  for (auto& i : j.in) h = hashBytes(&i.mode, sizeof i.mode, hashBytes(i.data.data(), i.data.size(), h));
  stateMark(h);
  cleanFiles(j);
  finishRun();
}

// ------------------------------------------------------------------ C15
Scenario genC15(u64 seed) {
  Rng r(seed ^ 0x15);
  Scenario s;
  genCmdConfig(s, r);
  genHeap(s, r);
  s.p["stdin"] = r.chance(1, 2);
  s.p["pex"] = r.chance(1, 6);
  s.p["chunk"] = r.range(0, 4);
  s.p["mode"] = r.chance(1, 12) ? 1 : 0;   // 1 --version
  if (!s.get("stdin")) s.ops.push_back(Op("file", {0}));
  genLines(s, r, (int)r.range(s.get("mode") ? 0 : 1, 5), true, false);
  bool toFile = !s.get("mode") && r.chance(1, 2);
  s.p["to_file"] = toFile;
  int f = (int)r.below(6);
  if (!toFile) {
    s.p["out_chunk"] = r.chance(1, 2) ? r.pick<i64>({1, 3, 50, 1000}) : 0;
    if (f) {
      s.p["out_fail"] = r.chance(1, 4) ? 0 : (i64)r.below(s.get("mode") ? 100 : 2000);
      s.p["out_err"] = r.pick<i64>({ENOSPC, EIO, EPIPE});
      s.p["out_once"] = r.chance(1, 3);
    }
  } else {
    s.p["old"] = r.below(2);
    s.p["short_w"] = r.range(0, 4);
    s.p["eintr"] = r.chance(1, 3) ? r.pick<i64>({10000, 100000}) : 0;
    switch (f) {
      case 1: s.faults.push_back(Op("fault", {0, r.pick<i64>({EACCES, ENOSPC, EMFILE, EROFS, EISDIR})}, {"out"})); break;
      case 2: s.faults.push_back(Op("fault", {(i64)r.below(4), r.pick<i64>({ENOSPC, EIO, EDQUOT}), 0, (i64)r.below(2)}, {"write"})); break;
      case 3: s.p["capacity"] = 4096 * (i64)r.below(2); break;
      case 4: s.faults.push_back(Op("fault", {0, r.pick<i64>({EIO, ENOSPC, EDQUOT})}, {"close"})); break;
      case 5: s.p["nodir"] = 1; break;
    }
  }
  return s;
}
void execC15(const Scenario& s) {
  useHeap(s);
  Job j = makeJob(s);
  for (auto& i : j.in) if (i.mode != Readable) i.mode = Readable;
  if (!j.isStdin && j.in.size() > 1) j.in.resize(1);
  int mode = (int)s.get("mode");
  Expect x;
  ProcCfg c;
  bool toFile = s.get("to_file") && !mode;
  std::string out = toFile ? (s.get("nodir") ? "r_nodir/out" : "r_out") : "";
  if (!mode) x = expected(s, j);
  c = procCfg(s, j, out);
  if (mode) {
    c.argv = {"jumanpp", c.argv[1]};
    c.argv.push_back("--version");
    // what it prints when nothing fails
    x.out = runProcess(jpp_main_jumanpp, c).out;
    if (x.out.empty()) violation("output", "%s prints nothing", c.argv.back().c_str());
  }
  fsStart(full("r_"));
  putFiles(j);
  if (toFile && s.get("old") && !s.get("nodir")) hostWrite(full("r_out"), std::string(5000, 'x'));
  memCheck(true);
  stepBudget(kSteps);
  arrival(s, j);
  count(mode ? "output.information" : toFile ? "output.file" : "output.stdout");
  if (toFile) {
    fsShortWrites((int)s.get("short_w"), s.seed);
    fsEintr((u32)s.get("eintr"), s.seed);
    if (s.p.count("capacity")) fsCapacity(s.get("capacity"));
    for (auto& f : s.faults) {
      std::string k = f.s.empty() ? "write" : f.s[0];
      i64 e = f.arg(1) ? f.arg(1) : EIO;
      if (k == "out") fsPathFault("open", full("r_out"), (int)e);
      else if (k == "close") fsPathFault("close", full("r_out"), (int)e);
      else { Fault x2; x2.call = "write"; x2.nth = f.arg(0); x2.err = e; x2.arg = 0; x2.sticky = f.arg(3) != 0; fsAddFault(x2); }
    }
  } else {
    c.stdoutChunk = (int)s.get("out_chunk");
    c.stdoutFailAt = s.p.count("out_fail") ? s.get("out_fail") : -1;
    c.stdoutErr = (int)s.get("out_err", ENOSPC);
    c.stdoutOneShot = s.get("out_once");
  }
  u64 fired0 = fsFaultsFired();
  ProcResult r = runProcess(jpp_main_jumanpp, c);
  logCommand(c, r);
  bool failed = r.outFailed;
  std::string got = r.out;
  if (toFile) {
    failed = s.get("nodir") || fsFaultsFired() != fired0;
    if (!r.out.empty()) violation("output", "results on standard output although a file was named: [%s]", shorten(r.out).c_str());
    got.clear();
    bool ex = hostRead(full("r_out"), &got);
    if (!ex && r.code == 0) violation("unreported", "the output file does not exist but the exit status is 0");
  }
  if (r.code == 0 && got != x.out) wrongOutput(failed ? "unreported" : "output", got, x.out, "exit status 0");
  if (failed && r.code == 0) violation("unreported", "writing the output failed but the exit status is 0");
  if (!failed && r.code != 0) violation("exit-status", "nothing failed but the exit status is %d: %s", r.code, shorten(r.err).c_str());
  if (failed && r.err.empty()) violation("message", "writing the output failed and there is no message");
  if (failed) count("probe.output_failed"); else count("probe.output_complete");
  // what arrived before a lasting failure is a prefix
  if (failed && !toFile && !s.get("out_once") && x.out.compare(0, got.size(), got) != 0) wrongOutput("output-prefix", got, x.out, "after a failure");
  if (toFile && fsOpenFds()) violation("leak", "the output file is left open");
  stateMark(hashBytes(&r.code, sizeof r.code, hashBytes(got.data(), got.size(), hashBytes(x.out.data(), x.out.size()))));
  cleanFiles(j);
  finishRun();
}

// ------------------------------------------------------------------ C26
Scenario genC26(u64 seed) {
  Rng r(seed ^ 0x26);
  Scenario s;
  genCmdConfig(s, r);
  genHeap(s, r);
  s.p["stdin"] = 1;
  s.p["pex"] = r.chance(1, 4);
  s.p["chunk"] = r.range(0, 4);
  s.p["out_chunk"] = r.chance(1, 3) ? r.pick<i64>({1, 3, 50, 1000}) : 0;
  s.p["ahead"] = r.chance(1, 3) ? r.range(1, 3) : 0;   // sentences given before the first answer is awaited
  s.p["batch"] = r.chance(1, 4) ? r.range(2, 3) : 1;   // sentences given at a time
  genLines(s, r, (int)r.range(1, 8), false, r.chance(1, 40));
  return s;
}
// where the sentences end in the input
std::vector<size_t> sentenceEnds(const Job& j) {
  std::vector<size_t> res;
  auto& d = j.in[0].data;
  size_t p = 0;
  while (p < d.size()) {
    size_t e = d.find('\n', p);
    if (e == std::string::npos) break;
    bool ends = j.pex ? e == p : !(e - p > 2 && d[p] == '#' && d[p + 1] == ' ');
    p = e + 1;
    if (ends) res.push_back(p);
  }
  return res;
}
void execC26(const Scenario& s) {
  useHeap(s);
  Job j = makeJob(s);
  j.in.resize(1);
  j.in[0].mode = Readable;
  Expect x = expected(s, j);
  std::vector<size_t> ends = sentenceEnds(j);
  if (ends.size() > x.per.size()) harnessError("%zu sentences end in the input, %zu were expected", ends.size(), x.per.size());
  fsStart(full("r_"));
  memCheck(true);
  stepBudget(kSteps);
  arrival(s, j);
  ProcCfg c = procCfg(s, j, "");
  c.stdoutChunk = (int)s.get("out_chunk");
  size_t batch = (size_t)std::max<i64>(1, s.get("batch", 1)), ahead = (size_t)std::max<i64>(0, s.get("ahead"));
  size_t asked = 0;
  for (size_t i = ahead; i < ends.size(); i += batch) c.stdinGates.push_back(ends[i]);
  c.onGate = [&](size_t pos, const std::string& out) {
    size_t n = (size_t)(std::find(ends.begin(), ends.end(), pos) - ends.begin());
    ++asked;
    size_t want = x.per[n];
    if (out.size() < want)
      violation("unanswered", "the command waits for more input after %zu sentences, but only %zu of %zu bytes of their answers were written: [%s]", n + 1, out.size(), want,
                shorten(out.size() > 60 ? out.substr(out.size() - 60) : out).c_str());
    if (out.size() > want || x.out.compare(0, want, out) != 0) wrongOutput("answer", out, x.out.substr(0, want), strf("after %zu sentences", n + 1).c_str());
    count("probe.waited_for_answer");
    stateMark(hashBytes(out.data(), out.size()));
  };
  ProcResult r = runProcess(jpp_main_jumanpp, c);
  logCommand(c, r);
  if (asked != c.stdinGates.size()) violation("not-read", "the command ended after %zu of %zu parts of the conversation", asked, c.stdinGates.size());
  if (r.out != x.out) wrongOutput("output", r.out, x.out, "a conversation");
  if (!x.rejected && r.code != 0) violation("exit-status", "all sentences were analysed but the exit status is %d: %s", r.code, shorten(r.err).c_str());
  cleanFiles(j);
  finishRun();
}

Registrar r26({"C26", warmExecs, genC26, execC26, 60});
Registrar r13({"C13", warmExecs, genC13, execC13, 60});
Registrar r14({"C14", warmExecs, genC14, execC14, 60});
Registrar r15({"C15", warmExecs, genC15, execC15, 60});
}  // namespace
