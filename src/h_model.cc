// C17 memory-mapped files, C09 saved models load back, C10 crash during saving, C11 failed saving (library part),
// C12 damaged model files.
#include "hcommon.h"
#include "world.h"
#include "core/env.h"
#include "core/analysis/analyzer_impl.h"
#include "core/impl/model_io.h"
#include "jumandic/shared/jumandic_env.h"
#include "util/mmap.h"
#include <cstring>
#include <errno.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim { std::string scratchDir(); void fsWriteback(u32 ppm, u64 seed); void fsResetCounts(); }
using namespace sim;
using namespace h;
using namespace jumanpp;
namespace jm = jumanpp::core::model;

namespace {
const char* kFiles[] = {"r_a", "r_b"};
std::string full(const char* f) { return scratchDir() + "/" + f; }
std::string pattern(u64 seed, size_t n) {
  HostScope hs;
  Rng r(seed);
  std::string s(n, 0);
  size_t i = 0;
  int mode = (int)r.below(3);
  for (; i < n; ++i) s[i] = mode == 0 ? (char)r.next() : mode == 1 ? (char)('a' + r.below(26)) : (char)(r.chance(1, 4) ? r.next() : 0);
  if (n && !s[0]) s[0] = 'x';
  return s;
}
void cleanFiles() { for (auto f : kFiles) { hostRemove(full(f)); } hostRemove(full("r_c")); }
void checkNothingOpen(const char* when) {
  if (fsOpenFds() || fsLiveMappings()) {
    std::string d;
    fsLeakDump(&d);
    violation("leak", "%s: still open:%s", when, d.c_str());
  }
}
void genFaults(Scenario& s, Rng& r, int maxFaults, const std::vector<const char*>& calls) {
  int n = (int)r.range(0, maxFaults);
  for (int i = 0; i < n; ++i) {
    const char* c = r.pick(calls);
    i64 err = 0;
    std::string cs = c;
    if (cs == "open") err = r.pick<i64>({EACCES, EMFILE, ENFILE, EIO, ENOSPC, EROFS, ENOENT});
    else if (cs == "stat" || cs == "fstat") err = r.pick<i64>({EACCES, EIO, ENOMEM, EOVERFLOW});
    else if (cs == "mmap") err = r.pick<i64>({ENOMEM, EACCES, ENFILE, EAGAIN});
    else if (cs == "write") err = r.pick<i64>({ENOSPC, EIO, EFBIG, EDQUOT});
    else if (cs == "fallocate") err = r.pick<i64>({ENOSPC, EIO, EFBIG, EDQUOT});
    else if (cs == "lseek") err = r.pick<i64>({EINVAL, EOVERFLOW});
    else err = r.pick<i64>({EIO, ENOMEM, ENOSPC});
    Op o("fault", {r.range(0, maxFaults > 1 ? 9 : 5), err, 0, r.chance(1, 5)}, {c});
    s.faults.push_back(o);
  }
}
void addFaults(const Scenario& s) {
  for (auto& f : s.faults) {
    Fault x;
    x.call = f.s.empty() ? "open" : f.s[0];
    x.nth = f.arg(0); x.err = f.arg(1); x.arg = f.arg(2); x.sticky = f.arg(3) != 0;
    if (x.err == 0 && x.arg <= 0) x.err = EIO;
    fsAddFault(x);
  }
}

// ================================================================== C17
Scenario genMmap(u64 seed) {
  Scenario s;
  s.prop = "C17"; s.seed = seed;
  Rng r(seed ^ 0x17);
  genHeap(s, r);
  for (int i = 0; i < 2; ++i) s.ops.push_back(Op("file", {i, r.chance(1, 4) ? -1 : r.pick<i64>({0, 1, 100, 4095, 4096, 4097, 8192, 10000, 20000}), (i64)r.below(1000)}));
  int n = (int)r.range(2, 30);
  bool big = r.chance(1, 150);
  if (big) n = (int)r.range(2, 8);
  std::vector<i64> sizes{1, 2, 7, 100, 4095, 4096, 4097, 5000, 8192, 9000, 12288};
  std::vector<i64> offs{0, 0, 0, 1, 100, 512, 1024, 1536, 2048, 3072, 4095, 4096, 4097, 4608, 8192, 8200, 8704, 12288};
  for (int i = 0; i < n; ++i) {
    int m = (int)r.below(2), f = (int)r.below(3), q = (int)r.below(2), file = (int)r.below(2);
    switch (r.below(20)) {
      case 0: case 1: case 2: s.ops.push_back(Op("open", {m, file, r.chance(2, 3)})); break;
      case 3: case 4: case 5: case 6: case 7: {
        i64 off = r.pick(offs), sz = r.pick(sizes);
        if (r.chance(1, 30)) sz = 0;
        if (big && r.chance(1, 3)) { off = r.pick<i64>({0, 0, 4096, 1 << 21, 100}); sz = (1 << 21) + r.pick<i64>({-1, 0, 1, 4096, 5000}); }
        if (r.chance(1, 60)) { off = -1; sz = r.pick<i64>({2, 4097}); }
        s.ops.push_back(Op("map", {m, f, off, sz, r.chance(1, big ? 2 : 8)}));
        break;
      }
      case 8: case 9: s.ops.push_back(Op("write", {f, r.pick(offs), r.pick(sizes), (i64)r.below(1000)})); break;
      case 10: case 11: s.ops.push_back(Op("flush", {f})); break;
      case 12: s.ops.push_back(Op("unmap", {f})); break;
      case 13: s.ops.push_back(Op("close", {m})); break;
      case 14: s.ops.push_back(Op("movef", {f, (i64)r.below(3), (i64)r.below(2)})); break;
      case 15: s.ops.push_back(Op("movem", {m, (i64)r.below(2), (i64)r.below(2)})); break;
      case 16: s.ops.push_back(Op(r.chance(1, 2) ? "freshf" : "freshm", {r.chance(1, 2) ? f : m})); break;
      case 17: case 18: s.ops.push_back(Op("fopen", {q, file, r.chance(1, 4)})); break;
      case 19: s.ops.push_back(Op(r.chance(1, 2) ? "fclose" : "fmove", {q})); break;
    }
  }
  if (r.chance(1, 2)) genFaults(s, r, 3, {"open", "stat", "fstat", "mmap", "msync", "write", "fallocate", "lseek"});
  if (r.chance(1, 8)) s.p["capacity"] = 4096 * r.range(0, 6);
  s.p["nostdin"] = r.chance(1, 3);
  s.p["powerloss"] = r.chance(1, 2) ? r.range(1, 7) : 0;
  return s;
}

struct MFile { bool exists = false; std::string data; std::string durable; };  // durable: 1 = this byte is known to be on disk
struct MMf { bool open = false; int file = 0; bool rw = false; size_t size = 0; bool failed = false; };
struct MFrag { bool mapped = false; int file = 0; size_t off = 0, size = 0; bool rw = false; };
struct MFull { bool open = false; int file = 0; bool rw = false; size_t size = 0; };

struct MmapWorld {
  MFile files[2];
  MMf mf[2];
  MFrag fr[3];
  MFull fl[2];
  std::unique_ptr<util::MappedFile> mfo[2];
  std::unique_ptr<util::MappedFileFragment> fro[3];
  std::unique_ptr<util::FullyMappedFile> flo[2];

  // the file as everybody else sees it
  void checkFile(int f, const char* after, size_t mayExtend = 0) {
    HostScope hs;
    std::string cur;
    bool ex = hostRead(full(kFiles[f]), &cur);
    MFile& m = files[f];
    if (ex != m.exists && !(ex && mayExtend)) {
      // a failed open may have created the file
      if (ex && cur.empty()) { m.exists = true; return; }
      violation("file-contents", "after %s: file %d %s", after, f, ex ? "appeared" : "vanished");
    }
    if (!ex) return;
    m.exists = true;
    if (cur.size() > m.data.size() && cur.size() <= mayExtend) {
      size_t o = m.data.size();
      m.data.resize(cur.size(), 0);
      m.durable.resize(cur.size(), 0);
      (void)o;
    }
    if (cur.size() != m.data.size()) violation("file-size", "after %s: file %d has %zu bytes instead of %zu", after, f, cur.size(), m.data.size());
    for (size_t i = 0; i < cur.size(); ++i)
      if (cur[i] != m.data[i]) violation("file-contents", "after %s: byte %zu of file %d is %d instead of %d", after, i, f, cur[i] & 255, m.data[i] & 255);
  }
  void checkFrag(int k, const char* after) {
    MFrag& m = fr[k];
    if (!fro[k]->isClean() != m.mapped) violation("fragment-state", "after %s: fragment %d is %s", after, k, m.mapped ? "clean" : "mapped");
    if (!m.mapped) return;
    if (fro[k]->size() != m.size) violation("fragment-size", "after %s: fragment has %zu bytes instead of %zu", after, fro[k]->size(), m.size);
    std::string got(fro[k]->asStringPiece().begin(), m.size);  // instrumented copy
    if (got != files[m.file].data.substr(m.off, m.size)) violation("mapped-contents", "after %s: the mapping does not show the bytes %zu..%zu of the file", after, m.off, m.off + m.size);
  }
  void checkFull(int k, const char* after) {
    MFull& m = fl[k];
    auto c = flo[k]->contents();
    if (!m.open) {
      if (c.size() != 0) violation("mapped-contents", "after %s: contents of a file that is not open", after);
      return;
    }
    std::string got(c.begin(), c.end());
    if (got != files[m.file].data.substr(0, m.size)) violation("mapped-contents", "after %s: the mapped file shows other bytes", after);
  }
  void checkSize(int k, const char* after) {
    size_t got = mfo[k]->size();
    if (!mf[k].open) {
      if (got != 0 && !mf[k].failed) violation("file-size", "after %s: size() of a file that is not open is %zu", after, got);
      return;
    }
    // what this object has seen or made, or more if others made the file longer
    if (got < mf[k].size || got > files[mf[k].file].data.size())
      violation("file-size", "after %s: size() is %zu, the file has %zu bytes and had at least %zu for this object", after, got, files[mf[k].file].data.size(), mf[k].size);
  }
  void checkAll(const char* after) {
    for (int i = 0; i < 2; ++i) checkSize(i, after);
    for (int i = 0; i < 3; ++i) checkFrag(i, after);
    for (int i = 0; i < 2; ++i) { checkFile(i, after); checkFull(i, after); }
  }
};

void execMmap(const Scenario& s) {
  quiet();
  useHeap(s);
  cleanFiles();
  if (s.get("nostdin")) { syscall(SYS_close, 0); count("fault.stdin_closed"); }
  fsStart(full("r_"));
  memCheck(true);
  auto* w = new MmapWorld;
  for (int i = 0; i < 2; ++i) { w->mfo[i].reset(new util::MappedFile); w->flo[i].reset(new util::FullyMappedFile); }
  for (int i = 0; i < 3; ++i) w->fro[i].reset(new util::MappedFileFragment);
  if (s.p.count("capacity")) fsCapacity(s.get("capacity"));
  addFaults(s);
  int mapped = 0;
  for (auto& o : s.ops) {
    std::string ks = strf("%s(%lld,%lld,%lld,%lld)", o.kind.c_str(), (long long)o.arg(0), (long long)o.arg(1), (long long)o.arg(2), (long long)o.arg(3));
    const char* k = ks.c_str();
    trace("%s", k);
    u64 fired = fsFaultsFired();
    auto faulted = [&] { return fsFaultsFired() != fired; };
    if (o.kind == "file") {
      if (o.arg(1) < 0) continue;
      int f = (int)o.arg(0) & 1;
      MFile& m = w->files[f];
      m.exists = true;
      m.data = pattern((u64)o.arg(2), (size_t)o.arg(1));
      m.durable.assign(m.data.size(), 1);
      hostWrite(full(kFiles[f]), m.data);
    } else if (o.kind == "open") {
      int i = (int)o.arg(0) & 1, f = (int)o.arg(1) & 1;
      bool rw = o.arg(2);
      MMf& m = w->mf[i];
      Status st = w->mfo[i]->open(StringPiece::fromCString(kFiles[f]), rw ? util::MMapType::ReadWrite : util::MMapType::ReadOnly);
      if (m.open) {
        if (st) violation("double-open", "an open MappedFile was opened again");
      } else if (!st) {
        if (!faulted() && (rw || w->files[f].exists)) violation("open-failed", "opening an existing file failed: %s", statusText(st).c_str());
        m.failed = true;
        count("probe.open_failed");
      } else {
        if (!rw && !w->files[f].exists) violation("open-missing", "opening a file that does not exist succeeded");
        m.open = true; m.failed = false; m.file = f; m.rw = rw;
        w->files[f].exists = true;
        m.size = w->files[f].data.size();
        if (w->mfo[i]->size() != m.size) violation("file-size", "size() gives %zu instead of %zu", w->mfo[i]->size(), m.size);
      }
    } else if (o.kind == "map") {
      int i = (int)o.arg(0) & 1, g = (int)(o.arg(1) % 3);
      MMf& m = w->mf[i];
      MFrag& fr = w->fr[g];
      u64 off = (u64)o.arg(2), sz = (u64)o.arg(3), end = off + sz;
      Status st = w->mfo[i]->map(w->fro[g].get(), off, sz, o.arg(4));
      if (!m.open) {
        if (st) violation("map-closed", "mapping a file that is not open succeeded");
      } else if (fr.mapped) {
        if (st) violation("map-twice", "mapping into a fragment in use succeeded");
        w->checkFile(m.file, k, end);
      } else if (end < off) {
        if (st) violation("map-overflow", "mapping a range that overflows succeeded");
        count("probe.map_overflow");
      } else if (!st) {
        // with a size of 0 both answers are fine
        bool allowed = faulted() || sz == 0 || (!m.rw && end > m.size) || (o.arg(4) && sz >= (2u << 20) && off % (2u << 20));
        if (!allowed) violation("map-failed", "mapping failed: %s", statusText(st).c_str());
        w->checkFile(m.file, k, m.rw ? (size_t)end : 0);
        count("probe.map_failed");
      } else {
        MFile& mf = w->files[m.file];
        if (!m.rw && end > mf.data.size()) violation("map-beyond-end", "mapping bytes %llu..%llu of a file of %zu bytes succeeded", (unsigned long long)off, (unsigned long long)end, mf.data.size());
        if (m.rw && end > mf.data.size()) { mf.data.resize(end, 0); mf.durable.resize(end, 0); count("probe.extended"); }
        if (m.rw) m.size = std::max<size_t>(m.size, end);
        fr.mapped = sz != 0 || !w->fro[g]->isClean();
        fr.file = m.file; fr.off = off; fr.size = sz; fr.rw = m.rw;
        ++mapped;
      }
    } else if (o.kind == "write") {
      int g = (int)(o.arg(0) % 3);
      MFrag& fr = w->fr[g];
      if (!fr.mapped || !fr.rw) continue;
      size_t a = std::min<size_t>((size_t)o.arg(1), fr.size), n = std::min<size_t>((size_t)o.arg(2), fr.size - a);
      std::string d = pattern((u64)o.arg(3), n);
      memcpy((char*)w->fro[g]->address() + a, d.data(), n);
      MFile& mf = w->files[fr.file];
      mf.data.replace(fr.off + a, n, d);
      for (size_t i = 0; i < n; ++i) mf.durable[fr.off + a + i] = 0;
    } else if (o.kind == "flush") {
      int g = (int)(o.arg(0) % 3);
      MFrag& fr = w->fr[g];
      Status st = w->fro[g]->flush();
      if (!fr.mapped) continue;
      if (!st) {
        if (!faulted()) violation("flush-failed", "flush of %zu bytes at %zu failed: %s", fr.size, fr.off, statusText(st).c_str());
      } else if (fr.rw) {
        for (size_t i = 0; i < fr.size; ++i) w->files[fr.file].durable[fr.off + i] = 1;
        count("probe.flushed");
      }
    } else if (o.kind == "unmap") {
      int g = (int)(o.arg(0) % 3);
      w->fro[g]->unmap();
      w->fr[g].mapped = false;
    } else if (o.kind == "close") {
      int i = (int)o.arg(0) & 1;
      w->mfo[i]->close();
      bool wasOpen = w->mf[i].open;
      w->mf[i].open = false;
      if (wasOpen && w->mfo[i]->size() != 0) violation("file-size", "size() of a closed file");
    } else if (o.kind == "movef") {
      int a = (int)(o.arg(0) % 3), b = (int)(o.arg(1) % 3);
      if (a == b) continue;
      if (o.arg(2)) {
        w->fro[b].reset(new util::MappedFileFragment(std::move(*w->fro[a])));
      } else {
        *w->fro[b] = std::move(*w->fro[a]);
      }
      w->fr[b] = w->fr[a];
      w->fr[a] = MFrag();
    } else if (o.kind == "movem") {
      int a = (int)o.arg(0) & 1, b = (int)o.arg(1) & 1;
      if (a == b) continue;
      if (o.arg(2)) w->mfo[b].reset(new util::MappedFile(std::move(*w->mfo[a])));
      else *w->mfo[b] = std::move(*w->mfo[a]);
      w->mf[b] = w->mf[a];
      w->mf[a] = MMf();
      w->checkSize(a, k);
      // a moved-from object can be used again
      w->mfo[a]->close();
    } else if (o.kind == "freshf") {
      int g = (int)(o.arg(0) % 3);
      w->fro[g].reset(new util::MappedFileFragment);
      w->fr[g] = MFrag();
    } else if (o.kind == "freshm") {
      int i = (int)o.arg(0) & 1;
      w->mfo[i].reset(new util::MappedFile);
      w->mf[i] = MMf();
    } else if (o.kind == "fopen") {
      int q = (int)o.arg(0) & 1, f = (int)o.arg(1) & 1;
      bool rw = o.arg(2);
      MFull& m = w->fl[q];
      Status st = w->flo[q]->open(StringPiece::fromCString(kFiles[f]), rw ? util::MMapType::ReadWrite : util::MMapType::ReadOnly);
      if (m.open && m.file == f) {
        if (!st) violation("reopen-failed", "opening the same file again failed");
      } else if (!st) {
        if (!faulted() && w->files[f].exists && !w->files[f].data.empty()) violation("open-failed", "mapping a whole file failed: %s", statusText(st).c_str());
        m.open = false;
        count("probe.full_open_failed");
      } else {
        if (!w->files[f].exists && !rw) violation("open-missing", "mapping a missing file succeeded");
        w->files[f].exists = true;
        m.open = true; m.file = f; m.rw = rw; m.size = w->files[f].data.size();
      }
    } else if (o.kind == "fclose") {
      int q = (int)o.arg(0) & 1;
      w->flo[q]->close();
      w->fl[q].open = false;
    } else if (o.kind == "fmove") {
      int q = (int)o.arg(0) & 1;
      *w->flo[1 - q] = std::move(*w->flo[q]);
      w->fl[1 - q] = w->fl[q];
      w->fl[q] = MFull();
      w->flo[q].reset(new util::FullyMappedFile);
    }
    if (o.kind != "file") {
      // only the file which was mapped may have got longer, and only with zeroes
      w->checkAll(k);
    }
    stateMark(hashBytes(k, ks.size(), (u64)fsOpenFds() * 31 + fsLiveMappings()));
  }
  MFile files[2] = {w->files[0], w->files[1]};
  delete w;
  checkNothingOpen("after everything was destroyed");
  if (s.get("powerloss")) {
    fsPowerLoss((int)s.get("powerloss"), s.seed);
    for (int f = 0; f < 2; ++f) {
      HostScope hs;
      std::string cur;
      hostRead(full(kFiles[f]), &cur);
      for (size_t i = 0; i < files[f].data.size(); ++i)
        if (files[f].durable[i] && (i >= cur.size() || cur[i] != files[f].data[i]))
          violation("not-durable", "byte %zu of file %d was flushed but is lost after a power failure", i, f);
    }
  }
  if (mapped) count("runs.with_mappings");
  cleanFiles();
}

// ================================================================== models
struct RefPart { int kind; std::string comment; std::vector<std::string> data; };
typedef std::vector<RefPart> RefModel;

// op "part" {model, kind, commentLen, seed, size...}
void genModel(Scenario& s, Rng& r, int which, bool big) {
  int n = (int)r.range(0, 5);
  if (r.chance(1, 3)) n = (int)r.range(1, 2);
  for (int i = 0; i < n; ++i) {
    std::vector<i64> a{which, r.range(0, 3), r.chance(1, 7) ? r.range(300, 2500) : r.range(0, 40), (i64)r.below(100000)};
    int nb = (int)r.range(0, 5);
    for (int k = 0; k < nb; ++k) {
      i64 sz = r.pick<i64>({1, 3, 100, 511, 4000, 4095, 4096, 4097, 8192, 9000});
      if (r.chance(1, 3)) sz = r.range(1, 12000);
      if (r.chance(1, 20)) sz = 0;
      if (big && r.chance(1, 10)) sz = r.range(20000, 60000);
      a.push_back(sz);
    }
    s.ops.push_back(Op("part", a));
  }
}
RefModel refModel(const Scenario& s, int which) {
  HostScope hs;
  RefModel m;
  for (auto& o : s.ops) {
    if (o.kind != "part" || o.arg(0) != which) continue;
    RefPart p;
    p.kind = (int)(o.arg(1) & 3);
    p.comment = pattern((u64)o.arg(3), (size_t)o.arg(2));
    for (size_t k = 4; k < o.a.size(); ++k) p.data.push_back(pattern((u64)o.arg(3) * 31 + k, (size_t)o.a[k]));
    m.push_back(p);
  }
  return m;
}
size_t headerEstimate(const RefModel& m) {
  size_t n = 2;
  for (auto& p : m) n += p.comment.size() + 12 + p.data.size() * 8;
  return n;
}
jm::ModelInfo toInfo(const RefModel& m) {
  jm::ModelInfo i;
  for (auto& p : m) {
    i.parts.emplace_back();
    auto& q = i.parts.back();
    q.kind = (jm::ModelPartKind)p.kind;
    q.comment = p.comment;
    for (auto& d : p.data) q.data.push_back(StringPiece(d));
  }
  return i;
}
// "" when equal
std::string compare(const RefModel& m, const jm::ModelInfo& i) {
  if (i.parts.size() != m.size()) return strf("%zu parts instead of %zu", i.parts.size(), m.size());
  for (size_t k = 0; k < m.size(); ++k) {
    auto& a = m[k];
    auto& b = i.parts[k];
    if ((int)b.kind != a.kind) return strf("kind of part %zu", k);
    if (b.comment != a.comment) return strf("comment of part %zu", k);
    if (b.data.size() != a.data.size()) return strf("part %zu has %zu blocks instead of %zu", k, b.data.size(), a.data.size());
    for (size_t j = 0; j < a.data.size(); ++j) {
      std::string got(b.data[j].begin(), b.data[j].end());  // instrumented read
      if (got != a.data[j]) {
        size_t p = 0;
        while (p < got.size() && p < a.data[j].size() && got[p] == a.data[j][p]) ++p;
        return strf("block %zu of part %zu: %zu bytes instead of %zu, first difference at %zu", j, k, got.size(), a.data[j].size(), p);
      }
    }
  }
  return "";
}
struct LoadResult { bool ok = false; std::string msg; };
// loads the file and compares with the given models; *which: index of the equal one, -1 none
LoadResult loadAndCompare(const char* file, const std::vector<const RefModel*>& refs, int* which, std::string* diff) {
  LoadResult r;
  *which = -1;
  {
    jm::FilesystemModel fm;
    std::string name = file;
    Status st = fm.open(name);
    if (st) {
      jm::ModelInfo info;
      st = fm.load(&info);
      if (st) {
        r.ok = true;
        for (size_t i = 0; i < refs.size(); ++i) {
          std::string d = compare(*refs[i], info);
          if (d.empty()) { *which = (int)i; break; }
          if (diff) *diff = d;
        }
      }
    }
    if (!st) {
      r.msg = statusText(st);
      if (fsOpenFds() || fsLiveMappings()) violation("leak", "a rejected load left something open (%s)", r.msg.c_str());
    }
  }
  checkNothingOpen("after the loader was destroyed");
  return r;
}
Status saveModel(const char* file, const RefModel& m) {
  Status st = Status::Ok();
  {
    jm::ModelSaver sv;
    std::string name = file;
    st = sv.open(name);
    if (st) {
      auto info = toInfo(m);
      st = sv.save(info);
    }
  }
  return st;
}
// what is in the output file before: op "before" {mode, arg}
void prepareFile(const Scenario& s, const RefModel& old, bool* hasOld) {
  *hasOld = false;
  cleanFiles();
  i64 mode = s.get("before");
  switch (mode) {
    case 0: break;                                    // nothing
    case 1: case 2: {                                 // an old model
      Status st = saveModel(kFiles[0], old);
      if (st) *hasOld = true;
      else if (headerEstimate(old) < 3500) violation("save-failed", "saving a model failed without any fault: %s", statusText(st).c_str());
      if (mode == 2 && *hasOld) {                     // with something behind it
        HostScope hs;
        std::string c;
        hostRead(full(kFiles[0]), &c);
        c += pattern(s.seed, (size_t)s.get("extra"));
        hostWrite(full(kFiles[0]), c);
      }
      break;
    }
    case 3: hostWrite(full(kFiles[0]), pattern(s.seed, (size_t)s.get("extra"))); break;  // garbage
    case 4: hostWrite(full(kFiles[0]), ""); break;
  }
}
void genBefore(Scenario& s, Rng& r) {
  s.p["before"] = r.pick<i64>({0, 0, 1, 1, 1, 2, 3, 4});
  s.p["extra"] = r.range(1, 30000);
}

// ------------------------------------------------------------------ C09
Scenario genSaveLoad(u64 seed) {
  Scenario s;
  s.prop = "C09"; s.seed = seed;
  Rng r(seed ^ 0x09);
  genHeap(s, r);
  genModel(s, r, 0, false);
  genModel(s, r, 1, true);
  genBefore(s, r);
  s.p["powerloss"] = r.range(0, 7);
  s.p["writeback"] = r.chance(1, 2) ? r.pick<i64>({20000, 300000}) : 0;
  s.p["twice"] = r.chance(1, 8);
  s.p["keep_saver"] = r.chance(1, 2);
  return s;
}
void execSaveLoad(const Scenario& s) {
  quiet();
  useHeap(s);
  RefModel old = refModel(s, 0), neu = refModel(s, 1);
  fsStart(full("r_"));
  memCheck(true);
  bool hasOld;
  prepareFile(s, old, &hasOld);
  checkNothingOpen("after saving");
  fsStart(full("r_"));  // what is there now is on disk
  if (s.get("writeback")) fsWriteback((u32)s.get("writeback"), s.seed);
  {
    std::unique_ptr<jm::ModelSaver> sv(new jm::ModelSaver);
    std::string name = kFiles[0];
    Status st = sv->open(name);
    if (!st) violation("save-failed", "opening the output failed without any fault: %s", statusText(st).c_str());
    if (s.get("twice")) {
      st = sv->save(toInfo(old));
      if (!st && headerEstimate(old) < 3500) violation("save-failed", "saving failed without any fault: %s", statusText(st).c_str());
    }
    auto info = toInfo(neu);
    st = sv->save(info);
    if (!st) {
      if (headerEstimate(neu) < 3500) violation("save-failed", "saving a model failed without any fault: %s", statusText(st).c_str());
      count("probe.too_big_header");
      sv.reset();
      checkNothingOpen("after a failed save");
      return;
    }
    count("saves");
    if (!s.get("keep_saver")) sv.reset();
    int which;
    std::string diff;
    if (!s.get("keep_saver")) {
      LoadResult lr = loadAndCompare(kFiles[0], {&neu}, &which, &diff);
      if (!lr.ok) violation("load-failed", "a saved model does not load: %s", lr.msg.c_str());
      if (which != 0) violation("load-differs", "a saved model loads as another one: %s", diff.c_str());
    }
    // the machine crashes after the acknowledgement
    fsPowerLoss((int)s.get("powerloss"), s.seed);
    if (s.get("keep_saver")) sv.release();  // the process is gone
  }
  int which;
  std::string diff;
  LoadResult lr = loadAndCompare(kFiles[0], {&neu}, &which, &diff);
  if (!lr.ok) violation("not-durable", "after a power failure (mode %lld) the acknowledged model does not load: %s", (long long)s.get("powerloss"), lr.msg.c_str());
  if (which != 0) violation("not-durable", "after a power failure (mode %lld) the acknowledged model loads as another one: %s", (long long)s.get("powerloss"), diff.c_str());
  stateMark(hashBytes("c09", 3, s.seed));
  cleanFiles();
}

// ------------------------------------------------------------------ C10
Scenario genCrash(u64 seed) {
  Scenario s;
  s.prop = "C10"; s.seed = seed;
  Rng r(seed ^ 0x10);
  genHeap(s, r);
  if (r.chance(1, 3)) {  // models of the same shape: only the contents differ
    genModel(s, r, 1, false);
    std::vector<Op> extra;
    for (auto o : s.ops) { o.a[0] = 0; if (r.chance(2, 3)) o.a[3] += 1; extra.push_back(o); }
    s.ops.insert(s.ops.end(), extra.begin(), extra.end());
  } else {
    genModel(s, r, 0, false);
    genModel(s, r, 1, true);
  }
  genBefore(s, r);
  if (s.p["before"] == 0 && r.chance(1, 2)) s.p["before"] = 1;
  s.p["crash"] = r.range(0, 40);
  s.p["end"] = r.pick<i64>({0, 0, 0, 0, 1});          // 0: crash at a call; 1: a call fails, then the process ends
  s.p["powerloss"] = r.range(0, 7);
  s.p["writeback"] = r.chance(2, 3) ? r.pick<i64>({50000, 300000, 1000000}) : 0;
  if (s.p["end"] == 1) genFaults(s, r, 1, {"mmap", "msync", "write", "fallocate", "open", "stat", "ftruncate", "fsync", "rename"});
  return s;
}
void execCrash(const Scenario& s) {
  quiet();
  useHeap(s);
  RefModel old = refModel(s, 0), neu = refModel(s, 1);
  fsStart(full("r_"));
  memCheck(true);
  bool hasOld;
  prepareFile(s, old, &hasOld);
  fsStart(full("r_"));
  if (s.get("writeback")) fsWriteback((u32)s.get("writeback"), s.seed);
  bool crashed = false, acked = false;
  if (s.get("end") == 0) {
    // number of calls of a complete save is not known: take the point modulo a dry estimate
    fsCrashAt(s.get("crash"));
    crashed = fsRunUntilCrash([&] {
      Status st = saveModel(kFiles[0], neu);
      acked = st.isOk();
    });
    fsCrashAt(-1);
    if (crashed) count("runs.crashed"); else count("runs.completed");
  } else {
    addFaults(s);
    Status st = saveModel(kFiles[0], neu);
    acked = st.isOk();
    fsClearFaults();
    if (fsFaultsFired()) count("runs.faulted");
  }
  fsPowerLoss((int)s.get("powerloss"), s.seed);
  std::vector<const RefModel*> refs{&neu};
  if (hasOld) refs.push_back(&old);
  int which;
  std::string diff;
  LoadResult lr = loadAndCompare(kFiles[0], refs, &which, &diff);
  if (!lr.ok) {
    count("outcome.refused");
    if (acked) violation("not-durable", "a completed save is refused after a crash: %s", lr.msg.c_str());
  } else if (which == 0) {
    count("outcome.new");
  } else if (which == 1) {
    count("outcome.old");
    if (acked) violation("not-durable", "a completed save is lost after a crash");
  } else {
    violation("mixture", "after a crash at call %lld (power loss mode %lld) the file loads as a model that was never saved: %s",
              (long long)s.get("crash"), (long long)s.get("powerloss"), diff.c_str());
  }
  stateMark(hashBytes(&s.seed, 8, (u64)which));
  cleanFiles();
}

// ------------------------------------------------------------------ C11, the library's part
}  // namespace
Scenario c11LibGen(u64 seed) {
  Scenario s;
  s.prop = "C11"; s.seed = seed;
  Rng r(seed ^ 0x11b);
  genHeap(s, r);
  genModel(s, r, 0, false);
  genModel(s, r, 1, true);
  genBefore(s, r);
  switch (r.below(4)) {
    case 0: s.p["capacity"] = 4096 * (i64)r.below(30); break;
    case 1: genFaults(s, r, 3, {"open", "stat", "fstat", "mmap", "msync", "write", "fallocate", "ftruncate", "fsync", "rename", "close", "lseek"}); break;
    default:
      s.p["fail_at"] = (i64)r.below(30);
      s.p["fail_err"] = r.below(4);
      s.p["fail_sticky"] = r.chance(1, 4);
  }
  s.p["short_w"] = r.chance(1, 3) ? r.range(1, 4) : 0;
  s.p["powerloss"] = r.range(0, 7);
  s.p["again"] = r.below(2);
  return s;
}
void c11LibExec(const Scenario& s) {
  quiet();
  useHeap(s);
  RefModel old = refModel(s, 0), neu = refModel(s, 1);
  fsStart(full("r_"));
  memCheck(true);
  count("tool.library_save");
  bool hasOld;
  prepareFile(s, old, &hasOld);
  fsStart(full("r_"));
  if (s.p.count("capacity")) fsCapacity(s.get("capacity"));
  addFaults(s);
  if (s.p.count("fail_at")) fsFailCall(s.get("fail_at"), (u64)s.get("fail_err"), s.get("fail_sticky"));
  fsShortWrites((int)s.get("short_w"), s.seed);
  u64 fired = fsFaultsFired();
  bool acked = false, faulted = false;
  {
    std::unique_ptr<jm::ModelSaver> sv(new jm::ModelSaver);
    std::string name = kFiles[0];
    Status st = sv->open(name);
    bool opened = st.isOk();
    if (st) st = sv->save(toInfo(neu));
    faulted = fsFaultsFired() != fired;
    fsClearFaults();
    acked = st.isOk();
    if (!acked && !faulted && headerEstimate(neu) < 3500) violation("failed", "nothing failed but saving gives an error: %s", statusText(st).c_str());
    if (!acked && s.get("again")) {
      // the same object can be used once the trouble is over
      st = opened ? Status::Ok() : sv->open(name);
      if (st) st = sv->save(toInfo(neu));
      if (!st && headerEstimate(neu) < 3500) violation("failed", "after a failed save the saver cannot be used any more: %s", statusText(st).c_str());
      acked = st.isOk();
      count("probe.saved_again");
    }
  }
  count(faulted ? "runs.faulted" : "runs.clean");
  checkNothingOpen("after saving");
  if (acked) fsPowerLoss((int)s.get("powerloss"), s.seed);
  std::vector<const RefModel*> refs{&neu};
  if (hasOld) refs.push_back(&old);
  int which;
  std::string diff;
  LoadResult lr = loadAndCompare(kFiles[0], refs, &which, &diff);
  if (acked) {
    if (!lr.ok) violation("unreported", "saving was reported as successful but the model does not load: %s", lr.msg.c_str());
    if (which != 0) violation("unreported", "saving was reported as successful but the file holds another model: %s", diff.c_str());
  } else {
    if (lr.ok && which < 0) violation("mixture", "after a failed save the file loads as a model that was never saved: %s", diff.c_str());
    count("probe.failure_reported");
  }
  stateMark(hashBytes(&s.seed, 8, (u64)(which + 2 * acked)));
  cleanFiles();
}
namespace {
// ------------------------------------------------------------------ C12
Scenario genDamaged(u64 seed) {
  Scenario s;
  s.prop = "C12"; s.seed = seed;
  Rng r(seed ^ 0x12);
  genHeap(s, r);
  s.p["kind"] = r.pick<i64>({0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 6, 6, 7, 7, 8, 8, 9, 9, 9});
  s.p["hdr"] = r.range(0, 11);
  s.p["base"] = r.pick<i64>({0, 0, 1, 2});            // small seed, jumandic model, a random container
  s.p["cut"] = (i64)r.below(1000001);
  s.p["cut_near"] = r.chance(1, 3) ? r.range(0, 30) : -1;
  s.p["cut_header"] = r.chance(1, 3);
  s.p["extra"] = r.range(1, 20000);
  genModel(s, r, 0, false);
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) s.ops.push_back(Op("flip", {r.range(0, 160), (i64)r.below(256)}));
  s.p["container"] = r.chance(1, 2);                  // stop at the container, do not restore the dictionary
  if (s.p["kind"] == 6) genFaults(s, r, 1, {"open", "stat", "fstat", "mmap", "read"});
  if (s.p["kind"] == 6 && s.faults.empty()) s.faults.push_back(Op("fault", {0, EIO, 0, 0}, {"open"}));
  if (s.p["kind"] == 6) for (auto& f : s.faults) f.a[0] = r.range(0, 1);
  s.p["good"] = r.range(0, 1);
  s.p["rejects"] = r.range(1, 3);
  s.p["nostdin"] = r.chance(1, 4);
  s.p["at"] = (i64)r.below(1000);                     // kind 9: which number of the header
  s.p["huge"] = (i64)r.below(12);                     // and which value it gets
  s.p["huge_off"] = r.range(0, 200);
  return s;
}
void warmDamaged() {
  quiet();
  world::smallSeed();
  world::jumandicModel();
}
void execDamaged(const Scenario& s) {
  quiet();
  useHeap(s);
  cleanFiles();
  std::string base;
  RefModel rm = refModel(s, 0);
  i64 baseKind = s.get("base"), kind = s.get("kind");
  {
    HostScope hs;
    hostRead(scratchDir() + "/" + (baseKind == 1 ? world::jumandicModel() : world::smallSeed()), &base);
  }
  fsStart(full("r_"));
  if (s.get("nostdin")) { syscall(SYS_close, 0); count("fault.stdin_closed"); }
  memCheck(true);
  if (baseKind == 2) {
    Status st = saveModel(kFiles[0], rm);
    if (!st) { if (headerEstimate(rm) < 3500) violation("save-failed", "%s", statusText(st).c_str()); cleanFiles(); return; }
    HostScope hs;
    hostRead(full(kFiles[0]), &base);
  }
  std::string img = base;
  bool mustReject = true, mayLoad = false;
  switch (kind) {
    case 0: break;                                   // missing
    case 1: img.clear(); break;                      // empty
    case 2: {                                        // truncated
      size_t n = (size_t)((unsigned __int128)base.size() * (u64)s.get("cut") / 1000001);
      if (s.get("cut_near") >= 0) n = base.size() > (size_t)s.get("cut_near") + 1 ? base.size() - 1 - (size_t)s.get("cut_near") : 0;
      else if (s.get("cut_header")) n = std::min<size_t>(base.size() ? base.size() - 1 : 0, (size_t)s.get("cut") % 4200);
      img.resize(n);
      break;
    }
    case 3: img = pattern(s.seed, (size_t)s.get("extra")); break;       // not a model
    case 4: {                                        // magic followed by garbage
      std::string g = pattern(s.seed, (size_t)s.get("extra"));
      img = base.substr(0, 8) + g;
      mustReject = false; mayLoad = true;            // garbage can be a valid (empty) header
      break;
    }
    case 5: {                                        // damaged bytes in the header
      for (auto& o : s.ops) if (o.kind == "flip" && (size_t)o.arg(0) < img.size()) img[(size_t)o.arg(0)] ^= (char)(o.arg(1) | 1);
      mustReject = false; mayLoad = true;
      break;
    }
    case 6: break;                                   // system calls fail
    case 8: {                                        // the header has another length
      size_t p = 8;
      u64 was = 0;
      for (int sh = 0; p < img.size() && p < 18; sh += 7) {
        u8 b = (u8)img[p++];
        was |= (u64)(b & 127) << sh;
        if (!(b & 128)) break;
      }
      u64 f = img.size(), opts[] = {was + 1, was - 1, 0, f - 8, f - 9, f - 10, f - 11, f, f + 1, f - 1, 1ull << 31, ~0ull};
      u64 v = opts[s.get("hdr") % 12];
      std::string enc;
      for (u64 x = v;; x >>= 7) { if (x < 128) { enc += (char)x; break; } enc += (char)(x | 128); }
      img.replace(8, p - 8, enc);
      u64 remaining = img.size() - 8 - enc.size();
      mustReject = v > remaining || v < was;         // one byte less cuts the last field off
      mayLoad = !mustReject;
      break;
    }
    case 9: {                                        // a number of the header (a length, a count, an offset) is huge
      size_t p = 8;
      u64 was = 0;
      for (int sh = 0; p < img.size() && p < 18; sh += 7) {
        u8 b = (u8)img[p++];
        was |= (u64)(b & 127) << sh;
        if (!(b & 128)) break;
      }
      auto varint = [](u64 x) {
        std::string enc;
        for (;; x >>= 7) { if (x < 128) { enc += (char)x; break; } enc += (char)(x | 128); }
        return enc;
      };
      std::string body = img.substr(p, (size_t)was), rest = img.substr(p + body.size());
      std::vector<size_t> at;                        // bytes which can be a whole number
      for (size_t i = 0; i < body.size(); ++i)
        if (!((u8)body[i] & 128) && (i == 0 || !((u8)body[i - 1] & 128))) at.push_back(i);
      if (at.empty()) break;
      u64 off = (u64)s.get("huge_off"), near = (u64)1 << 63;
      u64 vals[] = {~0ull, ~0ull - off, ~0ull - off * 4096, near, near - off, near + off, 1ull << 62, 1ull << 48, (1ull << 47) + off, 1ull << 32, 1ull << 31, (1ull << 31) - off};
      size_t pos = at[(size_t)s.get("at") % at.size()];
      body.replace(pos, 1, varint(vals[s.get("huge") % 12]));
      // the file keeps its layout: the blocks stay where they are while the header fits before them
      std::string head = img.substr(0, 8) + varint(body.size()) + body;
      size_t firstBlock = img.size();
      for (size_t i = p + (size_t)was; i < img.size(); ++i) if (img[i]) { firstBlock = i & ~(size_t)4095; break; }
      if (firstBlock != img.size() && head.size() <= firstBlock) { img = head + std::string(firstBlock - head.size(), '\0') + img.substr(firstBlock); }
      else img = head + rest;
      mustReject = false; mayLoad = true;
      count("fault.huge_number");
      break;
    }
    case 7: baseKind == 2 ? (void)0 : (void)(img = std::string("#!/bin/sh\n") + base.substr(10)); break;
  }
  bool container = s.get("container") || kind == 4 || kind == 5 || kind == 9 || (kind == 8 && !mustReject);
  if (kind == 7 && baseKind == 2) {                  // a valid container which is not an analysis model
    container = false;
  }
  hostRemove(full(kFiles[0]));
  if (kind != 0) hostWrite(full(kFiles[0]), img);
  eventBytes("image", img.data(), img.size());
  fsStart(full("r_"));
  addFaults(s);
  std::string fname = kFiles[0];
  if (container) {
    jm::FilesystemModel fm;
    for (int k = 0; k < (int)s.get("rejects", 1); ++k) {
      u64 fired = fsFaultsFired();
      Status st = fm.open(fname);
      if (st) {
        jm::ModelInfo info;
        st = fm.load(&info);
        if (st) {
          // read everything it gave
          u64 h = 0;
          for (auto& p : info.parts) for (auto& d : p.data) { std::string c(d.begin(), d.end()); h = hashBytes(c.data(), c.size(), h); }
          event("loaded", h);
        }
        if (st && kind == 6 && fsFaultsFired() != fired) { /* a retried call */ }
        if (st && mustReject && kind != 6 && !(kind == 7 && baseKind == 2)) violation("accepted", "a damaged model file was loaded (%zu of %zu bytes, kind %lld)", img.size(), base.size(), (long long)kind);
        break;
      }
      count("outcome.rejected");
      if (fsOpenFds() || fsLiveMappings()) {
        std::string d; fsLeakDump(&d);
        violation("leak", "a rejected model file is left open:%s (%s)", d.c_str(), statusText(st).c_str());
      }
    }
    (void)mayLoad;
  } else {
    core::JumanppEnv* env = new core::JumanppEnv;
    bool loaded = false;
    for (int k = 0; k < (int)s.get("rejects", 1) && !loaded; ++k) {
      u64 fired = fsFaultsFired();
      Status st = env->loadModel(fname);
      if (st) {
        loaded = true;
        if (kind == 6 && fsFaultsFired() == fired) {}
        else if (kind == 6 && baseKind != 2) {}
        else violation("accepted", "a damaged model file was accepted by the environment (%zu of %zu bytes, kind %lld)", img.size(), base.size(), (long long)kind);
        if (baseKind == 2) violation("accepted", "a file without a usable dictionary was accepted");
        break;
      }
      count("outcome.rejected");
      if (fsOpenFds() || fsLiveMappings()) {
        std::string d; fsLeakDump(&d);
        violation("leak", "a rejected model is left open:%s (%s)", d.c_str(), statusText(st).c_str());
      }
      if (kind == 6 && baseKind != 2 && fsFaultsFired() == fired) violation("good-rejected", "a good model was rejected without a fault: %s", statusText(st).c_str());
    }
    fsClearFaults();
    if (!loaded) {
      // the same environment can load a good model and works like a new one
      bool jd = s.get("good") == 1;
      std::string good = jd ? world::jumandicModel() : world::smallSeed();
      Status st = env->loadModel(good);
      if (!st) violation("not-reusable", "after a rejected load a good model does not load: %s", statusText(st).c_str());
      std::unique_ptr<core::JumanppEnv> fresh(new core::JumanppEnv);
      st = fresh->loadModel(good);
      if (!st) violation("good-rejected", "a good model does not load: %s", statusText(st).c_str());
      if (env->scorers()->scoreWeights != fresh->scorers()->scoreWeights || env->scorers()->others.size() != fresh->scorers()->others.size() ||
          (env->scorers()->feature == nullptr) != (fresh->scorers()->feature == nullptr) || env->hasPerceptronModel() != fresh->hasPerceptronModel() || env->hasRnnModel() != fresh->hasRnnModel())
        violation("not-reusable", "the scorer setup differs after a rejected load: %zu/%zu weights, %zu/%zu others, %d/%d features, %d/%d perceptron, %d/%d language model",
                  env->scorers()->scoreWeights.size(), fresh->scorers()->scoreWeights.size(), env->scorers()->others.size(), fresh->scorers()->others.size(),
                  env->scorers()->feature != nullptr, fresh->scorers()->feature != nullptr, env->hasPerceptronModel(), fresh->hasPerceptronModel(), env->hasRnnModel(), fresh->hasRnnModel());
      auto i1 = env->modelInfoCopy(), i2 = fresh->modelInfoCopy();
      if (i1.parts.size() != i2.parts.size()) violation("not-reusable", "%zu model parts instead of %zu after a rejected load", i1.parts.size(), i2.parts.size());
      // both must analyse alike
      auto run = [&](core::JumanppEnv* e) -> std::string {
        Status q = e->initFeatures(nullptr);
        if (!q) return statusText(q);
        e->setBeamSize(3);
        core::analysis::Analyzer an;
        q = e->makeAnalyzer(&an);
        if (!q) return "no analyzer";
        q = an.analyze("かつての重い効果は明らかだ");
        if (!q) return "analysis failed";
        auto l = an.impl()->lattice();
        std::string out;
        for (u32 i = 2; i < l->createdBoundaryCount(); ++i)
          for (auto& el : l->boundary(i)->starts()->beamData().data()) out += strf("%.9g;", (double)el.totalScore);
        return out;
      };
      std::string o1 = run(env), o2 = run(fresh.get());
      if (!jd && o2 != "no analyzer") violation("no-weights", "an analyzer was made from a model without weights: %.60s", o2.c_str());
      if (o1 != o2) violation("not-reusable", "after a rejected load the environment analyses differently: %.60s / %.60s", o1.c_str(), o2.c_str());
      core::VersionInfo v1, v2;
      env->fillVersion(&v1);
      fresh->fillVersion(&v2);
      if (v1.dictionary != v2.dictionary || v1.model != v2.model || v1.rnn != v2.rnn) violation("not-reusable", "version information differs after a rejected load");
      count("runs.reused");
    }
    delete env;
  }
  checkNothingOpen("after everything was destroyed");
  stateMark(hashBytes(&img[0], img.size(), (u64)kind));
  cleanFiles();
}

Registrar r17({"C17", nullptr, genMmap, execMmap, 60});
Registrar r09({"C09", nullptr, genSaveLoad, execSaveLoad, 60});
Registrar r10({"C10", nullptr, genCrash, execCrash, 60});
Registrar r12({"C12", warmDamaged, genDamaged, execDamaged, 120});
}  // namespace
