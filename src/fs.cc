// Simulated disk: libc I/O calls on files under the root directory are counted, can fail, be short, be
// interrupted, run out of space or never happen (crash); the durable image of each file is tracked separately
// from the page cache.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
#include <ext/stdio_sync_filebuf.h>
#include <exception>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

namespace sim {
namespace {
struct Inode {
  std::string durable;
  bool existsDurably = false;
  bool dirty = false;           // opened for writing since start
  std::set<u64> allocated;      // pages with backing store
};
struct Fd { std::string path; bool write; bool viaFile; };
struct Map { uptr base; size_t len; int fd; std::string path; u64 off; bool shared; bool writable; size_t noBackFrom; };
struct State {
  std::string root;
  std::map<std::string, Inode> ino;
  std::map<int, Fd> fds;
  std::map<FILE*, int> files;
  std::map<uptr, Map> maps;
  std::set<int> foreignFds;
  std::map<uptr, size_t> foreign;  // mappings of other files and anonymous ones
  std::map<std::string, u64> counts;
  std::vector<Fault> faults;
  struct Ren { std::string from, to; Inode old; bool oldExisted; std::string oldContent; };
  std::vector<Ren> renames;
  struct ReadFail { std::string path; u64 off; int err; };
  std::vector<ReadFail> readFails;
  std::map<std::string, int> pathFail;   // "call path" -> errno
  i64 failCall = -1;                     // the nth simulated call from now on fails
  u64 failSel = 0;
  bool failSticky = false;
  std::string failKind;
};
State* S = nullptr;
bool g_on = false;
u64 g_fired = 0, g_calls = 0;
i64 g_crashAt = -1;
int g_shortR = 0, g_shortW = 0;
u32 g_eintrPpm = 0;
Rng g_rngR(1), g_rngW(1), g_rngE(1), g_rngB(1);
i64 g_capacity = -1;
u32 g_writebackPpm = 0;
uptr g_mapCur = kMapBase;
sigjmp_buf g_crashJmp;
bool g_canCrash = false;
int g_crashHost = 0;
struct NoBack { uptr a, e; };
std::vector<NoBack>* g_noBack;

template <class F> F realFn(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "sim: no %s\n", n); _exit(98); }
  return (F)p;
}
#define REAL(name) ([]() { static auto f = realFn<decltype(&::name)>(#name); return f; }())

bool on() { return g_on && !t_host; }
std::string absPath(const char* p) {
  InRt in;
  if (p[0] == '/') return p;
  char b[4096];
  if (!getcwd(b, sizeof b)) return p;
  return std::string(b) + "/" + p;
}
bool tracked(const std::string& p) { return S && p.compare(0, S->root.size(), S->root) == 0; }
bool trackedFd(int fd) { return S && S->fds.count(fd); }

bool slurp(const std::string& path, std::string* out) {
  out->clear();
  int fd = (int)syscall(SYS_open, path.c_str(), O_RDONLY, 0);
  if (fd < 0) return false;
  char b[65536];
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out->append(b, n);
  syscall(SYS_close, fd);
  return n == 0;
}
bool spit(const std::string& path, const std::string& d) {
  int fd = (int)syscall(SYS_open, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < d.size()) {
    long n = syscall(SYS_write, fd, d.data() + o, d.size() - o);
    if (n <= 0) break;
    o += n;
  }
  syscall(SYS_close, fd);
  return o == d.size();
}

// bookkeeping before a file may be changed
Inode& touch(const std::string& p) {
  auto it = S->ino.find(p);
  if (it != S->ino.end()) return it->second;
  Inode& i = S->ino[p];
  i.existsDurably = slurp(p, &i.durable);
  for (u64 k = 0; k < (i.durable.size() + 4095) / 4096; ++k) i.allocated.insert(k);
  return i;
}

void writeback() {
  if (!g_writebackPpm) return;
  for (auto& kv : S->ino) {
    if (!kv.second.dirty) continue;
    if (g_rngB.below(1000000) >= g_writebackPpm) continue;
    std::string cur;
    if (!slurp(kv.first, &cur)) continue;
    Inode& i = kv.second;
    i.existsDurably = true;
    size_t pages = (cur.size() + 4095) / 4096;
    for (size_t k = 0; k < pages; ++k) {
      if (g_rngB.below(100) >= 40) continue;
      size_t a = k * 4096, n = std::min<size_t>(4096, cur.size() - a);
      if (i.durable.size() < a + n) i.durable.resize(a + n, 0);
      i.durable.replace(a, n, cur, a, n);
      count("fault.background_writeback");
    }
  }
}

struct Decision { int err = 0; i64 lim = -1; };
// a file whose contents cannot be read from some offset on: the number of readable bytes at pos, -1 when unlimited
i64 readable(const std::string& path, u64 pos, int* err) {
  for (auto& f : S->readFails) {
    if (f.path != path) continue;
    *err = f.err;
    return pos >= f.off ? 0 : (i64)(f.off - pos);
  }
  return -1;
}
// called at the start of every simulated call; may crash
Decision pre(const char* call, u64 a = 0) {
  Decision d;
  u64 idx = g_calls++;
  u64 nth = S->counts[call]++;
  event(call, nth, a);
  if (g_crashAt >= 0 && (i64)idx == g_crashAt && g_canCrash) {
    count("fault.crash");
    event("CRASH", idx);
    g_crashAt = -1;
    t_host = g_crashHost;
    siglongjmp(g_crashJmp, 1);
  }
  writeback();
  if (S->failCall >= 0 && ((i64)idx == S->failCall || (S->failSticky && S->failKind == call))) {
    static const struct { const char* call; int errs[4]; } k[] = {
        {"open", {EACCES, ENOSPC, EMFILE, EIO}}, {"fopen", {EACCES, ENOSPC, EMFILE, EIO}}, {"stat", {EIO, EACCES, ENOMEM, EIO}},
        {"fstat", {EIO, ENOMEM, EIO, EIO}}, {"mmap", {ENOMEM, ENFILE, EAGAIN, EACCES}}, {"msync", {EIO, ENOMEM, EIO, ENOSPC}},
        {"write", {ENOSPC, EIO, EDQUOT, EFBIG}}, {"read", {EIO, EIO, EISDIR, EIO}}, {"fallocate", {ENOSPC, EIO, EDQUOT, EFBIG}},
        {"ftruncate", {EIO, EFBIG, EIO, ENOSPC}}, {"fsync", {EIO, ENOSPC, EDQUOT, EIO}}, {"rename", {EACCES, ENOSPC, EIO, EROFS}},
        {"close", {EIO, ENOSPC, EDQUOT, EIO}}, {"fclose", {EIO, ENOSPC, EDQUOT, EIO}}, {"unlink", {EACCES, EIO, EROFS, EIO}}};
    for (auto& x : k) {
      if (strcmp(x.call, call)) continue;
      S->failKind = call;
      d.err = x.errs[S->failSel & 3];
      ++g_fired;
      count((std::string("fault.") + call + "." + std::to_string(d.err)).c_str());
      event("FAULT", d.err);
      return d;
    }
  }
  for (auto& f : S->faults) {
    if (f.call != call) continue;
    if ((i64)nth == f.nth || (f.sticky && (i64)nth >= f.nth)) {
      ++g_fired;
      if (f.err) {
        d.err = (int)f.err;
        count((std::string("fault.") + call + "." + std::to_string(f.err)).c_str());
        event("FAULT", f.err);
      } else {
        d.lim = f.arg;
        count((std::string("fault.") + call + ".short").c_str());
      }
      return d;
    }
  }
  return d;
}
size_t shortLen(int mode, Rng& r, size_t n) {
  if (n <= 1 || !mode) return n;
  switch (mode) {
    case 1: return 1;
    case 2: return 1 + r.below(n);
    case 3: return std::min<size_t>(n, 1 + r.below(16));
    default: return r.below(4) ? n : 1 + r.below(n);
  }
}
bool eintr() {
  if (g_eintrPpm && g_rngE.below(1000000) < g_eintrPpm) {
    count("fault.eintr");
    event("EINTR");
    return true;
  }
  return false;
}
// reserve backing pages for [off, off+n); returns number of bytes that fit from off
size_t reserve(Inode& i, u64 off, size_t n) {
  if (g_capacity < 0) {
    for (u64 k = off / 4096; n && k <= (off + n - 1) / 4096; ++k) i.allocated.insert(k);
    return n;
  }
  if (!n) return 0;
  for (u64 k = off / 4096; k <= (off + n - 1) / 4096; ++k) {
    if (i.allocated.count(k)) continue;
    if (g_capacity < 4096) {
      u64 okEnd = k * 4096;
      return okEnd > off ? (size_t)(okEnd - off) : 0;
    }
    g_capacity -= 4096;
    i.allocated.insert(k);
  }
  return n;
}
void markDurable(const std::string& path, u64 a, u64 e) {
  std::string cur;
  if (!slurp(path, &cur)) return;
  Inode& i = touch(path);
  i.existsDurably = true;
  if (e > cur.size()) e = cur.size();
  // file length is metadata needed to reach the data: durable with it
  if (i.durable.size() < cur.size()) i.durable.resize(cur.size(), 0);
  if (cur.size() < i.durable.size()) i.durable.resize(cur.size());
  if (a < e) i.durable.replace(a, e - a, cur, a, e - a);
}

int failFor(const char* what, const std::string& path) {
  if (S->pathFail.empty()) return 0;
  auto it = S->pathFail.find(std::string(what) + " " + path);
  if (it == S->pathFail.end()) return 0;
  ++g_fired;
  count((std::string("fault.") + what + "." + std::to_string(it->second)).c_str());
  event("FAULT", it->second);
  return it->second;
}
int doOpen(const char* path, int flags, mode_t mode) {
  std::string p = absPath(path);
  if (!tracked(p)) {
    int fd = (int)syscall(SYS_open, path, flags, mode);
    if (S && fd >= 0) S->foreignFds.insert(fd);
    return fd;
  }
  Decision d = pre("open", flags & (O_ACCMODE | O_CREAT | O_TRUNC));
  if (!d.err) d.err = failFor("open", p);
  if (d.err) { errno = d.err; return -1; }
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (wr || (flags & (O_CREAT | O_TRUNC))) {
    struct stat st;
    bool isdir = syscall(SYS_stat, p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
    if (!isdir) { Inode& i = touch(p); i.dirty = true; if (flags & O_TRUNC) i.allocated.clear(); }
  }
  int fd = (int)syscall(SYS_open, p.c_str(), flags, mode);
  if (fd >= 0) {
    Fd f;
    f.path = p;
    f.write = wr;
    f.viaFile = false;
    S->fds[fd] = f;
  }
  return fd;
}
long doWrite(int fd, const void* b, size_t n, i64 at) {
  Decision d = pre("write", n);
  if (d.err) { errno = d.err; return -1; }
  if (d.lim >= 0 && (size_t)d.lim < n) n = d.lim;
  if (eintr()) { errno = EINTR; return -1; }
  n = shortLen(g_shortW, g_rngW, n);
  Fd& f = S->fds[fd];
  Inode& i = touch(f.path);
  u64 pos = at >= 0 ? (u64)at : (u64)syscall(SYS_lseek, fd, 0, SEEK_CUR);
  int fl = fcntl(fd, F_GETFL);
  if (fl & O_APPEND) { struct stat st; ::fstat(fd, &st); pos = st.st_size; }
  size_t fit = reserve(i, pos, n);
  if (fit == 0 && n > 0) { count("fault.enospc"); event("ENOSPC"); ++g_fired; errno = ENOSPC; return -1; }
  if (fit < n) { count("fault.enospc_short"); ++g_fired; n = fit; }
  if (at >= 0) return syscall(SYS_pwrite64, fd, b, n, at);
  return syscall(SYS_write, fd, b, n);
}
}  // namespace

// -------------------------------------------------------------------- control
void fsStart(const std::string& root) {
  InRt in;
  delete S;
  S = new State;
  S->root = root;
  g_on = true;
  g_fired = g_calls = 0;
  g_crashAt = -1;
  g_shortR = g_shortW = 0;
  g_eintrPpm = 0;
  g_capacity = -1;
  g_writebackPpm = 0;
  if (!g_noBack) g_noBack = new std::vector<NoBack>;
  g_noBack->clear();
}
void fsStop() { g_on = false; }
void fsAddFault(const Fault& f) { InRt in; S->faults.push_back(f); }
void fsReadFailAt(const std::string& path, u64 off, int err) { InRt in; S->readFails.push_back({path, off, err}); }
void fsPathFault(const char* call, const std::string& path, int err) { InRt in; S->pathFail[std::string(call) + " " + path] = err; }
void fsFailCall(i64 nth, u64 sel, bool sticky) { InRt in; S->failCall = nth < 0 ? -1 : (i64)g_calls + nth; S->failSel = sel; S->failSticky = sticky; S->failKind.clear(); }
void fsClearFaults() {
  InRt in;
  S->pathFail.clear();
  S->failCall = -1;
  S->failKind.clear();
  S->faults.clear();
  S->readFails.clear();
  g_shortR = g_shortW = 0;
  g_eintrPpm = 0;
  g_capacity = -1;
  g_writebackPpm = 0;
}
u64 fsFaultsFired() { return g_fired; }
std::map<std::string, u64> fsCallCounts() { InRt in; return S->counts; }
void fsResetCounts() { InRt in; S->counts.clear(); }
void fsShortReads(int m, u64 seed) { g_shortR = m; g_rngR = Rng(seed); }
void fsShortWrites(int m, u64 seed) { g_shortW = m; g_rngW = Rng(seed ^ 77); }
void fsEintr(u32 ppm, u64 seed) { g_eintrPpm = ppm; g_rngE = Rng(seed ^ 99); }
void fsWriteback(u32 ppm, u64 seed) { g_writebackPpm = ppm; g_rngB = Rng(seed ^ 1234); }
void fsCapacity(i64 b) { g_capacity = b; }
void fsCrashAt(i64 n) { g_crashAt = n < 0 ? -1 : (i64)g_calls + n; }
u64 fsCalls() { return g_calls; }
bool fsRunUntilCrash(const std::function<void()>& f) {
  g_crashHost = t_host;
  if (sigsetjmp(g_crashJmp, 0) == 0) {
    g_canCrash = true;
    f();
    g_canCrash = false;
    return false;
  }
  g_canCrash = false;
  return true;
}
std::string fsRoot() { return S ? S->root : ""; }
int fsOpenFds() { return S ? (int)S->fds.size() : 0; }
int fsLiveMappings() { return S ? (int)S->maps.size() : 0; }
void fsLeakDump(std::string* out) {
  InRt in;
  for (auto& kv : S->fds) *out += strf(" fd %d", kv.first);
  for (auto& kv : S->maps) *out += strf(" mapping of %zu bytes", kv.second.len);
}
bool hostRead(const std::string& p, std::string* o) { InRt in; return slurp(p, o); }
bool hostWrite(const std::string& p, const std::string& d) { InRt in; return spit(p, d); }
bool hostExists(const std::string& p) { struct stat st; return syscall(SYS_stat, p.c_str(), &st) == 0; }
void hostRemove(const std::string& p) { syscall(SYS_unlink, p.c_str()); }
void hostMkdir(const std::string& p) { syscall(SYS_mkdir, p.c_str(), 0755); }

// drop every open descriptor and mapping (the process died)
static void dropProcessState() {
  for (auto& kv : S->maps) {
    syscall(SYS_munmap, kv.second.base, (kv.second.len + 4095) & ~4095ull);
    shadowForbid(kv.second.base, kv.second.len);
  }
  S->maps.clear();
  for (auto& kv : S->fds) syscall(SYS_close, kv.first);
  S->fds.clear();
  S->files.clear();
}
// modes: 0 process crash only (page cache survives); 1 nothing unsynchronised survives; 2 random pages;
// 3 prefix of the file survives; 4 suffix survives; 5 random with torn pages; 6 only first page; 7 all but first page
void fsPowerLoss(int mode, u64 seed) {
  InRt in;
  Rng r(seed ^ 0xd15c);
  std::map<std::string, std::string> cur;
  for (auto& kv : S->ino) {
    std::string c;
    if (slurp(kv.first, &c)) cur[kv.first] = c;
  }
  dropProcessState();
  if (mode == 0) { event("processcrash"); S->ino.clear(); S->renames.clear(); return; }
  // renames which did not reach the disk
  for (int k = (int)S->renames.size() - 1; k >= 0; --k) {
    auto& rn = S->renames[k];
    bool undo = mode == 1 || r.below(2);
    if (!undo) continue;
    count("fault.rename_lost");
    Inode moved = S->ino[rn.to];
    std::string movedCur = cur[rn.to];
    S->ino[rn.from] = moved;
    cur[rn.from] = movedCur;
    if (rn.oldExisted) { S->ino[rn.to] = rn.old; cur[rn.to] = rn.oldContent; }
    else { S->ino.erase(rn.to); cur.erase(rn.to); hostRemove(rn.to); }
  }
  for (auto& kv : S->ino) {
    const std::string& p = kv.first;
    Inode& i = kv.second;
    auto ci = cur.find(p);
    std::string c = ci == cur.end() ? std::string() : ci->second;
    if (c == i.durable && i.existsDurably) { spit(p, c); continue; }
    if (!i.existsDurably && (mode == 1 || r.below(4) == 0)) {
      hostRemove(p);
      count("fault.file_lost");
      continue;
    }
    size_t sz = c.size();
    if (mode == 1) sz = i.durable.size();
    else if (mode == 2 || mode == 5) {
      u64 w = r.below(3);
      if (w == 0) sz = i.durable.size();
      else if (w == 1 && c.size() > i.durable.size()) sz = i.durable.size() + r.below(c.size() - i.durable.size() + 1);
    }
    std::string img = i.durable;
    img.resize(sz, 0);
    size_t pages = (std::min(sz, c.size()) + 4095) / 4096;
    size_t cut = pages ? r.below(pages + 1) : 0;
    u64 lost = 0, kept = 0;
    for (size_t k = 0; k < pages; ++k) {
      size_t a = k * 4096, e = std::min(std::min(a + 4096, sz), c.size());
      if (a >= e) continue;
      if (a < i.durable.size() && e <= i.durable.size() && c.compare(a, e - a, i.durable, a, e - a) == 0) continue;
      bool keep = false;
      switch (mode) {
        case 1: keep = false; break;
        case 3: keep = k < cut; break;
        case 4: keep = k >= cut; break;
        case 6: keep = k == 0; break;
        case 7: keep = k != 0; break;
        default: keep = r.below(2);
      }
      if (mode == 5 && r.below(3) != 0) {  // torn: only some sectors
        for (size_t s = a; s < e; s += 512)
          if (r.below(2)) img.replace(s, std::min<size_t>(512, e - s), c, s, std::min<size_t>(512, e - s));
        count("fault.torn_page");
        continue;
      }
      if (keep) { img.replace(a, e - a, c, a, e - a); ++kept; } else ++lost;
    }
    if (lost) count("fault.page_lost", lost);
    if (kept) count("fault.page_kept", kept);
    spit(p, img);
    eventBytes("powerloss.image", img.data(), img.size());
  }
  S->ino.clear();
  S->renames.clear();
}
bool fsHandleFault(uptr a) {
  if (!g_noBack) return false;
  for (auto& n : *g_noBack) if (a >= n.a && a < n.e) return true;
  return false;
}
void fsForgetProcess() { InRt in; dropProcessState(); }
}  // namespace sim
using namespace sim;

extern "C" {
int open(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (!on()) return (int)syscall(SYS_open, path, flags, mode);
  InRt in;
  return doOpen(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (!on()) return (int)syscall(SYS_open, path, flags, mode);
  InRt in;
  return doOpen(path, flags, mode);
}
int openat(int dfd, const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (!on() || dfd != AT_FDCWD) return (int)syscall(SYS_openat, dfd, path, flags, mode);
  InRt in;
  return doOpen(path, flags, mode);
}
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (!on()) return (int)syscall(SYS_close, fd);
  InRt in;
  if (!trackedFd(fd)) {
    if (S && S->foreignFds.erase(fd)) return (int)syscall(SYS_close, fd);
    if (fcntl(fd, F_GETFD) < 0 || fd <= 2) violation("bad-close", "close of descriptor %d which is not open or not owned", fd <= 2 ? fd : -1);
    return (int)syscall(SYS_close, fd);
  }
  Decision d = pre("close");
  S->fds.erase(fd);
  int r = (int)syscall(SYS_close, fd);
  if (d.err) { errno = d.err; return -1; }
  return r;
}
ssize_t read(int fd, void* b, size_t n) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_read, fd, b, n);
  InRt in;
  Decision d = pre("read");
  if (d.err) { errno = d.err; return -1; }
  if (d.lim >= 0 && (size_t)d.lim < n) n = d.lim;
  if (eintr()) { errno = EINTR; return -1; }
  n = shortLen(g_shortR, g_rngR, n);
  int ferr = 0;
  i64 can = readable(S->fds[fd].path, (u64)syscall(SYS_lseek, fd, 0, SEEK_CUR), &ferr);
  if (can == 0) { count("fault.read_error_at_offset"); event("READFAIL", ferr); ++g_fired; errno = ferr; return -1; }
  if (can > 0 && (size_t)can < n) n = (size_t)can;
  long r = syscall(SYS_read, fd, b, n);
  event("read.ret", (u64)r);
  return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_pread64, fd, b, n, o);
  InRt in;
  Decision d = pre("read");
  if (d.err) { errno = d.err; return -1; }
  if (eintr()) { errno = EINTR; return -1; }
  n = shortLen(g_shortR, g_rngR, n);
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_write, fd, b, n);
  InRt in;
  return doWrite(fd, b, n, -1);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  InRt in;
  return doWrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_writev, fd, v, c);
  InRt in;
  std::string all;
  for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return doWrite(fd, all.data(), all.size(), -1);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!on() || !trackedFd(fd) || c == 0) return syscall(SYS_readv, fd, v, c);
  return read(fd, v[0].iov_base, v[0].iov_len);
}
off_t lseek(int fd, off_t o, int w) {
  if (!on() || !trackedFd(fd)) return syscall(SYS_lseek, fd, o, w);
  InRt in;
  Decision d = pre("lseek");
  if (d.err) { errno = d.err; return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int stat(const char* p, struct stat* st) {
  if (!on() || !tracked(absPath(p))) return (int)syscall(SYS_stat, p, st);
  InRt in;
  Decision d = pre("stat");
  if (!d.err) d.err = failFor("stat", absPath(p));
  if (d.err) { errno = d.err; return -1; }
  return (int)syscall(SYS_stat, p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { return stat(p, st); }
int fstat(int fd, struct stat* st) {
  if (!on() || !trackedFd(fd)) return (int)syscall(SYS_fstat, fd, st);
  InRt in;
  Decision d = pre("fstat");
  if (!d.err) d.err = failFor("stat", S->fds[fd].path);
  if (d.err) { errno = d.err; return -1; }
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (!on()) return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off);
  InRt in;
  if (fd < 0 || (flags & MAP_ANONYMOUS) || !trackedFd(fd)) {
    void* m = (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off);
    if (m != MAP_FAILED) S->foreign[(uptr)m] = len;
    return m;
  }
#ifdef MAP_HUGETLB
  if (flags & MAP_HUGETLB) {  // regular files cannot be mapped with huge pages
    pre("mmap_huge");
    errno = EINVAL;
    return MAP_FAILED;
  }
#endif
  Decision d = pre("mmap", len);
  if (!d.err) d.err = failFor("mmap", S->fds[fd].path);
  if (d.err) { errno = d.err; return MAP_FAILED; }
  if (!len || (off & 4095)) { errno = EINVAL; return MAP_FAILED; }
  size_t rl = (len + 4095) & ~4095ull;
  uptr base = g_mapCur;
  if (base + rl + 65536 > kMapBase + kMapSize) { errno = ENOMEM; return MAP_FAILED; }
  void* m = (void*)syscall(SYS_mmap, base, len, prot, flags | MAP_FIXED, fd, off);
  if (m == MAP_FAILED) return m;
  g_mapCur += rl + 4096 * (1 + (len & 7));
  Fd& f = S->fds[fd];
  Map mp;
  mp.base = base; mp.len = len; mp.fd = fd; mp.path = f.path; mp.off = off;
  mp.shared = flags & MAP_SHARED; mp.writable = prot & PROT_WRITE;
  if (mp.shared && mp.writable) {
    Inode& i = touch(f.path);
    i.dirty = true;
    // pages without backing store: touching one is SIGBUS
    for (size_t k = 0; k < rl / 4096; ++k) {
      if (reserve(i, off + k * 4096, 1) == 0) {
        mprotect((void*)(base + k * 4096), 4096, PROT_NONE);
        NoBack nb = {base + k * 4096, base + k * 4096 + 4096};
        g_noBack->push_back(nb);
        count("fault.unbacked_page");
        ++g_fired;
      }
    }
  }
  shadowAllow(base, len);
  if (g_race) raceForget(base, len);
  S->maps[base] = mp;
  return m;
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return mmap(a, len, prot, flags, fd, off); }
int munmap(void* a, size_t len) {
  if (!on()) return (int)syscall(SYS_munmap, a, len);
  InRt in;
  auto it = S->maps.find((uptr)a);
  if (it == S->maps.end()) {
    if ((uptr)a == (uptr)MAP_FAILED || ((uptr)a & 4095) || len == 0) { errno = EINVAL; return -1; }
    auto fo = S->foreign.find((uptr)a);
    if (fo != S->foreign.end()) {
      S->foreign.erase(fo);
      return (int)syscall(SYS_munmap, a, len);
    }
    violation("bad-munmap", "munmap of an address range that is not a live mapping of the program");
  }
  pre("munmap");
  size_t rl = (it->second.len + 4095) & ~4095ull;
  if (((len + 4095) & ~4095ull) != rl)
    violation("bad-munmap", "munmap of %zu bytes of a mapping of %zu bytes", len, it->second.len);
  shadowForbid((uptr)a, it->second.len);
  S->maps.erase(it);
  // leave an inaccessible hole so that stale uses fault
  syscall(SYS_mmap, a, rl, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  return 0;
}
int msync(void* a, size_t len, int flags) {
  if (!on()) return (int)syscall(SYS_msync, a, len, flags);
  InRt in;
  uptr p = (uptr)a;
  Decision d = pre("msync", len);
  if (d.err) { errno = d.err; return -1; }
  if (p & 4095) { errno = EINVAL; return -1; }
  for (auto& kv : S->maps) {
    Map& m = kv.second;
    size_t rl = (m.len + 4095) & ~4095ull;
    if (p >= m.base && p < m.base + rl) {
      if (m.shared && (flags & MS_SYNC)) {
        u64 o = m.off + (p - m.base);
        u64 e = o + ((len + 4095) & ~4095ull);
        if (e > m.off + rl) e = m.off + rl;
        markDurable(m.path, o, e);
      }
      return 0;
    }
  }
  errno = ENOMEM;
  return -1;
}
static int syncFd(int fd, const char* n) {
  Decision d = pre(n);
  if (d.err) { errno = d.err; return -1; }
  struct stat st;
  syscall(SYS_fstat, fd, &st);
  if (S_ISDIR(st.st_mode)) { S->renames.clear(); return 0; }
  markDurable(S->fds[fd].path, 0, ~0ull);
  return 0;
}
int fsync(int fd) {
  if (!on() || !trackedFd(fd)) return (int)syscall(SYS_fsync, fd);
  InRt in;
  return syncFd(fd, "fsync");
}
int fdatasync(int fd) {
  if (!on() || !trackedFd(fd)) return (int)syscall(SYS_fdatasync, fd);
  InRt in;
  return syncFd(fd, "fsync");
}
int ftruncate(int fd, off_t n) {
  if (!on() || !trackedFd(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  InRt in;
  Decision d = pre("ftruncate", n);
  if (d.err) { errno = d.err; return -1; }
  Inode& i = touch(S->fds[fd].path);
  i.dirty = true;
  std::set<u64> keep;
  for (u64 k : i.allocated) if (k * 4096 < (u64)n) keep.insert(k);
  i.allocated.swap(keep);
  return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
static int doFallocate(int fd, off_t o, off_t n) {
  Decision d = pre("fallocate", n);
  if (d.err) return d.err;
  Inode& i = touch(S->fds[fd].path);
  i.dirty = true;
  if (reserve(i, o, n) < (size_t)n) { count("fault.enospc"); ++g_fired; return ENOSPC; }
  struct stat st;
  syscall(SYS_fstat, fd, &st);
  if (st.st_size < o + n && syscall(SYS_ftruncate, fd, o + n) != 0) return errno;
  return 0;
}
int posix_fallocate(int fd, off_t o, off_t n) {
  if (!on() || !trackedFd(fd)) return REAL(posix_fallocate)(fd, o, n);
  InRt in;
  return doFallocate(fd, o, n);
}
int posix_fallocate64(int fd, off_t o, off_t n) { return posix_fallocate(fd, o, n); }
int fallocate(int fd, int mode, off_t o, off_t n) {
  if (!on() || !trackedFd(fd)) return (int)syscall(SYS_fallocate, fd, mode, o, n);
  InRt in;
  int e = doFallocate(fd, o, n);
  if (e) { errno = e; return -1; }
  return 0;
}
int fallocate64(int fd, int mode, off_t o, off_t n) { return fallocate(fd, mode, o, n); }
int rename(const char* a, const char* b) {
  if (!on() || !tracked(absPath(a))) return (int)syscall(SYS_rename, a, b);
  InRt in;
  Decision d = pre("rename");
  if (d.err) { errno = d.err; return -1; }
  std::string from = absPath(a), to = absPath(b);
  Inode src = touch(from);
  State::Ren rn;
  rn.from = from; rn.to = to;
  rn.old = touch(to);
  rn.oldExisted = slurp(to, &rn.oldContent);
  int r = (int)syscall(SYS_rename, a, b);
  if (r == 0) {
    S->renames.push_back(rn);
    S->ino[to] = src;
    S->ino.erase(from);
  }
  return r;
}
int unlink(const char* a) {
  if (!on() || !tracked(absPath(a))) return (int)syscall(SYS_unlink, a);
  InRt in;
  Decision d = pre("unlink");
  if (d.err) { errno = d.err; return -1; }
  touch(absPath(a));
  return (int)syscall(SYS_unlink, a);
}
int remove(const char* a) { return unlink(a); }

static FILE* doFopen(const char* p, const char* m) {
  std::string ap = absPath(p);
  bool wr = m[0] != 'r' || strchr(m, '+');
  Decision d = pre("fopen", wr);
  if (!d.err) d.err = failFor("open", ap);
  if (d.err) { errno = d.err; return nullptr; }
  if (wr) {
    struct stat st;
    if (!(syscall(SYS_stat, p, &st) == 0 && S_ISDIR(st.st_mode))) { Inode& i = touch(ap); i.dirty = true; if (m[0] == 'w') i.allocated.clear(); }
  }
  FILE* f = REAL(fopen)(p, m);
  if (f) {
    int fd = fileno(f);
    S->files[f] = fd;
    Fd x;
    x.path = ap; x.write = wr; x.viaFile = true;
    S->fds[fd] = x;
  }
  return f;
}
FILE* fopen(const char* p, const char* m) {
  if (!on() || !tracked(absPath(p))) return REAL(fopen)(p, m);
  InRt in;
  return doFopen(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (!on() || !tracked(absPath(p))) return REAL(fopen)(p, m);
  InRt in;
  return doFopen(p, m);
}
int fclose(FILE* f) {
  if (!on() || !S->files.count(f)) return REAL(fclose)(f);
  InRt in;
  Decision d = pre("fclose");
  if (!d.err) d.err = failFor("close", S->fds[S->files[f]].path);
  S->fds.erase(S->files[f]);
  S->files.erase(f);
  int r = REAL(fclose)(f);
  if (d.err) { errno = d.err; return EOF; }
  return r;
}
}

// -------------------------------------------------------------------- simulated processes
namespace {
struct StdOut { std::string data; i64 failAt; int err; bool oneShot, failed, fired; int chunk; Rng rng; };
struct StdIn { const std::string* data; size_t pos; int chunk; Rng rng; i64 failAt; const ProcCfg* cfg; StdOut* out; size_t gate; };
ssize_t inRead(void* c, char* b, size_t n) {
  InRt in;
  StdIn* s = (StdIn*)c;
  event("stdin.read", s->pos);
  size_t lim = s->data->size();
  auto& gates = s->cfg->stdinGates;
  while (s->gate < gates.size() && gates[s->gate] <= s->pos) {
    event("stdin.wait", s->pos, s->out->data.size());
    if (s->cfg->onGate) s->cfg->onGate(gates[s->gate], s->out->data);
    ++s->gate;
  }
  if (s->gate < gates.size()) lim = std::min(lim, gates[s->gate]);
  if (s->failAt >= 0) {
    if ((i64)s->pos >= s->failAt) { count("fault.stdin_eio"); event("stdin.EIO"); errno = EIO; return -1; }
    lim = std::min(lim, (size_t)s->failAt);
  }
  size_t k = std::min(n, lim - s->pos);
  if (s->chunk == 1) k = std::min<size_t>(k, 1);
  else if (s->chunk == 2 && k) k = 1 + s->rng.below(std::min<size_t>(k, 64));
  else if (s->chunk == 3 && k) k = 1 + s->rng.below(std::min<size_t>(k, 7));
  else if (s->chunk == 4 && k) {  // line at a time, like a terminal
    size_t e = s->data->find('\n', s->pos);
    if (e != std::string::npos && e + 1 - s->pos < k) k = e + 1 - s->pos;
  }
  if (k && k < std::min(n, lim - s->pos)) count("fault.short_read");
  memcpy(b, s->data->data() + s->pos, k);
  s->pos += k;
  return (ssize_t)k;
}
// one write system call
ssize_t outWriteOnce(StdOut* s, const char* b, size_t n) {
  event("stdout.write", n);
  size_t k = n;
  if (s->chunk && k > 1) { size_t q = 1 + s->rng.below(std::min<size_t>(k, s->chunk)); if (q < k) { k = q; count("fault.short_write"); } }
  if (s->failAt >= 0 && !(s->oneShot && s->fired)) {
    if ((i64)s->data.size() >= s->failAt) {
      s->failed = s->fired = true;
      count("fault.stdout_error");
      event("stdout.FAIL", s->err);
      errno = s->err;
      return -1;
    }
    if ((i64)(s->data.size() + k) > s->failAt) k = (size_t)(s->failAt - (i64)s->data.size());
  }
  s->data.append(b, k);
  return (ssize_t)k;
}
// as stdio writes to a descriptor: it goes on after a short write and gives up after an error
ssize_t outWrite(void* c, const char* b, size_t n) {
  InRt in;
  size_t done = 0;
  while (done < n) {
    ssize_t k = outWriteOnce((StdOut*)c, b + done, n - done);
    if (k < 0) break;
    done += (size_t)k;
  }
  return (ssize_t)done;   // fewer than n mean an error
}
// standard error: every write succeeds and needs no memory of the program
struct ErrBuf : std::streambuf {
  std::string data;
  std::string str() const { return data; }
  int overflow(int c) override { InRt in; if (c != EOF) data.push_back((char)c); return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { InRt in; data.append(p, (size_t)n); return n; }
};
jmp_buf g_exitJmp;
bool g_inProcess = false;
int g_exitCode = 0;
int g_exitHost = 0;
}  // namespace

extern "C" void exit(int code) {
  if (g_inProcess) {
    g_exitCode = code;
    event("exit", code);
    t_host = g_exitHost;
    longjmp(g_exitJmp, 1);
  }
  // no atexit processing is wanted in simulated children
  if (g_inChild) syscall(SYS_exit_group, code);
  fflush(nullptr);
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
// the streams stay those of the simulated process
bool std::ios_base::sync_with_stdio(bool) { return true; }
namespace sim {
ProcResult runProcess(int (*mainFn)(int, const char**), const ProcCfg& cfg) {
  ProcResult res;
  InRt in;
  std::vector<const char*> argv;
  for (auto& s : cfg.argv) argv.push_back(s.c_str());
  argv.push_back(nullptr);
  StdOut* so = new StdOut{std::string(), cfg.stdoutFailAt, cfg.stdoutErr, cfg.stdoutOneShot, false, false, cfg.stdoutChunk, Rng(cfg.seed ^ 0x22)};
  StdIn* si = new StdIn{&cfg.stdinData, 0, cfg.stdinChunk, Rng(cfg.seed ^ 0x11), cfg.stdinFailAt, &cfg, so, 0};
  cookie_io_functions_t fi = {inRead, nullptr, nullptr, nullptr};
  cookie_io_functions_t fo = {nullptr, outWrite, nullptr, nullptr};
  FILE* fin = fopencookie(si, "r", fi);
  FILE* fout = fopencookie(so, "w", fo);
  static char inBuf[4096], outBuf[4096];
  setvbuf(fin, inBuf, _IOFBF, sizeof inBuf);
  setvbuf(fout, outBuf, _IOFBF, sizeof outBuf);
  auto* inb = new __gnu_cxx::stdio_sync_filebuf<char>(fin);
  auto* outb = new __gnu_cxx::stdio_sync_filebuf<char>(fout);
  auto* errb = new ErrBuf;
  auto* oi = std::cin.rdbuf(inb);
  auto* oo = std::cout.rdbuf(outb);
  auto* oe = std::cerr.rdbuf(errb);
  auto* ol = std::clog.rdbuf(errb);
  // C-level standard streams too (the program may use stdio directly)
  FILE* keepIn = stdin; FILE* keepOut = stdout;
  stdin = fin; stdout = fout;
  std::cin.clear(); std::cout.clear(); std::cerr.clear();
  std::cin.tie(&std::cout);
  int keepHost = t_host;
  g_exitHost = 0;
  volatile int code = 0;
  g_inProcess = true;
  if (cfg.onDeath) {
    static std::function<void()> death;
    death = [&] {
      // std::terminate: no destructor runs, what is buffered is lost
      g_inProcess = false;
      stdin = keepIn; stdout = keepOut;
      res.code = 134;
      res.out = so->data;
      res.outFailed |= so->failed;
      res.err = errb->str() + "terminate called";
      std::cin.rdbuf(oi); std::cout.rdbuf(oo); std::cerr.rdbuf(oe); std::clog.rdbuf(ol);
      std::cin.clear(); std::cout.clear(); std::cerr.clear();
      event("process.terminate", hashBytes(res.out.data(), res.out.size()));
      t_host = keepHost;
      cfg.onDeath(res);
    };
    std::set_terminate([] {
      heapFailAt(-1, 0);
      heapFailHere(-1, 0);
      ++t_host;
      death();
      violation("abort", "std::terminate");
    });
  }
  if (setjmp(g_exitJmp) == 0) {
    t_host = 0;
    if (cfg.oomAt >= 0) heapFailAt(cfg.oomAt, cfg.oomCount);
    int c = mainFn((int)argv.size() - 1, argv.data());
    t_host = keepHost;
    code = c;
  } else {
    t_host = keepHost;
    code = g_exitCode;
  }
  if (cfg.oomAt >= 0) heapFailAt(-1, 0);
  g_inProcess = false;
  if (cfg.onDeath) std::set_terminate(__gnu_cxx::__verbose_terminate_handler);
  // normal exit: the runtime flushes the standard streams; errors go unnoticed
  std::cout.flush();
  if (fflush(fout) != 0) res.outFailed = true;
  stdin = keepIn; stdout = keepOut;
  res.code = code & 0xff;
  res.out = so->data;
  res.outFailed |= so->failed;
  res.err = errb->str();
  std::cin.rdbuf(oi); std::cout.rdbuf(oo); std::cerr.rdbuf(oe); std::clog.rdbuf(ol);
  std::cin.clear(); std::cout.clear(); std::cerr.clear();
  event("process.end", res.code, hashBytes(res.out.data(), res.out.size()));
  return res;
}
}  // namespace sim
