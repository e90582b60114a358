#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Objects are cached by content: key = sha256(compiler, flags, content of every file the
object depended on when it was last compiled).  Modification times are never consulted.
All output goes to /verif/build (git-ignored).
"""
import glob, hashlib, json, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JPP_REPO", "/repo")
OUT = os.environ.get("JPP_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
CC = "gcc"
NJ = os.cpu_count() or 4

_hash_cache = {}
def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f: h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h

def sha(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p.encode() if isinstance(p, str) else p); m.update(b"\0")
    return m.hexdigest()

class BuildError(Exception): pass

_ver = {}
def compiler_version(c):
    if c not in _ver:
        _ver[c] = subprocess.run([c, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _ver[c]

def run(cmd, cwd=None):
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s%s" % (" ".join(cmd), r.stdout[-4000:], r.stderr[-8000:]))
    return r.stdout

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    with open(path, "w") as f: f.write(text)
    _hash_cache.pop(path, None)

def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [x.replace("\\ ", " ") for x in re.findall(r"(?:\\ |\S)+", txt)]

def compile_one(src, flags, compiler=CXX):
    """returns path of object file"""
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    idkey = sha(compiler_version(compiler), " ".join(flags), os.path.abspath(src))[:24]
    meta = os.path.join(objdir, idkey + ".deps.json")
    try:
        deps = json.load(open(meta))
    except (OSError, ValueError):
        deps = None
    if deps is not None:
        key = sha(idkey, *["%s=%s" % (d, fhash(d)) for d in deps])[:32]
        obj = os.path.join(objdir, idkey + "-" + key + ".o")
        if os.path.exists(obj): return obj, False
    tmp = os.path.join(objdir, idkey + ".%d.tmp.o" % os.getpid())
    dep = tmp + ".d"
    run([compiler] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    deps = sorted(set(os.path.normpath(d) for d in parse_dep(dep)))
    # system headers do not change between runs in this sandbox
    deps = [d for d in deps if not d.startswith("/usr/")]
    os.unlink(dep)
    key = sha(idkey, *["%s=%s" % (d, fhash(d)) for d in deps])[:32]
    obj = os.path.join(objdir, idkey + "-" + key + ".o")
    for old in glob.glob(os.path.join(objdir, idkey + "-*.o")):
        if old != obj:
            try: os.unlink(old)
            except OSError: pass
    os.rename(tmp, obj)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f: json.dump(deps, f)
    os.rename(meta + ".tmp%d" % os.getpid(), meta)
    return obj, True

def compile_many(jobs, optional=()):
    # keeps the order for linking; an optional file that does not compile is left out
    with ThreadPoolExecutor(NJ) as ex:
        futs = [ex.submit(compile_one, *j) for j in jobs]
        objs, n = [], 0
        err = None
        for j, f in zip(jobs, futs):
            try:
                o, fresh = f.result(); objs.append(o); n += fresh
            except BuildError as e:
                if j[0] in optional: print("left out %s: %s" % (j[0], str(e)[:3000]), file=sys.stderr)
                else: err = err or e
        if err: raise err
    return objs, n

def localize(obj, keep):
    """makes every strong symbol except the entry point local to the object"""
    out = obj[:-2] + ".loc.o"
    if os.path.exists(out): return out
    syms = []
    for l in run(["nm", "--defined-only", "-g", obj]).split("\n"):
        p = l.split()
        if len(p) == 3 and p[1] in "TDBRG" and keep not in p[2]: syms.append(p[2])
    lst = out + ".syms"
    with open(lst, "w") as f: f.write("\n".join(syms) + "\n")
    run(["objcopy", "--localize-symbols=" + lst, obj, out + ".tmp"])
    os.unlink(lst)
    os.rename(out + ".tmp", out)
    return out

def link(out, objs, extra):
    key = sha(" ".join(extra), *objs)
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return False
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + ".rsp"
    with open(rsp, "w") as f: f.write("\n".join(objs))
    run([CXX, "-o", out + ".tmp", "@" + rsp] + extra)
    os.rename(out + ".tmp", out)
    with open(stamp, "w") as f: f.write(key)
    return True

def cmake_config(text, vals):
    def cd(m):
        name = m.group(1); rest = m.group(2)
        return "#define %s%s" % (name, rest) if vals.get(name) else "/* #undef %s */" % name
    text = re.sub(r"#cmakedefine (\w+)([^\n]*)", cd, text)
    text = re.sub(r"@(\w+)@", lambda m: str(vals.get(m.group(1), "")), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: str(vals.get(m.group(1), "")), text)
    return text

def srcs(*pats):
    r = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, "src", p))):
            b = os.path.basename(f)
            if re.search(r"_test\.(cc|cpp)$", b) or "win32" in b: continue
            r.append(f)
    return r

def build(verbose=True):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(OUT, "gen")
    cfg = os.path.join(gen, "cfg")
    vals = dict(JPP_MAX_DIC_FIELDS=16, JPP_PREFETCH_FEATURE_WEIGHTS=1, JPP_ENABLE_DEV_TOOLS=1,
                JPP_USE_PROTOBUF=1, JPP_TRAIN_VIOLATION_INVALID=1, JPP_HAS_BACKWARD=1,
                JPP_DEFAULT_CONFIG_DIR="/nonexistent/jumanpp", JUMANPP_FULL_VERSION="2.0.0-dev.sim",
                CG_SPEC_INCLUDE="shared/jumandic_spec.h", CG_SPEC_NAME="jumanpp::jumandic::SpecFactory")
    S = os.path.join(REPO, "src")
    for rel, name in (("core/core_config.h.in", "core_config.h"), ("core/core_version.h.in", "core_version.h"),
                      ("util/util_config.h.in", "util_config.h")):
        write_if_changed(os.path.join(cfg, name), cmake_config(open(os.path.join(S, rel)).read(), vals))
    cgmain = os.path.join(gen, "jpp_jumandic_cg_codegen_main.cc")
    write_if_changed(cgmain, cmake_config(open(os.path.join(S, "core/codegen/codegen_main.cc.in")).read(), vals))
    # protobuf
    protos = [(os.path.join(S, "core/proto"), "lattice_dump.proto"), (os.path.join(S, "jumandic/proto"), "juman.proto"),
              (os.path.join(S, "jumandic/proto"), "jumanpp.proto")]
    pk = sha(*[fhash(os.path.join(d, f)) for d, f in protos])
    pstamp = os.path.join(gen, "proto.key")
    if not (os.path.exists(pstamp) and open(pstamp).read() == pk):
        for d, f in protos:
            run(["protoc", "--cpp_out", gen, "-I", d, "-I", os.path.join(S, "core/proto"), os.path.join(d, f)])
        write_if_changed(pstamp, pk)
        _hash_cache.clear()
    inc = ["-I" + os.path.join(REPO, "libs"), "-I" + cfg, "-I" + gen, "-I" + S,
           "-I" + os.path.join(REPO, "libs/pathie-cpp/include"), "-I" + os.path.join(VERIF, "src")]
    base = ["-DJPP_SIMULATION=1", "-std=c++14", "-g1", "-DNDEBUG", "-w", "-fno-pie", "-fno-omit-frame-pointer"] + inc
    inst = base + ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
                   "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]
    fast = base + ["-O2"]
    util = srcs("util/*.cc", "util/*.cpp")
    rnn = srcs("rnn/mikolov_rnn.cc")
    core = srcs("core/*.cc", "core/analysis/*.cc", "core/dic/*.cc", "core/impl/*.cc", "core/input/*.cc",
                "core/spec/*.cc", "core/training/*.cc", "core/proto/*.cc", "core/api/*.cc")
    cg = srcs("core/codegen/*.cc")
    tool = [f for f in srcs("core/tool/*.cc")]
    jd = srcs("jumandic/shared/*.cc")
    pb = [os.path.join(gen, f) for f in ("lattice_dump.pb.cc", "juman.pb.cc", "jumanpp.pb.cc")]
    pathie_flags = ["-O1", "-g1", "-w", "-fno-pie", "-std=c++14", '-DPATHIE_VERSION_GIT="jumanpp"', "-DPATHIE_VERSION_MAJOR=0",
                    "-DPATHIE_VERSION_MINOR=1", "-DPATHIE_VERSION_PATCH=0", "-D_PATHIE_UNIX=1",
                    "-I" + os.path.join(REPO, "libs/pathie-cpp/include")]
    pathie = sorted(glob.glob(os.path.join(REPO, "libs/pathie-cpp/src/*.cpp")))
    # 1. instrumented objects of everything; the code generator reuses them
    jobs = []
    for f in util + rnn + core + cg: jobs.append((f, inst))
    specs = [f for f in jd if os.path.basename(f).startswith("jumandic_spec")]
    for f in specs: jobs.append((f, inst))
    ncore = len(jobs)
    for f in pb: jobs.append((f, fast))
    for f in pathie: jobs.append((f, pathie_flags))
    nlib = len(jobs)
    jobs.append((cgmain, fast + ["-I" + os.path.join(S, "jumandic")]))
    rt = [os.path.join(VERIF, "src", f) for f in ("rt.cc", "sched.cc", "fs.cc", "runner.cc")]
    for f in rt: jobs.append((f, fast + ["-fno-threadsafe-statics"]))
    stub = os.path.join(VERIF, "src", "tsan_stub.cc")
    jobs.append((stub, fast))
    jdrest = [f for f in jd if f not in specs]
    late = [(f, inst) for f in jdrest if os.path.basename(f) != "jumandic_env.cc"]
    mains = [("jumandic/main/jumanpp.cc", "jpp_main_jumanpp"), ("jumandic/main/jumanpp_train.cc", "jpp_main_train"),
             ("jumandic/main/bootstrap.cc", "jpp_main_bootstrap"), ("core/tool/jumanpp_tool.cc", "jpp_main_tool")]
    mainfiles = [os.path.join(S, m) for m, _ in mains]
    for f in tool:
        if f not in mainfiles: late.append((f, inst))
    for m, fn in mains:
        late.append((os.path.join(S, m), inst + ["-Dmain=" + fn]))
    harness = sorted(glob.glob(os.path.join(VERIF, "src", "h_*.cc"))) + [os.path.join(VERIF, "src", "world.cc"), os.path.join(VERIF, "src", "anexec.cc")]
    hlate = [(f, inst) for f in harness]
    # a harness that no longer fits the code takes only the checks in it with it
    optional = set(f for f in harness if os.path.basename(f).startswith("h_"))
    objs, n1 = compile_many(jobs + late)
    cgobj = objs[nlib]
    rtobjs = objs[nlib + 1: nlib + 1 + len(rt)]
    stubobj = objs[nlib + 1 + len(rt)]
    lateobjs = objs[len(jobs):]
    # the tools' own helpers must not collide with each other
    for i, (f, _) in enumerate(late):
        if f in mainfiles: lateobjs[i] = localize(lateobjs[i], dict((os.path.join(S, m), fn) for m, fn in mains)[f])
    libs = ["-no-pie", "/usr/lib/x86_64-linux-gnu/libprotobuf.a", "-lpthread", "-ldl", "-lz"]
    cgbin = os.path.join(OUT, "codegen")
    link(cgbin, objs[:nlib] + [cgobj, stubobj], libs)
    cgk = open(cgbin + ".key").read()
    cgstamp = os.path.join(gen, "cg.key")
    if not (os.path.exists(cgstamp) and open(cgstamp).read() == cgk and os.path.exists(os.path.join(gen, "jpp_jumandic_cg.cc"))):
        run([cgbin, "jpp_jumandic_cg", "JumandicStatic", gen])
        write_if_changed(cgstamp, cgk)
        _hash_cache.clear()
    obj2, n2 = compile_many([(os.path.join(gen, "jpp_jumandic_cg.cc"), inst),
                             (os.path.join(S, "jumandic/shared/jumandic_env.cc"), inst)] + hlate, optional)
    simbin = os.path.join(OUT, "sim")
    link(simbin, objs[:nlib] + lateobjs + obj2 + rtobjs, libs + ["-rdynamic"])
    if verbose:
        print("build: %d compiled, %.1fs" % (n1 + n2, time.time() - t0), file=sys.stderr)
    return simbin

if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(str(e), file=sys.stderr); sys.exit(3)
