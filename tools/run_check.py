#!/usr/bin/env python3
"""Check one property: build the simulator from /repo, search seeds on all cores, write the evidence file.

usage: run_check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
"""
import json, os, subprocess, sys, time, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS

NSH = 8
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

def known_entries(prop):
    r = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    except OSError: pass
    return r

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    try:
        simbin = B.build()
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e, file=sys.stderr)
        return 3
    tbuild = time.time() - t0
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if tier == "quick":
        count, cap, minb = c["quick"], c.get("quick_cap", 120), 60
    else:
        count, cap, minb = 1 << 40, float(os.environ.get("JPP_THOROUGH_SECONDS", c.get("thorough_seconds", 600))), 100
    procs = []
    for i in range(NSH):
        cmd = [simbin, "run", prop, "--seed", str(seed), "--count", str(count), "--shard", str(i), "--nshards", str(NSH),
               "--cap", str(cap), "--min", str(minb), "--outdir", outdir, "--known", KNOWN]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    import threading
    outs = [None] * NSH
    def drain(i): outs[i] = procs[i].communicate()
    ths = [threading.Thread(target=drain, args=(i,)) for i in range(NSH)]
    for t in ths: t.start()
    # one violation is enough: give the other shards a little time, then stop them
    first = None
    while any(t.is_alive() for t in ths):
        time.sleep(0.1)
        for i, p in enumerate(procs):
            if p.poll() == 1 and first is None: first = time.time()
        if first is not None and time.time() - first > 1.0:
            for p in procs:
                if p.poll() is None: p.terminate()
            for t in ths: t.join(5)
            for p in procs:
                if p.poll() is None: p.kill()
    for t in ths: t.join()
    res, errors = [], []
    for i, p in enumerate(procs):
        try:
            res.append(json.loads(outs[i][0]))
        except Exception:
            if first is None or p.returncode not in (0, 1, -9, -15): errors.append("shard %d: exit %s %s" % (i, p.returncode, (outs[i][1] or "")[-2000:]))
    if not res and first is not None: errors.append("a shard stopped with exit status 1 and no readable result")
    agg = dict(runs=0, gate_pairs=0, steps=0, points=0, switches=0, events=0, simns=0)
    ctr, states, scheds, hashes = {}, set(), set(), set()
    viols = []
    for r in res:
        for k in agg: agg[k] += r.get(k, 0)
        for k, v in r["ctr"].items(): ctr[k] = ctr.get(k, 0) + v
        states.update(r["states"]); scheds.update(r["scheds"]); hashes.update(r["hashes"])
        if "error" in r: errors.append(r["error"])
        if "violation" in r: viols.append(r["violation"])
    if not res and errors:
        # no shard got as far as its first run: does the common set-up, which runs real code too, fail in the same way again?
        g = subprocess.run([simbin, "setup", prop, "--outdir", outdir], capture_output=True, text=True, errors="replace")
        try:
            v = json.loads(g.stdout)
            if g.returncode == 1 and "replay" in v:
                viols.append(v)
                errors = []
        except Exception: pass
    wall = max([r["wall"] for r in res] or [0.001])
    samples = []
    for k in range(3):
        g = subprocess.run([simbin, "gen", prop, str(seed * 1000003 + k)], capture_output=True, text=True, errors="replace")
        samples.append(g.stdout)
    confirmed = []
    for v in viols:
        rp = v["replay"]
        a = subprocess.run([simbin, "replay", rp, "--known", KNOWN], capture_output=True, text=True, errors="replace")
        b = subprocess.run([simbin, "replay", rp, "--known", KNOWN], capture_output=True, text=True, errors="replace")
        try:
            ja, jb = json.loads(a.stdout), json.loads(b.stdout)
        except Exception:
            ja = jb = {"status": "?", "hash": "?", "class": "?"}
        ok = ja["status"] == jb["status"] == "violation" and ja["class"] == jb["class"] == v["outcome"]["class"] and \
            (ja["class"] == "hang" or ja["hash"] == jb["hash"] == v["outcome"]["hash"])
        if ok: confirmed.append(v)
        else: errors.append("replay in a fresh process differs: %s %s %s" % (rp, a.stdout.strip(), v["outcome"]))
    faults = {k[6:]: v for k, v in ctr.items() if k.startswith("fault.")}
    kn = known_entries(prop)
    seen_known = [(s, t) for s, t in kn if ctr.get("known." + s)]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": c["rule"] + " Two runs count as distinct when the hash over their recorded events (scheduling decisions, I/O calls, faults, observed results) differs.",
            "samples": samples,
            "simulated_runs": agg["runs"],
            "runs_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
            "seeds": "%d*1000003 + 0..%d" % (seed, max(0, agg["runs"] - 1)),
            "seeds_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
            "simulated_time": {"memory_access_steps": agg["steps"], "scheduling_points": agg["points"], "context_switches": agg["switches"],
                               "logged_events": agg["events"], "virtual_clock_seconds": round(agg["simns"] / 1e9, 6)},
            "faults_injected": faults,
            "probes": {k: v for k, v in ctr.items() if not k.startswith("fault.") and not k.startswith("known.")},
            "distinct_interleavings": len(scheds) if agg["switches"] else 0,
            "distinct_states": len(states),
            "state_measure": c.get("state_measure", "hash chosen by the harness over the observable state at the end of the run"),
            "determinism_gate_pairs": agg["gate_pairs"],
            "real_components": c["real"],
            "stubbed_components": c["stub"],
            "known_findings_seen": {s: ctr.get("known." + s, 0) for s, _ in kn},
            "build_seconds": round(tbuild, 1),
        },
        "assumptions": c["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    tmp = os.path.join(evdir, prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f: json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(evdir, prop + ".json"))
    for s, t in seen_known: print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s %s: %d runs, %d distinct, %d interleavings, %.1fs (+%.1fs build), faults %s" %
          (prop, tier, agg["runs"], len(hashes), len(scheds), wall, tbuild, faults))
    if confirmed:
        for v in confirmed[:3]:
            print("  %s: %s" % (v["outcome"]["class"], v["outcome"]["msg"].encode("ascii", "backslashreplace").decode()))
        for v in confirmed[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if errors:
        print("CHECK ERROR: " + "\n".join(errors[:4]), file=sys.stderr)
        return 2
    # a search which was cut off by the time cap must still have done a meaningful part of its work
    if tier == "quick" and agg["runs"] < min(c["quick"], c.get("quick_min", 50)):
        print("CHECK ERROR: only %d runs" % agg["runs"], file=sys.stderr)
        return 2
    for rel, low in c.get("must_reach", {}).items():
        if tier == "quick" and ctr.get(rel, 0) < low:
            print("note: probe %s reached only %d times" % (rel, ctr.get(rel, 0)), file=sys.stderr)
    return 0

if __name__ == "__main__":
    sys.exit(main())
