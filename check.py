#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py build              build the simulator from /repo (content-keyed, under build/)
  check.py run ID             decide property ID; VERIF_SEED and VERIF_TIER are honoured
  check.py replay FILE        replay a violation file exactly
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
QUICK = float(os.environ.get("VERIF_SECONDS", "40"))
THOROUGH = float(os.environ.get("VERIF_SECONDS", "600"))

OPS = "one instruction of one of 12 compilations of the inline operations, run on the real CPU under single-stepping"
LIB = "one memory access or branch of the real library code"
SCEN = {
 "ops": dict(real=["include/rseq (x86-64 operations, accessors) in 12 compilations by gcc and clang, run on the real CPU", "include/rseq operations for aarch64, arm, i386, loongarch64, mips (32/64, both endians), powerpc, ppc64le, riscv32/64 and s390x cross-compiled, run by an instruction emulator", "src/rseq.c fallbacks"],
   stub=["kernel: rseq registration area, abort on preemption/migration/signal, mm_cid, membarrier fence (per the kernel's documented rules)", "scheduler and CPUs", "aarch64, arm, i386, loongarch64, mips (32/64, both endians), powerpc, ppc64le, riscv32/64 and s390x processors (emulated, unordered store buffers)"],
   step=OPS),
 "mem": dict(real=["include/rseq ordering helpers and single-access macros in the same x86-64 compilations (real CPU) and in the aarch64, arm, i386, loongarch64, mips (32/64, both endians), powerpc, ppc64le, riscv32/64 and s390x ones (emulated)"],
   stub=["memory system: store buffers, out-of-order visibility and stale loads as each architecture permits", "scheduler and CPUs"], step=OPS),
 "reg": dict(real=["src/rseq.c: constructor, registration, queries, fallbacks", "include/rseq/rseq.h accessors"], stub=["kernel: rseq, getcpu, sched_getcpu", "libc: __rseq_* symbols, auxiliary vector, locks", "scheduler and CPUs"], step=LIB),
 "smp": dict(real=["src/smp.c, src/rseq.c rseq_get_max_nr_cpus, pool auto-detection"], stub=["sysfs files and directories, sysconf", "scheduler"], step=LIB),
 "pool": dict(real=["src/rseq-mempool.c, include/rseq/mempool.h", "the kernel's own mmap, memfd, madvise and fork, behind a fault-injecting seam"], stub=["heap, locks, NUMA calls, address-space placement", "scheduler and CPUs"], step=LIB),
 "set": dict(real=["src/rseq-mempool.c pool sets and pools", "the kernel's own mmap, memfd and madvise, behind a fault-injecting seam"], stub=["heap, locks, address-space placement", "scheduler and CPUs"], step=LIB),
 "big": dict(real=["src/rseq-mempool.c with strides, counts and sizes up to the address-space limits", "the kernel's own mmap and memfd behind a fault-injecting seam"], stub=["heap, locks, address-space placement", "scheduler and CPUs"], step=LIB),
}
PROP_SC = {**{f"C0{i}": ["ops"] for i in range(1, 9)}, **{p: ["reg"] for p in ("C09", "C10", "C11", "C12")}, "C13": ["smp"],
 **{p: ["pool", "set", "big"] for p in ("C14", "C15", "C17", "C18")}, **{p: ["pool", "big"] for p in ("C16", "C20", "C23")},
 **{p: ["pool"] for p in ("C19", "C22", "C24")}, "C21": ["set", "big"], "C25": ["mem"]}

def tree_key():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(V, "sim"), os.path.join(V, "build.sh")]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs)
        for f in files:
            if f.endswith((".o", ".lo", ".pyc")): continue
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def build():
    d = os.path.join(V, "build", tree_key()); exe = os.path.join(d, "simrun")
    if os.path.exists(exe): return exe
    base = os.path.join(V, "build"); os.makedirs(base, exist_ok=True)
    olds = sorted((os.path.join(base, x) for x in os.listdir(base) if not x.startswith(("run-", "tmp-"))), key=os.path.getmtime)
    for o in olds[:-3]: shutil.rmtree(o, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=base)
    r = subprocess.run(["bash", os.path.join(V, "build.sh"), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        print(r.stdout[-4000:]); print("ERROR: the simulator does not build"); sys.exit(2)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def known_findings(prop):
    out = {}
    for line in open(os.path.join(V, "known-findings.txt")):
        if line.startswith("known: property=%s " % prop):
            rest = line.strip().split(" ", 2)[2]
            key, _, what = rest.partition(" "); out[key[len("key="):]] = what
    return out

def replay(exe, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
    return r.returncode, r.stdout

def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = THOROUGH if tier == "thorough" else QUICK
    exe = build()
    work = tempfile.mkdtemp(prefix="run-", dir=os.path.join(V, "build"))
    ev = os.path.join(V, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    try: return decide(prop, tier, seed, secs, exe, work, ev, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, secs, exe, work, ev, t0):
    n = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(os.cpu_count() or 8, 16))
    ps = []
    for w in range(n):
        ps.append(subprocess.Popen([exe, "run", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--nworkers", str(n), "--seconds", str(secs),
            "--out", f"{work}/{w}.json", "--raw", f"{work}/{w}.raw", "--hashes", f"{work}/{w}.h"], start_new_session=True))
    deadline = time.time() + secs + 240
    live = set(range(n)); found = []; errors = []
    while live:
        for w in list(live):
            rc = ps[w].poll()
            if rc is None: continue
            live.discard(w)
            if rc == 1: found.append(w)
            elif rc != 0: errors.append(w)
        if found and live:		# one violation is enough: give the others a moment, then stop
            time.sleep(0.5)
            for w in list(live):
                if ps[w].poll() is None:
                    try: os.killpg(ps[w].pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    ps[w].wait(); live.discard(w)
        if time.time() > deadline:
            for w in list(live):
                os.killpg(ps[w].pid, signal.SIGKILL); ps[w].wait(); errors.append(w); live.discard(w)
        if live: time.sleep(0.05)
    res = []; hashes = set()
    for w in range(n):
        try: res.append((w, json.load(open(f"{work}/{w}.json"))))
        except Exception: continue
        try:
            b = open(f"{work}/{w}.h", "rb").read()
            hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError: pass
    violation = None
    for w, d in res:
        if not d["violated"]: continue
        raw = f"{work}/{w}.raw"; rc, _ = replay(exe, raw)		# a fresh process must see it too
        if rc != 1: errors.append(w); continue
        out = os.path.join(ev, "replay", f"{prop}-{d['badseed']}.replay"); small = f"{work}/{w}.min"
        budget = 20 if tier == "quick" else 90
        r = subprocess.run([exe, "shrink", raw, small, str(budget)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        good = raw
        if r.returncode == 0:
            a, b = replay(exe, small), replay(exe, small)
            if a[0] == 1 and a == b: good = small
        shutil.copy(good, out)
        violation = (out, d["cls"], d["msg"]); break
    known = known_findings(prop); kseen = {}
    for _, d in res:
        for k, c in d["known"].items(): kseen[k] = kseen.get(k, 0) + c
    evidence(prop, tier, seed, ev, res, hashes, violation, kseen, n, time.time() - t0)
    if violation:
        print(f"{prop}: {violation[1]}: {violation[2]}")
        print(f"VIOLATION property={prop} replay={violation[0]}"); return 1
    if errors or not res:
        for w, d in res:
            if d["rc"]: print(f"ERROR: {d['err']}")
        print("ERROR: no verdict"); return 2
    for k, c in kseen.items():
        if k in known: print(f"KNOWN-FINDING: property={prop} {known[k]} (seen in {c} runs)")
    tot = sum(d["runs"] for _, d in res)
    print(f"{prop}: held in {tot} simulated runs ({len(hashes)} distinct interleavings), seed {seed}, {time.time() - t0:.0f} s")
    return 0

def evidence(prop, tier, seed, ev, res, hashes, violation, kseen, n, wall):
    S = lambda k: sum(d[k] for _, d in res)
    stats = {}; runs_with = {}
    for _, d in res:
        for k, (a, b) in d["stats"].items(): stats[k] = stats.get(k, 0) + a; runs_with[k] = runs_with.get(k, 0) + b
    runs = S("runs"); el = max([d["elapsed"] for _, d in res] or [1]) or 1
    samples = [s for _, d in res for s in d["samples"]][:4]
    cov = dict(evaluations=runs, distinct_nontrivial=len(hashes),
        rule="A case is one simulated run: a seed determines the configuration, the operations of every thread, every scheduling decision and every fault. Non-trivial: at least one scheduling event or fault was decided during the run. Distinct: the hash over all decisions, observed results and thread switch positions differs from that of every other run.",
        samples=samples or ["none"],
        runs_per_hour=int(runs / el * 3600), each_run_has_its_own_seed=True, workers=n,
        simulated_time=dict(steps=S("steps"), step_is=sorted({SCEN[s]["step"] for s in PROP_SC[prop]}), operations=S("ops"), note="the library reads no clock; time is counted in steps"),
        decisions_logged=S("events"),
        scheduling_events={k[3:]: v for k, v in sorted(stats.items()) if k.startswith("ev:")},
        faults_injected={k[6:]: dict(count=v, runs=runs_with[k]) for k, v in sorted(stats.items()) if k.startswith("fault:")},
        situations_reached={k: dict(count=v, runs=runs_with[k]) for k, v in sorted(stats.items()) if not k.startswith(("ev:", "fault:"))},
        determinism_checks=S("detchecks"),
        determinism_rule="every 61st run and every violation is executed again from its seed and once more from its recorded decision log; all three must give the same trace hash",
        components={s: dict(real=SCEN[s]["real"], stub=SCEN[s]["stub"]) for s in PROP_SC[prop]},
        known_findings_seen=kseen)
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=1 if violation else 0,
        assumptions=["the simulated kernel follows the documented rseq rules", "library code interleaves sequentially consistently at memory-access granularity; operations at instruction granularity, with store buffers and early loads where the evidence names guests or scenario mem", "search is seeded sampling, not exhaustive"])
    if violation: e["coverage"]["violation"] = dict(replay=violation[0], cls=violation[1], message=violation[2])
    with open(os.path.join(ev, prop + ".json"), "w") as f: json.dump(e, f, indent=1)

if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "build": print(build()); sys.exit(0)
    if len(sys.argv) == 3 and sys.argv[1] == "run": sys.exit(run(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        rc, out = replay(build(), sys.argv[2]); print(out, end=""); sys.exit(rc)
    print(__doc__); sys.exit(2)
