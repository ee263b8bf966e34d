#!/usr/bin/env python3
"""Runs the check of one property:  run_check.py C01 [--thorough] [--only OP] [--keep]

1. compiles the kernel libraries (thin wrappers around the library's public functions, src/k_*.cpp) from
   /repo's current working tree, once per instruction-set configuration and floating-point type;
2. compiles the explorer (src/h_*.cpp; contains the enumeration and the reference model, no library code);
3. runs it, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation, 2 the check itself could not run."""
import json, os, re, shutil, subprocess, sys, time, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NOVA_REPO", "/repo")
SRC = os.path.join(HERE, "src")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS   # noqa

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"): return set(l.split(":", 1)[1].split())
    except OSError: pass
    return {"sse4_1", "avx", "avx2", "fma"}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compiler_works(tmp):
    p = os.path.join(tmp, "probe.cpp")
    open(p, "w").write("#include <cmath>\n#include <immintrin.h>\nextern \"C\" double f(double x){return std::sin(x);}\n")
    return run(["g++", "-std=gnu++14", "-shared", "-fPIC", "-o", p + ".so", p]).returncode == 0

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    thorough = "--thorough" in sys.argv or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv)
    only = None
    if "--only" in sys.argv: only = sys.argv[sys.argv.index("--only") + 1]; a = [x for x in a if x != only]
    pid = a[0]; c = CHECKS[pid]; tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bd = os.path.join(HERE, "build", pid); shutil.rmtree(bd, ignore_errors=True); os.makedirs(bd)
    rp_dir = os.path.join(HERE, "replay"); os.makedirs(rp_dir, exist_ok=True); rp = os.path.join(rp_dir, pid + ".json")
    flags = cpu_flags(); skipped = []; jobs = []
    for lib in c["libs"]:
        group, src, defs = lib[:3]
        cfgs = c.get("configs", [k for k in CONFIGS if not CONFIGS[k].get("extra") or ((thorough or c.get("clang")) and CONFIGS[k].get("deep"))])
        if len(lib) > 3 and (not thorough or CONFIGS[lib[3][0]].get("extra")): cfgs = lib[3]      # quick tier: subset of the configurations
        for cfg in cfgs:
            d = CONFIGS[cfg]
            if not shutil.which(d.get("cxx", "g++")): skipped.append("%s (no %s)" % (cfg, d["cxx"])); continue
            miss = [f for f in d["need"] if f not in flags]
            if miss: skipped.append("%s (CPU lacks %s)" % (cfg, ",".join(miss))); continue
            for ty in c.get("types", ("float", "double")):
                out = os.path.join(bd, "%s__%s__%s.so" % (group, cfg, ty))
                cmd = [d.get("cxx", "g++"), "-std=gnu++14", "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-Bsymbolic"] + (["-fno-gnu-unique"] if d.get("cxx","g++") == "g++" else []) \
                    + d["flags"].replace("@SRC", SRC).split() + c.get("libflags", "").split() + ["-DKT=" + ty, "-DCFG_" + cfg] + defs.split() + ["-I", REPO, "-I", SRC, "-o", out, os.path.join(SRC, src)] + c.get("liblink", "").split()
                jobs.append((group, cfg, ty, out, cmd))
    custom = None
    if c.get("custom"):
        if not compiler_works(bd): print("ERROR: compiler unusable"); return 2
        custom, extra_notes = __import__(c["custom"]).explore(REPO, bd, CONFIGS, flags, thorough, SRC); skipped += extra_notes
    stages = [] if custom else c.get("stages") or [(c["harness"], c.get("args", ""), None)]      # (explorer, arguments, library groups or all)
    hbins = {src: os.path.join(bd, "explorer" + ("" if i == 0 else str(i))) for i, src in enumerate(dict.fromkeys(st[0] for st in stages))}
    hcmds = [["g++", "-std=gnu++17", "-O3", "-ffp-contract=off", "-w", "-pthread"] + c.get("hflags", "").split() + ["-I", SRC, "-o", hb, os.path.join(SRC, src), "-ldl"] for src, hb in hbins.items()]
    def comp(j):
        r = run(j[4])
        if r.returncode: r = run(j[4])
        return j, r
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fh = [ex.submit(run, hc) for hc in hcmds]
        res = list(ex.map(comp, jobs))
        hs = [f.result() for f in fh]
    t_build = time.time() - t0
    for h in hs:
        if h.returncode: print(h.stdout[-3000:]); print("ERROR: explorer did not compile"); return 2
    viols = []; libs = []; notes = list(dict.fromkeys(skipped))
    for j, r in res:
        if r.returncode == 0: libs.append(j[3]); continue
        d = CONFIGS[j[1]]
        if not compiler_works(bd): print("ERROR: compiler unusable"); return 2
        log = r.stdout[:1500]
        if d["ci"] and not c.get("internal"):
            viols.append(dict(key="compile %s %s %s" % (j[0], j[1], j[2]), text="public functions of group %s do not compile for %s (%s): %s" % (j[0], j[2], d["flags"], log)))
        else: notes.append("%s/%s/%s does not compile, skipped: %s" % (j[0], j[1], j[2], log[:300]))
    resf = os.path.join(bd, "result.json")
    out = custom
    for src, args, groups in stages:
        use = [l for l in libs if groups is None or os.path.basename(l).split("__")[0] in groups]
        if not use: continue
        cmd = [hbins[src], "--out", resf] + (["--thorough"] if thorough else []) + (["--only", only] if only else []) + args.split() + use
        env = dict(os.environ); env.pop("LD_PRELOAD", None); one = None
        for attempt in (1, 2):
            if os.path.exists(resf): os.remove(resf)
            try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=None if thorough else 780)
            except subprocess.TimeoutExpired: print("ERROR: explorer exceeded its time limit"); return 2
            if os.path.exists(resf) and p.returncode == 0:
                try: one = json.load(open(resf)); break
                except ValueError: pass
        if one is None:
            sig = -p.returncode if p.returncode < 0 else None
            print(p.stdout[-2000:])
            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT):
                viols.append(dict(key="process crash", text="a library call corrupted the exploring process: it dies reproducibly with signal %d; last output: %s" % (sig, p.stdout[-500:])))
                one = dict(complete=False, states=0, transitions=0, traces=0, extra={}, worst={}, samples=[], violations=[], nviol=1)
            else: print("ERROR: explorer failed (exit %s)" % p.returncode); return 2
        if out is None: out = one
        else:
            for k in ("states", "transitions", "traces", "nviol"): out[k] += one[k]
            for k in ("extra", "worst"): out[k].update(one[k])
            for k in ("samples", "violations"): out[k] += one[k]
            out["complete"] = out["complete"] and one["complete"]
    if not libs and not viols and not custom:
        if c.get("optional"):     # nothing to judge: the change needs parts of the instruction-set model that do not exist
            out = dict(complete=False, states=0, transitions=0, traces=0, extra={}, worst={}, samples=[], violations=[], nviol=0)
        else: print("ERROR: no configuration could be built: %s" % notes); return 2
    if out is None: out = dict(complete=False, states=0, transitions=0, traces=0, extra={}, worst={}, samples=[], violations=[], nviol=len(viols))
    viols += out["violations"]
    if not viols and not out["complete"] and libs or custom and not viols and not out["complete"]: print("ERROR: exploration incomplete"); return 2
    if not viols and not only and not (c.get("optional") and len(libs) < len(jobs)) and out["states"] < c.get("min_states", 1): print("ERROR: vacuous exploration (%d states)" % out["states"]); return 2
    # known findings (exact key)
    known = {}
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    new = [v for v in viols if v["key"] not in known]
    for v in viols:
        if v["key"] in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]))
    built = out.get("configurations") or sorted(set("%s" % os.path.basename(l).split("__")[1] for l in libs))
    cov = dict(states=out["states"], transitions=out["transitions"], traces_validated_against_impl=out["traces"], samples=out["samples"] or ["none"],
               exhaustive=bool(out["complete"]) and not only, rule=c["rule"], bounds=c["bounds"][1 if thorough else 0], configurations=built,
               build_s=round(t_build, 1), libraries=len(libs), notes=notes, measured_worst=out["worst"], counters=out["extra"])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=c["assumptions"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: states=%d transitions=%d behaviours=%d configs=%s wall=%.1fs violations=%d%s" % (pid, tier, cov["states"], cov["transitions"], out["traces"], ",".join(built), ev["wall_s"], len(new), "" if not notes else " notes=%d" % len(notes)))
    for n in notes: print("note: " + n[:300])
    if new:
        json.dump(dict(property=pid, tier=tier, violations=new, rerun="python3 run_check.py %s%s [--only <function>]" % (pid, " --thorough" if thorough else ""), libraries=libs, explorer=list(hbins.values())), open(rp, "w"), indent=1)
        for v in new[:12]: print("  " + v["text"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if "--keep" not in sys.argv: shutil.rmtree(bd, ignore_errors=True)
    return 0

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
