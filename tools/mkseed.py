#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from the definitions below and confirms them.
   mkseed.py gen [id..]      write patch.diff, demo.sh, demo.cpp, meta.json
   mkseed.py confirm [id..]  in /repo: apply, build+test, demo, undo (leaves /repo clean)
   mkseed.py check [id..]    apply, run the property's quick check, undo"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); SEED = os.path.join(os.path.dirname(HERE), "seeded"); REPO = "/repo"
B = {}
def bug(id, prop, edits, flags, demo, needs, breaks, extra_checks=()):
    B[id] = dict(prop=prop, edits=edits, flags=flags, demo=demo, needs=needs, breaks=breaks)
exec(open(os.path.join(HERE, "seeds.py")).read())
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <algorithm>
#include <vector>
#include <cstdint>
#include <xmmintrin.h>
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C %s checkout -- ." % REPO); assert not sh("git -C %s status --short" % REPO).stdout.strip()
def gen(i):
    b = B[i]; d = os.path.join(SEED, i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); old, new = {}, {}
    for f, a, n in b["edits"]:
        if f not in new: old[f] = new[f] = sh("git -C %s show HEAD:%s" % (REPO, f)).stdout
        assert new[f].count(a) == 1, (i, f, new[f].count(a), a)
        new[f] = new[f].replace(a, n)
    import difflib
    open(os.path.join(d, "patch.diff"), "w").write("".join("diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(old[f].splitlines(True), new[f].splitlines(True), "a/" + f, "b/" + f)) for f in new))
    open(os.path.join(d, "demo.cpp"), "w").write(PRE + b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# compiles the demonstration against the headers in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -w %s -I "$PWD" -o "$t/demo" "$here/demo.cpp"%s || exit %s
timeout 100 "$t/demo"
''' % (b["flags"], ' -x c++ <(echo "#define SECOND"; cat "$here/demo.cpp")' if "#ifndef SECOND" in b["demo"] else "", "1" if b["prop"] == "C23" else "2"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if b["prop"] == "C25": [shutil.copy(h, d) for h in (os.path.join(HERE, "../src/isa/neon/arm_neon.h"), os.path.join(HERE, "../src/isa/altivec/altivec.h"))]
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
def confirm(i):
    d = os.path.join(SEED, i); clean()
    r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
    a = sh("git -C %s apply %s/patch.diff" % (REPO, d)); assert a.returncode == 0, a.stdout
    try:
        t = sh("bash /tmp/fixrun.sh"); r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
    finally: clean()
    ok = r0.returncode == 0 and r1.returncode not in (0, 2) and "missing [] 399 399" in t.stdout
    print("%-28s %s demo clean=%d patched=%d tests: %s | %s" % (i, "OK " if ok else "BAD", r0.returncode, r1.returncode, t.stdout.strip()[-200:], r1.stdout.strip()[-150:]), flush=True)
def check(i, extra=()):
    d = os.path.join(SEED, i); w = "/tmp/seedchk/" + i; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh("git -C %s archive HEAD | tar x -C %s" % (REPO, w)); a = sh("patch -p1 < %s/patch.diff" % d, cwd=w); assert a.returncode == 0, a.stdout
    try:
        for p in (extra or [B[i]["prop"]]):
            r = sh("NOVA_REPO=%s python3 run_check.py %s" % (w, p), cwd=os.path.dirname(HERE))
            lines = [l for l in r.stdout.splitlines() if l.startswith("  ") and l[2] != " "]
            print("%-28s %s exit=%d %s" % (i, p, r.returncode, (lines[0][:230] if lines else r.stdout[-200:])), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    ids = [x for x in sys.argv[2:] if x in B] or list(B); ex = [x for x in sys.argv[2:] if x not in B]
    for i in ids:
        if sys.argv[1] == "gen": gen(i)
        elif sys.argv[1] == "confirm": confirm(i)
        elif sys.argv[1] == "check": check(i, ex)
