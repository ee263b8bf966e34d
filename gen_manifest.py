#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from checks import CHECKS
TECH = {
 "C10": "model checking: exhaustive enumeration of operand-kind/parameter/length combinations on the real code against an interval reference model",
 "C08": "model checking: exhaustive enumeration of call shapes (length x placement x misalignment) on the real code, guard pages and canaries as monitor",
 "C09": "model checking: exhaustive enumeration of aliasing partitions x lengths on the real code, oracle: the call on separate buffers",
 "C12": "model checking: explicit-state search over all operation sequences of a live vector object, lock-step with an array model",
 "C15": "model checking: exhaustive walk of the tree of all block histories (compositions x call forms) in lock-step with a meter model",
 "C16": "model checking: stateless exploration of all thread interleavings up to a preemption bound on the real code under a controlled scheduler",
 "C18": "model checking: exhaustive enumeration of (value, neighbour, position, length) on the real code, oracle: the uniform buffer",
 "C22": "model checking: exhaustive enumeration of call shapes on the real code under allocator, lock, system-call and stack monitors",
 "C23": "model checking: exhaustive enumeration of inclusion orders and multi-unit programs, compiled, linked and run, oracle: the single-unit program",
 "C24": "model checking: exhaustive enumeration of operand tuples x denormal modes on the real code, oracle: the same call in the default mode",
 "C25": "model checking: exhaustive enumeration of operand tuples, operation sequences and call shapes on the real classes compiled against an explicit model of the NEON and AltiVec instructions",
 "C19": "model checking: exhaustive enumeration of call histories (all ordered pairs, thorough: triples) against fresh-process runs",
}
DEF = "model checking: bounded exhaustive enumeration of the input space on the real code, all instruction-set builds, against a reference model"
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run_check.py %s" % p, thorough_cmd="python3 run_check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p,
        technique=TECH.get(p, DEF), level="model_checking",
        level_note="Holds for every member of the enumerated space: %s. Quick bounds: %s. Thorough bounds: %s. Assumes: %s." % (c["rule"], c["bounds"][0], c["bounds"][1], "; ".join(c["assumptions"]))))
m = dict(version=1, setup_cmd="python3 gen_properties.py && python3 gen_manifest.py", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the library is header-only, so every check compiles it with its own flags. Known and fixed findings: known_findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
