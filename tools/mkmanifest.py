"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
root = os.path.dirname(here)
NA = checks.NOT_APPLICABLE
ck, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        b = "; ".join(dict.fromkeys(r["bounds"] for r in c["runs"].values() if r["bounds"]))
        ck.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                       evidence_file="evidence/%s.json" % i,
                       technique="bounded symbolic execution of the compiled LLVM IR of the real sources, decided by SMT (Z3), counterexamples replayed natively",
                       level="model_checking",
                       level_note="Holds for all values within the bounds: %s. Assumes: %s. Trusts clang's IR generation, the executor in engine/, Z3, and the harness's reference model." % (
                           b, "; ".join(c["assumptions"]) or "nothing further")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet claimed: its check is still being built")))
json.dump(dict(version=1, setup_cmd="python3 run_check.py --build", checks=ck, not_applicable=na,
               notes="No hooks in /repo; the only commits there are repairs (see known_findings.txt)."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
