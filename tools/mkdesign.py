"""Writes DESIGN.md: tools/design_head.md, one section per property from checks.py, tools/design_tail.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
root = os.path.dirname(here)
o = [open(here + "/design_head.md").read(), "\n## Per property\n"]
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    o.append("\n### %s %s\n" % (i, p["title"]))
    c = checks.CHECKS.get(i)
    if not c:
        o.append("Not claimed: %s\n" % checks.NOT_APPLICABLE.get(i, "check still being built"))
        continue
    if checks.ORACLE.get(i):
        o.append("Oracle: %s\n" % checks.ORACLE[i])
    for n, r in c["runs"].items():
        o.append("- `%s` (harness/%s; quick `%s`; thorough `%s`): %s" % (n, r["harness"], " ".join(r["quick"]) if r.get("tier") != "thorough" else "not run", " ".join(r["thorough"]), r["bounds"]))
    if c["assumptions"]:
        o.append("- assumes: " + "; ".join(c["assumptions"]))
if os.path.exists(here + "/design_tail.md"):
    o.append("\n" + open(here + "/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("\n".join(o) + "\n")
