#!/usr/bin/env python3
"""Confirms planted bugs: builds, passes the stable tests, demo passes without and fails with the change.

seedcheck.py ID... [--checks]    each in a scratch copy bound over /repo in a private mount namespace;
--checks also runs the property's check against the changed tree (VP_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def ns(copy, cmd, timeout=900):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def one(i):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        c = os.path.join(w, "repo")
        shutil.copytree("/repo", c, symlinks=True)
        if "--notest" not in sys.argv:
            if ns(c, "bash /opt/vp/build.sh >/dev/null 2>&1 && bash %s/demo.sh" % d).returncode:
                return i, "BAD demo fails on the unchanged tree"
        p = subprocess.run(["git", "-C", c, "apply", d + "/patch.diff"], stderr=subprocess.PIPE)
        if p.returncode:
            return i, "BAD patch does not apply " + p.stderr.decode()
        if "--notest" not in sys.argv:
            p = ns(c, "bash /opt/vp/build.sh")
            if p.returncode:
                return i, "BAD build " + p.stdout.decode()[-500:]
            p = ns(c, "bash %s/demo.sh" % d)
            if p.returncode == 0:
                return i, "BAD demo passes with the change"
            r = os.path.join(w, "out.json")
            ns(c, "bash /opt/vp/test.sh " + r)
            bad = STABLE - set(json.load(open(r))["passed"])
            if bad:
                return i, "BAD tests fail: " + " ".join(sorted(bad))
        res = "OK"
        if "--checks" in sys.argv:
            pid = json.load(open(d + "/meta.json"))["property"]
            p = subprocess.run(["python3", V + "/run_check.py", pid], env=dict(os.environ, VP_REPO=c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            res += " check %s rc=%d %s" % (pid, p.returncode, " ".join(l[:200] for l in o.splitlines() if l.startswith(("counterexample", "native", "NO-ANSWER"))))
        return i, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(1 if "--checks" in sys.argv else 4) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
