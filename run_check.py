#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

run_check.py ID [--tier quick|thorough] [--only HARNESS] [--keep] [--jobs N]
run_check.py --replay ID HARNESS FILE     replay a counterexample natively

Exit 0: held on everything explored; exit 1 and a VIOLATION line: a
counterexample that reproduces on the native build; exit 2: no answer.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
sys.path.insert(0, os.path.join(VERIF, "tools"))


class NoAnswer(Exception):
    pass


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if p.returncode:
        raise NoAnswer("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


def engine():
    """Path of the symbolic executor, built on demand."""
    exe = os.path.join(BUILD, "vpsym")
    src = [os.path.join(ENGINE, f) for f in ("vpsym.cpp", "expr.h")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(f) for f in src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(["llvm-config", "--cxxflags"]).decode().replace("-fno-exceptions", "").split()
    tmp = exe + ".%d" % os.getpid()
    run(["clang++", "-O2"] + flags + ["-std=c++17", src[0], "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    os.rename(tmp, exe)
    return exe


# ---------------------------------------------------------------- building
GENERATED = [  # (output, script, data files), as in src/SConscript
    ("unicode_categories.c", "categorize.py", ["UnicodeData.txt"]),
    ("unicode_lower_case.c", "lower_case.py", ["UnicodeData.txt"]),
    ("unicode_upper_case.c", "upper_case.py", ["UnicodeData.txt"]),
    ("unicode_canonical_combining_classes.c", "canonical_combining_classes.py", ["UnicodeData.txt"]),
    ("unicode_allowed_in_normal_form.c", "allowed_in_normal_form.py", ["DerivedNormalizationProps.txt"]),
    ("unicode_decomposition.c", "decomposition.py", ["UnicodeData.txt"]),
    ("unicode_recomposition.c", "recomposition.py", ["UnicodeData.txt", "CompositionExclusions.txt"]),
]


def sources():
    """All hand-written library sources of the current tree."""
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        if not re.search(r"^(int\s+)?main\s*\(", open(f, errors="replace").read(), re.M):
            r.append(f)
    return r


def generate_tables(work):
    """Regenerate the table sources from the current tree into work/."""
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    out = []

    def gen(t):
        o, script, data = t
        dst = os.path.join(work, o)
        cmd = [os.path.join(REPO, "src", script)] + [os.path.join(REPO, "unicode", d) for d in data]
        with open(dst, "wb") as f:
            p = subprocess.run(["python3"] + cmd if not os.access(cmd[0], os.X_OK) else cmd, stdout=f, stderr=subprocess.PIPE,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if p.returncode:
            raise NoAnswer("table generator %s failed: %s" % (script, p.stderr.decode(errors="replace")[-2000:]))
        return dst

    def idna(_):
        exe = os.path.join(work, "gen_idna_table")
        ver = os.path.join(work, "gen_version.c")
        open(ver, "w").write('const char *fsdyn_version_tag = "x";\n')
        srcs = [os.path.join(REPO, "src", s) for s in ("gen_idna_table.c", "charstr.c", "list.c", "fsalloc.c")]
        run(["gcc", "-g", "-O1", "-w"] + inc + srcs + [ver, "-o", exe])
        dst = os.path.join(work, "idna_table.c")
        with open(dst, "wb") as f:
            p = subprocess.run([exe, os.path.join(REPO, "idna", "IdnaMappingTable.txt")], stdout=f, stderr=subprocess.PIPE)
        if p.returncode:
            raise NoAnswer("gen_idna_table failed: %s" % p.stderr.decode(errors="replace")[-2000:])
        return dst

    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(gen, t) for t in GENERATED] + [ex.submit(idna, None)]
        out = [j.result() for j in jobs]
    return out


class Builder:
    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.gen = None
        self.lock = threading.RLock()
        self.pool = ThreadPoolExecutor(8)
        self.inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + ENGINE,
                    "-I" + os.path.join(VERIF, "harness"), "-I" + work]

    def generated(self):
        with self.lock:
            if self.gen is None:
                self.gen = generate_tables(self.work)
            return self.gen

    def obj(self, mode, src, defs=()):
        key = (mode, src, tuple(defs))
        with self.lock:
            if key in self.cache:
                return self.cache[key]
            out = os.path.join(self.work, "%s-%d-%s" % (mode, len(self.cache), os.path.basename(src)))
            self.cache[key] = self.pool.submit(self._compile, mode, src, tuple(defs), out)
            return self.cache[key]

    def _compile(self, mode, src, defs, out):
        defs = ["-D" + d for d in defs]
        if mode == "sym":
            out += ".bc"
            run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-discard-value-names",
                 "-gline-tables-only", "-w", "-std=gnu11", "-DVP_SYM", "-emit-llvm", "-c", src, "-o", out] + self.inc + defs)
            gen = os.path.dirname(src) == self.work      # huge switches: only promote variables
            run(["opt", "-passes=sroa" if gen else "-passes=sroa,simplifycfg,early-cse,simplifycfg", out, "-o", out])
        else:
            out += ".o"
            run(["gcc", "-O1", "-g", "-w", "-std=gnu11", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-builtin", "-U_FORTIFY_SOURCE",
                 "-DVP_NATIVE", "-c", src, "-o", out] + self.inc + defs)
        return out

    def inputs(self, mode, run_cfg, defs):
        srcs = [(s, tuple(run_cfg.get("srcdefs", ()))) for s in sources()]
        srcs += [(s, ()) for s in self.generated()]
        srcs += [(os.path.join(VERIF, "harness", run_cfg["harness"]), tuple(defs)), (os.path.join(ENGINE, "vp_common.c"), ())]
        srcs.append((os.path.join(ENGINE, "vp_libc.c" if mode == "sym" else "vp_native.c"), ()))
        for e in run_cfg.get("extra", ()):
            srcs.append((os.path.join(self.work, e) if e.startswith("ref_") else os.path.join(VERIF, "harness", e), tuple(defs)))
        return [j.result() for j in [self.obj(mode, s, d) for s, d in srcs]]

    def bitcode(self, name, run_cfg, defs):
        ins = self.inputs("sym", run_cfg, defs)
        out = os.path.join(self.work, name + ".linked.bc")
        run(["llvm-link"] + ins + ["-o", out])
        run(["opt", "-passes=internalize,globaldce", "-internalize-public-api-list=vp_main", out, "-o", out])
        return out

    def native(self, name, run_cfg, defs):
        ins = self.inputs("nat", run_cfg, defs)
        out = os.path.join(self.work, name + ".native")
        run(["gcc", "-fsanitize=address"] + ins + ["-o", out])
        return out

    def cover_labels(self, run_cfg, defs):
        p = run(["clang", "-E", "-P", "-DVP_SYM", os.path.join(VERIF, "harness", run_cfg["harness"])] + self.inc + ["-D" + d for d in defs]).decode()
        return sorted(set(re.findall(r'vp_cover_\("([^"]+)"\)', p)))


ASAN = dict(ASAN_OPTIONS="malloc_fill_byte=190:max_malloc_fill_size=16777216:detect_leaks=0:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:symbolize=0:max_allocation_size_mb=4096")


def replay(exe, path, limit=20):
    """-> (kind, detail): ok, assume, assert, exhausted, crash, hang"""
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=dict(os.environ, **ASAN),
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace")
    o = p.stdout.decode(errors="replace")
    k = {0: "ok", 77: "assume", 78: "assert", 79: "exhausted", 99: "error"}.get(p.returncode, "crash")
    return k, o


def summary(out):
    for l in out.splitlines():
        if "VP-ASSERT-FAILED" in l or "SUMMARY" in l or "Assertion" in l or "ERROR: Addr" in l:
            return l.strip()
    return out.strip()[-200:]


# ---------------------------------------------------------------- checking
def explore(bc, out, timeout, jobs, max_inst, samples=3, split=0):
    os.makedirs(out)
    cmd = [engine(), bc, "--out=" + out, "--jobs=%d" % jobs, "--timeout=%g" % timeout, "--max-inst=%d" % max_inst, "--samples=%d" % samples, "--split-div=%d" % split]
    p = subprocess.Popen(cmd, start_new_session=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        o, _ = p.communicate(timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise NoAnswer("symbolic executor overran its time limit")
    st = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, cachehits=0, inst=0, asserts=0, assumecut=0, fixed=0, solver_s=0.0)
    cov, smp, fun, err = {}, [], {}, []
    for f in glob.glob(out + "/res.*"):
        ended = False
        for l in open(f, errors="replace"):
            l = l.rstrip("\n")
            k, _, v = l.partition(" ")
            un = lambda s: re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), s)
            if k == "cover":
                a, _, b = v.partition("\t")
                cov.setdefault(a, un(b))
            elif k == "sample":
                smp.append(un(v))
            elif k == "func":
                a, b = v.rsplit(" ", 1)
                fun[a] = fun.get(a, 0) + int(b)
            elif k == "error":
                err.append(un(v))
            elif k == "end":
                ended = True
            elif k in st:
                st[k] += float(v) if k == "solver_s" else int(v)
        if not ended:
            err.append("truncated result file")
    if p.returncode not in (0, 1, 2):
        err.append("executor exit %d: %s" % (p.returncode, o.decode(errors="replace")[-500:]))
    return dict(rc=p.returncode, stats=st, covers=cov, samples=smp, funcs=fun, errors=err, viol=sorted(glob.glob(out + "/viol.*")), log=o.decode(errors="replace"))


def check_run(b, pid, name, cfg, tier, jobs):
    t0 = time.time()
    defs = list(cfg.get("defs", [])) + list(cfg.get("thorough" if tier == "thorough" else "quick", []))
    timeout = cfg.get("timeout", {}).get(tier, 400 if tier == "quick" else 3000)
    if "prepare" in cfg:
        cfg["prepare"](b.work, REPO)
    natj = ThreadPoolExecutor(1).submit(b.native, name, cfg, defs)
    bc = b.bitcode(name, cfg, defs)
    tb = time.time() - t0
    r = explore(bc, os.path.join(b.work, name + ".out"), timeout, jobs, cfg.get("max_inst", 20000000), split=cfg.get("split_div", 0))
    native = natj.result()
    res = dict(run=name, harness=cfg["harness"], defs=defs, bounds=cfg.get("bounds", ""), build_s=round(tb, 2), wall_s=0, stats=r["stats"], violation=None,
               functions=sorted(f for f in r["funcs"] if not f.startswith("vp_")), validated=0, samples=[])
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)

    def keep(text, tag):
        p = os.path.join(rdir, "%s-%s-%s.txt" % (pid, name, tag))
        open(p, "w").write("# property %s harness %s\n# replay: python3 %s/run_check.py --replay %s %s %s %s\n" % (pid, cfg["harness"], VERIF, pid, name, p, tier) + text)
        return p

    unrepro = []
    for v in r["viol"]:
        text = open(v).read()
        p = keep(text, "cex")
        k, o = replay(native, p)
        if k in ("assert", "crash", "hang"):
            res["violation"] = (p, text.splitlines()[0][2:], "%s: %s" % (k, summary(o)))
            break
        unrepro.append("%s -- native replay: %s %s (%s)" % (" ".join(text.splitlines()[:2]), k, summary(o), p))
    if not res["violation"]:
        if unrepro:
            raise NoAnswer("counterexample does not reproduce on the native build: " + unrepro[0])
        # validate the encoding: witnesses and sampled paths must run natively too
        todo = [("cover", l, v) for l, v in r["covers"].items()] + [("sample", "", s) for s in r["samples"][:24]]

        def one(i_t):
            i, (kind, l, v) = i_t
            p = os.path.join(b.work, "%s.w%d" % (name, i))
            open(p, "w").write(v)
            k, o = replay(native, p)
            return kind, l, v, k, o
        with ThreadPoolExecutor(8) as ex:
            for kind, l, v, k, o in ex.map(one, enumerate(todo)):
                if k in ("assert", "crash", "hang"):
                    res["violation"] = (keep(v, "wit"), "native run of a %s path" % kind, "%s: %s" % (k, summary(o)))
                    break
                good = ("VP-COVER " + l) in o if kind == "cover" else k == "ok"
                if not good:
                    raise NoAnswer("encoding mismatch: %s %s natively gives %s: %s\n%s" % (kind, l, k, summary(o), v))
                res["validated"] += 1
        if not res["violation"]:
            if r["errors"] or r["rc"] != 0:
                raise NoAnswer("%s: exploration incomplete: %s %s" % (name, "; ".join(r["errors"][:4]), r["log"][-300:]))
            missing = [l for l in b.cover_labels(cfg, defs) if l not in r["covers"] and l not in cfg.get("skip", ())]
            if missing:
                raise NoAnswer("%s: vacuous: never reached: %s" % (name, ", ".join(missing)))
            if not r["stats"]["paths"] or not r["stats"]["asserts"]:
                raise NoAnswer("%s: vacuous: no path reached an assertion" % name)
    res["covers"] = sorted(r["covers"])
    res["samples"] = [s.split("\n") for s in r["samples"][:2]]
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def main():
    import checks
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keepw, jobs = None, False, int(os.environ.get("VP_JOBS", "8"))
    if a and a[0] == "--replay":
        pid, name, path = a[1:4]
        if len(a) > 4:
            tier = a[4]
        work = tempfile.mkdtemp(prefix="replay-", dir=(os.makedirs(BUILD, exist_ok=True) or BUILD))
        try:
            b = Builder(work)
            cfg = checks.CHECKS[pid]["runs"][name]
            defs = list(cfg.get("defs", [])) + list(cfg.get(tier, []))
            if "prepare" in cfg:
                cfg["prepare"](work, REPO)
            k, o = replay(b.native(name, cfg, defs), path)
            print(o)
            print("outcome:", k)
            return 1 if k in ("assert", "crash", "hang") else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a and a[0] == "--build":
        print(engine())
        return 0
    ids = []
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--only":
            only = a[i + 1].split(",")
            i += 1
        elif a[i] == "--jobs":
            jobs = int(a[i + 1])
            i += 1
        elif a[i] == "--keep":
            keepw = True
        else:
            ids.append(a[i])
        i += 1
    pid = ids[0]
    chk = checks.CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=BUILD)
    rc, results, problem = 0, [], None
    try:
        engine()
        b = Builder(work)
        for name, cfg in chk["runs"].items():
            if only and name not in only:
                continue
            if cfg.get("tier") and cfg["tier"] != tier:
                continue
            res = check_run(b, pid, name, cfg, tier, jobs)
            results.append(res)
            print("%s/%s: paths=%d forks=%d queries=%d (sat %d, unsat %d) asserts=%d inst=%d solver=%.1fs build=%.1fs wall=%.1fs covers=%d validated=%d" % (
                pid, name, res["stats"]["paths"], res["stats"]["forks"], res["stats"]["queries"], res["stats"]["sat"], res["stats"]["unsat"], res["stats"]["asserts"],
                res["stats"]["inst"], res["stats"]["solver_s"], res["build_s"], res["wall_s"], len(res["covers"]), res["validated"]))
            sys.stdout.flush()
            if res["violation"]:
                rc = 1
                break
    except NoAnswer as e:
        rc, problem = 2, str(e)
    except Exception as e:
        rc, problem = 2, "%s: %s" % (type(e).__name__, e)
    finally:
        if not keepw:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    tot = lambda k: sum(r["stats"][k] for r in results)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=1 if rc == 1 else 0,
              coverage=dict(states=tot("paths"), transitions=tot("inst"), traces_validated_against_impl=sum(r["validated"] for r in results),
                            samples=[dict(run=r["run"], inputs=s) for r in results for s in r["samples"]][:8],
                            exhaustive=False, states_meaning="symbolic paths explored to the end, each standing for all inputs that follow it",
                            transitions_meaning="LLVM instructions executed symbolically", branch_forks=tot("forks"),
                            solver_queries=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"), solver_s=round(tot("solver_s"), 2),
                            assertions_decided=tot("asserts"),
                            runs=[dict(run=r["run"], harness="harness/" + r["harness"], defines=r["defs"], bounds=r["bounds"], paths=r["stats"]["paths"],
                                       queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2), wall_s=r["wall_s"], reached=r["covers"],
                                       functions_encoded=r["functions"]) for r in results]),
              assumptions=list(chk.get("assumptions", [])))
    if problem:
        ev["coverage"]["problem"] = problem
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if problem:
        print("NO-ANSWER property=%s %s" % (pid, problem))
    if rc == 1:
        v = results[-1]["violation"]
        print("counterexample (%s): %s" % (results[-1]["run"], v[1]))
        print("native replay: %s" % v[2])
        print("VIOLATION property=%s replay=%s" % (pid, v[0]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
