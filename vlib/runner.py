"""Runs the solver-based checks: compiles harness + /repo sources to bitcode, executes them
symbolically (build/symx), replays counterexamples and sampled paths natively, writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
CLANGC = "clang-18" if shutil.which("clang-18") else "clang"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
BCFLAGS = ["-std=c++17", "-O1", "-gline-tables-only", "-emit-llvm", "-c", "-DNDEBUG", "-mpopcnt", "-fno-builtin-pow", "-fno-vectorize",
           "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"]
NATFLAGS = ["-std=c++17", "-O2", "-g1", "-DNDEBUG", "-mpopcnt", "-w"]
INCS = ["include", "lib/primesieve/include"]


def J(*params, covers=(), opts=(), time=60, name=None, need=None):
    return dict(params=[int(p) for p in params], covers=list(covers), opts=[str(o) for o in opts], time=time, name=name, need=need)


def U(name, src, repo=(), jobs=(), flags=(), shadow=(), ubsan=None, bounds="", assumptions=(), samples=6, extra_src=(), thorough=None, native=True, natflags=()):
    """one harness: sources, the repository files compiled with it, and its jobs"""
    return dict(name=name, src=src, repo=list(repo), jobs=list(jobs), flags=list(flags), shadow=list(shadow), ubsan=ubsan,
                bounds=bounds, assumptions=list(assumptions), samples=samples, extra_src=list(extra_src), thorough=thorough, native=native, natflags=list(natflags))


class CheckError(Exception):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, universal_newlines=True, **kw)


def incs(unit, bc=False):
    r = []
    for s in unit["shadow"]:  # "x:bc" shadows headers in the symbolic build only
        if s.endswith(":bc"):
            if not bc:
                continue
            s = s[:-3]
        r += ["-I", os.path.join(VERIF, "harness", "shadow", s)]
    r += ["-I", os.path.join(VERIF, "harness")]
    for i in INCS:
        r += ["-I", os.path.join(REPO, i)]
    return r


def srcs(unit):
    out = [os.path.join(VERIF, "harness", unit["src"])]
    out += [os.path.join(VERIF, "harness", s) for s in unit["extra_src"]]
    out += [os.path.join(REPO, s) for s in unit["repo"]]
    return out


UBSAN = {"shift": ["-fsanitize=shift-exponent"], "arith": ["-fsanitize=shift-exponent,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow"],
         "int": ["-fsanitize=shift-exponent,signed-integer-overflow,integer-divide-by-zero"]}


def ubflags(unit, native=False):
    if not unit["ubsan"]:
        return []
    f = list(UBSAN[unit["ubsan"]])
    if native:
        return f + ["-fno-sanitize-recover=all"]
    return f + ["-fsanitize-trap=all"]


def compile_bc(unit, d):
    """compile the unit to one linked bitcode file"""
    objs = []
    todo = []
    for i, s in enumerate(srcs(unit)):
        o = os.path.join(d, "%s.%d.bc" % (unit["name"], i))
        objs.append(o)
        lang = []
        todo.append([CLANG] + lang + BCFLAGS + ubflags(unit) + ["-DSX_ENTRY=sx_entry"] + unit["flags"] + incs(unit, True) + [s, "-o", o])
    rt = os.path.join(d, unit["name"] + ".rt.bc")
    todo.append([CLANGC, "-O1", "-fno-builtin", "-emit-llvm", "-c", "-w", os.path.join(VERIF, "harness", "rt.c"), "-o", rt])
    rtpp = os.path.join(d, unit["name"] + ".rtpp.bc")
    todo.append([CLANG, "-std=c++17", "-O1", "-fno-builtin", "-emit-llvm", "-c", "-w", os.path.join(VERIF, "harness", "rtpp.cpp"), "-o", rtpp])
    with cf.ThreadPoolExecutor(4) as ex:
        for cmd, r in zip(todo, ex.map(run, todo)):
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (cmd[-3], r.stderr[-3000:]))
    out = os.path.join(d, unit["name"] + ".bc")
    r = run([LINK] + objs + ["--override=" + rt, "--override=" + rtpp, "-o", out])
    if r.returncode:
        raise CheckError("linking %s failed:\n%s" % (unit["name"], r.stderr[-3000:]))
    return out


def compile_native(unit, d, san=False):
    out = os.path.join(d, unit["name"] + (".san" if san else ".nat"))
    if os.path.exists(out):
        return out
    cc = CLANG if san else "g++"
    fl = list(NATFLAGS)
    if san:
        fl = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-mpopcnt", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"] + ubflags(unit, True)
    objs = []
    todo = []
    for i, s in enumerate(srcs(unit) + [os.path.join(VERIF, "harness", "replay.cpp")]):
        o = out + ".%d.o" % i
        objs.append(o)
        todo.append([cc] + fl + ["-DSX_ENTRY=sx_entry", "-DSX_NATIVE"] + unit["flags"] + unit["natflags"] + incs(unit) + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(4) as ex:
        for cmd, r in zip(todo, ex.map(run, todo)):
            if r.returncode:
                raise CheckError("native compile of %s failed:\n%s" % (cmd[-3], r.stderr[-3000:]))
    r = run([cc] + fl + objs + ["-o", out])
    if r.returncode:
        raise CheckError("native link of %s failed:\n%s" % (unit["name"], r.stderr[-3000:]))
    return out


def write_replay(path, job, vals, comment=""):
    with open(path, "w") as f:
        f.write("params %s\n" % " ".join(str(p) for p in job["params"]))
        for l in comment.splitlines():
            f.write("# %s\n" % l)
        for n, v in vals:
            f.write("%s %s\n" % (n, v))


def native_run(binary, path, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1")
    try:
        r = run([binary, path], timeout=timeout, env=env)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


class Result:
    pass


def run_job(unit, job, bc, d, idx):
    out = os.path.join(d, "%s.job%d.json" % (unit["name"], idx))
    cmd = [SYMX, bc, "-e", "sx_entry", "-o", out, "--time", str(job["time"]), "--samples", str(max(unit["samples"], 1))]
    if job["params"]:
        cmd += ["-p", ",".join(str(p) for p in job["params"])]
    cmd += job["opts"]
    t = time.time()
    try:
        r = run(cmd, timeout=job["time"] * 2 + 60)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = 124, "timeout"
    res = dict(rc=rc, err=err[-2000:], wall=time.time() - t, data=None)
    if os.path.exists(out):
        try:
            res["data"] = json.load(open(out))
        except ValueError:
            pass
    return res


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def ensure_engine():
    r = run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "-j4"])
    if r.returncode or not os.path.exists(SYMX):
        raise CheckError("engine build failed: " + r.stderr[-2000:])


def check(prop, spec, tier):
    t0 = time.time()
    ensure_engine()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    units = spec["units"]
    d = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(VERIF, "build"))
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    problems, violations, mism, incomplete = [], [], [], []
    agg = dict(paths=0, steps=0, forks=0, asserts=0, symbolic_asserts=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    backend = dict(lia=0, nia=0, bv=0)
    functions, samples, assertions, jobs_ev, validated, njobs, done = set(), [], {}, [], 0, 0, 0
    maxq = 0.0
    try:
        tasks = []
        for u in units:
            jobs = u["jobs"]
            if tier == "thorough" and u["thorough"] is not None:
                jobs = u["thorough"]
            for i, j in enumerate(jobs):
                tasks.append((u, j, i))
        ex = cf.ThreadPoolExecutor(NPROC)
        bcs, nats = {}, {}
        for u in units:
            bcs[u["name"]] = ex.submit(compile_bc, u, d)
        for u in units:
            bcs[u["name"]].result()
        tasks.sort(key=lambda t: -t[1]["time"])
        futs = [(u, j, i, ex.submit(run_job, u, j, bcs[u["name"]].result(), d, i)) for u, j, i in tasks]
        for u in units:
            if u["native"] and u["samples"]:
                nats[u["name"]] = ex.submit(compile_native, u, d)
        covers_by_unit = {}
        for u, j, i, f in futs:
            njobs += 1
            res = f.result()
            label = "%s(%s)" % (u["name"], ",".join(str(p) for p in j["params"]))
            D = res["data"]
            if D is None:
                incomplete.append("%s: engine ended with %s: %s" % (label, res["rc"], res["err"].strip()[-300:]))
                continue
            for k in agg:
                agg[k] += D[k]
            for k in backend:
                backend[k] += D[k]
            maxq = max(maxq, D["max_query_s"])
            functions.update(D["functions"])
            for k, v in D["assertions"].items():
                assertions[k] = assertions.get(k, 0) + v
            jobs_ev.append(dict(job=label, paths=D["paths"], wall_s=round(res["wall"], 2), queries=D["queries"], covers=D["covers"], ends=D["ends"]))
            if D["violations"]:
                for v in D["violations"]:
                    violations.append((u, j, label, v))
            elif D["inconclusive"] or D["unfinished"]:
                incomplete.append("%s: %s" % (label, "; ".join(D["inconclusive"][:3])[:600] or "unfinished"))
            else:
                done += 1
                miss = [c for c in j["covers"] if c not in D["covers"]]
                if miss:
                    problems.append("%s: never reached %s (the check would be vacuous)" % (label, miss))
                if not j["covers"] and D["asserts"] == 0:
                    problems.append("%s: no assertion reached" % label)
            # validate sampled paths against the natively compiled code
            for s in D["samples"][: u["samples"]]:
                if not u["native"]:
                    break
                p = os.path.join(d, "sample.txt")
                write_replay(p, j, s["vals"])
                rc, so, se = native_run(nats[u["name"]].result(), p)
                obs = [l.split(" ", 1)[1].rsplit(" ", 1) for l in so.splitlines() if l.startswith("OBS ")]
                if rc == 42:
                    violations.append((u, j, label, dict(kind="assert", msg=[l for l in so.splitlines() if l.startswith("ASSERTION")][0], vals=s["vals"], stack=["native run of a sampled path"])))
                elif rc != 0 or obs != [list(map(str, o)) for o in s["obs"]]:
                    mism.append("%s: native run of %s: rc=%s obs=%s want=%s %s" % (label, s["vals"][:6], rc, obs[:6], s["obs"][:6], (so + se)[-200:]))
                else:
                    validated += 1
                    if len(samples) < 12:
                        samples.append(dict(job=label, values=dict((a, b) for a, b in s["vals"][:12]), observed=s["obs"][:8]))
        # counterexamples: report what reproduces on natively compiled code
        reported, unrepro, kf = [], [], []
        n = 0
        for u, j, label, v in violations[:12]:
            n += 1
            path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, u["name"], n))
            write_replay(path, j, v["vals"], "property %s, harness %s\n%s: %s\n%s" % (prop, u["src"], v["kind"], v["msg"], "\n".join(v["stack"][:8])))
            rep, how = False, ""
            variants = [False, True] if v["kind"] == "assert" else [True, False]
            for san in variants:
                b = compile_native(u, d, san)
                rc, so, se = native_run(b, path, timeout=120)
                how = "rc=%s %s" % (rc, (so + se)[-400:])
                if rc in (42, 43, 134, -6, -11, -8, 139, 136) or (san and rc not in (0, 44, 124)):
                    rep = True
                    break
                if rc == 124 and v["kind"] in ("timeout",):
                    rep = True
            with open(path, "a") as f:
                f.write("# native replay: %s\n" % how.replace("\n", "\n# "))
            if rep:
                k = [x for x in known_findings() if x[0] == prop and (x[1] in v["msg"].replace(" ", "_"))]
                if k:
                    kf.append(k[0])
                else:
                    reported.append((path, label, v))
            else:
                unrepro.append("%s: %s %s did not reproduce natively (%s) %s" % (label, v["kind"], v["msg"], how.strip().replace("\n", " ")[:200], path))
        ex.shutdown()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    wall = time.time() - t0
    if functions:
        r = run(["c++filt", "-p"], input="\n".join(sorted(functions)))
        fn = sorted(set(r.stdout.split("\n")) - {""})
    else:
        fn = []
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(reported),
              coverage=dict(states=agg["paths"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=samples or [dict(job="none")],
                            exhaustive=bool(not incomplete and not reported and not problems), jobs=njobs, jobs_completed=done,
                            functions_encoded=fn, functions_count=len(fn), bounds=[dict(harness=u["name"], bounds=u["bounds"]) for u in units],
                            forks=agg["forks"], assertions_checked=agg["asserts"], assertions_symbolic=agg["symbolic_asserts"], assertion_kinds=assertions,
                            solver=dict(queries=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], seconds=round(agg["solver_s"], 2), longest_query_s=round(maxq, 2), backend_calls=backend, z3="see z3.get_version in engine"),
                            job_list=jobs_ev, incomplete=incomplete, not_reproduced=unrepro, encoding_mismatches=mism,
                            known_findings=[k[2] for k in kf]),
              assumptions=sorted(set(a for u in units for a in u["assumptions"]) | set(spec.get("assumptions", []))))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d jobs, %d paths, %d solver queries (%.1fs), %d assertions, %d native replays agree, %.1fs" % (
        prop, done, njobs, agg["paths"], agg["queries"], agg["solver_s"], agg["asserts"], validated, wall))
    for l in incomplete:
        print("INCOMPLETE " + l)
    for l in unrepro:
        print("UNREPRODUCED " + l)
    for l in mism:
        print("ENCODING-MISMATCH " + l)
    for k in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for path, label, v in reported:
        print("  %s: %s: %s" % (label, v["kind"], v["msg"]))
        for s in v["stack"][:6]:
            print("      at " + s)
        print("      with " + ", ".join("%s=%s" % (a, b) for a, b in v["vals"][:24]))
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, reported[0][0]))
        return 1
    if problems:
        for p in problems:
            print("ERROR " + p)
        return 2
    if mism:
        return 2
    if done * 2 < njobs or done == 0:
        print("ERROR: most of the jobs gave no answer")
        return 2
    return 0


def main():
    sys.path.insert(0, os.path.join(VERIF, "vlib"))
    import specs
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    try:
        return check(prop, specs.SPECS[prop], tier)
    except CheckError as e:
        print("ERROR %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
