import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
Z3S = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so"]
IRFLAGS = "--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp"
NPROC = os.cpu_count() or 4


def say(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if "/target/" in f or "/.git/" in f:
                continue
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cargo_env(flags):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = flags
    return e


class BuildError(Exception):
    pass


def build():
    """engine, harness IR + shared library, native runner; all from current sources"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        symx = os.path.join(ROOT, "symx")
        har = os.path.join(ROOT, "harness")
        ps = []
        ps.append(("engine", subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=symx, env=cargo_env(""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        # cargo decides by modification time; when the tree under test changed, make sure it is rebuilt
        stamp = os.path.join(BUILD, "repo.stamp")
        now = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(har, "src"), os.path.join(har, "Cargo.toml"), os.path.join(har, "Cargo.lock")])
        ll = os.path.join(har, "target/release/deps/harness.ll")
        so = os.path.join(har, "target/release/libharness.so")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now or not os.path.exists(ll) or not os.path.exists(so):
            if os.path.exists(stamp):
                os.remove(stamp)
            for n in ("boxcars", "harness"):
                for d in glob.glob(os.path.join(har, "target/release/.fingerprint", n + "-*")):
                    shutil.rmtree(d)
            for f in (ll, so):
                if os.path.exists(f):
                    os.remove(f)
            ps.append(("harness", subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=har, env=cargo_env(IRFLAGS), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        run = os.path.join(BUILD, "runner")
        src = os.path.join(ROOT, "native/runner.c")
        ps.append(("runner", subprocess.Popen(["gcc", "-O1", "-rdynamic", "-o", run, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = []
        for n, p in ps:
            o = p.communicate()[0]
            if p.returncode != 0:
                bad.append("%s does not build:\n%s" % (n, o[-3000:]))
        if bad:
            raise BuildError("\n".join(bad))
        if not (os.path.exists(ll) and os.path.exists(so)):
            raise BuildError("no IR produced")
        with open(stamp, "w") as f:
            f.write(now)
        return os.path.join(symx, "target/release/symx"), ll, so, run
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def entries(so, prefix):
    o = subprocess.run(["nm", "-D", "--defined-only", so], capture_output=True, text=True).stdout
    return sorted(l.split()[2] for l in o.splitlines() if len(l.split()) == 3 and l.split()[1] == "T" and l.split()[2].startswith(prefix))


def job(entry, case, tier, inputs, trace=None, secs=20):
    l = ["job %s %d %d %d" % (entry, case, tier, secs)]
    l += [x[0] + " " + x[1:] for x in inputs]
    if trace is not None:
        l.append("t " + trace)
    l.append("run")
    return "\n".join(l) + "\n"


def native(run, so, jobs, timeout=600):
    if not jobs:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".jobs", dir=BUILD, delete=False) as f:
        f.write("".join(jobs))
    try:
        p = subprocess.run([run, so, f.name], capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.stdout.splitlines()
    except subprocess.TimeoutExpired:
        return []
    finally:
        os.remove(f.name)


CONFIRM = {
    "assert": ("ASSERT",),
    "panic": ("SIGNAL",),
    "abort": ("SIGNAL",),
    "stack": ("SIGNAL",),
    "budget": ("TIMEOUT", "SIGNAL"),
    "memory-bound": ("MEMORY", "SIGNAL"),
    "memory": ("SIGNAL", "ASSERT", "VALGRIND"),
    "unreachable": ("SIGNAL", "ASSERT", "VALGRIND"),
    "undefined": ("SIGNAL", "ASSERT", "VALGRIND"),
}


def confirm(run, so, v, tier):
    r = native(run, so, [job(v["entry"], v["case"], tier, v["inputs"])], 120)
    res = r[0] if r else "NONE"
    if v["kind"] in ("memory", "unreachable", "undefined") and res.startswith("OK"):
        with tempfile.NamedTemporaryFile("w", suffix=".jobs", dir=BUILD, delete=False) as f:
            f.write(job(v["entry"], v["case"], tier, v["inputs"]))
        try:
            p = subprocess.run(["valgrind", "-q", "--error-exitcode=77", run, so, f.name, "inproc"], capture_output=True, text=True, timeout=300, errors="replace")
            if p.returncode == 77:
                res = "VALGRIND " + (p.stderr.splitlines() or [""])[0]
        except (subprocess.TimeoutExpired, OSError):
            pass
        finally:
            os.remove(f.name)
    # whatever the model said, a natively failing harness run is a failing run of the real code
    ok = res.split()[0] in ("ASSERT", "SIGNAL", "MEMORY", "TIMEOUT", "VALGRIND")
    return ok, res


def describe(v):
    m = re.match(r"assertion (\d+)$", v["msg"])
    if m:
        i = int(m.group(1))
        return "assertion %s:%d" % (MODS.get(i >> 16, "m%d" % (i >> 16)), i & 0xffff)
    return v["kind"] + ": " + v["msg"]


MODS = {90: "attr.rs", 91: "parts.rs", 92: "tree.rs", 93: "val.rs", 94: "docs.rs"}
for _i in range(1, 40):
    MODS[_i] = "c%02d.rs" % _i


def findings_list():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known(prop, v):
    """a listed finding that this violation is an instance of"""
    for k in findings_list():
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if k["entry"] == v["entry"] and k["kind"] == v["kind"] and all(m in v["marks"] for m in k.get("marks", [])) and re.search(k.get("msg", ""), v["msg"]):
            return k
    return None


def main(argv):
    t0 = time.time()
    if argv[0] == "--build":
        try:
            build()
        except BuildError as e:
            say(str(e))
            return 2
        return 0
    if argv[0] == "--replay":
        symx, ll, so, run = build()
        return subprocess.run([run, so, argv[1]]).returncode
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tn = 1 if tier == "thorough" else 0
    only = [a for a in argv[1:] if not a.startswith("-")]
    try:
        symx, ll, so, run = build()
    except BuildError as e:
        say(str(e))
        say("NO-ANSWER: the tree under test or the machinery does not build")
        return 2
    tb = time.time() - t0
    ents = entries(so, prop.lower() + "_")
    if only:
        ents = [e for e in ents if e in only]
    if not ents:
        say("NO-ANSWER: no entries for", prop)
        return 2
    out = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    budget = int(os.environ.get("VERIF_BUDGET", "0")) or (3000 if tn else 620)
    cmd = [symx, "--ir", ll, "--workers", str(NPROC), "--out", out, "--tier", str(tn), "--unit-secs", str(budget), "--total-secs", str(budget),
           "--samples", "24" if tn else "8", "--every", str(37 + seed % 50), "--seed", str(seed), "--cross", "50" if tn else "200"]
    for z in Z3S:
        cmd += ["--z3", z]
    for e in ents:
        cmd += ["--entry", e]
    # a violation decides the check: stop soon after the first one, unless it may be a listed finding
    cmd += ["--grace", "45"]
    for k in findings_list():
        if k.get("status") == "known":
            cmd += ["--quiet-entry", k["entry"]]
    rc = subprocess.run(cmd).returncode
    rows = []
    for f in sorted(glob.glob(out + "/*.jsonl")):
        for l in open(f):
            try:
                rows.append(json.loads(l))
            except ValueError:
                rc = rc or 4
    shutil.rmtree(out, ignore_errors=True)
    rows.sort(key=lambda r: (r["entry"], r["case"]))
    problems = []
    if rc != 0:
        problems.append("engine exit code %d" % rc)
    # counterexamples, replayed against the compiled code
    viol, findings, unconfirmed = [], {}, []
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, "replay-%s-*" % prop)):
        os.remove(f)
    seen = collections.Counter()
    total_viol = 0
    for r in rows:
        for v in r["viol"]:
            total_viol += 1
            v["entry"], v["case"] = r["entry"], r["case"]
            key = (v["entry"], v["kind"], v["msg"], tuple(v["marks"]))
            seen[key] += 1
            if seen[key] > 2 or len(viol) >= 12 or len(unconfirmed) >= 12:
                continue
            ok, res = confirm(run, so, v, tn)
            v["native"] = res
            if not ok:
                unconfirmed.append(v)
                continue
            k = known(prop, v)
            if k:
                findings[k["id"]] = k
                continue
            viol.append(v)
    # sampled paths of the symbolic execution, re-run natively with their concrete inputs
    jobs, meta = [], []
    for r in rows:
        for s in r["samples"]:
            jobs.append(job(r["entry"], r["case"], tn, s["inputs"], s["trace"]))
            meta.append((r, s))
    res = native(run, so, jobs)
    validated = 0
    mism = []
    for (r, s), x in zip(meta, res):
        if x.startswith("OK"):
            validated += 1
        elif x.split()[0] in ("ASSERT", "SIGNAL", "MEMORY", "TIMEOUT"):
            v = {"entry": r["entry"], "case": r["case"], "kind": "native", "msg": "compiled code fails on a sampled path: " + x, "site": "", "inputs": s["inputs"], "marks": [], "native": x}
            if len(viol) < 12:
                viol.append(v)
        else:
            mism.append("%s case %d: %s" % (r["entry"], r["case"], x))
    if len(res) != len(jobs):
        problems.append("%d of %d sampled paths were run natively" % (len(res), len(jobs)))
    if mism and not viol:
        problems.append("symbolic and native execution differ: " + "; ".join(mism[:3]))
    # vacuity: every reachability marker of the baseline must have been reached
    base = json.load(open(os.path.join(ROOT, "covers.json"))) if os.path.exists(os.path.join(ROOT, "covers.json")) else {}
    cov = collections.defaultdict(collections.Counter)
    for r in rows:
        for k, n in r["covers"].items():
            cov[r["entry"]][k] += n
    if "--update-covers" in argv:
        for e in ents:
            base[e] = {"units": sum(1 for r in rows if r["entry"] == e), "covers": sorted(cov[e], key=int)}
        json.dump(base, open(os.path.join(ROOT, "covers.json"), "w"), indent=0, sort_keys=True)
    missing = []
    for e in ents:
        b = base.get(e)
        if b is None:
            missing.append(e + " (no baseline)")
            continue
        n = sum(1 for r in rows if r["entry"] == e)
        if n < b["units"] and not tn:
            missing.append("%s ran %d of %d units" % (e, n, b["units"]))
        for k in b["covers"]:
            if k not in cov[e]:
                missing.append("%s:%d of %s" % (MODS.get(int(k) >> 16, "?"), int(k) & 0xffff, e))
    if missing and not viol:
        problems.append("not reached: " + ", ".join(missing[:5]))
    incon = [(r["entry"], r["case"], i) for r in rows for i in r["incon"]]
    if incon:
        problems.append("%d units undecided: %s" % (len({(a, b) for a, b, _ in incon}), "; ".join("%s case %d: %s" % x for x in incon[:3])))
    if unconfirmed:
        problems.append("counterexample not confirmed natively: " + "; ".join("%s case %d %s (%s) at %s" % (v["entry"], v["case"], describe(v), v["native"], v["site"][:200]) for v in unconfirmed[:2]))
    s = lambda k: sum(r[k] for r in rows)
    funcs = sorted({f for r in rows for f in r["funcs"]})
    wall = time.time() - t0
    smp = [{"entry": r["entry"], "case": r["case"], "inputs": x["inputs"][:40], "observed": x["trace"][:200]} for r in rows for x in r["samples"][:1]][:: max(1, len(rows) // 6)][:8]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viol),
        "coverage": {
            "states": s("paths"), "transitions": s("insts"), "traces_validated_against_impl": validated, "samples": smp,
            "entries": ents, "units": len(rows), "forks": s("forks"), "paths_infeasible": s("killed"),
            "functions_encoded": funcs, "functions_encoded_count": len(funcs),
            "bounds": BOUNDS.get(prop, ""), "outside_bounds": OUTSIDE.get(prop, ""),
            "assertions": s("asserts"), "assertions_closed_by_normal_form": s("asserts_trivial"), "assertions_sent_to_solver": s("asserts_solver"),
            "queries": s("queries"), "queries_z3": s("z3"), "queries_sat": s("sat"), "queries_unsat": s("unsat"), "queries_unknown": s("unknown"),
            "queries_answered_by_cache": s("cache"), "queries_answered_by_truth_table": s("table"), "queries_cross_checked": s("cross"), "simplifier_rewrites_decided_by_solver": s("audited"), "simplifier_rewrites_undecided": s("audit_open"), "solver_time_s": round(s("z3_us") / 1e6, 3), "solver_max_query_s": round(max([r["z3_max_us"] for r in rows] or [0]) / 1e6, 3),
            "reachability_markers_hit": sum(len(c) for c in cov.values()), "undecided_units": len(incon),
            "sampled_paths": len(jobs), "counterexamples": total_viol, "known_findings": sorted(findings), "build_s": round(tb, 1),
        },
        "assumptions": ASSUME,
    }
    if not only:
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    say("%s %s: %d entries, %d units, %d paths, %d instructions, %d assertions, %d queries (%d by z3, %.1f s), %d/%d paths validated natively, %.1f s" % (
        prop, tier, len(ents), len(rows), s("paths"), s("insts"), s("asserts"), s("queries"), s("z3"), s("z3_us") / 1e6, validated, len(jobs), wall))
    for k in sorted(findings):
        say("KNOWN-FINDING: property=%s %s" % (prop, findings[k]["what"]))
    for i, v in enumerate(viol):
        p = os.path.join(evdir, "replay-%s-%d.txt" % (prop, i))
        with open(p, "w") as f:
            f.write("# %s, entry %s: %s\n# %s\n# native run of the compiled code: %s\n# replay: %s/check --replay %s\n" % (prop, v["entry"], describe(v), v["site"], v["native"], ROOT, p))
            f.write(job(v["entry"], v["case"], tn, v["inputs"]))
        say("  %s case %d: %s; native run: %s" % (v["entry"], v["case"], describe(v), v["native"]))
        say("VIOLATION property=%s replay=%s" % (prop, p))
    for p in problems:
        say("problem: " + p[:600])
    if viol:
        return 1
    if problems:
        say("NO-ANSWER")
        return 2
    return 0


ASSUME = [
    "the LLVM IR of rustc (opt-level of the harness's release profile, no vectorisation) is what is executed; code generation below IR is trusted, and sampled paths are re-run in the compiled library",
    "the symbolic executor (symx), its term normaliser and Z3 are trusted; sampled rewrites of the normaliser are decided by Z3, sampled solver answers are re-decided with another Z3 configuration and sampled paths are compared natively",
    "the allocator never fails within the stated limits",
]
BOUNDS = {}
OUTSIDE = {}
try:
    from bounds import BOUNDS, OUTSIDE
except ImportError:
    pass
