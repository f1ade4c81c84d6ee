#!/usr/bin/env python3
"""Runs the solver-based checks.

  check.py PROPERTY            decide one property (tier from VERIF_TIER, quick by default)
  check.py --setup             build everything once
  check.py --replay FILE       replay a reported violation against the real code
  check.py --entry E P P ..    run one harness entry with the given parameters (development)

The encoding is the LLVM IR of the harness linked with the real crate, rebuilt from /repo on every run;
engine/rsx executes it symbolically.  Every counterexample is replayed natively before it is reported.
"""
import fcntl, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RONDA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
JOBS = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from plan import PLAN, FINDINGS  # noqa: E402

CRATES = {"core": "harness", "py": "harness_py"}
T0 = time.time()


class Fail(Exception):
    pass


def env():
    e = dict(os.environ)
    home = "/root"
    try:
        for l in open("/opt/vp/env.sh"):
            m = re.match(r"\s*export HOME=(\S+)", l)
            if m:
                home = m.group(1).strip("'\"")
    except OSError:
        pass
    e["HOME"] = home
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTFLAGS"] = "--cfg libronda_verif"
    e["LC_ALL"] = "C"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


ENV = env()


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=k.pop("env", ENV), text=True, errors="replace", **k)


def sysroot():
    r = sh(["rustc", "--print", "sysroot"])
    if r.returncode:
        raise Fail("rustc: " + r.stdout)
    return r.stdout.strip()


def llvm(tool):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)


def digest():
    """Hash of every file the encoding depends on."""
    h = hashlib.sha256()
    fs = []
    for d in ("core", "python"):
        for p, ds, ns in os.walk(os.path.join(REPO, d)):
            ds[:] = [x for x in ds if x not in ("target", ".git", "tests")]
            fs += [os.path.join(p, n) for n in ns if n.endswith((".rs", ".toml", ".lock"))]
    for p, ds, ns in os.walk(HERE):
        ds[:] = [x for x in ds if x not in ("build", ".git", "evidence", "seeded", "__pycache__")]
        fs += [os.path.join(p, n) for n in ns if n.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build_engine():
    r = sh(["make", "-j3", "-C", os.path.join(HERE, "engine"), "OUT=" + os.path.join(BUILD, "engine")])
    if r.returncode:
        raise Fail("engine build failed:\n" + r.stdout[-3000:])


def touch_stale(tdir, dg):
    """cargo trusts time stamps; make sure changed content is always rebuilt"""
    st = os.path.join(tdir, "stamp")
    old = open(st).read() if os.path.exists(st) else ""
    if old != dg:
        for prof in ("release", "rel", "debug"):
            for f in glob.glob(os.path.join(tdir, prof, ".fingerprint", "libronda-*")) + glob.glob(os.path.join(tdir, prof, ".fingerprint", "harness-*")):
                shutil.rmtree(f, ignore_errors=True)
    return st


def errors(log):
    m = re.search(r"^error", log, re.M)
    return log[m.start():][:4000] if m else log[-4000:]


def build_ir(crate, dg):
    """Merged LLVM IR of harness + real crate + std, all entries kept."""
    src = os.path.join(HERE, CRATES[crate])
    tdir = os.path.join(BUILD, "ir_" + crate)
    ll = os.path.join(BUILD, crate + ".ll")
    st = touch_stale(tdir, dg)
    if os.path.exists(st) and open(st).read() == dg and os.path.exists(ll):
        return ll
    for f in glob.glob(os.path.join(tdir, "release/deps/harness-*")):
        os.unlink(f)
    for f in glob.glob(os.path.join(tdir, "release/.fingerprint/harness-*")):
        shutil.rmtree(f, ignore_errors=True)
    e = dict(ENV, CARGO_TARGET_DIR=tdir)
    r = sh(["cargo", "rustc", "--release", "--offline", "--", "-C", "save-temps", "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=src, env=e)
    # the final link fails by design: the __sym_* primitives exist only in the engine
    bc = glob.glob(os.path.join(tdir, "release/deps/harness-*.lto.input.bc"))
    if len(bc) != 1:
        raise Fail("building the encoding of %s failed:\n%s" % (crate, errors(r.stdout)))
    names = re.findall(r'"(h_[a-z0-9_]+)"', open(os.path.join(src, "src/entries.rs")).read())
    tmp = os.path.join(BUILD, crate + ".bc")
    r = sh([llvm("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names), bc[0], "-o", tmp])
    if r.returncode:
        raise Fail("opt: " + r.stdout)
    r = sh([llvm("llvm-dis"), tmp, "-o", ll])
    if r.returncode:
        raise Fail("llvm-dis: " + r.stdout)
    for f in glob.glob(os.path.join(tdir, "release/deps/harness-*.rcgu.*")):
        os.unlink(f)
    open(st, "w").write(dg)
    return ll


def build_native(crate, profile, dg):
    """The same harness as an ordinary program over the real crate, for replay."""
    src = os.path.join(HERE, CRATES[crate])
    tdir = os.path.join(BUILD, "native_" + crate)
    st = touch_stale(tdir, dg)
    e = dict(ENV, CARGO_TARGET_DIR=tdir)
    r = sh(["cargo", "build", "--offline", "--features", "replay", "--profile", profile], cwd=src, env=e)
    if r.returncode:
        raise Fail("building the native replay of %s failed:\n%s" % (crate, errors(r.stdout)))
    open(st, "w").write(dg)
    return os.path.join(tdir, "debug" if profile == "dev" else profile, "harness")


def build_all(crate):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # /repo's dependency versions are the ones the harness uses
    dg = digest()
    out, errs = {}, []

    def job(k, f, *a):
        try:
            out[k] = f(*a)
        except Fail as x:
            errs.append(str(x))
        except Exception as x:  # noqa: BLE001
            errs.append(repr(x))

    ts = [threading.Thread(target=job, args=a) for a in (("engine", build_engine), ("ir", build_ir, crate, dg), ("native", build_native, crate, "dev", dg))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise Fail("\n".join(errs))
    out["digest"] = dg
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


# ---------------------------------------------------------------- symbolic runs

SUM = ("paths", "assumed", "decisions", "forks", "instrs", "z3q", "z3sat", "z3unsat", "cache_hits", "asserts", "asserts_const", "asserts_query", "domain_decisions", "crosschecked", "lia", "z3_s", "weight", "paths_given_up")


def run_entry(ll, entry, params, limit, seed, tmp):
    out = os.path.join(tmp, entry)
    for f in glob.glob(out + ".*"):
        os.unlink(f)
    cmd = [os.path.join(BUILD, "engine/rsx"), "-m", ll, "-e", entry, "-o", out, "-j", str(JOBS), "-t", "%.1f" % limit, "--seed", str(seed)]
    for p in params:
        cmd += ["-p", str(p)]
    t = time.time()
    log = tempfile.TemporaryFile("w+", errors="replace")
    pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
    late = False
    try:
        pr.wait(timeout=limit + 45)
    except subprocess.TimeoutExpired:
        late = True
    try:
        os.killpg(pr.pid, signal.SIGKILL)  # its worker processes
    except OSError:
        pass
    pr.wait()
    log.seek(0)
    if pr.returncode and not late:
        raise Fail("engine failed on %s %s: %s" % (entry, params, log.read()[-1500:]))
    tot = {k: 0 for k in SUM}
    res = {"entry": entry, "params": list(params), "viols": [], "samples": [], "covers": {}, "functions": {}, "incomplete": set(), "max_depth": 0, "rss_mb": 0}
    fs = glob.glob(out + ".*")
    if late:
        res["incomplete"].add("time limit")
    if not fs and not late:
        raise Fail("engine wrote nothing for " + entry)
    for f in fs:
        try:
            d = json.load(open(f))
        except ValueError:
            late = True
            continue
        os.unlink(f)
        for k in SUM:
            tot[k] += d.get(k, 0)
        for k in ("max_depth", "rss_mb"):
            res[k] = max(res[k], d[k])
        res["viols"] += d["viols"]
        res["samples"] += d["samples"]
        for k, v in d["covers"].items():
            res["covers"][k] = res["covers"].get(k, 0) + v
        for a, b in d["functions"]:
            res["functions"][a] = res["functions"].get(a, 0) + b
        if d["incomplete"]:
            res["incomplete"].add(d["incomplete"])
    res.update(tot)
    if late:
        res["incomplete"].add("time limit")
    res["incomplete"] = sorted(res["incomplete"])
    res["wall_s"] = round(time.time() - t, 2)
    return res


# ---------------------------------------------------------------- native replay

def native(binary, entry, params, inputs, limit=30):
    """-> (kind, text): ok / assert / assumed / short / crash / hang"""
    d = tempfile.mkdtemp(prefix="ronda_replay_")
    try:
        try:
            r = subprocess.run([binary, entry, d, ",".join(map(str, params)), ",".join(map(str, inputs))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit, cwd=d, env=dict(ENV, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            return "hang", "no answer within %d s" % limit
        kind = {0: "ok", 10: "assert", 11: "assumed", 12: "short"}.get(r.returncode, "crash")
        return kind, r.stdout.strip()[-800:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native_traces(binary, entry, params, samples):
    d = tempfile.mkdtemp(prefix="ronda_replay_")
    try:
        lines = "".join(",".join(map(str, s["inputs"])) + "\n" if s["inputs"] else ",\n" for s in samples)
        try:
            r = subprocess.run([binary, entry, d, ",".join(map(str, params)), "-"], input=lines, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, cwd=d, env=ENV)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        got = re.findall(r"^TRACE \[(.*?)\] COVERS", r.stdout, re.M)
        return [[int(x) for x in g.split(",") if x.strip()] for g in got], r.stdout[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show(inputs):
    """Inputs as a readable text: printable bytes as characters, the rest as numbers."""
    return "".join(chr(x) if 33 <= x < 127 else "<%d>" % x for x in inputs)


def demangle(names):
    for tool in (llvm("llvm-cxxfilt"), "/usr/bin/llvm-cxxfilt", "/usr/bin/llvm-cxxfilt-18", "c++filt"):
        try:
            r = subprocess.run([tool], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        except OSError:
            continue
        if r.returncode == 0:
            return r.stdout.split("\n")
    return names


def confirm(b, crate, prop, e, v, n):
    """Replays one counterexample; a path to the replay file if the real code really fails."""
    tries = []
    for prof in ("dev", "rel"):
        binary = b["native"] if prof == "dev" else build_native(crate, "rel", b["digest"])
        kind, text = native(binary, e["entry"], e["params"], v["inputs"])
        tries.append({"profile": prof, "outcome": kind, "output": text})
        if kind in ("assert", "crash", "hang"):
            os.makedirs(os.path.join(HERE, "evidence/replay"), exist_ok=True)
            p = os.path.join(HERE, "evidence/replay/%s-%d.json" % (prop, n))
            json.dump({"property": prop, "crate": crate, "entry": e["entry"], "params": e["params"], "inputs": v["inputs"], "readable": show(v["inputs"]), "engine": {k: v[k] for k in ("kind", "id", "detail")}, "native": tries}, open(p, "w"), indent=1)
            return p, tries
    return None, tries


def findings(prop, b):
    """Prints a KNOWN-FINDING line for every listed finding that still fails; each is re-demonstrated natively."""
    out = []
    for f in FINDINGS:
        if f["property"] != prop:
            continue
        kind, text = native(b["native"], f["entry"], [], [])
        still = kind in ("assert", "crash")
        if still:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["id"], f["what"]), flush=True)
        out.append({"id": f["id"], "still_fails": still, "what": f["what"]})
    return out


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    plan = PLAN[prop]
    crate = plan.get("crate", "core")
    b = build_all(crate)
    built = time.time() - T0
    deadline = T0 + (600 if tier == "quick" else 3400)
    tmp = tempfile.mkdtemp(prefix="rsx_")
    runs, nviol, reported, problems, partly, validated, kept = [], 0, [], [], [], 0, []
    functions = {}
    try:
        for r in plan["runs"]:
            entry = r["entry"]
            ladder = [r[tier] if tier in r else r["quick"]] + ([r["quick"]] if tier == "thorough" and "thorough" in r else []) + r.get("less", [])
            e = None
            for k, params in enumerate(ladder):
                limit = min(r.get("limit", 200 if tier == "quick" else 900), deadline - time.time())
                if limit < 5:
                    partly.append("no time left for " + entry)
                    break
                x = run_entry(b["ir"], entry, params, limit, seed, tmp)
                x["reduced"] = k > 0
                e = x
                if x["viols"] or not x["incomplete"]:
                    break
                if any(i != "time limit" for i in x["incomplete"]):
                    break
            if e is None:
                continue
            for v in e["viols"]:
                p, tries = confirm(b, crate, prop, e, v, nviol + 1)
                if p:
                    nviol += 1
                    reported.append(p)
                    print("%s %s: %s %s %s inputs %s -> native %s" % (prop, entry, v["kind"], v["id"], v["detail"][:160], show(v["inputs"]), tries[-1]["outcome"]), flush=True)
                    break
                problems.append("counterexample of %s not reproduced natively: %s %s %s %s" % (entry, v["kind"], v["id"], v["detail"][:300], v["inputs"]))
            if e["incomplete"] and not e["viols"]:
                (partly if e["paths"] else problems).append("%s %s incomplete: %s" % (entry, e["params"], "; ".join(e["incomplete"])))
            need = [c for c in r.get("covers", []) if str(c) not in e["covers"]]
            if need and not e["viols"]:
                (partly if e["incomplete"] else problems).append("%s %s never reached cover points %s" % (entry, e["params"], need))
            # completed paths, replayed against the real code
            s = sorted(e["samples"], key=lambda x: x["inputs"])
            rnd.shuffle(s)
            s = s[:60]
            if s and not e["viols"]:
                got, log = native_traces(b["native"], entry, e["params"], s)
                want = [x["trace"] for x in s]
                if got != want:
                    i = next((i for i in range(len(want)) if got is None or i >= len(got) or got[i] != want[i]), 0)
                    problems.append("%s: native run of a path differs: inputs %s engine %s native %s %s" % (entry, s[i]["inputs"], want[i], got[i] if got and i < len(got) else None, log[-300:]))
                else:
                    validated += len(s)
                kept += [{"entry": entry, "params": e["params"], "inputs": show(x["inputs"]), "trace": x["trace"]} for x in s[:4]]
            for k, v in e["functions"].items():
                functions[k] = functions.get(k, 0) + v
            runs.append(e)
            print("%s %s%s %s: %d paths, %.1f s, solver %d queries %.2f s, %d domain decisions" % (prop, entry, " (reduced bound)" if e["reduced"] else "", e["params"], e["paths"], e["wall_s"], e["z3q"], e["z3_s"], e["domain_decisions"]), flush=True)
            if reported:
                break
        known = findings(prop, b)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    names = sorted(functions)
    dem = dict(zip(names, demangle(names)))
    crate_fns = sorted({dem[n] for n in names if re.match(r"^<?(&?)(ronda|<?ronda|harness::python_interface)", dem[n]) or "<ronda" in dem[n] or "python_interface" in dem[n]})
    tot = {k: round(sum(e[k] for e in runs), 3) for k in SUM}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": "states = completed symbolic paths; transitions = feasibility decisions and forks; every path stands for all inputs satisfying its path condition",
            "states": int(tot["paths"]),
            "transitions": int(tot["decisions"] + tot["forks"]),
            "traces_validated_against_impl": validated,
            "samples": kept[:24],
            "exhaustive": not problems and not partly and not reported,
            "inputs_covered": tot["weight"],
            "solver_queries": int(tot["z3q"]),
            "solver_sat": int(tot["z3sat"]),
            "solver_unsat": int(tot["z3unsat"]),
            "solver_queries_in_linear_integers": int(tot["lia"]),
            "solver_s": tot["z3_s"],
            "byte_domain_decisions": int(tot["domain_decisions"]),
            "decisions_crosschecked_with_z3": int(tot["crosschecked"]),
            "assertions": int(tot["asserts"]),
            "assertions_decided_by_solver": int(tot["asserts_query"]),
            "assertions_constant_on_path": int(tot["asserts_const"]),
            "instructions": int(tot["instrs"]),
            "paths_cut_by_assumption": int(tot["assumed"]),
            "paths_given_up": int(tot["paths_given_up"]),
            "functions_encoded_total": len(names),
            "crate_functions_encoded": crate_fns,
            "bounds": [{"entry": e["entry"], "params": e["params"], "meaning": next((r.get("bound", "") for r in plan["runs"] if r["entry"] == e["entry"]), ""), "paths": e["paths"], "inputs_covered": e["weight"], "wall_s": e["wall_s"], "solver_s": round(e["z3_s"], 3), "z3_queries": e["z3q"], "covers": e["covers"], "reduced": e["reduced"], "incomplete": e["incomplete"]} for e in runs],
            "outside_the_bounds": plan.get("outside", ""),
            "known_findings": known,
            "build_s": round(built, 1),
            "problems": problems,
            "not_explored": partly,
        },
        "assumptions": plan.get("assume", []) + ["the engine executes the LLVM IR rustc emits at opt-level 1 with overflow checks; sampled paths are replayed natively and compared", "allocation never fails"],
        "violations": nviol,
        "wall_s": round(time.time() - T0, 2),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for p in reported:
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    if reported:
        return 1
    if problems:
        for p in problems:
            print("PROBLEM " + p, file=sys.stderr, flush=True)
        return 2
    for p in partly:
        print("INCOMPLETE " + p, flush=True)
    if not runs:
        return 2
    print("OK property=%s %s: %d paths, %d inputs, %.1f s" % (prop, tier, tot["paths"], tot["weight"], time.time() - T0))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            build_all("core")
            build_all("py")
            return 0
        if a[0] == "--replay":
            d = json.load(open(a[1]))
            b = build_all(d["crate"])
            print("%s: %s" % native(b["native"], d["entry"], d["params"], d["inputs"]))
            return 0
        if a[0] == "--entry":
            b = build_all("py" if a[1].startswith(("h_p27", "h_p29")) else "core")
            print(json.dumps({k: v for k, v in run_entry(b["ir"], a[1], a[2:], 600, 1, "/tmp").items() if k != "functions" and k != "samples"}, indent=1))
            return 0
        return check(a[0])
    except Fail as x:
        print("ERROR " + str(x), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
