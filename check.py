#!/usr/bin/env python3
"""Solver-based check of one property (or `all`) of /repo's current working tree.

  check.py <property> [--tier quick|thorough] [--entry NAME] [-v]
  check.py setup                 builds everything once
  check.py replay <file>         re-runs a recorded counterexample on the compiled program

Exit 0: the property held on everything explored.  Exit 1: VIOLATION, reproduced natively.
Exit 2: no answer (inconclusive or a counterexample that does not reproduce).
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
EVID = os.path.join(ROOT, "evidence")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

VERBOSE = "-v" in sys.argv


class Trouble(Exception):
    pass


def run(cmd, cwd, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Trouble("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def files_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            fs = [r]
        else:
            fs = sorted(f for f in glob.glob(os.path.join(r, "**", "*"), recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def source_key():
    r = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
    for f in ("Cargo.lock", "build.rs"):
        if os.path.exists(os.path.join(REPO, f)):
            r.append(os.path.join(REPO, f))
    return files_hash(*r, os.path.join(ROOT, "harness", "src"), os.path.join(ROOT, "harness", "Cargo.toml"), os.path.join(ROOT, "harness", "Cargo.lock"), os.path.join(ROOT, "sched"), os.path.join(ROOT, "replay_sched.py"))


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    d = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline", "--target-dir", d], os.path.join(ROOT, "engine"))
    return os.path.join(d, "release", "irsym")


def harness_copy():
    """The harness crate, without any Cargo.lock churn in /verif."""
    d = os.path.join(BUILD, "harness")
    os.makedirs(d, exist_ok=True)
    for n in ("Cargo.toml", "Cargo.lock"):
        shutil.copyfile(os.path.join(ROOT, "harness", n), os.path.join(d, n))
    src = os.path.join(d, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(ROOT, "harness", "src"), src)
    return d


def prune(pat, keep):
    fs = sorted(glob.glob(pat), key=os.path.getmtime)
    for f in fs[:-keep]:
        os.remove(f)


def build_ir(key):
    out = os.path.join(BUILD, "ir", "h-%s.ll" % key)
    if os.path.exists(out):
        return out
    d = harness_copy()
    t = os.path.join(BUILD, "t-ir")
    for f in glob.glob(os.path.join(t, "release", "deps", "harness-*.ll")):
        os.remove(f)
    env = dict(ENV, RUSTFLAGS='--cfg vp_h="%s" -Awarnings' % key)
    run(["cargo", "rustc", "--release", "--offline", "--bin", "harness", "--target-dir", t, "--", "--emit=llvm-ir", "-C", "linker=true"], d, env)
    lls = glob.glob(os.path.join(t, "release", "deps", "harness-*.ll"))
    if not lls:
        raise Trouble("no IR was produced")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.move(max(lls, key=os.path.getmtime), out + ".tmp")
    os.rename(out + ".tmp", out)
    prune(os.path.join(BUILD, "ir", "h-*.ll"), 3)
    return out


def build_native(key):
    out = os.path.join(BUILD, "native", "h-%s" % key)
    if os.path.exists(out):
        return out
    d = harness_copy()
    t = os.path.join(BUILD, "t-native")
    env = dict(ENV, RUSTFLAGS='--cfg vp_h="%s" -Awarnings' % key)
    run(["cargo", "build", "--release", "--offline", "--features", "native", "--target-dir", t], d, env)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copyfile(os.path.join(t, "release", "harness"), out + ".tmp")
    os.chmod(out + ".tmp", 0o755)
    os.rename(out + ".tmp", out)
    prune(os.path.join(BUILD, "native", "h-*"), 3)
    return out


def build_sched(key, ll):
    """The same IR, compiled to a program whose atomic operations wait for their turn in a recorded schedule."""
    out = os.path.join(BUILD, "sched", "h-%s" % key)
    if os.path.exists(out):
        return out
    import replay_sched

    os.makedirs(os.path.dirname(out), exist_ok=True)
    replay_sched.build(ll, out, ROOT, run)
    prune(os.path.join(BUILD, "sched", "h-*"), 3)
    return out


def locked(f, *a):
    with Lock():
        return f(*a)


# ------------------------------------------------------------------------------------------- jobs
def jobs_for(prop, tier):
    js = []
    for k, e in enumerate(CHECKS[prop]["entries"]):
        o = dict(e, tag=str(k))
        if tier == "thorough":
            o.update(e.get("thorough", {}))
        n = o.get("shards", 1)
        for i in range(n):
            js.append(dict(o, shard=(i, n) if n > 1 else None))
    return js


def run_job(engine, ll, job, outdir, tier, ends, stop):
    name = job["entry"] + ("" if not job.get("tag") else "-" + job["tag"]) + ("" if not job["shard"] else "-%d" % job["shard"][0])
    out = os.path.join(outdir, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    # what is left of the run's time bounds every job; nothing is started once a run that does not end is confirmed
    t = min(job.get("time", 240 if tier == "quick" else 3000), int(ends - time.time()))
    if t < 5 or stop.is_set():
        return {"status": "inconclusive", "incomplete": "not run: the time of the run is used up" if t < 5 else "not run after a confirmed violation", "violations": [], "functions": [], "covers": [], "asserts": [], "unsupported": [], "job": name, "spec": {k: v for k, v in job.items() if k != "thorough"}, "elapsed": 0}
    cmd = [engine, "--ll", ll, "--entry", job["entry"], "--out", out, "--time", str(t), "--query-ms", str(job.get("query_ms", 60000 if tier == "quick" else 120000)), "--preempt", str(job.get("preempt", 0)), "--reuse", str(job.get("reuse", 0)), "--max-violations", "6", "--grace", str(job.get("grace", 30 if tier == "quick" else 120))]
    for k, v in job.get("params", {}).items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if job["shard"]:
        cmd += ["--shard", "%d/%d" % job["shard"]]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + (90 if tier == "quick" else 180))
        log = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired:
        log, rc = "timeout", 124
    if os.path.exists(out):
        r = json.load(open(out))
    else:
        r = {"status": "inconclusive", "incomplete": "engine ended with %d: %s" % (rc, log[-600:]), "violations": [], "functions": [], "covers": [], "asserts": [], "unsupported": []}
    r["job"] = name
    r["spec"] = {k: v for k, v in job.items() if k != "thorough"}
    r["elapsed"] = time.time() - t0
    return r


# ------------------------------------------------------------------------------------------- replay
def replay_cmds(v):
    """How a recorded counterexample is run on the compiled program."""
    ins = ",".join(i["value"] for i in v["inputs"])
    ps = ["%s=%d" % kv for kv in v.get("params", {}).items()]
    return [v["entry"], ins] + ps


def confirm(v, key, ll):
    """(reproduced, output).  Runs the counterexample on natively compiled code."""
    args = replay_cmds(v)
    outs = []
    if v["sched"]:
        b = build_sched(key, ll)
        env = sched_env(v)
        cmd = [b] + args
        if v["kind"] in ("memory", "ub"):
            env["VP_REUSE"] = "0"
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes"] + cmd
    else:
        b = build_native(key)
        env = dict(os.environ)
        cmd = [b] + args
        if v["kind"] in ("memory", "ub"):
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes"] + cmd
    try:
        lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) if v["kind"] == "timeout" else None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=40 if v["kind"] == "timeout" else 120, env=env, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        if v["kind"] in ("deadlock", "hang", "timeout"):
            return True, "timeout (as predicted: %s)" % v["kind"]
        return False, "timeout"
    outs.append("$ " + " ".join(cmd) + "\n" + p.stdout[-6000:] + "\nexit %d\n" % p.returncode)
    out = "".join(outs)
    if v["kind"] == "assert":
        # the same assertion, or an earlier one of the same run, fails on the compiled program
        return "RESULT violated" in p.stdout, out
    if v["kind"] in ("memory", "ub"):
        return p.returncode in (9, -11, -6, 134, 139) or "RESULT violated" in p.stdout, out
    if v["kind"] in ("panic", "abort", "stack", "deadlock", "timeout"):
        # (timeout: it ended after all, so a violation only if it ended in a failure)
        return p.returncode not in (0, 3) or "RESULT violated" in p.stdout, out
    return False, out


def sched_env(v):
    return dict(os.environ, VP_SCHED=",".join(map(str, v["sched"])), VP_REUSE=str(v.get("reuse", 0)))


def validate(results, native, sched):
    """Runs completed symbolic paths on the compiled program: each must complete there too and trace the same values."""
    n, bad = 0, []

    def one(a):
        r, s = a
        env = os.environ
        if s["sched"]:
            env = sched_env(dict(s, reuse=r["spec"].get("reuse", 0)))
        cmd = [sched if s["sched"] else native, r["spec"]["entry"], ",".join(i["value"] for i in s["inputs"])] + ["%s=%d" % kv for kv in r.get("params", {}).items()]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=env)
        except subprocess.TimeoutExpired:
            return "%s: a completed path does not end natively: %s" % (r["job"], " ".join(cmd))
        want = ["trace %s %s" % (k, v) for k, v in s["trace"]]
        got = [l for l in p.stdout.splitlines() if l.startswith("trace ")]
        if p.returncode != 0 or "RESULT completed" not in p.stdout or want != got:
            return "%s: native run disagrees with the symbolic path: %s\nwant %s\n%s" % (r["job"], " ".join(cmd), want, p.stdout[-1500:])
        return None

    todo = [(r, s) for r in results for s in r.get("samples", [])]
    with cf.ThreadPoolExecutor(8) as ex:
        for b in ex.map(one, todo):
            n += 1
            if b:
                bad.append(b)
    return n, bad


def known(prop, v):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return None
    for k in json.load(open(p))["findings"]:
        if k.get("status") == "known" and k["property"] == prop and k["entry"] == v["entry"] and k["kind"] == v["kind"] and re.search(k["site"], v["msg"] + " @ " + " < ".join(v["stack"])):
            return k
    return None


def check(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    with Lock():
        engine = build_engine()
        key = source_key()
        ll = build_ir(key)
    tb = time.time() - t0
    outdir = os.path.join(BUILD, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    jobs = jobs_for(prop, tier)
    only = [a for i, a in enumerate(sys.argv) if i and sys.argv[i - 1] == "--entry"]
    if only:
        jobs = [j for j in jobs if j["entry"] in only]
    ends = t0 + (660 if tier == "quick" else 3 * 3600)
    stop = threading.Event()
    results, endless, ended = [], [], 0
    threads = any(j.get("preempt") for j in jobs)
    nat = cf.ThreadPoolExecutor(1).submit(lambda: (locked(build_native, key), locked(build_sched, key, ll) if threads else None))
    with cf.ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
        fs = [ex.submit(run_job, engine, ll, j, outdir, tier, ends, stop) for j in jobs]
        for f in cf.as_completed(fs):
            r = f.result()
            results.append(r)
            # runs that had not ended when the time was up: the compiled program tells whether they ever do
            for v in [v for v in r["violations"] if v["kind"] == "timeout"]:
                r["violations"].remove(v)
                v.update(entry=r["spec"]["entry"], params=r.get("params", {}), reuse=r["spec"].get("reuse", 0))
                if ended < 3 and not endless:
                    with Lock():
                        ok, out = confirm(v, key, ll)
                    v["replay_output"] = out
                    if ok:
                        endless.append(v)
                        stop.set()
                    else:
                        ended += 1
            if r["status"] == "violated" and not r["violations"]:
                r["status"] = "inconclusive"
            if VERBOSE:
                print("  %-34s %-12s %6.1fs paths=%s queries=%s solver=%ss %s" % (r["job"], r["status"], r["elapsed"], r.get("paths"), r.get("queries"), r.get("solver_s"), r.get("incomplete") or ""), flush=True)
                for u in r["unsupported"]:
                    print("      unsupported:", u)
    trouble, open_, viols, knowns = [], [], [], {}
    cov = {}
    for r in results:
        for c in r.get("covers", []):
            cov.setdefault(r["spec"]["entry"], {}).setdefault(c["name"], 0)
            cov[r["spec"]["entry"]][c["name"]] += c["paths"]
        if r["status"] == "inconclusive" or r.get("incomplete") or r.get("unsupported"):
            why = [r["incomplete"]] if r.get("incomplete") else []
            why += [u["what"] for u in r.get("unsupported", [])]
            # time that ran out leaves part of the space unexplored; anything else is a failure of the machinery
            t = all(re.match("time limit|step limit|not run|solver gave no answer", w) for w in why)
            (open_ if t and why else trouble).append("%s: %s" % (r["job"], "; ".join(why)))
        for v in r["violations"]:
            v["entry"] = r["spec"]["entry"]
            v["params"] = r.get("params", {})
            v["reuse"] = r["spec"].get("reuse", 0)
            k = known(prop, v)
            if k:
                knowns[k["id"]] = k
            else:
                viols.append(v)
    # non-vacuity: every situation a harness declares must have been reached
    for j in jobs:
        want = j.get("covers", ["end"])
        for c in want:
            if cov.get(j["entry"], {}).get(c, 0) == 0 and not viols:
                trouble.append("%s: never reached '%s' (vacuous)" % (j["entry"], c))
    native, sched = nat.result()
    validated, bad = validate(results, native, sched)
    trouble += bad[:3]
    confirmed, refuted = endless[:], []
    seen = set()
    for v in viols:
        sig = (v["entry"], v["kind"], v["msg"])
        if sig in seen:
            continue
        try:
            with Lock():
                ok, out = confirm(v, key, ll)
        except Trouble as e:
            ok, out = False, str(e)
        v["replay_output"] = out
        if ok:
            seen.add(sig)
            confirmed.append(v)
            if len(confirmed) >= 3:
                break
        else:
            refuted.append(v)
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(confirmed):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump(dict(v, property=prop, repo_key=key), open(path, "w"), indent=1)
        print("violated: %s [%s] %s %s inputs: %s%s" % (v["entry"], v["kind"], v["msg"], v["note"], " ".join("%s=%s" % (i["name"], i["value"]) for i in v["inputs"]), " schedule: %s" % v["sched"] if v["sched"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if rc == 0:
        for v in refuted:
            trouble.append("%s: counterexample '%s %s' did not reproduce on the compiled program: inputs %s sched %s\n%s" % (v["entry"], v["kind"], v["msg"], v["inputs"], v["sched"], v["replay_output"]))
        if trouble:
            rc = 2
            for t in trouble:
                print("NO ANSWER: " + t)
    for t in open_:
        print("INCOMPLETE: " + t)
    evidence(prop, tier, spec, results, cov, confirmed, knowns, trouble, open_, tb, time.time() - t0, validated)
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    print("%s %s: %s; %d entry runs, %d paths, %d queries (%d unsat), %d native traces, %.1f s solver, %.1f s wall (%.1f s build)" % (prop, tier, {0: "held on everything explored, which is not everything within the bounds" if open_ else "holds within bounds", 1: "VIOLATED", 2: "no answer"}[rc], len(results), tot("paths"), tot("queries"), tot("unsat"), validated, tot("solver_s"), time.time() - t0, tb))
    return rc


def evidence(prop, tier, spec, results, cov, confirmed, knowns, trouble, open_, tb, wall, validated):
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    funcs = {}
    for r in results:
        for f in r["functions"]:
            funcs[f["name"]] = funcs.get(f["name"], 0) + f["calls"]
    own = sorted(f for f in funcs if "prometrics::" in f and not f.startswith("harness::"))
    ass = {}
    for r in results:
        for a in r.get("asserts", []):
            d = ass.setdefault(a["name"], {"by_solver": 0, "by_evaluation": 0})
            d["by_solver"] += a["decided_by_solver"]
            d["by_evaluation"] += a["decided_by_evaluation"]
    cvg = {
        "explanation": "Symbolic execution of the LLVM IR of the real crate (regenerated from /repo in this run); every assertion decided by Z3, or by evaluation when its value is the same on the whole path, for all inputs within the bounds.",
        "bounds": spec["bounds"],
        "outside": spec.get("outside", ""),
        "entries": [
            {
                "entry": r["job"],
                "status": r["status"],
                "params": r.get("params", {}),
                "preemption_bound": r.get("preemptions"),
                "paths": r.get("paths"),
                "infeasible": r.get("infeasible"),
                "schedule_forks": r.get("schedule_forks"),
                "instructions": r.get("instructions"),
                "queries": r.get("queries"),
                "solver_s": r.get("solver_s"),
                "max_query_s": r.get("max_query_s"),
                "wall_s": round(r["elapsed"], 2),
            }
            for r in sorted(results, key=lambda r: r["job"])
        ],
        "states": tot("paths"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "counts_mean": "states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically; traces_validated_against_impl: completed paths re-run on the natively compiled program with a model of the path, which completed there with the same traced values",
        "infeasible_paths": tot("infeasible"),
        "schedule_forks": tot("schedule_forks"),
        "queries_discharged": tot("queries"),
        "unsat": tot("unsat"),
        "sat": tot("sat"),
        "unknown": tot("unknown"),
        "solver_s": round(tot("solver_s"), 3),
        "max_query_s": max([r.get("max_query_s") or 0 for r in results] or [0]),
        "assertions": ass,
        "reached": cov,
        "functions_encoded": len(funcs),
        "functions_of_the_crate_encoded": own,
        "environment_calls_modelled": sorted({x for r in results for x in r.get("externs", [])}),
        "solver": next((r["solver"] for r in results if r.get("solver")), ""),
        "build_s": round(tb, 1),
        "known_findings": sorted(knowns),
        "no_answer": trouble,
        "not_explored": open_,
        "samples": [{"entry": v["entry"], "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"], "schedule": v["sched"]} for v in confirmed][:3] or [{"entry": r["job"], "reached": [c["name"] for c in r.get("covers", [])][:12], "paths": r.get("paths")} for r in results][:4],
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(
        {
            "property": prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "model_checking",
            "coverage": cvg,
            "assumptions": spec.get("assumptions", []) + BASE_ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(confirmed),
        },
        open(os.path.join(EVID, prop + ".json"), "w"),
        indent=1,
    )


BASE_ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness build (opt-level 1, overflow checks and debug assertions on) means what irsym's interpreter gives it; irsym is validated against native runs",
    "memory allocation never fails; the system allocator is replaced by the executor's object memory",
    "atomic operations are sequentially consistent in the explored schedules",
]


def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if a[0] == "setup":
        with Lock():
            build_engine()
            key = source_key()
            ll = build_ir(key)
            build_native(key)
            build_sched(key, ll)
        print("built")
        return 0
    if a[0] == "replay":
        v = json.load(open(a[1]))
        with Lock():
            key = source_key()
            ll = build_ir(key) if v["sched"] else None
            ok, out = confirm(v, key, ll)
        print(out)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    props = list(CHECKS) if a[0] == "all" else [a[0]]
    rcs = []
    for p in props:
        rcs.append(check(p, tier))
    return 1 if 1 in rcs else max(rcs)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Trouble as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
