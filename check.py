#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough].

Builds the symbolic executor against /repo's current source, explores every job of
the property (symx decides with z3), replays every counterexample natively, writes
evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION.
Exit 2: error of the check.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
SYMX = os.path.join(BUILD, "symx", "release", "symx")
EVID = os.path.join(HERE, "evidence")
CORES = max(1, len(os.sched_getaffinity(0)))

ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "stable"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV.pop("RUSTFLAGS", None)


def say(*a):
    print(*a, flush=True)


def sources_hash():
    """Of everything under /repo that cargo could compile (file times are not trusted)."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(what="symx"):
    now = sources_hash()
    mark = os.path.join(BUILD, what, "sources.sha256")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        fp = os.path.join(BUILD, what, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("sparsetools-", "props-", "symx-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(mark):
            os.unlink(mark)
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, what))
    cmd = ["cargo", "build", "--release", "--offline", "--quiet"]
    for attempt in (0, 1):
        r = subprocess.run(cmd, cwd=os.path.join(HERE, what), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            with open(mark, "w") as f:
                f.write(now)
            return None
        # a damaged build cache: once more from scratch
        if attempt == 0 and os.path.isdir(os.path.join(BUILD, what)) and "error[" not in r.stdout:
            shutil.rmtree(os.path.join(BUILD, what), ignore_errors=True)
            continue
        break
    return r.stdout[-6000:]


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


class Cancelled(Exception):
    pass


LIVE = set()
LOCK = threading.Lock()
STOP = threading.Event()


def call(cmd, timeout, gb=6):
    if STOP.is_set():
        raise Cancelled()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit_mem(gb), env=ENV)
    with LOCK:
        LIVE.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return None, out, err
    finally:
        with LOCK:
            LIVE.discard(p)


def kill_all():
    STOP.set()
    with LOCK:
        for p in list(LIVE):
            try:
                p.kill()
            except OSError:
                pass


def job_args(j):
    return ["--harness", j["h"], "--params", ",".join(map(str, j["p"])), "--bits", str(j["bits"]),
            "--imin", str(j["imin"]), "--imax", str(j["imax"])]


def name(j):
    s = "%s(%s)" % (j["h"], ",".join(map(str, j["p"])))
    if j["bits"] != 8:
        s += " %d-bit values" % j["bits"]
    if (j["imin"], j["imax"]) != (0, 2**64 - 1):
        s += " index type %d..%d" % (j["imin"], j["imax"])
    if j["parts"] > 1:
        s += " part %d/%d" % (j["part"], j["parts"])
    return s


def replay(j, inputs):
    """True: the counterexample fails natively as well."""
    cmd = [SYMX, "replay"] + job_args(j) + ["--inputs", ",".join(map(str, inputs))]
    rc, out, err = call(cmd, 60, 4)
    text = (out + err).strip()
    if rc is None:
        return True, "does not return within 60 s", cmd
    if rc == 1:
        return True, next((l for l in out.splitlines() if l.startswith("REPLAY")), text[-300:]), cmd
    if rc == 0:
        return False, text[-300:], cmd
    # killed by a signal / aborted: allocation failure, stack overflow
    return True, "native run died with status %s: %s" % (rc, text[-300:]), cmd


def run_job(j, deadline, tier):
    left = deadline - time.time()
    if left < 2:
        return {"job": j, "done": None, "found": [], "cross": [], "why": "not started: time budget used up"}
    cmd = [SYMX, "run"] + job_args(j) + [
        "--deadline", str(int(left)), "--validate", "16" if tier == "quick" else "64",
        "--cross", "400" if tier == "quick" else "900", "--hang", "20",
        "--part", "%d,%d,%d" % (j["part"], j["parts"], 12)]
    t = time.time()
    rc, out, err = call(cmd, left + 60)
    res = {"job": j, "found": [], "cross": [], "done": None, "why": "", "wall": time.time() - t, "err": err[-2000:]}
    for l in out.splitlines():
        if l.startswith("FOUND "):
            res["found"].append(json.loads(l[6:]))
        elif l.startswith("CROSS "):
            res["cross"].append(json.loads(l[6:]))
        elif l.startswith("DONE "):
            res["done"] = json.loads(l[5:])
    if res["done"] is None and rc in (-11, -6):
        # overflowing stack and the like: does the native run die as well?
        res["found"].append({"label": "the run ends normally", "kind": "crash", "inputs": []})
    if res["done"] is None:
        res["why"] = "explorer ended with status %s %s" % (rc, err[-200:])
    return res


def cross_check(queries, seconds):
    """The same path obligations, given to other solvers."""
    out = {"queries": 0, "agree": 0, "disagree": 0, "unknown": 0, "solvers": []}
    solvers = [(n, c) for n, c in (("cvc5", ["cvc5", "--lang", "smt2", "--tlimit=10000"]), ("z3-new", ["z3-new", "-T:10"])) if shutil.which(n)]
    out["solvers"] = [n for n, _ in solvers]
    end = time.time() + seconds
    bad = []

    def one(a):
        (n, c), q = a
        if time.time() > end:
            return None
        p = os.path.join(BUILD, "cross-%d-%d.smt2" % (os.getpid(), threading.get_ident()))
        with open(p, "w") as f:
            f.write(q)
        try:
            r = subprocess.run(c + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30)
            t = r.stdout.strip().splitlines()
        except subprocess.TimeoutExpired:
            t = ["unknown"]
        finally:
            os.unlink(p)
        if any("(error" in x for x in t):
            return n, "error " + " ".join(t)[:200], q
        return n, (t[-1] if t else "unknown"), q

    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, [(s, q) for q in queries for s in solvers]):
            if r is None:
                continue
            out["queries"] += 1
            if r[1] == "unsat":
                out["agree"] += 1
            elif r[1] == "sat":
                out["disagree"] += 1
                bad.append(r)
            else:
                out["unknown"] += 1
    return out, bad


# Kani harnesses (kani/src/h.rs) of the concrete number types
KANI = {"C06": ["c07_nonzero"], "C07": ["c07_nonzero"], "C10": ["c10_scale"], "C22": ["c22_pretty_f64", "c22_pretty_f32"],
        "C23": ["c23_complex64", "c23_complex32"]}
KANI_THOROUGH = {"C23": ["c23_csr_views", "c23_csc_views", "c23_coo_views", "c23_with"]}


def run_kani(prop, seconds, tier):
    """Per harness: verdict, solver time; for a failure the inputs, replayed natively.
    Anything but a verdict (no build, no answer in time, loops longer than unrolled)
    is recorded as undecided."""
    out = {"tool": "kani (cbmc)", "harnesses": {}, "violation": None, "unreproduced": []}
    names = KANI.get(prop, []) + (KANI_THOROUGH.get(prop, []) if tier != "quick" else [])
    if not names or not shutil.which("cargo-kani"):
        if names:
            out["undecided"] = "cargo kani is not installed"
        return out
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "kani", prop))
    env.pop("RUSTUP_TOOLCHAIN")
    shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
    end = time.time() + seconds

    def kani(n, more):
        cmd = ["cargo", "kani", "-Z", "stubbing", "--output-format", "terse"] + more + ["--exact", "--harness", n]
        try:
            p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "kani"), env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, preexec_fn=lambda: (os.setsid(), limit_mem(8)()))
            try:
                return p.communicate(timeout=max(5, end - time.time()))[0]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                return p.communicate()[0] + "\nTIMEOUT"
        except OSError as e:
            return str(e)

    for n in names:
        t = time.time()
        text = kani(n, [])
        h = {"wall_s": round(time.time() - t, 2)}
        m = re.search(r"\*\* (\d+) of (\d+) failed", text)
        if m:
            h["checks"] = int(m.group(2))
        m = re.search(r"Verification Time: ([0-9.]+)s", text)
        if m:
            h["solver_s"] = float(m.group(1))
        if "VERIFICATION:- SUCCESSFUL" in text:
            h["verdict"] = "holds"
        elif "VERIFICATION:- FAILED" in text and re.search("^Failed Checks:", text, re.M) and \
                not re.search("^Failed Checks: unwinding", text, re.M):
            h["verdict"] = "undecided"
            h["failed"] = re.findall("^Failed Checks: (.*)", text, re.M)[:5]
            text = kani(n, ["-Z", "concrete-playback", "--concrete-playback=print"])
            for block in text.split("Concrete playback unit test")[1:]:
                block = block.split("```")[1] if "```" in block else ""
                vals = [sum(int(b) << (8 * i) for i, b in enumerate(v.split(",")))
                        for v in re.findall(r"^\s*vec!\[([0-9, ]+)\],", block, re.M)]
                rc, o, e = call([SYMX, "kreplay", "--harness", n, "--inputs", ",".join(map(str, vals))], 60, 4)
                if rc == 1:
                    h["verdict"] = "violated"
                    out["violation"] = (n, vals, next((l for l in o.splitlines() if l.startswith("REPLAY")), ""))
                    break
                out["unreproduced"].append([n, vals, (o + e)[-200:]])
        else:
            h["verdict"] = "undecided"
            h["why"] = text[-300:]
        out["harnesses"][n] = h
        if out["violation"]:
            break
    return out


def known_findings(prop):
    """finding: {json} lines; `fixed:` lines suppress nothing."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                d = json.loads(l[9:])
                if d["property"] == prop:
                    r.append(d)
    return r


def is_known(kn, j, f):
    for d in kn:
        if d["harness"] == j["h"] and d.get("params", j["p"]) == j["p"] and d["label"] == f["label"] and \
                d.get("inputs", f["inputs"]) == f["inputs"]:
            return d
    return None


FUNCTIONS = json.load(open(os.path.join(HERE, "functions.json")))


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        e = build()
        say(e or "built")
        return 2 if e else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith("replay-%s-" % prop):
            os.unlink(os.path.join(EVID, f))
    e = build()
    if e:
        say(e)
        say("ERROR: the verification crate does not build against /repo")
        return 2
    tb = time.time()
    r = subprocess.run([SYMX, "jobs", prop, tier], stdout=subprocess.PIPE, text=True, check=True)
    jobs = []
    for l in r.stdout.splitlines():
        j = json.loads(l)
        for k in range(j["parts"]):
            jobs.append(dict(j, part=k))
    # the split jobs are the long ones: start them first
    jobs.sort(key=lambda j: -j["parts"])
    budget = float(os.environ.get("VERIF_BUDGET", 480 if tier == "quick" else 5400))
    deadline = tb + budget
    kn = known_findings(prop)
    known_hit, viol, ghosts, results = [], None, [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(run_job, j, deadline, tier) for j in jobs]
        try:
            for fut in cf.as_completed(fs):
                res = fut.result()
                results.append(res)
                for f in res["found"]:
                    ok, text, cmd = replay(res["job"], f["inputs"])
                    if not ok:
                        ghosts.append((res["job"], f, text))
                        continue
                    d = is_known(kn, res["job"], f)
                    if d:
                        known_hit.append(d)
                        continue
                    viol = (res["job"], f, text, cmd)
                    break
                if viol:
                    break
        finally:
            if viol:
                kill_all()
                for fut in fs:
                    fut.cancel()
    STOP.clear()

    done = [r for r in results if r["done"]]
    S = lambda k: sum(r["done"].get(k, 0) for r in done)
    incomplete, vacuous = [], []
    for r in results:
        d = r["done"]
        if d is None:
            incomplete.append([name(r["job"]), r["why"]])
        elif not d["complete"] and (not r["found"] or any(g[0] is r["job"] for g in ghosts)):
            incomplete.append([name(r["job"]), d.get("aborted", "stopped at the time budget")])
        elif d.get("inconclusive") or d.get("nondet"):
            incomplete.append([name(r["job"]), "inconclusive %d, nondeterministic %d: %s" % (d["inconclusive"], d["nondet"], r["err"][-200:])])
        elif d["complete"] and not r["found"] and d["paths"] == 0 and r["job"]["parts"] == 1:
            vacuous.append(name(r["job"]))
    cross, bad = ({}, [])
    kani = {"harnesses": {}}
    if not viol:
        kani = run_kani(prop, 240 if tier == "quick" else 900, tier)
        if kani.get("violation"):
            n, vals, text = kani["violation"]
            j = {"h": n, "p": [], "bits": 64, "imin": 0, "imax": 2**64 - 1, "parts": 1, "part": 0}
            f = {"label": "concrete number type: " + text, "kind": "kani", "inputs": vals}
            if not is_known(kn, j, f):
                viol = (j, f, text, [SYMX, "kreplay", "--harness", n, "--inputs", ",".join(map(str, vals))])
            else:
                known_hit.append(is_known(kn, j, f))
    if not viol:
        qs = [q for r in results for q in r["cross"]]
        step = max(1, len(qs) // (24 if tier == "quick" else 200))
        cross, bad = cross_check(qs[::step][:24 if tier == "quick" else 200], 20 if tier == "quick" else 300)
    fx = FUNCTIONS.get(prop, {})
    samples = []
    for r in done:
        for s in r["done"].get("samples", [])[:1]:
            if len(samples) < 12 and s:
                samples.append({"job": name(r["job"]), "path_witness_inputs": s})
    uniq = {}
    for r in done:
        j = r["job"]
        uniq.setdefault(j["h"], []).append(name(j))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("decisions"), "transitions": S("branches"),
            "traces_validated_against_impl": S("validated"), "samples": samples,
            "paths": S("paths"), "paths_outside_assumptions": S("killed"),
            "obligations_met": S("obligations"), "obligations_discharged": S("discharged"),
            "obligations_discharged_without_query": S("folded"), "obligation_queries": S("obligation_queries"),
            "solver_queries": S("queries"), "solver_s": round(S("solver_s"), 3),
            "solver": done[0]["done"].get("z3") if done else None,
            "max_path_depth": max([r["done"].get("max_depth", 0) for r in done] or [0]),
            "validation_mismatches": S("validation_failures"),
            "jobs": len(jobs), "jobs_exhausted": sum(1 for r in done if r["done"]["complete"]),
            "exhaustive": bool(done) and not incomplete and not viol and len(results) == len(jobs),
            "incomplete_jobs": incomplete[:50], "vacuous_jobs": vacuous,
            "unreproduced_counterexamples": [[name(j), f["label"], t] for j, f, t in ghosts],
            "bounds": {h: sorted(v) for h, v in sorted(uniq.items())},
            "functions_encoded": fx.get("functions", []),
            "slowest_jobs": [[name(r["job"]), round(r["wall"], 1)] for r in sorted(done, key=lambda r: -r["wall"])[:6]],
            "cross_solver": cross,
            "concrete_types": {"tool": kani.get("tool"), "harnesses": kani["harnesses"], "unreproduced": kani.get("unreproduced", [])},
            "build_s": round(tb - t0, 1),
        },
        "assumptions": fx.get("assumptions", []) + [
            "within each listed job every index, pointer and value is symbolic over the job's shape and entry counts; jobs with 13 or more entries fix an irregular structure and leave single indices, pointers and values symbolic",
            "values are wrapping integers of the stated width, not floating point; harnesses under concrete_types use every bit pattern of the concrete types",
            "the crate is compiled with overflow checks and debug assertions; a panic where none is allowed is a violation",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    say("%s %s: %d jobs (%d exhausted), %d paths, %d obligations, %d queries, solver %.1f s, wall %.1f s (build %.1f s)" % (
        prop, tier, len(jobs), ev["coverage"]["jobs_exhausted"], S("paths"), S("obligations"), S("queries"), S("solver_s"), time.time() - t0, tb - t0))
    for d in {json.dumps(d, sort_keys=True) for d in known_hit}:
        say("KNOWN-FINDING: property=%s %s" % (prop, json.loads(d)["what"]))
    if viol:
        j, f, text, cmd = viol
        path = os.path.join(EVID, "replay-%s-1.json" % prop)
        with open(path, "w") as fh:
            json.dump({"property": prop, "job": name(j), "harness": j["h"], "params": j["p"], "bits": j["bits"],
                       "imin": j["imin"], "imax": j["imax"], "label": f["label"], "kind": f["kind"],
                       "inputs": f["inputs"], "native_run": text, "command": " ".join(cmd)}, fh, indent=1)
            fh.write("\n")
        say("%s: %s" % (name(j), f["label"]))
        say("inputs %s -> %s" % (f["inputs"], text))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for n, w in incomplete[:20]:
        say("incomplete: %s: %s" % (n, w))
    if bad:
        say("ERROR: solvers disagree: %s %s" % (bad[0][0], bad[0][2][:400]))
        return 2
    hard = [g for g in ghosts if g[1]["kind"] not in ("resource", "validation", "crash") and "step budget" not in g[1]["label"]]
    if hard:
        j, f, t = hard[0]
        say("ERROR: a counterexample does not reproduce natively: %s %s %s -> %s" % (name(j), f["label"], f["inputs"], t))
        return 2
    if not done:
        say("ERROR: nothing was explored")
        return 2
    if vacuous:
        say("ERROR: no obligation was reached in %s" % vacuous[:5])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
