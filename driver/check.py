#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import argparse, atexit, json, math, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import registry

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """lines: known: property=C05 harness=tri match=<regex> what=<text>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=\"(.*?)\" inputs=\"(.*?)\" (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(harness=m.group(2), match=m.group(3), inputs=m.group(4), what=m.group(5)))
    return out


def is_known(kf, hname, v):
    for k in kf:
        if k["harness"] == hname and re.search(k["match"], v["msg"]) and re.search(k["inputs"], v["model"].replace("\n", ";")):
            return k
    return None


def run_native(exe, text, timeout=90):
    """returns (status, output) with status ok|fail|crash|diverged|hang"""
    env = dict(os.environ)
    env["SYM_TIMEOUT"] = str(timeout)
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=66"
    env["OMP_NUM_THREADS"] = "1"
    try:
        r = subprocess.run([exe, "/dev/stdin"], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=env, timeout=timeout + 10, errors="replace", cwd=build.OUT)
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = r.stdout
    if r.returncode == 0 and "DONE" in out:
        return "ok", out
    if r.returncode == 1:
        return "fail", out
    if r.returncode == 77:
        return "diverged", out
    if r.returncode == -14:
        return "hang", out
    if r.returncode == 66:
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", r.stderr)
        return "crash", out + (m.group(0) if m else "asan")
    return "crash", out + " exit %d" % r.returncode


def close(a, b):
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def compare_sample(text, out):
    exp = [(p[1], float(p[2])) for p in (l.split() for l in text.splitlines()) if p and p[0] == "o"]
    got = [(p[1], float(p[2])) for p in (l.split() for l in out.splitlines()) if p and p[0] == "OUT"]
    if len(exp) != len(got):
        return "number of outputs %d vs %d" % (len(exp), len(got))
    for (n, a), (m, b) in zip(exp, got):
        if n != m or not close(a, b):
            return "%s=%r in the encoding, %s=%r in the real code" % (n, a, m, b)
    return None


def judge_replay(nat, v, limit=90):
    st, out = run_native(nat, v["model"], 20 if v["hang"] else limit)
    v["replay_status"], v["replay_out"] = st, out[-600:]
    v["confirmed"] = st in ("fail", "crash", "hang")
    return v


def run_harness(pid, name, h, tier, seed):
    t0 = time.time()
    with ThreadPoolExecutor(2) as ex:
        fs, fn = ex.submit(build.build_sym, h), ex.submit(build.build_native, h)
        sym, nat = fs.result(), fn.result()
    tb = time.time() - t0
    env = dict(os.environ)
    env["SYM_BUDGET"] = str(h.get("budget", 300) if tier == "quick" else h.get("budget_thorough", h.get("budget", 300) * 6))
    env["SYM_WORKERS"] = str(min(8, os.cpu_count() or 8))
    env["VERIF_TIER"] = tier
    env["VERIF_SEED"] = str(seed)
    env["OMP_NUM_THREADS"] = "1"
    for k, v in h.get("env", {}).items():
        env[k] = v
    if tier == "thorough":
        for k, v in h.get("env_thorough", {}).items():
            env[k] = v
    p = subprocess.run([sym], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace", cwd=build.OUT)
    try:
        res = json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        raise build.BuildError("symbolic run of %s produced no result: %s %s" % (name, p.stdout[-2000:], p.stderr[-2000:]))
    res["build_s"] = round(tb, 2)
    res["stderr"] = p.stderr[-2000:]
    log = sym + ".log"
    res["warnings"] = open(log).read().split("\n")[:20] if os.path.exists(log) else []

    # replay candidate violations
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for v in res["violations"]:
        judge_replay(nat, v)
    if res["violations"] and not any(v["confirmed"] for v in res["violations"]):
        # what a stub leaves open need not be what the real code computes at the model: look around it
        for v in res["violations"][:4]:
            with ThreadPoolExecutor(8) as ex:
                tries = [dict(v, model="j %d\n" % k + v["model"]) for k in range(1, 81)]
                for t in ex.map(lambda t: judge_replay(nat, t, 15), tries):
                    if t["confirmed"] and not v["confirmed"]:
                        v.update(t)
            if v["confirmed"]:
                break
    for i, v in enumerate(res["violations"]):
        st, out = v["replay_status"], v["replay_out"]
        path = os.path.join(EVID, "replay", "%s-%s-%d.txt" % (pid, name, i))
        with open(path, "w") as f:
            f.write("# property %s, harness %s: %s\n# replay: SYM_TIER=%s %s %s   (native build of the harness with /repo's sources)\n# result: %s %s\n"
                    % (pid, name, v["msg"], os.environ.get("SYM_TIER", "0"), nat, path, st, out[-300:].replace("\n", " | ")))
            f.write(v["model"])
        v["path"] = path

    # validate sampled paths against the real code
    agreed, mism = 0, []

    def val(text):
        st, out = run_native(nat, text)
        if st == "diverged":
            return ("skip", out)
        if st != "ok":
            return ("bad", "real code: %s %s" % (st, out[-200:]))
        m = compare_sample(text, out)
        return ("bad", m) if m else ("ok", None)

    with ThreadPoolExecutor(8) as ex:
        for text, (st, msg) in zip(res["samples"], ex.map(val, res["samples"])):
            if st == "ok":
                agreed += 1
            elif st == "bad":
                mism.append({"inputs": text[:1500], "what": msg, "bad": True})
            else:
                mism.append({"inputs": text[:1500], "what": msg, "bad": False})
    res["traces_agreed"] = agreed
    res["traces_mismatch"] = mism
    # reachability guards
    res["missing_reach"] = [t for t in h.get("reach", []) if not res["reach"].get(t)]
    res["total_s"] = round(time.time() - t0, 2)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    os.environ["SYM_TIER"] = "1" if tier == "thorough" else "0"
    os.makedirs(build.OUT, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="scratch.", dir=build.OUT)   # files written by harnesses
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    os.environ["SYM_SCRATCH"] = scratch
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[pid]
    t0 = time.time()
    kf = known_findings(pid)
    results, errors, viol, known = {}, [], [], []
    names = spec["harnesses"] + (spec.get("thorough", []) if tier == "thorough" else [])
    for name in names:
        if a.only and name != a.only:
            continue
        h = registry.HARNESS[name]
        try:
            r = run_harness(pid, name, h, tier, seed)
        except build.BuildError as e:
            errors.append("%s: %s" % (name, e))
            continue
        results[name] = r
        new = 0
        for v in r["violations"]:
            if not v["confirmed"]:
                continue
            k = is_known(kf, name, v)
            if k:
                known.append((k, v))
            else:
                viol.append((name, v))
                new += 1
        if not new:
            unconf = [v for v in r["violations"] if not v["confirmed"]]
            if unconf:
                errors.append("%s: candidate violation not reproduced by the real code: %s (%s)" % (name, unconf[0]["msg"], unconf[0]["replay_status"]))
            if r["undecided"] and not unconf:
                errors.append("%s: %d undecided obligations: %s" % (name, r["undecided"], r["undecided_msgs"]))
            if r["incomplete"]:
                errors.append("%s: exploration incomplete (%d paths cut at the time budget)" % (name, r["incomplete"]))
            if r["crashes"] and not r["violations"]:
                errors.append("%s: %d exploring processes died" % (name, r["crashes"]))
            bad = [m for m in r["traces_mismatch"] if m["bad"]]
            # a witness that sits on a branch boundary may take the other branch in floating point: isolated
            # disagreements are recorded in the evidence, more of them mean that the encoding is wrong
            if len(bad) > 1 + r["traces_agreed"] // 10 and not known:
                errors.append("%s: encoding and real code disagree: %s" % (name, bad[0]["what"]))
            if r["missing_reach"]:
                errors.append("%s: vacuous, never reached: %s" % (name, r["missing_reach"]))
            if not r["paths"]:
                errors.append("%s: no complete path" % name)
        if viol and not a.v:
            break

    S = lambda k: sum(r[k] for r in results.values())
    samples = []
    for n, r in results.items():
        for s in r["samples"][:2]:
            samples.append("%s: %s" % (n, s[:400]))
    fns = sorted(set(f for r in results.values() for f in r["functions"]))
    cov = {
        "states": S("paths") + S("dropped"),
        "transitions": S("decisions"),
        "traces_validated_against_impl": S("traces_agreed"),
        "samples": samples,
        "paths_completed": S("paths"),
        "paths_dropped_by_assumptions": S("dropped"),
        "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
        "branches_not_decided_kept_as_feasible": S("branchUnknown"),
        "obligations_on_symbolic_values": S("obligations"),
        "obligations_closed_by_normalisation": S("proofRewrite"), "obligations_closed_by_solver": S("proofSolver"),
        "equalities_of_terms_confirmed": S("lemmas"),
        "boolean_assertions_checked": S("boolChecks"),
        "traces_taking_another_branch": sum(len(r["traces_mismatch"]) for r in results.values()),
        "undecided": S("undecided"), "incomplete": S("incomplete"),
        "solver_s": round(S("solver_s"), 3),
        "functions_encoded": fns,
        "bounds": spec["bounds"],
        "outside_bounds": spec.get("outside", ""),
        "harnesses": {n: {k: r[k] for k in ("paths", "dropped", "decisions", "queries", "obligations", "proofRewrite", "proofSolver", "undecided",
                                             "unknown", "maxDepth", "solver_s", "wall_s", "build_s", "reach", "traces_agreed", "missing_reach")}
                      for n, r in results.items()},
    }
    if spec.get("level", "model_checking") != "model_checking":
        raise SystemExit("level not supported")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 3),
          "assumptions": sorted(set(spec.get("assumptions", []) + ([] if all(registry.HARNESS[n].get("ieee") for n in results) else ["doubles are exact real numbers" + (" except in " + ", ".join(n for n in results if registry.HARNESS[n].get("ieee")) if any(registry.HARNESS[n].get("ieee") for n in results) else "")]) + [n for r in results.values() for n in r["notes"]])),
          "violations": [{"harness": n, "what": v["msg"], "replay": v["path"]} for n, v in viol]}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for n, r in results.items():
            print(n, {k: r[k] for k in r if k not in ("samples", "violations", "functions", "warnings", "traces_mismatch", "stderr")})
            print("  stderr", r["stderr"][-1500:])
            print("  warnings", r["warnings"])
            for v in r["violations"]:
                print("  VIO", v["msg"], "valid", v["valid"], v["replay_status"], v["replay_out"][-200:].replace("\n", " | "), v["path"])
            for m in r["traces_mismatch"][:3]:
                print("  MISM", m["bad"], m["what"])
    seen = set()
    for k, v in known:
        if k["what"] not in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            seen.add(k["what"])
    for n, v in viol:
        print("%s: %s" % (n, v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
    build.clean_old()
    if viol:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        return 2
    print("OK property=%s paths=%d queries=%d obligations=%d wall=%.1fs" % (pid, cov["paths_completed"], cov["queries"], cov["obligations_on_symbolic_values"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
