#!/usr/bin/env python3
"""run.py PROP quick|thorough: decide one property and write its evidence."""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
GRACE = 30
WORKER = os.path.join(HERE, "worker.py")
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", TZ="UTC")
for _k in ("PYTHONPATH", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "http_proxy", "https_proxy", "no_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY"):
    ENV.pop(_k, None)


def sub(args, inp=None, timeout=None):
    p = subprocess.run([PY, "-s", WORKER] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, text=True)
    return p


def known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("status") == "known" and e.get("property") == prop:
                    out.append(e)
    return out


def matches(e, name, params, msg, inputs):
    if e.get("obligation") not in (None, name):
        return False
    if e.get("message") and e["message"] not in msg:
        return False
    for k, v in (e.get("params") or {}).items():
        if params.get(k) != v:
            return False
    for k, v in (e.get("inputs") or {}).items():
        if inputs.get(k) != v:
            return False
    return bool(e.get("message") or e.get("inputs") or e.get("params"))


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop == "selftest":
        p = subprocess.run([PY, "-s", "-c", "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, pypsrp; s = z3.Solver(); s.add(z3.Int('x') > 1); assert s.check() == z3.sat; print(z3.get_version_string())"], env=ENV)
        return p.returncode
    t0 = time.monotonic()
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total_budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "820"))
    p = sub(["list", prop], timeout=120)
    if p.returncode != 0:
        print(p.stderr[-4000:])
        print("ERROR property=%s the harness does not load" % prop)
        return 2
    obs = json.loads(p.stdout)
    jobs = []
    for o in obs:
        if only and o["name"] != only:
            continue
        for i, params in enumerate(o[tier]):
            jobs.append((o, i, params))
    if not jobs:
        print("ERROR property=%s nothing to run" % prop)
        return 2

    kn = known(prop)
    found = []  # when a counterexample is known the rest gets only GRACE seconds

    def run_job(j):
        o, i, params = j
        left = total_budget - (time.monotonic() - t0)
        budget = min(left, o["budget"] or left)
        if found and time.monotonic() > found[0] + GRACE:
            return {"status": "stopped: another obligation failed"}
        with tempfile.TemporaryFile("w+") as out, tempfile.TemporaryFile("w+") as err:
            p = subprocess.Popen([PY, "-s", WORKER, "sym", prop, o["name"], str(i), tier, str(max(budget, 5))], stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=ENV)
            end = time.monotonic() + budget + 45
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    now = time.monotonic()
                    late = found and now > found[0] + GRACE
                    if late or now > end:
                        p.kill()
                        p.wait()
                        return {"status": "stopped: " + ("another obligation failed" if late else "wall clock")}
            out.seek(0)
            err.seek(0)
            text, etext = out.read(), err.read()
        if p.returncode != 0:
            return {"status": "fatal: worker exit %d\n%s" % (p.returncode, etext[-3000:])}
        try:
            r = json.loads(text)
        except ValueError:
            return {"status": "fatal: unreadable result\n%s" % text[-500:]}
        if any(not any(matches(e, o["name"], params, v[0], v[1]) for e in kn) for v in r.get("violations", [])):
            found.append(time.monotonic())
        return r

    nproc = min(8, os.cpu_count() or 8)
    with ThreadPoolExecutor(nproc) as ex:
        results = list(ex.map(run_job, jobs))

    # replay: every counterexample, and a sample of the explored paths
    con_in, back = [], []
    for (o, i, params), r in zip(jobs, results):
        for v in r.get("violations", []):
            con_in.append({"name": o["name"], "params": params, "inputs": v[1]})
            back.append(("v", o, params, r, v))
        for s in r.get("samples", []):
            con_in.append({"name": o["name"], "params": params, "inputs": s["inputs"]})
            back.append(("s", o, params, r, s))
    replies = []
    if con_in:
        p = sub(["con", prop], inp="".join(json.dumps(c) + "\n" for c in con_in), timeout=400)
        replies = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        if len(replies) != len(con_in):
            print(p.stderr[-3000:])
            print("ERROR property=%s the replay process died" % prop)
            return 2

    errors, violations, known_hits = [], [], []
    validated = diverged = skipped = 0
    replay_dir = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(VERIF, "replays")
    for (kind, o, params, r, x), c, rep in zip(back, con_in, replies):
        bad = rep["outcome"] in ("fail", "exception")
        if kind == "v":
            if not bad:
                errors.append("counterexample of %s %s does not reproduce: %s inputs=%s replay=%s\n%s" % (o["name"], params, x[0], json.dumps(x[1])[:600], rep["outcome"], x[2] if len(x) > 2 else ""))
                continue
            msg = rep.get("msg", "")
        else:
            if not bad:
                if rep["outcome"] == "assume":
                    skipped += 1
                    if x["end"] == "ok":
                        errors.append("path model of %s %s violates an assumption when replayed: %s" % (o["name"], params, json.dumps(x["inputs"])[:600]))
                elif x["observed"] is not None:
                    if x["observed"] != rep["observed"]:
                        diverged += 1
                        errors.append("encoding of %s %s disagrees with the real code for %s:\n  encoded %s\n  real    %s" % (o["name"], params, json.dumps(x["inputs"])[:600], json.dumps(x["observed"])[:800], json.dumps(rep["observed"])[:800]))
                    else:
                        validated += 1
                else:
                    skipped += 1
                continue
            msg = rep.get("msg", "")
            if x["end"] == "ok":
                # the encoding let a real failure through
                errors.append("the real code fails where the encoding does not: %s %s %s: %s\n%s" % (o["name"], params, json.dumps(x["inputs"])[:600], msg, rep.get("tb", "")))
        hit = next((e for e in kn if matches(e, o["name"], params, msg, c["inputs"])), None)
        if hit is not None:
            known_hits.append(hit)
            continue
        violations.append((o["name"], params, msg, c["inputs"], rep.get("tb", "")))

    exhaustive = True
    for (o, i, params), r in zip(jobs, results):
        st = r.get("status", "?")
        if st.startswith("stopped: violations"):
            exhaustive = False
        elif st != "complete":
            exhaustive = False
            errors.append("%s %s: %s" % (o["name"], params, st))
        if r.get("cuts"):
            exhaustive = False
            for w in r["cuts"]:
                if w.startswith("INCONCLUSIVE"):
                    errors.append("%s %s: %s" % (o["name"], params, w))
        if st == "complete" and not r.get("reached"):
            errors.append("%s %s: no reachability witness was hit (vacuous)" % (o["name"], params))

    # samples to show
    shown = []
    for (o, i, params), r in zip(jobs, results):
        for s in r.get("samples", [])[:1]:
            shown.append({"obligation": o["name"], "params": params, "inputs": s["inputs"], "end": s["end"]})
    fns = sorted({f for r in results for f in r.get("functions", [])})
    sums = lambda k: sum(r.get(k, 0) for r in results)
    cuts, realised = {}, {}
    for r in results:
        for d, t in ((r.get("cuts", {}), cuts), (r.get("realised", {}), realised)):
            for k, v in d.items():
                t[k] = t.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sums("paths"),
            "transitions": sums("branches"),
            "traces_validated_against_impl": validated,
            "samples": shown[:12],
            "exhaustive": exhaustive and not errors and not violations,
            "meaning": "states: symbolic paths explored to their end, each standing for every input value that satisfies its path condition; transitions: conditions of the code decided by the solver on those paths",
            "obligations": [
                {
                    "name": o["name"],
                    "params": params,
                    "bounds": o["bounds"],
                    "what": o["doc"],
                    "status": r.get("status", "?").split("\n")[0],
                    "paths": r.get("paths", 0),
                    "infeasible_paths": r.get("infeasible", 0),
                    "queries": r.get("queries", 0),
                    "solver_s": r.get("solver_s", 0),
                    "assertions": r.get("checks", 0),
                    "assertions_by_solver": r.get("checks_solved", 0),
                    "witnesses": r.get("reached", {}),
                    "cuts": r.get("cuts", {}),
                    "wall_s": r.get("wall_s", 0),
                }
                for (o, i, params), r in zip(jobs, results)
            ],
            "functions_encoded": fns,
            "queries_discharged": sums("queries"),
            "solver_s": round(sums("solver_s"), 3),
            "assertions_checked": sums("checks"),
            "paths_cut_outside_bounds": cuts,
            "values_concretised": realised,
            "replayed_path_models_without_observation": skipped,
        },
        "assumptions": sorted({a for o in obs for a in o["assumes"]}),
        "violations": len(violations),
        "wall_s": round(time.monotonic() - t0, 2),
    }
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for e in {json.dumps(k, sort_keys=True) for k in known_hits}:
        print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(e)["what"]))
    done = set()
    if violations:
        os.makedirs(replay_dir, exist_ok=True)
    for n, (name, params, msg, inputs, tb) in enumerate(violations):
        key = (name, msg[:60])
        if key in done:
            continue
        done.add(key)
        path = os.path.join(replay_dir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "name": name, "params": params, "inputs": inputs, "message": msg, "traceback": tb, "how": "python3 %s/symx/replay.py %s" % (VERIF, path)}, f, indent=1)
        print("%s %s: %s" % (name, params, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors:
        print("ERROR property=%s %s" % (prop, e))
    print(
        "%s %s: %d obligations, %d paths, %d queries, solver %.1fs, %d assertions, %d path models validated, wall %.1fs%s"
        % (prop, tier, len(jobs), sums("paths"), sums("queries"), sums("solver_s"), sums("checks"), validated, time.monotonic() - t0, "" if ev["coverage"]["exhaustive"] else " (not exhaustive: %s)" % json.dumps(cuts)[:400])
    )
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
