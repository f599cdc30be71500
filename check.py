#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build

QUICK_SECS, THOROUGH_SECS = 520, 3000


def load(name):
    with open(os.path.join(V, name)) as f:
        return json.load(f)


def replay_many(exe, prop, tier, cases):
    """[(task, choices)] -> [(observations, outcome)]"""
    inp = "".join("%s %d %d %s\n" % (prop, t, tier, ",".join(map(str, c))) for t, c in cases)
    p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    out = []
    for line in p.stdout.splitlines():
        o, _, r = line.partition("\t")
        out.append((o, r))
    while len(out) < len(cases):
        # the process died: everything after is rerun one by one
        i = len(out)
        t, c = cases[i]
        q = subprocess.run([exe], input="%s %d %d %s\n" % (prop, t, tier, ",".join(map(str, c))), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        line = q.stdout.splitlines()[0] if q.stdout.splitlines() else "\tpanic process ended with %d" % q.returncode
        o, _, r = line.partition("\t")
        out.append((o, r))
    return out


def show(exe, prop, tier, task, choices):
    p = subprocess.run([exe, "-v"], input="%s %d %d %s\n" % (prop, task, tier, ",".join(map(str, choices))), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    return [l.strip() for l in p.stdout.splitlines()]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tn = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    info = load("bounds.json").get(prop, {})
    known = [k for k in load("known_findings.json")["findings"] if k["property"] == prop]
    try:
        sx, ir, rp = build.build_all()
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 3
    t_build = time.time() - t0
    out = os.path.join(build.B, "sx-%s-%s.json" % (prop, tier))
    if os.path.exists(out):
        os.unlink(out)
    secs = THOROUGH_SECS if tn else max(120, int(QUICK_SECS - max(0, t_build - 120)))
    e = dict(os.environ)
    e.setdefault("SX_TASK_SECS", str(secs // 2))
    p = subprocess.run([sx, ir, prop, str(tn), str(secs), out], stderr=subprocess.PIPE, text=True, env=e)
    if p.returncode != 0 or not os.path.exists(out):
        print("symbolic machine failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        return 3
    r = json.load(open(out))

    # the machine against the real build, on inputs of its own
    cases = [(s["task"], s["choices"]) for s in r["samples"]]
    nat = replay_many(rp, prop, tn, cases)
    agree, differ = 0, []
    bad_tasks = {v["task"] for v in r["violations"]}
    for s, (o, res) in zip(r["samples"], nat):
        want = ",".join(s["obs"])
        if o == want and (res == "ok" or s["task"] in bad_tasks):
            agree += 1
        else:
            differ.append({"task": s["task"], "choices": s["choices"], "machine": want, "native": o, "outcome": res})

    # violations: only what the real build reproduces
    vs = r["violations"]
    nv = replay_many(rp, prop, tn, [(v["task"], v["choices"]) for v in vs])
    confirmed, unconfirmed, listed = [], [], {}
    for v, (o, res) in zip(vs, nv):
        if res.startswith("check ") or res.startswith("panic "):
            text = show(rp, prop, tn, v["task"], v["choices"])
            hit = None
            for k in known:
                if res.startswith(k["outcome"]) and all(any(l.startswith(a) and b in l for l in text) for a, b in k["where"].items()):
                    hit = k
            if hit:
                listed.setdefault(hit["id"], hit)
            else:
                confirmed.append((v, res, text))
        else:
            unconfirmed.append((v, res))
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rpaths = []
    for i, (v, res, text) in enumerate(confirmed[:10]):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (prop, i))
        with open(os.path.join(V, path), "w") as f:
            json.dump({"property": prop, "tier": tier, "task": v["task"], "choices": v["choices"], "machine": v["label"], "native": res, "values": text,
                       "command": "python3 tools/build.py replay; echo '%s %d %d %s' | build/replay/debug/replay -v" % (prop, v["task"], tn, ",".join(map(str, v["choices"])))}, f, indent=1)
        rpaths.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s" % res)
        for l in text[1:]:
            print("   %s" % l[:200])

    undecided = len(r["undecided"]) + r["tasks_total"] - r["tasks_run"]
    dec = r["tasks_total"] - undecided
    cov = {
        "states": r["paths"],
        "transitions": r["forks"] + r["merges"],
        "traces_validated_against_impl": agree,
        "samples": [{"task": c[0], "choices": c[1], "observed": o, "outcome": x} for c, (o, x) in list(zip(cases, nat))[:: max(1, len(cases) // 5)][:6]],
        "exhaustive": undecided == 0,
        "explanation": "Symbolic execution of the compiled code (LLVM IR of /repo and of everything it calls, regenerated by this run). states = paths to the end of the property, transitions = path splits and joins. Every path is checked for all values on it.",
        "bounds": info.get("bounds", ""),
        "outside": info.get("outside", ""),
        "tasks": r["tasks_total"], "tasks_decided": dec, "tasks_undecided": undecided,
        "assertions_decided": r["checks_folded"] + r["checks_solver"],
        "assertions_decided_by_diagram": r["checks_folded"], "assertions_decided_by_smt": r["checks_solver"],
        "smt_queries": r["queries"], "smt_unsat": r["unsat"], "smt_sat": r["sat"], "smt_secs": r["solver_secs"], "smt_max_query_secs": r["max_query_secs"], "solver": "z3 " + r["z3"],
        "instructions": r["instrs"], "regex_searches_symbolic": r["rx_sym"], "paths_outside_assumptions": r["assume_fail"],
        "functions_executed": r["functions_executed"], "functions_encoded": r["functions"],
        "machine_native_disagreements": len(differ), "build_secs": round(t_build, 1), "machine_secs": r["secs"],
    }
    with open(ev, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": info.get("assumptions", []) + load("bounds.json")["_common"]["assumptions"],
                   "wall_s": round(time.time() - t0, 1), "violations": len(confirmed), "known_findings": sorted(listed)}, f, indent=1)
    print("%s %s: %d of %d tasks decided, %d paths, %d assertions (%d by solver), %d solver queries, %d traces agree with the real build, %.0f s"
          % (prop, tier, dec, r["tasks_total"], r["paths"], cov["assertions_decided"], r["checks_solver"], r["queries"], agree, time.time() - t0))
    for x in r["errors"][:3]:
        print("   undecided task %d: %s" % (x["task"], x["error"][:300]))
    if confirmed:
        return 1
    if unconfirmed:
        print("a counterexample does not reproduce on the real build: %s" % (unconfirmed[0],))
        return 2
    if differ:
        print("the machine and the real build disagree: %s" % json.dumps(differ[0])[:1500])
        return 2
    if dec * 2 < r["tasks_total"]:
        print("less than half of the tasks were decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
