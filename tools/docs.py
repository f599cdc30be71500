#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and bounds.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
b = json.load(open(os.path.join(V, "bounds.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    x = b.get(i)
    if x is None:
        raise SystemExit("no bounds for " + i)
    if "not_applicable" in x:
        na.append({"property": i, "reason": x["not_applicable"]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled LLVM IR, decided by decision diagrams and SMT (Z3)",
        "level": "model_checking",
        "level_note": "Bounded: holds for every value within: %s Outside: %s Trusted: %s" % (
            x["bounds"], x["outside"], " ".join(x.get("assumptions", []) + b["_common"]["assumptions"])),
    })
m = {"version": 1, "setup_cmd": "python3 tools/build.py all",
     "hooks": {"guard": "rlibphonenumber_verif", "enable": "RUSTFLAGS=\"--cfg rlibphonenumber_verif\"",
               "source_commits": ["2e6801b0b1f8b9528ff844bd835e4119d81d6eaf", "4bd4ffec5dba1e040e5c9c716988bf835b45473a"]},
     "checks": checks, "not_applicable": na,
     "notes": "One symbolic machine (sx/) runs the harness (harness/) over LLVM IR built from /repo on every run; counterexamples and sample paths are replayed on a native build (replay/)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
