#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json + properties.jsonl (run by hand after editing either)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(R + "/checks.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
na = json.load(open(R + "/not_applicable.json"))
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).split("\n") if "verification hooks" in l]
checks = []
for p in props:
    i = p["id"]
    if i not in cfg: continue
    c = cfg[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; executed-contract replay tier for counterexamples"),
        "level": c.get("level", "proof"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "hodor_verif", "enable": "RUSTFLAGS=\"--cfg hodor_verif\" (the checks build the harness crate, which depends on /repo by path, with it)", "source_commits": hooks},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na[p["id"]]} for p in props if p["id"] not in cfg],
     "notes": "check.py decides: Verus on the mechanically extracted functions (proof), beside it the replay tier in harness/ which runs the same contracts as oracles on the compiled code (bounded, never counted as proved)."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
