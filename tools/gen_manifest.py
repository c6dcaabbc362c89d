#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "checks_table.py")).read())  # CHECKS, NA
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "technique": c[0], "level": c[2] if len(c) > 2 else "exploration", "level_note": c[1]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(sbtc_monitor)", "enable": "harness/.cargo/config.toml passes --cfg sbtc_monitor to rustc; it lets the environment variable SBTC_MONITOR_ELECTRUM replace the hard-wired Electrum server of sbtc-core's deposit operation",
               "source_commits": ["13d6f3cc521e0056859b17cc05dcf169d4833716"]},
     "notes": "Apart from the one hook, every monitor observes public APIs, process boundaries (CLI, mock servers) or the persisted event log. thorough_cmd is the same check with VERIF_TIER=thorough: tens of times the workload within larger time budgets."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
