#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists properties whose checks are in place."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = open(os.path.join(root, "tools", "claimed")).read().split()
NOTE = {
 "C10": "seeded thread schedules over intercepted atomics plus long histories; the shared counter is advanced by drawn amounts to reach wrap-around of narrower integers",
 "C28": "randomness taken, distinct values, variety and tags of the next process are measured; the generator itself is a stand-in",
 "C21": "seeded thread schedules over intercepted atomics, debug and release variants, adversarial random values",
}
TECH = "deterministic simulation: real code under a seeded scheduler and simulated {what}; seeded search over schedules and faults with a reference model as oracle, minimised replay file per failure"
def what(i):
    if i == "C28": return "threads, randomness and process restarts"
    if i == "C26": return "driver, peer and transport, with a secret in the traffic and every printed or logged text searched for it"
    if i in ("C10", "C21"): return "threads (every atomic and lock operation is a drawn preemption point)"
    if i in ("C17", "C18", "C19", "C20", "C22", "C25", "C27"): return "network, TLS peers, files and tasks around the whole proxy program"
    if i in ("C11", "C12", "C13", "C14", "C15"): return "TCP transport (partial I/O, stalls, resets, EOF, cancellation), plain and TLS"
    return "driver and peer (arrival cutting, API call timing, peer behaviour)"
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED: continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "technique": TECH.format(what=what(i)),
        "level": "exploration",
        "level_note": NOTE.get(i, "seeded random search, not exhaustive; see DESIGN.md for the model, the bounds and the stand-ins"),
    })
na = []
for p in props:
    if p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": "check not built yet"})
hooks = {"guard": "none", "enable": "no hooks: every seam is a dependency replaced at build time (std, tokio, tokio-rustls, rand, argh, codec crates)", "source_commits": []}
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na, "hooks": hooks}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed")
