#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
built = open(V + '/tools/built.txt').read().split()
T = "deterministic simulation with fault injection: seeded search over schedules, timing and fault sequences; "
tech = json.load(open(V + '/tools/technique.json'))
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup",
     "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: the checks compile /repo's current tree through a Go build overlay generated on the fly (/verif/sim/gen), which replaces parts of package runtime, internal/poll and net and inserts preemption points", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/run.sh check -prop {i}", "thorough_cmd": f"bash /verif/run.sh check -prop {i} -tier thorough",
            "technique": T + tech[i][0], "level": "exploration", "level_note": tech[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check still under construction"})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
