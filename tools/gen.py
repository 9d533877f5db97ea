#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []          # properties, in order
CLAIMED = {}    # id -> level note
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism, observe=None,
         hook=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w}
                                   for n, w in mechanism]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    if hook:
        p["anchors"]["hook_needed"] = hook
    P.append(p)
    if na:
        NA[id] = na
    else:
        CLAIMED[id] = note


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

hooks = subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%H %s", "--grep=COTTONTAIL_SIMULATION",
     "--grep=^simulation hooks"],
    capture_output=True, text=True).stdout.split("\n")
hooks = [h.split()[0] for h in hooks if h]
TECHNIQUE = ("deterministic simulation with fault injection: seeded search over "
             "thread schedules, crashes and storage faults against a model")
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "COTTONTAIL_SIMULATION",
        "enable": "build.sh compiles the repository's sources with "
                  "-DCOTTONTAIL_SIMULATION into the simulator's executable; "
                  "the repository's own build never defines it",
        "source_commits": hooks,
    },
    "checks": [{
        "property": id,
        "quick_cmd": "python3 check.py %s quick" % id,
        "thorough_cmd": "python3 check.py %s thorough" % id,
        "technique": TECHNIQUE,
        "level": "exploration",
        "level_note": note,
    } for id, note in CLAIMED.items()],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
