#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mech(*a):
    return [{"name": n, "where": w} for n, w in a]

NOTE_SCHED = ("Seeded search, not a proof. One-process simulation: the thread pool is replaced by a deterministic "
 "scheduler (work stealing, nested execution while waiting, preemption at joins, steals, futex calls and atomic "
 "operations; sequentially consistent memory), randomness and futexes are interposed, fresh memory is filled with "
 "garbage; everything else is the real code. ")

P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note, claim=True, reason=None, **anch):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
      mechanism=mechanism, technique=technique, level=level, note=note, claim=claim, reason=reason, anch=anch))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        a.update(p["anch"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["title"]

m = {"version": 1, "setup_cmd": "bash ./setup.sh",
 "hooks": {"guard": "cfg(vsim_hooks)", "enable": "build.sh passes --cfg vsim_hooks in RUSTFLAGS", "source_commits": HOOKS},
 "checks": [{"property": p["id"], "quick_cmd": f"bash ./run.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough bash ./run.sh {p['id']}",
   "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["claim"]],
 "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
 "notes": NOTES}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
