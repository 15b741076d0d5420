#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this one list. Run it in /verif."""
import json

P = []
S, I, H, C, F = "schedules", "inputs", "histories", "configurations", "fault_sequences"


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


SCHED = "stateless exploration of the real code under a controlled scheduler, all schedules up to a preemption bound"
SEQ = "exhaustive enumeration of all operation sequences on the real code, compared with a reference model"
ENUM = "exhaustive enumeration of a bounded input space on the real code, compared with an independent oracle"
TRUST = "Bounded and exhaustive within the bounds recorded in the evidence; trusts the Go compiler, the source instrumenter and the shims in lib/. "

exec(open("tools/properties_list.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bin/check warm",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bin/check " + p["id"],
        "thorough_cmd": "bin/check " + p["id"] + " -tier thorough",
        "evidence_file": "evidence/" + p["id"] + ".json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": TRUST + p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks instrument a copy of /repo's working tree at build time (tools/mc). See DESIGN.md.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
