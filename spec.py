#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, level_note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, note=level_note, na=na, state=state or []))


NOTE = ("Bounded: every path of the compiled functions is executed symbolically and Z3 decides each branch and "
        "assertion for all values within the bounds in the evidence file; nothing is claimed beyond them. Trusts clang's "
        "lowering, the engine's IR semantics (sampled paths are re-run natively and must agree) and the stand-ins for "
        "the absent dependencies (cista, utl, fmt). ")

exec(open(os.path.join(V, "spec_props.py")).read())

with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": p["state"],
                                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                 "thorough_cmd": f"python3 check.py {p['id']} thorough",
                 "technique": "symbolic execution of the real code's LLVM IR, Z3 bit-vector/FP queries",
                 "level": "model_checking", "level_note": NOTE + p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "See DESIGN.md. No hooks in /repo are needed; fix: commits are listed in KNOWN_FINDINGS.json."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for fl in p["files"]:
        assert os.path.exists("/repo/" + fl), (p["id"], fl)
print(len(P), "properties,", len(m["checks"]), "checks")
