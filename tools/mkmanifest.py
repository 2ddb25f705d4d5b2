"""Regenerate MANIFEST.json from props/*.py and properties.jsonl."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    ns = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in (
                "LEVEL", "TECHNIQUE", "RULE", "LEVEL_NOTE"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": ns.get("TECHNIQUE", "runtime monitoring: oracle over observed executions"),
        "level": ns["LEVEL"],
        "level_note": ns.get("LEVEL_NOTE", "the oracle decides every execution explored; "
                             "inputs are sampled from a seeded generator, not enumerated"),
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import vlib.env\"",
    "checks": checks, "not_applicable": na,
    "notes": "Pure Python: the checks import meshio from /repo/src directly, so there is nothing "
             "to build. No hooks are added to /repo; monitors attach at run time.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
