"""Single source of MANIFEST.json and properties.jsonl:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe, state=state))


EX = "src/simpy/expr.py"
exec(open(os.path.join(HERE, "tools", "catalogue.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                "observe_at": list(p["observe"]),
                "hook_needed": None,
            },
        }) + "\n")

man = {
    "version": 1,
    "setup_cmd": PY + " -c \"import rv.core, rv.common\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "%s check.py %s --tier quick" % (PY, p["id"]),
        "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p["id"]),
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [],
    "notes": "Pure-Python library on PyPy: there is nothing to compile, so 'rebuilding' is importing /repo/src afresh in "
             "every check process. No hooks are added to /repo; instrumentation is installed from outside at run time.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
