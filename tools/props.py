"""source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real Python functions (symx: z3-backed values, path forking), every assertion an "
        "SMT validity query per path, counterexamples and path witnesses replayed on the unshimmed code")
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note="", hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, state=state, observe=observe, note=note, hook=hook))


def N(id, reason):
    NA.append((id, reason))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
    na = {i for i, _ in NA}
    checks = [{
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
        "technique": TECH, "level": "model_checking",
        "level_note": p["note"]} for p in PROPS if p["id"] not in na]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --selftest", "checks": checks,
         "not_applicable": [{"property": i, "reason": r} for i, r in NA],
         "notes": "No hooks in /repo: the checks import the code and run it as is. known_findings.txt lists "
                  "recorded and fixed defects."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
