"""source of properties.jsonl and MANIFEST.json (run: python3 devtools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   **({"observe_at": observe} if observe else {}), **({"state": state} if state else {}))))
    PROPS[-1]["_note"] = note


def N(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "devtools", "props_data.py")).read())


def main():
    import sys
    sys.path.insert(0, HERE)
    from sa import core
    from sa.rules import load_all
    load_all()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {x["property"] for x in NA}
    checks, extra = [], []
    for p in PROPS:
        if p["id"] in na:
            continue
        if p["id"] not in core.REGISTRY:
            extra.append(dict(property=p["id"], reason="no check built yet"))
            continue
        rules = core.REGISTRY[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           technique="static analysis: path-sensitive value-flow over the ast; rules " + ", ".join(r.name for r in rules),
                           level="other", level_note=p["_note"]))
    man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA + extra,
               notes="All checks are pure-Python (stdlib) static analyses of /repo/mergekit's current sources; nothing of mergekit is imported or executed.")
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "checks", [x["property"] for x in extra])


main()
