"""Source of properties.jsonl and MANIFEST.json (python3 tools/registry.py writes both)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sa"))
P = []       # claimed
NA = []      # (property, reason)

PROC = "pycomlink/processing/"


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
               why_tests_cant=why,
               anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                            mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=[observe], hook_needed=None)),
        note=note))


exec(open(os.path.join(HERE, "entries.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for e in sorted(P, key=lambda e: e["p"]["id"]) + NAP:
            fh.write(json.dumps(e["p"]) + "\n")
    checks = []
    for e in sorted(P, key=lambda e: e["p"]["id"]):
        i = e["p"]["id"]
        m = importlib.import_module("props." + i.lower())
        checks.append(dict(property=i, quick_cmd="python3 sa/run.py %s --tier quick" % i,
                           thorough_cmd="python3 sa/run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=m.TECHNIQUE,
                           level=getattr(m, "LEVEL", "other"), level_note=e["note"]))
    man = dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks,
               not_applicable=[dict(property=e["p"]["id"], reason=e["reason"]) for e in NAP],
               notes="All checks read /repo's current source with the standard library's ast module only; "
                     "nothing of pycomlink is imported or executed. See DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


NAP = []
for id_, title, statement, over, text, why, files, mech, reason in NA:
    NAP.append(dict(p=dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text),
                           why_tests_cant=why, anchors=dict(files=files, mechanism=[
                               dict(name=n, where=w) for n, w in mech])), reason=reason))
if __name__ == "__main__":
    main()
