"""writes properties.jsonl and MANIFEST.json from one table (run by hand)"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         state=None, observe=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(
        rec={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"state": [{"name": a, "meaning": b, "where": c}
                              for a, b, c in state]} if state else {}),
                **({"observe_at": observe} if observe else {}),
                "hook_needed": None,
            }},
        technique=technique, note=note, na=na))


exec(open(os.path.join(here, "tools", "properties_src.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")

TRUST = (" Trusts the reference model in the check and the local stand-ins for "
         "packages that are not installed (standins/README.md); generated-input "
         "search, so absence of a violation is not proof.")
checks, na = [], []
for p in P:
    id = p["rec"]["id"]
    if p["na"] or not os.path.exists(os.path.join(here, "checks", id + ".py")):
        na.append({"property": id, "reason": p["na"] or "check not built yet"})
        continue
    checks.append({
        "property": id,
        "quick_cmd": "./check.sh %s" % id,
        "thorough_cmd": "./check.sh %s --thorough" % id,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"] + TRUST,
    })
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Hypothesis-driven checks against reference models and metamorphic "
             "relations; no hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
