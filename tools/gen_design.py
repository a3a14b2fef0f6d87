"""write DESIGN.md from tools/design.md, known_findings.jsonl, seeded/ and the table below"""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, "tools", "design.md")).read()
known = [json.loads(x) for x in open(os.path.join(here, "known_findings.jsonl"))
         if x.strip()]
fixed = "\n".join("- %s" % k["text"].replace("fixed: property=", "") for k in known
                  if k["status"] == "fixed")
found = "\n".join("- %s (%s): %s" % (k["property"], k["key"], k["text"]) for k in known
                  if k["status"] == "finding")
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                                         m["what_it_breaks"], m["needs"]))
mut = open(os.path.join(here, "tools", "mutation.md")).read().strip()
for k, v in (("FIXED", fixed), ("FINDINGS", found), ("SEEDS", "\n".join(rows)), ("MUT", mut)):
    text = text.replace("@@%s@@" % k, v)
open(os.path.join(here, "DESIGN.md"), "w").write(text)
