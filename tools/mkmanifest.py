"""Regenerates MANIFEST.json from the property modules present in props/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real functions; path-wise verification conditions from the instrumented source, z3/cvc5"
NOTE = {
    "default": "proof of the contracts listed as 'complete' in the evidence, over all real/integer/text values "
               "(collections up to the stated bound); floats are reals; undischarged contracts are covered by "
               "bounded samples of the same contract and never counted as proved",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
extra = {}
p = os.path.join(HERE, "tools", "levels.json")
if os.path.exists(p):
    extra = json.load(open(p))
for d in props:
    i = d["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")) and not extra.get(i, {}).get("na"):
        x = extra.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check.py %s" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=x.get("technique", TECH),
                           level=x.get("level", "proof"), level_note=x.get("note", NOTE["default"])))
    else:
        na.append(dict(property=i, reason=extra.get(i, {}).get("na", "no contract written yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
         notes="Checks read /repo's sources on every run; nothing is built or cached.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
