"""The properties and the manifest, kept in one place; run to rewrite properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
EXH = "exhaustive over the listed finite domain; trusts rustc's MIR of the crate as built, the interpreter in sa/ and the recorded NumPy tables"


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, thorough=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech), technique=technique, note=note, thorough=thorough))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in P:
    if "technique" in p:
        c = dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                 technique=p["technique"], level="other", level_note=p["note"])
        checks.append(c)
m = dict(version=1, setup_cmd="bash bin/dump.sh", checks=checks, not_applicable=NA,
         notes="Static analysis of the crate's monomorphic MIR: see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
