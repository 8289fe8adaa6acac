#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below
(one source for both; run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, level_note,
         technique="property-based testing: random cases against a reference model", state=None, observe=None):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [],
                               hook_needed=None)),
        technique=technique, level_note=level_note))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        assert all(isinstance(p["prop"][k], str) and len(p["prop"][k]) > 20 for k in ("statement", "why_tests_cant")), p["prop"]
        f.write(json.dumps(p["prop"]) + "\n")

built = [p for p in P if os.path.exists("%s/harness/%s.cpp" % (V, p["prop"]["id"]))]
man = dict(
    version=1,
    setup_cmd="python3 tools/check.py --build " + " ".join(p["prop"]["id"] for p in built[:1]),
    checks=[dict(property=p["prop"]["id"],
                 quick_cmd="python3 tools/check.py %s quick" % p["prop"]["id"],
                 thorough_cmd="python3 tools/check.py %s thorough" % p["prop"]["id"],
                 evidence_file="evidence/%s.json" % p["prop"]["id"],
                 technique=p["technique"], level="exploration",
                 level_note=p["level_note"]) for p in built],
    not_applicable=[dict(property=p["prop"]["id"],
                         reason="check not built yet") for p in P if p not in built]
    + NOT_CLAIMED,
    notes="Replay a failure with: python3 tools/check.py <ID> --replay <file>. "
          "No hooks are needed: every check goes through the public interface, "
          "built from /repo/src with ASan+UBSan and a stand-in for the "
          "ggdatetime headers (shim/), which this sandbox does not have.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(built), "checks")
