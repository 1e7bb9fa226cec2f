#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
NOTE = ("Trusts TLC, the recorder in harness/ (which calls the public API and encodes results) and, for f32/f64 results, the "
        "host's arithmetic within the stated tolerance. Bounded: the shapes, scalars and histories listed in the evidence file; "
        "every recorded call is decided by the specification's post-condition, none by the code's own answer.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=PROPS[i].get("technique", "TLA+ specification of the API as a state machine; TLC validates traces recorded from the real code"),
                           level="model_checking", level_note=PROPS[i].get("note", "") + NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
               notes="One driver (check.py), one TLA+ specification (spec/), one harness crate (harness/). No hooks in /repo are needed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
