#!/usr/bin/env python3
"""writes cost.json from the last runs in out/ (by hand, when the instances have changed)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

r = dict(J.COST)
for prop in J.ALL:
    for tier in ("quick", "thorough"):
        for j in J.jobs(prop, tier):
            f = os.path.join(HERE, "..", "out", prop, "%s-%s-%s%s.json" % (j[0], j[1], "_".join(map(str, j[2])), "-part%d" % j[3][0] if j[3] else ""))
            if os.path.exists(f):
                w = json.load(open(f)).get("wall_s", 0)
                if w > 3:
                    r["%s %s %s %s" % (j[0], j[1], ",".join(map(str, j[2])), j[3] or "")] = round(w)
json.dump(r, open(os.path.join(HERE, "cost.json"), "w"), indent=0, sort_keys=True)
