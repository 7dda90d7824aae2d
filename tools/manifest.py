#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
tech = {}
for f in sorted(glob.glob(V + "/harness/*.cpp")):
    t = open(f).read()
    m = re.search(r"^// PROPERTIES: (.*)$", t, re.M)
    for p in (m.group(1).split() if m else []):
        have[p] = f
        n = re.search(r"^// TECHNIQUE(?: %s)?: (.*)$" % p, t, re.M)
        tech[p] = n.group(1) if n else "property-based testing: generated programs against a reference model, integrated shrinking"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                           thorough_cmd="python3 run.py %s --tier thorough" % i, technique=tech[i], level="exploration",
                           level_note="Randomised exploration with an explicit oracle; bounds and generators in DESIGN.md; harness " + os.path.relpath(have[i], V) + ", compiled with AddressSanitizer from /repo's working tree.",
                           evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --build-only", checks=checks,
         hooks=dict(guard="SPS_VERIF", enable="the checks compile /repo's sources with -DSPS_VERIF=1; no source uses it so far", source_commits=[]),
         not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
