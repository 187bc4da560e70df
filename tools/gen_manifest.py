"""Writes MANIFEST.json from the property list and the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C20": "pure arithmetic of one call: no concurrency, time, I/O, randomness or multi-party behaviour for a schedule or fault to act on (its independence from history is C01)",
 "C21": "pure function property over inputs: a schedule or fault cannot change it; deciding it would need input-space testing, another technique",
 "C22": "pure decision rule over one score matrix: nothing for a scheduler or fault injector to act on",
 "C23": "numerical property of a deterministic solver: independent of schedules, clocks, I/O and faults (history independence is C01)",
 "C24": "pure function property of two deterministic estimators: nothing for a simulator to control",
 "C25": "pure arithmetic over two score vectors: nothing for a simulator to control",
 "C26": "pure mapping between in-memory structures; what schedules and faults can do to it (aliasing, mutation, torn exports) is claimed under C03 and C06",
}
LEVEL = {}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "sim/props/%s.py" % i.lower())
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f):
        src = open(f).read()
        tech = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
        note = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="deterministic simulation with fault injection: " + tech.group(1), level="exploration",
                           level_note=note.group(1)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, matplotlib, pandas'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
