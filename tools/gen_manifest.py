#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import props
V = os.path.dirname(H)
NA = {
 "N01": "The mesh library (SCOREC core: apf, gmi, mds) and any mesh are absent, so interfaces/apfGraph.cpp and dofGraph.cpp are not compiled by the build here; there is no execution to monitor.",
 "N02": "The accelerator library (Kokkos, KokkosKernels) is absent, so partition/Coloring is not compiled by the build here; there is no execution to monitor.",
}
TECH = props.TECH
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.P:
        sp = props.P[p]
        checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s" % p, thorough_cmd="python3 tools/check.py %s --tier thorough" % p,
                           technique=TECH[p][0], level="exploration", level_note=TECH[p][1] + " " + props.NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "No check has been built for it yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors judge public state, interposed library calls (ld --wrap), MPI profiling calls (PMPI) and sanitizer reports. known-findings.txt lists the defects found and fixed. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not")
