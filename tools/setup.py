#!/usr/bin/env python3
"""Builds every monitor program once, so that the checks find warm objects."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, props
todo, jobs = [], {}
for p, sp in props.P.items():
    for m in (sp["mod"] if isinstance(sp["mod"], list) else [sp["mod"]]):
        a = (m, sp.get("flavour", "san"), sp.get("pcu", False), sp.get("wraps", ()), sp.get("src", ()), sp.get("defs", ()), sp.get("libdefs", ()), sp.get("ldflags", ()))
        todo.append((p, a)); B.build(*a, collect=jobs)
    if "runner" in sp:
        for f in ("fillp",):
            B.build(a[0], f, *a[2:], collect=jobs); todo.append((p, (a[0], f) + a[2:]))
with ThreadPoolExecutor(8) as ex:
    errs = [e for e in ex.map(B.compile_one, sorted(jobs.values(), key=lambda j: -os.path.getsize(j[1]))) if e]
for e in errs: print("ERROR", e)
for p, a in todo:
    try: B.build(*a)
    except B.BuildError as e: print("ERROR %s: %s" % (p, e)); errs.append(e)
print("built" if not errs else "trouble with some of", len(props.P), "monitors")     # the check concerned reports it
