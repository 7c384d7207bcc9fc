"""Runs the cases of one property check, confirms violations on the real code, writes evidence."""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from vlib import boot  # noqa: F401

VERIF = boot.VERIF
_MOD = None
_CASES = None


class Case:
    def __init__(self, name, fn, max_paths=200000, timeout_ms=20000, must_reach=("end",), budget=None, known=()):
        self.name, self.fn = name, fn
        self.max_paths, self.timeout_ms = max_paths, timeout_ms
        self.must_reach = must_reach
        self.budget = budget
        self.known = known


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("kind") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def _run_case(args):
    i, deadline, seed, nval = args
    from vlib import symex
    c = _CASES[i]
    t0 = time.time()
    dl = min(deadline, t0 + c.budget) if c.budget else deadline
    ctx = symex.SymCtx(timeout_ms=c.timeout_ms, max_paths=c.max_paths, deadline=dl, rng=random.Random(seed))
    res = {"case": c.name, "violation": None, "fatal": None}
    try:
        v = symex.explore(c.fn, ctx, c.name)
        if v is not None:
            res["violation"] = {"case": c.name, "label": v.label, "replayed_as": v.label_replayed,
                                "values": {k: (x if isinstance(x, (bool, int)) else str(x)) for k, x in v.values.items()}}
    except Exception:
        res["fatal"] = traceback.format_exc()[-3000:]
    # replay sample paths of the exploration concretely: the symbolic run and the real run must agree
    ok = bad = 0
    mism = []
    for s in ctx.stats.samples[:nval]:
        try:
            lab = symex.replay(c.fn, _vals(s))
        except BaseException as e:
            lab = repr(e)
        if lab is None:
            ok += 1
        else:
            bad += 1
            mism.append(f"{c.name}: {lab} {s}"[:400])
    res["agree"], res["mismatch"] = ok, mism
    res["stats"] = ctx.stats
    res["wall"] = time.time() - t0
    return res


def _vals(d):
    from fractions import Fraction
    out = {}
    for k, x in d.items():
        if isinstance(x, (bool, int)):
            out[k] = x
        elif x in ("True", "False"):
            out[k] = x == "True"
        else:
            out[k] = Fraction(x)
    return out


def main(argv=None):
    global _MOD, _CASES
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    pid = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    from vlib import symex
    try:
        _MOD = importlib.import_module("checks." + pid.lower())
        _CASES = _MOD.cases(tier)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: check {pid} could not load the code under test")
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        c = next((x for x in _MOD.cases("thorough") + _CASES if x.name == d["case"]), None)
        if c is None:
            print("no such case", d["case"])
            return 2
        symex.patch_math()
        lab = symex.replay(c.fn, _vals(d["values"]))
        print(f"replay of {d['case']}: {'FAILS: ' + lab if lab else 'holds'}")
        return 1 if lab else 0
    if a.case:
        _CASES = [c for c in _CASES if fnmatch.fnmatch(c.name, a.case)]
    budget = getattr(_MOD, "BUDGET", {}).get(tier, 600 if tier == "quick" else 3000)
    deadline = t0 + budget
    jobs = [(i, deadline, seed, 2) for i in range(len(_CASES))]
    symex.patch_math()
    results = []
    if a.jobs > 1 and len(jobs) > 1:
        with mp.get_context("fork").Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_run_case, jobs, chunksize=1):
                results.append(r)
                if os.environ.get("VERIF_VERBOSE"):
                    print(_brief(r), flush=True)
    else:
        for j in jobs:
            r = _run_case(j)
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print(_brief(r), flush=True)
    st = symex.Stats()
    fatal, viols, unreached, mism = [], [], [], []
    agree = 0
    per_case = {}
    for r in results:
        s = r["stats"]
        st.merge(s)
        agree += r["agree"]
        mism += r["mismatch"]
        if r["fatal"]:
            fatal.append(f"{r['case']}: {r['fatal']}")
        if r["violation"]:
            viols.append(r["violation"])
        c = next(x for x in _CASES if x.name == r["case"])
        if not r["violation"] and not r["fatal"] and not s.truncated and not s.errors:
            for w in c.must_reach:
                if not s.reached.get(w):
                    unreached.append(f"{c.name}: witness '{w}' not reached (vacuous)")
        per_case[r["case"]] = {"paths": s.paths, "queries": s.queries, "checks": s.checks,
                               "solver_s": round(s.solver_s, 2), "wall_s": round(r["wall"], 2), "truncated": bool(s.truncated)}
    known = known_findings(pid)
    new, old = [], []
    for v in viols:
        k = next((k for k in known if fnmatch.fnmatchcase(v["case"], k["case"]) and fnmatch.fnmatchcase(v["label"], k["label"])), None)
        (old if k else new).append((v, k))
    for v, k in old:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(VERIF, "replays")
    for v, _ in new:
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, f"{pid}-{v['case'].replace('/', '_').replace(' ', '_')}.json")
        with open(f, "w") as fh:
            json.dump(dict(v, property=pid, how=f"bash /verif/run.sh {pid} --replay {f}"), fh, indent=1)
        print(f"{v['case']}: {v['label']} (replayed on the real code: {v['replayed_as']})")
        print(f"  inputs: {v['values']}")
        print(f"VIOLATION property={pid} replay={f}", flush=True)
    wall = time.time() - t0
    meta = getattr(_MOD, "META", {})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(_MOD, "LEVEL", "model_checking"),
        "coverage": {
            "states": st.paths,
            "transitions": st.branches,
            "traces_validated_against_impl": agree,
            "samples": ([{"case": r["case"], "inputs": r["stats"].samples[0]} for r in results if r["stats"].samples][:6]) or ["none"],
            "exhaustive": st.truncated == 0 and not st.concretised and not st.errors,
            "explanation": "states = symbolic paths of the real code explored (each covers all inputs satisfying its path condition); "
                           "transitions = branches on symbolic conditions; traces_validated_against_impl = path models re-run with plain "
                           "numbers on the real code with the same verdict",
            "functions_encoded": meta.get("functions", []),
            "bounds": meta.get("bounds", ""),
            "outside_bounds": meta.get("outside", ""),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "solver_queries": st.queries,
            "solver_time_s": round(st.solver_s, 2),
            "obligations_checked": st.checks,
            "obligation_kinds": dict(sorted(st.labels.items(), key=lambda x: -x[1])[:40]),
            "witnesses_reached": st.reached,
            "unknown_answers": st.unknown,
            "truncated_cases": [k for k, v in per_case.items() if v["truncated"]],
            "pinned_values": st.concretised,
            "uninterpreted_functions": sorted(st.ufs),
            "undecided_obligations": st.undecided,
            "not_decided": st.errors[:20],
            "concrete_mismatches": mism[:5],
            "cases": per_case if len(per_case) <= 60 else {"count": len(per_case)},
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} [{tier}]: {len(_CASES)} cases, {st.paths} paths, {st.checks} obligations, {st.queries} queries, "
          f"solver {st.solver_s:.1f}s, wall {wall:.1f}s, violations {len(new)}, truncated {st.truncated}, unknown {st.unknown}")
    for k, n in sorted(st.undecided.items())[:20]:
        print(f"NOTE: undecided ({n} paths, no concrete failure found): {k}")
    for k, n in sorted(st.concretised.items()):
        print(f"NOTE: {n} times a real number was pinned to one value ({k})")
    if new:
        return 1
    # a case the solver could not finish is reported and makes the run not exhaustive; it is no answer only when it concerns much of the check
    bad = set(e.split(":")[0] for e in st.errors)
    if not fatal and not unreached and len(bad) * 4 <= len(_CASES):
        for e in st.errors[:10]:
            print("NOTE: not decided:", e[:600])
        st.errors = []
    if fatal or st.errors or unreached:
        for e in (fatal + st.errors + unreached)[:10]:
            print("ERROR:", e)
        return 2
    return 0


def _brief(r):
    s = r["stats"]
    return (f"  {r['case']}: paths {s.paths} checks {s.checks} q {s.queries} solver {s.solver_s:.1f}s wall {r['wall']:.1f}s"
            f"{' TRUNC' if s.truncated else ''}{' VIOL ' + r['violation']['label'] if r['violation'] else ''}"
            f"{' ERR' if s.errors or r['fatal'] else ''}")


if __name__ == "__main__":
    sys.exit(main())
