from vlib import siteopt
from vlib.runner import Case

from checks.p01 import META as M1

META = dict(M1)


def cases(tier):
    siteopt.BIG = tier == "thorough"
    out = []
    for net in ("line", "diamond", "conn", "air") + (("unusable",) if tier == "thorough" else ()):
        for mode in ("cost", "coverage"):
            if mode == "coverage" and net not in ("line", "air") and tier != "thorough":
                continue
            out.append(Case(f"{mode}/{net}", lambda c, n=net, m=mode: siteopt.check_model(c, n, m, ["air", "pol"])))
    out.append(Case("cost/conn/nopolarity", lambda c: siteopt.check_model(c, "conn", "cost", ["air", "pol"], ignore_polarities=True)))
    return out
