from vlib import siteopt
from vlib.runner import Case

from checks.p01 import META as M1

META = dict(M1)


def cases(tier):
    siteopt.BIG = tier == "thorough"
    out = []
    for net in ("colocated", "colocated2", "unusable", "diamond"):
        for pops in (False, True):
            out.append(Case(f"cost/{net}{'/pops' if pops else ''}", lambda c, n=net, q=pops: siteopt.check_model(
                c, n, "cost", ["site"], always_active_pops=q, pop_capacity=5.0, oversubscription=1.0)))
    return out
