from vlib.runner import Case
from vlib import siteopt

META = {
    "functions": ["OptimizationSetup.*", "NetworkOptimization.create_*", "SiteOptimization.set_up_problem_skeleton",
                  "MinCostNetwork.solve/build_model", "MaxCoverageNetwork.solve/build_model"],
    "bounds": "fixed small topologies (<= 5 sites, <= 8 directed links, <= 3 demand replicas); link capacities, demands, POP capacity, "
              "oversubscription, budget and coverage target are arbitrary reals in the stated ranges; statuses of selected components arbitrary; "
              "every solver vector (flow, airtime, polarity, site selection) is covered",
    "outside": "larger topologies; floating point rounding; the Xpress solver itself (its tolerance and optimality)",
    "assumptions": ["the solver returns a vector satisfying the constraints it was given", "arithmetic is exact (reals)"],
}


def cases(tier):
    out = []
    for net in ("line", "diamond", "unusable"):
        for mode in ("cost", "coverage"):
            out.append(Case(f"{mode}/{net}", lambda c, n=net, m=mode: siteopt.check_model(c, n, m, ["flow"])))
    out.append(Case("coverage/line/adversarial", lambda c: siteopt.check_model(c, "line", "coverage", ["flow"], adversarial=True)))
    out.append(Case("cost/line/nopolarity", lambda c: siteopt.check_model(c, "line", "cost", ["flow"], ignore_polarities=True)))
    return out
