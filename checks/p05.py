from vlib import siteopt
from vlib.runner import Case

META = {
    "functions": ["MinCostNetwork.solve/build_model", "MaxCoverageNetwork.solve/build_model", "create_coverage_constraint",
                  "create_coverage_objective", "create_common_bandwidth_variable_and_constraint", "_compute_connectable_demand_sites",
                  "build_connected_demand_model", "solve_connected_demand", "compute_max_pop_capacity_of_topology",
                  "topology_optimization._run_min_cost_step"],
    "bounds": "fixed small topologies (<= 5 sites, <= 10 directed links, <= 5 demand replicas) with arbitrary real capacities, demands, POP "
              "capacity, oversubscription, coverage targets (also two in a row) and every solver vector; selected statuses arbitrary; "
              "all polarity assignments; all numbers of failing coverage targets",
    "outside": "larger topologies; solver tolerances; optimality of the returned solution",
    "assumptions": ["the solver returns an optimal vector of the problem it was given", "arithmetic is exact (reals)",
                    "links without sectors have zero capacity (see P14)"],
}


def steps(c):
    """the loop over coverage targets"""
    from unittest import mock
    from terragraph_planner.common.exceptions import OptimizerException
    from terragraph_planner.optimization import topology_optimization as to
    fail = c.choice("failing_targets", range(8))
    timeout = c.flag("timed_out")
    asked, applied = [], []
    sol = object()

    class Fake:
        def __init__(self, *a):
            pass

        def solve(self, coverage_percentage):
            asked.append(coverage_percentage)
            return sol if len(asked) > fail else None

        def did_problem_timeout(self):
            return timeout
    top = siteopt.net_line(c)
    prm = siteopt.mk_params(c)
    with mock.patch.object(to, "MinCostNetwork", Fake), \
            mock.patch.object(to, "update_topology_with_solution", lambda s, t: applied.append((s, t))):
        try:
            r = to._run_min_cost_step(top, prm)
        except OptimizerException:
            r = None
    want = [1.0, 0.9, 0.8, 0.7, 0.6, 0.5][:fail + 1]
    c.check(len(asked) == len(want) and all(abs(a - w) < 1e-9 for a, w in zip(asked, want)), "coverage targets 100% down to 50% in 10% steps")
    if fail < 6:
        c.check(r is sol and applied == [(sol, top)], "first target with a plan is used")
    else:
        c.check(r is None and not applied, "no plan below 50%")
    c.reach("end")


def cases(tier):
    out = [Case("steps", steps)]
    siteopt.BIG = tier == "thorough"
    nets = ("line", "diamond", "tail") + (("unusable",) if tier == "thorough" else ())
    for net in nets:
        out.append(Case(f"cost/{net}", lambda c, n=net: siteopt.check_model(c, n, "cost", ["extra"])))
        out.append(Case(f"coverage/{net}", lambda c, n=net: siteopt.check_model(c, n, "coverage", ["extra"], objective="coverage")))
    out.append(Case("cost/line/second target", lambda c: siteopt.check_model(c, "line", "cost", ["extra"], resolve=True)))
    out.append(Case("cost/common/line/second target", lambda c: siteopt.check_model(
        c, "line", "cost", ["extra"], resolve=True, maximize_common_bandwidth=True, ignore_polarities=True)))
    for net in ("conn", "tail", "line"):
        for ign in (False, True):
            nm = f"common/{'nopol/' if ign else ''}{net}"
            out.append(Case("cost/" + nm, lambda c, n=net, i=ign: siteopt.check_model(
                c, n, "cost", ["extra"], maximize_common_bandwidth=True, ignore_polarities=i, check_conn=True)))
            out.append(Case("coverage/" + nm, lambda c, n=net, i=ign: siteopt.check_model(
                c, n, "coverage", ["extra"], objective="coverage", adversarial=True, maximize_common_bandwidth=True, ignore_polarities=i, check_conn=True)))
    return out
