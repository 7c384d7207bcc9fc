"""Solution extraction of the cost/coverage models on an arbitrary solution vector."""
import z3

import xpress as xp
from vlib import siteopt
from vlib import topo as T
from vlib.ilp import Net, problem_terms
from vlib.runner import Case
from vlib.symex import SymBool, SymNum

META = {
    "functions": ["SiteOptimization.extract_solution", "get_sector_decisions_from_sites", "get_link_decisions_from_sectors_and_polarity",
                  "get_sites/sectors_with_active_links", "_extract_cost", "MinCostNetwork.solve", "MaxCoverageNetwork.solve", "prune_loops"],
    "bounds": "every solution vector (real flows, airtimes and shortages; binaries within 1e-6 of 0/1) that the captured model allows on fixed "
              "networks of 4-5 sites with several sectors per node and nodes per site, wired, zero-capacity, user-active, unusable and "
              "demand-serving POP variants, with and without polarities",
    "outside": "larger networks; capacities and prices are fixed numbers; flows between 0 and the code's EPSILON are outside for 'carries traffic'",
    "assumptions": ["the solver returns a vector satisfying the constraints it was given (binaries within 1e-6)", "arithmetic is exact (reals)"],
}

CAP = 2.0


def down(a, b, **o):
    """usable capacity in one direction only"""
    return [(a, b, dict(o, cap=CAP, oneway=1)), (b, a, dict(o, cap=0.0, oneway=1))]


def net_multi(c):
    """two nodes x two sectors per DN; B idle in some plans; a zero-capacity and a sectorless link"""
    dev = T.dn_device("D2", sectors=2, nodes=2, capex=100.0)
    return siteopt.build(c, {"P": (T.POP, 0, 0, T.CAN, dev), "A": (T.DN, 100, 0, T.CAN, dev), "B": (T.DN, 200, 0, T.CAN, dev), "C": (T.CN, 300, 0, T.CAN)},
                         [("P", "A", {"cap": CAP, "sec": {"P": (0, 1), "A": (0, 0)}, "extra": [("P", (0, 0)), ("P", (1, 0)), ("A", (0, 1)), ("A", (1, 1)), ("B", (1, 1)), ("B", (0, 0))]}),
                          ("P", "B", {"cap": CAP, "sec": {"P": (0, 1), "B": (0, 0)}, "oneway": 1}), ("B", "P", {"cap": 0.0, "sec": {"P": (0, 1), "B": (0, 0)}, "oneway": 1}),
                          ("A", "C", {"cap": CAP, "sec": {"A": (1, 0)}}), ("B", "C", {"cap": CAP, "sec": {"B": (1, 0)}}),
                          ("A", "B", {"nosec": 1, "cap": 0.0})],
                         [("d1", ["C"], 1)], dem=1.0)


def net_wire(c, s):
    """wired shortcut, user-active parts, POP serving demand itself"""
    l = c.choice("link_PA", (T.CAN, s)) if s != T.CAN else T.CAN
    return siteopt.build(c, {"P": (T.POP, 0, 0, s), "Q": (T.POP, 900, 0, T.CAN), "A": (T.DN, 100, 0, s), "B": (T.DN, 200, 0, T.CAN)},
                         [("P", "A", {"cap": CAP, "status": l}), ("A", "B", {"cap": CAP, "wired": 1}), *down("Q", "B")],
                         [("d1", ["B"], 1), ("d2", ["Q"], 1)], dem=1.0)


def net_status(c, sb):
    """an unusable or forced site in the middle, a forced dead end"""
    sd = c.choice("status_D", (T.CAN, T.PRO))
    lb = sb if sb in (T.UNA, T.UNR) else T.CAN
    return siteopt.build(c, {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 100, 0, T.CAN), "B": (T.DN, 200, 0, sb), "D": (T.DN, 300, 0, sd)},
                         [*down("P", "A"), *down("P", "B", status=lb), ("A", "D", {"cap": CAP, "sec": {"A": (1, 0)}}),
                          ("B", "D", {"cap": CAP, "sec": {"B": (1, 0)}, "status": lb})],
                         [("d1", ["A"], 1), ("d2", ["B"], 1)], dem=1.0)


NETS = {"multi": net_multi, "wire": net_wire, "status": net_status}
_cache = {}


def deliver(c, prob, eps, terms=None):
    """the solver's answer: arbitrary values of all variables satisfying the captured constraints"""
    vec, bits = [], {}
    for v in prob.vars:
        if v.b is not None:
            if c.symbolic:
                c.inputs["bit_" + v.name] = v.b
                b = SymBool(v.b)
            else:
                b = c.bool("bit_" + v.name)
            bits[v.name] = b
            vec.append(c.ITE(b, 1 - eps, eps))
        elif c.symbolic:
            c.inputs["val_" + v.name] = v.t
            vec.append(SymNum(v.t))
        else:
            vec.append(c.real("val_" + v.name, 0, 100))
    if c.symbolic:
        if terms is None:
            terms = z3.simplify(z3.And([t for _, t in problem_terms(prob)]))
        c.axiom(terms)
        c.get_model()
    prob.solution = vec
    prob.objval = c.real("objective", 0, 1e6)
    return {v.name: x for v, x in zip(prob.vars, vec)}, bits, terms


def run(c, net_name, mode, arg=(), **prm):
    from terragraph_planner.optimization.constants import EPSILON
    from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
    from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
    prm.setdefault("pop_capacity", 10.0)
    prm.setdefault("oversubscription", 1.0)
    for k, v in (("cn_site_capex", 10.0), ("dn_site_capex", 300.0), ("pop_site_capex", 2000.0), ("budget", 1e5)):
        prm.setdefault(k, v)
    top = NETS[net_name](c, *arg)
    prm_ = siteopt.mk_params(c, **prm)
    eps = c.real("solver_tolerance", 0, 1e-6)
    box = {}

    def on_solve(prob):
        o = siteopt.optimizer_in_flight()
        box["opt"], box["prob"] = o, prob
        box["vec"], box["bits"], box["terms"] = deliver(c, prob, eps)
    if mode == "cost":
        opt = siteopt.construct(c, MinCostNetwork, top, prm_)
        go = lambda: opt.solve(prm.get("coverage_percentage", 0.5))
    else:
        opt = siteopt.construct(c, MaxCoverageNetwork, top, prm_, set())
        go = lambda: opt.solve()
    key = (net_name, mode, str(sorted(prm.items())), str([x.status_type for x in (*top.sites.values(), *top.links.values())]))
    if c.symbolic and key in _cache:
        # the model is the same for all solver answers: build it once
        top, opt, prob, terms = _cache[key]
        box["opt"], box["prob"] = opt, prob
        box["vec"], box["bits"], _ = deliver(c, prob, eps, terms)
        sol = opt.extract_solution()
    else:
        xp.ON_SOLVE = on_solve
        try:
            sol = go()
        finally:
            xp.ON_SOLVE = None
            if c.symbolic and "prob" in box:
                _cache[key] = (top, opt, box["prob"], box["terms"])
    if "prob" not in box:
        c.reach("not solved")
        return
    vec, bits, prob = box["vec"], box["bits"], box["prob"]
    net = Net(top, prm_)
    val = lambda v: vec[v.name]
    F0 = {e: val(opt.flow[e]) for e in net.edges()}
    if sol is None:
        for e, f in F0.items():
            if net.acyclic:
                c.le(f, EPSILON * 100, "a plan with traffic was dropped")
        c.reach("dropped")
        return
    S = {s: bits[opt.site_vars[s].name] for s in net.sites}
    mand = {s for s, x in net.sites.items() if x.status_type in T.ACTIVE}
    for (i, j), l in net.links.items():
        if l.status_type in T.ACTIVE:
            mand |= {i, j}
    D, L, F = sol.site_decisions, sol.link_decisions, sol.flow_decisions
    at = {s: [e for e in F if s in e] for s in net.sites}
    pos = lambda e: F[e] > EPSILON
    dserv = {s.site_id for d in net.top.demand_sites.values() for s in d.connected_sites}
    for s, x in net.sites.items():
        on = D[s] == 1
        c.check(c.OR(on, D[s] == 0), "site decision is 0 or 1")
        c.check(c.OR(c.NOT(on), S[s]), "site in the plan was not selected by the solver")
        carries = c.OR(*[pos(e) for e in at[s]]) if at[s] else False
        clean = c.AND(*[c.OR(F[e] == 0, F[e] > EPSILON) for e in F])
        c.check(c.OR(c.NOT(clean), c.NOT(carries), on), "site carrying traffic is not in the plan")
        links = [e for e in net.links if s in e]
        linked = c.OR(*[L[e] == 1 for e in links]) if links else False
        c.check(c.OR(c.NOT(on), linked, s in dserv), "site in the plan has neither active link nor demand")
        if s not in mand:
            c.check(c.OR(c.NOT(on), c.NOT(clean), carries), "idle site in the plan")
        if net.dist(s) and not prm_.ignore_polarities:
            odd = bits[opt.odd[s].name]
            o, e = sol.odd_site_decisions[s], sol.even_site_decisions[s]
            c.check(o + e == D[s], "exactly one of odd and even for sites in the plan, none otherwise")
            c.check(c.OR(c.NOT(on), (o == 1) == odd), "polarity is the solver's")
    for (i, j), l in net.links.items():
        able = net.usable((i, j)) and l.capacity > 0
        want = c.AND(D[i] == 1, D[j] == 1, able)
        if able and l.is_wireless and net.dist(i) and net.dist(j) and l.status_type not in T.ACTIVE and not prm_.ignore_polarities:
            want = c.AND(want, bits[opt.odd[i].name] ^ bits[opt.odd[j].name])
        c.check((L[(i, j)] == 1) == want, "link active iff both sites are in the plan, it is usable and polarities fit")
        if l.is_wireless:
            c.eq(sol.tdm_decisions[(i, j)], val(opt.tdm[(i, j, 0)]), "airtime is the solver's")
    cost = 0
    for s, x in net.sites.items():
        nodes = {}
        for q in net.top.sectors.values():
            if q.site is x:
                nodes.setdefault(q.node_id, []).append(q)
        base = {T.CN: prm_.cn_site_capex, T.DN: prm_.dn_site_capex, T.POP: prm_.pop_site_capex}[x.site_type]
        if x.status_type != T.EXI:
            cost = cost + c.ITE(D[s] == 1, base, 0)
        for n, qs in nodes.items():
            use = [L[e] == 1 for e, l in net.links.items() if l.tx_sector in qs or l.rx_sector in qs]
            want = c.AND(D[s] == 1, c.OR(*use)) if use else False
            for q in qs:
                sd = sol.sector_decisions[(s, q.sector_id)]
                c.check((sd == 1) == want, "sectors of a node are active iff the node has an active link")
                c.check(c.OR(sd != 1, sol.channel_decisions[(s, q.sector_id)] == 0), "active sector uses channel 0")
            if x.status_type != T.EXI:
                cost = cost + c.ITE(want, x.device.node_capex, 0)
    c.eq(sol.cost, cost, "reported cost is the price of the plan's new sites and nodes")
    for d in net.demand:
        c.eq(sol.shortage_decisions[d], val(opt.shortage[d]), "shortage is the solver's")
    for e in F0:
        c.le(F[e], F0[e], "flow is at most the solver's")
    c.eq(sol.objective_value, prob.objval, "objective value is the solver's")
    c.reach("end")


def cases(tier):
    Net.acyclic = False
    out = []
    for n, opts in (("status", T.ALL5), ("wire", (T.CAN, T.PRO, T.EXI)), ("multi", (None,))):
        for st in opts:
            a = (st,) if st else ()
            nm = f"{n}/{st.name}" if st else n
            out.append(Case(f"coverage/{nm}", lambda c, n=n, a=a: run(c, n, "coverage", a)))
            out.append(Case(f"cost/{nm}", lambda c, n=n, a=a: run(c, n, "cost", a)))
            out.append(Case(f"cost/{nm}/nopolarity", lambda c, n=n, a=a: run(c, n, "cost", a, ignore_polarities=True)))
    return out
