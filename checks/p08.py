"""Throughput of a finished design."""


import z3

import xpress as xp
from checks import p10
from vlib import siteopt, symex
from vlib import topo as T
from vlib.ilp import SUPER, Net, entails, problem_terms, satisfiable, term, zmax
from vlib.runner import Case
from vlib.siteopt import _sbt, kind, link_status, one, status, zsum

META = {
    "functions": ["MaxFlowNetwork.__init__/solve/set_up_problem_skeleton/extract_flow_solution", "_get_ignore_links", "create_site_decisions", "create_sector_decisions",
                  "create_flow_balance_with_buffer", "create_tdm_sector_relationship", "create_tdm_flow_relationship", "create_flow_site_relationship",
                  "create_pop_load_constraints", "create_maximum_buffer_objective", "_get_reachable_demand_sites_without_constraints",
                  "OptimizationSetup", "topology_report.get_routing_flow_solution", "topology_report.get_routing_topology"],
    "bounds": "four fixed networks (<= 5 sites, <= 12 directed links, wired, sectorless, multi-sector and several links per sector), selected sites, links and "
              "sectors of arbitrary status, links redundant or not, arbitrary real capacities (some zero), POP capacities, and every solver vector; "
              "extraction for every solver vector the model allows on two networks, and for every solver status",
    "outside": "larger networks; optimality of the returned solution; the SINR update before routing (P16)",
    "assumptions": ["the solver returns an optimal vector of the problem it was given", "arithmetic is exact (reals)"],
}
BIG = False


def net_line(c):
    st = c.choice("status_net", (T.PRO, T.EXI))
    sb = status(c, "B")
    l1 = link_status(c, "AB", st, sb)
    lc = link_status(c, "BC", sb, T.PRO if sb in T.ACTIVE else T.CAN, (T.CAN, T.PRO, T.UNA, T.UNR))
    sites = {"P": (T.POP, 0, 0, st), "A": (T.DN, 100, 0, st), "B": (T.DN, 200, 0, sb), "C": (T.CN, 300, 0, T.PRO if sb in T.ACTIVE else T.CAN)}
    return siteopt.build(c, sites, [("P", "A", {"status": st, "cap": c.real("cap_PA", 0, 4)}), ("A", "B", {"status": l1, "cap": c.real("cap_AB", 0, 4)}),
                                    ("B", "C", {"status": lc, "sec": {"B": (0, 0)}, "cap": 1.5})],
                         [("d1", ["A"], 1), ("d2", ["C", "B"], 2)], dem=1.0)


REDUNDANT = ((), (("A", "B"), ("B", "A")), (("P", "A"), ("A", "P"), ("Q", "B")), (("B", "A"),))


def net_wire(c, red):
    """two POPs (one of arbitrary status), wired and redundant links"""
    sq = status(c, "Q", T.ALL5 if BIG or not red else (T.CAN, T.PRO))
    lq = link_status(c, "QB", sq, T.PRO)
    st = c.choice("status_A", (T.PRO, T.EXI))
    la = link_status(c, "PA", st, st, (T.CAN, T.PRO, T.EXI))
    top = siteopt.build(c, {"P": (T.POP, 0, 0, st), "Q": (T.POP, 900, 0, sq), "A": (T.DN, 100, 0, st), "B": (T.DN, 200, 0, T.PRO)},
                        [("P", "A", {"status": la, "cap": c.real("cap_PA", 0, 4)}), ("A", "B", {"status": T.PRO, "wired": 1, "cap": c.real("cap_AB", 0, 4)}),
                         ("Q", "B", {"status": lq, "cap": 1.5}), ("P", "B", {"nosec": 1, "cap": 0.0, "status": T.CAN})],
                        [("d1", ["B"], 1), ("d2", ["Q"], 1), ("d3", ["A", "Q"], 1)], dem=1.0)
    red = REDUNDANT[red]
    for l in top.links.values():
        l.is_redundant = (l.tx_site.site_id, l.rx_site.site_id) in red
    return top


def net_sectors(c):
    """several sectors per site, a sector that is off, one sector serving two links"""
    st = c.choice("status_net", (T.PRO, T.EXI))
    dev = T.dn_device("D2", sectors=2, nodes=2)
    la = link_status(c, "PB", st, st, (T.CAN, T.PRO, T.EXI))
    off = st == T.PRO and c.flag("off")
    if off:
        la = T.CAN
    top = siteopt.build(c, {"P": (T.POP, 0, 0, st, dev), "A": (T.DN, 100, 0, st, dev), "B": (T.DN, 200, 0, st, dev), "K": (T.CN, 300, 0, T.PRO)},
                        [("P", "A", {"status": st, "sec": {"P": (0, 1), "A": (0, 1)}, "cap": c.real("cap_PA", 0, 4)}), ("P", "B", {"status": la, "sec": {"P": (0, 0), "B": (1, 0)}, "cap": 1.5}),
                         ("A", "B", {"status": st, "sec": {"A": (1, 0), "B": (1, 0)}, "cap": 1.0}), ("B", "K", {"status": T.CAN if off else T.PRO, "sec": {"B": (1, 1)}, "cap": 0.5}),
                         ("A", "K", {"status": T.PRO, "sec": {"A": (0, 1)}, "cap": c.real("cap_AK", 0, 4)})],
                        [("d1", ["K"], 1), ("d2", ["A"], 1)], dem=1.0)
    for l in top.links.values():
        l.is_redundant = l.rx_site.site_id == "K" and l.tx_site.site_id == "A" and c.flag("AK_redundant")
    for q in top.sectors.values():
        if off and (q.site.site_id, q.node_id, q.position_in_node) in (("P", 0, 0), ("B", 1, 1)):
            q.status_type = T.CAN
    return top


def net_two(c):
    """two separate networks: neither may borrow from the other; one demand point without service"""
    s2 = status(c, "Q", (T.CAN, T.PRO, T.EXI))
    l2 = link_status(c, "QB", s2, s2, (T.CAN, T.PRO, T.EXI))
    return siteopt.build(c, {"P": (T.POP, 0, 0, T.PRO), "A": (T.DN, 100, 0, T.PRO), "Q": (T.POP, 500, 0, s2), "B": (T.DN, 600, 0, s2), "Z": (T.DN, 900, 0, T.UNR)},
                         [("P", "A", {"status": T.PRO, "cap": 1.2}), ("Q", "B", {"status": l2, "cap": c.real("cap_QB", 0, 4)}), ("B", "Z", {"status": T.UNR, "cap": 1.0})],
                         [("d1", ["A"], 2), ("d2", ["B"], 1), ("d3", ["Z"], 1)], dem=1.0)


NETS = {"line": net_line, **{f"wire/{k}": lambda c, k=k: net_wire(c, k) for k in range(4)}, "sectors": net_sectors, "two": net_two}


def usable(net, e):
    l = net.links[e]
    return (l.status_type in T.ACTIVE and not l.is_redundant and all(net.sites[s].status_type in T.ACTIVE for s in e)
            and (not l.is_wireless or (l.tx_sector is not None and l.rx_sector is not None)))


def sector_on(q):
    return q.status_type in T.ACTIVE


def spec(net, opt, want):
    p = net.p
    F = {e: term(opt.flow[e]) for e in net.edges()}
    wl = [e for e, l in net.links.items() if l.is_wireless]
    TD = {e: term(opt.tdm[(e[0], e[1], 0)]) for e in wl}
    B = term(opt.buffer_var)
    inn, out = {}, {}
    for (i, j) in F:
        out.setdefault(i, []).append((i, j))
        inn.setdefault(j, []).append((i, j))
    sm = lambda es: zsum([F[e] for e in es or ()])
    sp = [("bandwidth is not negative", B >= 0)]
    for e in F:
        sp.append((f"flow non-negative @{e}", F[e] >= 0))
    for s, x in net.sites.items():
        if s in inn or s in out:
            sp.append((f"traffic in equals traffic out @{s}", sm(inn.get(s)) == sm(out.get(s))))
        if x.status_type not in T.ACTIVE:
            sp.append((f"inactive site carries nothing @{s}", z3.And(sm(inn.get(s)) == 0, sm(out.get(s)) == 0)))
        if x.site_type == T.POP:
            sp.append((f"POP capacity @{s}", z3.And(sm(out.get(s)) <= term(p.pop_capacity), F[(SUPER, s)] <= term(p.pop_capacity))))
    for d in net.demand:
        sp.append((f"connectable demand gets the common bandwidth, other demand nothing @{d}", sm(inn.get(d)) == (B if d in want else 0)))
    for e, l in net.links.items():
        cap = term(l.capacity)
        if not usable(net, e):
            sp.append((f"inactive, redundant or sectorless link carries nothing @{e}", F[e] == 0))
        elif l.is_wireless:
            sp.append((f"traffic within capacity times airtime @{e}", F[e] <= cap * TD[e]))
            if not (sector_on(l.tx_sector) and sector_on(l.rx_sector)):
                sp.append((f"no traffic through inactive sectors @{e}", F[e] == 0))
        else:
            sp.append((f"traffic within wired capacity @{e}", F[e] <= cap))
    for e in wl:
        sp.append((f"airtime share in [0,1] @{e}", z3.And(TD[e] >= 0, TD[e] <= 1)))
    for q in net.top.sectors.values():
        for nm, es in (("transmit", [e for e in wl if net.links[e].tx_sector is q]), ("receive", [e for e in wl if net.links[e].rx_sector is q])):
            if es:
                sp.append((f"{nm} airtime of a sector @{q.sector_id}", zsum(TD[e] for e in es) <= (1 if sector_on(q) else 0)))
    maxcap = zmax([term(l.capacity) for l in net.links.values()])
    tot = len(net.pops) * term(p.pop_capacity)
    for d, (ds, _) in net.demand.items():
        for s in ds.connected_sites:
            sp.append((f"hand-off limit @{d}", F[(s.site_id, d)] <= maxcap))
    for s in net.sites:
        # conservation makes all traffic come from POPs
        sp.append((f"@throughput bound {s}", z3.And(sm(inn.get(s)) <= tot, sm(out.get(s)) <= tot)))
    for e in F:
        if e not in TD:
            sp.append((f"@link throughput bound {e}", F[e] <= tot))
    sp.append(("supersource only sends", sm(out.get(SUPER)) >= 0))
    sp.append(("@source bound", sm(out.get(SUPER)) <= tot))
    for d in net.demand:
        sp.append((f"@demand bound {d}", sm(inn.get(d)) <= tot))
    return sp, F, TD, B


def reachable(c, net):
    """demand points an active POP reaches; decided on this path"""
    R = {s for s in net.pops if net.sites[s].status_type in T.ACTIVE}
    while True:
        N = R | {j for (i, j) in net.links if i in R and usable(net, (i, j)) and net.links[(i, j)].capacity > 0}
        if N == R:
            break
        R = N
    return {d for d, (ds, _) in net.demand.items() if any(s.site_id in R for s in ds.connected_sites)}


def setup(c, name, concrete=False):
    from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork
    top = NETS[name](c) if not concrete else name
    p = siteopt.mk_params(c, pop_capacity=c.real("pop_capacity", 0, 20, strict_lo=True))
    opt = siteopt.construct(c, MaxFlowNetwork, top, p)
    return top, p, opt, Net(top, p)


def model(c, name):
    top, p, opt, net = setup(c, name)
    prob, _ = siteopt.capture(opt, opt.solve)
    want = reachable(c, net)
    c.check(set(opt.connected_demand_sites) == want, "connectable demand points are those an active POP reaches over active links")
    sp, F, TD, B = spec(net, opt, want)
    ms = [t for _, t in problem_terms(prob)]
    st = [t for _, t in sp]
    entails(c, ms, [x for x in sp if not x[0].startswith("@")], "model allows: ")
    entails(c, st, [(f"{kind(lab, t)} rule of the model not in the specification @{lab}", t) for lab, t in problem_terms(prob)], "too strict: ")
    satisfiable(c, st + [B > 0], "bandwidth is possible")
    entails(c, ms, [("objective is the common bandwidth", term(prob.objective) == B)])
    c.check(prob.sense == xp.maximize, "the common bandwidth is maximised")
    c.reach("end")


def extract(c, name):
    """what is handed back for an arbitrary answer of the solver"""
    from terragraph_planner.optimization import topology_report as tr
    L = []
    if name == "chain":
        sites = {"P": (T.POP, 0, 0, T.PRO), "A": (T.DN, 100, 0, T.EXI), "B": (T.DN, 200, 0, T.PRO)}
        links = [("P", "A", {"status": T.PRO, "cap": 2.0}), ("A", "B", {"status": T.PRO, "cap": 1.0, "wired": c.flag("wired")})]
        dem = [("d1", ["A"], 1), ("d2", ["B"], 1)]
    else:
        sites = {"P": (T.POP, 0, 0, T.PRO), "A": (T.DN, 100, 0, T.PRO), "B": (T.DN, 200, 0, T.CAN)}
        links = [("P", "A", {"status": T.PRO, "cap": 2.0}), ("P", "B", {"status": T.CAN, "cap": 1.0}), ("A", "B", {"status": T.CAN, "cap": 1.0})]
        dem = [("d1", ["A", "B"], 1), ("d2", ["B"], 1)]
    top = siteopt.build(c, sites, links, dem, dem=1.0)
    p = siteopt.mk_params(c, pop_capacity=10.0)
    status_ = c.choice("lpstatus", range(9))
    box = {}

    def on_solve(prob):
        box["opt"] = siteopt.optimizer_in_flight()
        box["vec"], _, _ = p10.deliver(c, prob, 0)
        prob.attrib["lpstatus"] = status_
    xp.ON_SOLVE = on_solve
    try:
        with symex.swapped((tr.update_link_caps_with_sinr, lambda *a: None)):
            r = tr.get_routing_flow_solution(top, p)
    finally:
        xp.ON_SOLVE = None
    if status_ in (0, 2, 5, 7, 8):
        c.check(r is None, "no throughput without a solution")
        return c.reach("end")
    opt, vec, net, s = box["opt"], box["vec"], Net(top, p), r.flow_solution
    c.eq(s.buffer_decision, vec[opt.buffer_var.name], "reported bandwidth is the solver's")
    c.check(s.connected_demand_sites == reachable(c, net), "reported connectable demand points")
    F = s.flow_decisions
    c.check(set(F) == set(net.edges()), "every link has a flow")
    for e in F:
        c.le(F[e], vec[opt.flow[e].name], "flow is at most the solver's")
        c.le(0, F[e], "flow is not negative")
    for d in net.demand:
        c.eq(sum(F[e] for e in F if e[1] == d), sum(vec[opt.flow[e].name] for e in F if e[1] == d), "delivered traffic is the solver's")
    for e, l in net.links.items():
        if l.is_wireless:
            c.eq(s.tdm_decisions[e], vec[opt.tdm[(*e, 0)].name], "airtime is the solver's")
    U = r.active_link_utilization
    for (i, j), l in net.links.items():
        fw, bw = (F[(i, j)], l.capacity), (F[(j, i)], net.links[(j, i)].capacity)
        act = l.status_type in T.ACTIVE
        c.check(act or (i, j) not in U, "only active links have a utilisation")
        if (i, j) in U:
            c.eq(U[(i, j)], 100 * fw[0] / fw[1], "utilisation is flow over capacity")
        if act and i < j:
            used = [fw[0] > 0.001 * fw[1], bw[0] > 0.001 * bw[1]]
            c.check((i, j) in U or (j, i) in U, "every active physical link has a utilisation")
            c.check(c.OR(c.NOT(used[0]), (i, j) in U), "direction with traffic is reported")
            c.check(c.OR(c.NOT(used[1]), (j, i) in U), "direction with traffic is reported")
    c.reach("end")


def redundant(c):
    """links that routing uses in neither direction become redundant, the others stay"""
    from terragraph_planner.optimization.topology_report import get_routing_topology
    top = siteopt.build(c, {"P": (T.POP, 0, 0, T.PRO), "A": (T.DN, 100, 0, T.PRO), "K": (T.CN, 200, 0, T.PRO)},
                        [("P", "A", {"status": T.PRO, "cap": 1.0}), ("A", "K", {"status": T.PRO, "cap": 1.0})], [("d1", ["K"], 1)], dem=1.0)
    ids = sorted(top.links)
    used = {l for l in ids if c.flag("used_" + str(ids.index(l)))}
    get_routing_topology(top, set(used))
    for l in top.links.values():
        r = top.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        c.check(l.is_redundant == (l.link_id not in used and (r is None or r.link_id not in used)), "redundant iff used in neither direction")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = siteopt.BIG = tier == "thorough"
    out = [Case("model/" + n, lambda c, n=n: model(c, n)) for n in NETS]
    out += [Case("extract/" + n, lambda c, n=n: extract(c, n)) for n in ("chain", "partial")]
    out.append(Case("redundant", redundant))
    return out
