"""POP placement: which sites may become POPs, how many, and what is offered to the planner for them."""
from types import SimpleNamespace

import z3

import xpress as xp

from vlib import siteopt
from vlib import topo as T
from vlib.ilp import Net, entails, names_in, problem_terms, satisfiable, term
from vlib.runner import Case
from vlib.siteopt import kind, one, spec, zsum

META = {
    "functions": ["POPProposalNetwork", "_compute_access_candidate_topology", "create_pop_constraint", "propose_pops", "extract_solution",
                  "add_duplicate_pop_to_dn_site", "connect_demand_to_colocated_sites", "_run_propose_extra_pops_step", "pre_opt_check"],
    "bounds": "fixed networks of 5-6 sites with co-located devices; statuses of chosen sites and links, 0-3 extra POPs, arbitrary real "
              "capacities, demands and POP capacity; every solver vector; duplication for every set of chosen DNs, presence, kind and "
              "sectors of links and any capacities and confidence levels",
    "outside": "larger networks; optimality of the solver; names of the new sites",
    "assumptions": ["the solver returns a vector satisfying the constraints it was given", "arithmetic is exact (reals)",
                    "a DN at the spot of a POP of any status does not become a POP"],
}

BIG = False  # thorough tier
USABLE = (T.CAN, T.PRO, T.EXI)


def access(desc):
    """the one-hop network the proposal is about: DNs serve as POPs, only links to CNs"""
    sites, links, demands = desc
    pops = {v[1:3] for v in sites.values() if v[0] == T.POP}
    S = {}
    for s, v in sites.items():
        ty, x, y, st = v[:4]
        if ty == T.DN and (x, y) not in pops:
            ty = T.POP
        elif ty == T.POP and st == T.CAN:
            st = T.PRO
        S[s] = (ty, x, y, st) + tuple(v[4:])
    return S, [(a, b, dict(o, oneway=1)) for a, b, o in links if sites[b][0] == T.CN], demands


def nets(c, which):
    st = lambda n, o=T.ALL5: c.choice("status_" + n, o)
    ls = lambda n, a, b, o=T.ALL5: siteopt.link_status(c, n, a, b, o)
    if which == "plain":
        # candidate DNs, a CN reached twice, backhaul links of every kind
        sa = st("A")
        sc = st("C", (T.CAN, T.UNA, T.EXI)) if BIG or sa == T.CAN else T.CAN
        sites = {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 100, 0, sa), "B": (T.DN, 200, 0, T.CAN), "C": (T.CN, 300, 0, sc), "D": (T.CN, 400, 0, T.CAN)}
        links = [("P", "A", {"status": sa if sa in (T.UNA, T.UNR) else T.CAN}), ("A", "B", {"wired": 1, "status": T.UNA if sa == T.UNA else T.UNR if sa == T.UNR else T.CAN}),
                 ("A", "C", {"status": ls("AC", sa, sc)}), ("B", "C", {"status": T.UNA if sc == T.UNA else T.CAN}), ("B", "D", {"sec": {"B": (1, 0)}})]
        dem = [("d1", ["C"], 2), ("d2", ["D"], 1), ("d3", ["B"], 1)]
    elif which == "pops":
        # several POPs of any status, two devices at one POP spot, a DN at the spot of a POP
        sp = st("P")
        sq, sr = (st("Q", (T.CAN, T.EXI)), st("R", (T.CAN, T.EXI, T.UNA))) if BIG else c.choice("status_QR", ((T.CAN, T.CAN), (T.EXI, T.UNA), (T.CAN, T.EXI)))
        sites = {"P": (T.POP, 0, 0, sp), "Q": (T.POP, 0, 0, sq, T.dn_device("DQ")), "A": (T.DN, 500, 0, T.CAN), "R": (T.POP, 500, 0, sr),
                 "B": (T.DN, 200, 0, T.CAN), "C": (T.CN, 300, 0, T.CAN)}
        u = lambda s: s if s in (T.UNA, T.UNR) else T.CAN
        links = [("P", "C", {"status": u(sp)}), ("A", "C", {}), ("B", "C", {}), ("R", "C", {"status": u(sr), "cap": 1.0}), ("P", "B", {"status": u(sp), "cap": 1.0}), ("B", "A", {"cap": 1.0})]
        dem = [("d1", ["C"], 1), ("d2", ["B", "A"], 1)]
    else:
        # several devices offered for one spot, an upgrade of a CN, active DNs
        sa, sb, sc = (st("A", USABLE), st("A2", USABLE), st("X", USABLE)) if BIG else \
            c.choice("statuses", ((T.CAN, T.CAN, T.CAN), (T.EXI, T.CAN, T.CAN), (T.CAN, T.PRO, T.EXI), (T.PRO, T.EXI, T.CAN), (T.CAN, T.CAN, T.EXI)))
        sites = {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 100, 0, sa), "A2": (T.DN, 100, 0, sb, T.dn_device("DA")), "X": (T.CN, 200, 0, sc),
                 "Y": (T.DN, 200, 0, T.CAN), "C": (T.CN, 300, 0, T.CAN)}
        links = [("A", "C", {}), ("A2", "C", {}), ("Y", "C", {}), ("P", "X", {"cap": 1.0}), ("A", "Y", {"cap": 1.0, "wired": 1})]
        dem = [("d1", ["C", "A"], 1), ("d2", ["X", "Y"], 1)]
    links = [(a, b, dict(o)) for a, b, o in links]
    for a, b, o in links:
        if "cap" not in o and sites[b][0] == T.CN:
            o["cap"] = c.real(f"cap_{a}_{b}", 0, 5)
        o.setdefault("cap", 1.0)
    return sites, links, dem


def make(c, desc, dem):
    sites, links, demands = desc
    top = siteopt.build(c, sites, links, [], None)
    for k, (d, ss, num) in enumerate(demands):
        top.add_demand_site(T.demand(d, [top.sites[s] for s in ss], dem[d], num, x=1000.0 * k))
    return top


def proposal(c, which):
    from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork
    from terragraph_planner.optimization.topology_operations import mark_unreachable_components
    desc = nets(c, which)
    dem = {d: c.real("dem_" + d, 0, 4) for d, _, _ in desc[2]}
    extra = c.choice("extra_pops", (1, 2, 3) if BIG else (1, 2))
    flag = c.flag("always_active")
    p = siteopt.mk_params(c, number_of_extra_pops=extra, always_active_pops=flag, ignore_polarities=False,
                          maximize_common_bandwidth=c.flag("common_bandwidth") if BIG else flag)
    keep = (p.always_active_pops, p.ignore_polarities, p.maximize_common_bandwidth)
    top = make(c, desc, dem)
    before = snapshot(top)
    opt = siteopt.construct(c, POPProposalNetwork, top, p)
    prob, r = siteopt.capture(opt, opt.propose_pops)
    c.check(prob is not None, "the proposal problem is solved")
    c.check((p.always_active_pops, p.ignore_polarities, p.maximize_common_bandwidth) == keep, "parameters are restored")
    c.check(snapshot(top) == before, "proposing POPs leaves the topology as it was")
    acc = make(c, access(desc), dem)
    mark_unreachable_components(acc, maximum_hops=None)
    q = siteopt.mk_params(c, number_of_extra_pops=extra, always_active_pops=False, ignore_polarities=True)
    net = Net(acc, q)
    sp = spec(net, opt)
    S = [t for k in ("flow", "air", "pol", "site") for _, t in sp[k]]
    new = [s for s in net.pops if desc[0][s][0] == T.DN and desc[0][s][1] not in
           {desc[0][m][1] for m in net.mandatory() if acc.sites[m].site_type == T.POP}]
    count = ("no more sites become POPs than asked for", zsum(one(sp["S"][s]) for s in new) <= extra)
    M = problem_terms(prob)
    ms = [t for _, t in M]
    satisfiable(c, S + [count[1]], "specification satisfiable")
    for k in ("flow", "air", "site"):
        entails(c, ms, sp[k], "proposal allows: ")
    entails(c, ms, [count], "proposal allows: ")
    aux = set().union(*(names_in(t) for t in S)) if S else set()
    # polarities play no role among links that all lead to CNs: any polarities will do
    entails(c, S + [count[1]], [(f"{l}", t) for l, t in M if kind(l, t) != "pol" and names_in(t) <= aux], "proposal too strict: ")
    rest = [t for l, t in M if not names_in(t) <= aux]
    if rest:
        s = [z3.Not(v.b) for v in prob.vars if v.b is not None and v.name not in aux]
        entails(c, S + [count[1]] + s, [("polarities restrict the proposal", t) for t in rest], "proposal too strict: ")
    entails(c, ms, [("objective is the total shortage", term(prob.objective) == zsum(sp["SH"].values()))])
    c.check(prob.sense == xp.minimize, "shortage is minimised")
    c.reach("end")


def snapshot(top):
    return ([(i, s.site_type, s.status_type, s.polarity, s.name) for i, s in top.sites.items()],
            [(i, q.status_type, q.channel, q.node_id, q.position_in_node) for i, q in top.sectors.items()],
            [(i, l.status_type, l.is_wireless, l.tx_sector, l.rx_sector) for i, l in top.links.items()],
            [(i, [s.site_id for s in d.connected_sites], d.num_sites) for i, d in top.demand_sites.items()])


def duplicates(c, part):
    """new POPs for the chosen DNs"""
    from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import add_duplicate_pop_to_dn_site
    dev = T.dn_device("D2", sectors=2, nodes=2)
    sb = c.choice("status_B", (T.CAN, T.PRO, T.EXI)) if part == "sites" else T.CAN
    sites = {"P": T.site("P", T.POP, 0, 0), "A": T.site("A", T.DN, 100, 0, T.CAN, dev, altitude=5.0, loc_type=T.LocationType.ROOFTOP, building_id=7, name="a"),
             "B": T.site("B", T.DN, 200, 0, sb), "C": T.site("C", T.CN, 300, 0), "E": T.site("E", T.DN, 400, 0)}
    secs = {}
    for s, np in (("P", (0, 0)), ("A", (0, 0)), ("A", (0, 1)), ("A", (1, 0)), ("B", (0, 0)), ("B", (1, 0)), ("C", (0, 0)), ("E", (0, 0))):
        secs[(s,) + np] = T.sector(sites[s], np[0], np[1], 30.0 * len(secs), channel=c.int(f"channel_{s}{np[0]}{np[1]}", -1, 3) if part == "sites" else -1)
    pairs = {"sites": [("P", "A"), ("A", "P"), ("A", "B"), ("B", "A")],
             "links": [("P", "A"), ("A", "B"), ("B", "A"), ("A", "C"), ("E", "A"), ("A", "E")],
             "few": [("E", "A"), ("B", "E"), ("P", "B"), ("A", "B")]}[part]
    links = []
    for a, b in pairs:
        hows = ("wireless", "none") if "P" in (a, b) or "C" in (a, b) else ("wireless", "none", "wired")
        how = c.choice(f"link_{a}{b}", ("wireless", "none", "wired", "nosectors") if BIG or part == "few" or (a, b) in (("A", "B"), ("A", "E")) else hows)
        if how == "none":
            continue
        w = how != "wired"
        sa = secs[(a, 0, 1 if a == "A" and b == "B" else 0)] if how == "wireless" else None
        sr = secs[(b, 1, 0) if b in "AB" and a == "E" else (b, 0, 0)] if how == "wireless" else None
        l = T.link(sites[a], sites[b], c.real(f"cap_{a}{b}", 0, 9), sa, sr, None, w, c.real(f"conf_{a}{b}", 0, 1))
        l.link_budget.mcs_level = c.int(f"mcs_{a}{b}", 0, 12)
        l.link_budget.rsl_dbm = c.real(f"rsl_{a}{b}", -90, 0)
        links.append(l)
    dem = [T.demand("d1", [sites["A"]], 1.0), T.demand("d2", [sites["B"], sites["A"]], 2.0, 3, x=50.0), T.demand("d3", [sites["C"]], 1.0, x=90.0)]
    top = T.Topology(sites.values(), dem, secs.values(), links)
    dec = {s: 1 if (c.flag(f"chosen_{s}") if s in "ABE" and (part == "sites" or s != "B") else s in "PC") else 0 for s in sites}
    if part != "sites":
        dec["B"] = 1
    if (part == "few" or BIG) and c.flag("unchosen_missing"):
        dec = {s: v for s, v in dec.items() if v}
    sol = SimpleNamespace(site_decisions=dec)
    before = snapshot(top)
    budgets = {l.link_id: (l.capacity, l.confidence_level) for l in links}
    add_duplicate_pop_to_dn_site(top, sol)
    chosen = [s for s in "ABE" if dec.get(s, 0) == 1 and sites[s].status_type not in T.ACTIVE]
    after = snapshot(top)
    for k, what in enumerate(("sites", "sectors", "links")):
        c.check(after[k][:len(before[k])] == before[k], f"{what} of the topology are not changed")
    for i, (cap, conf) in budgets.items():
        c.eq(top.links[i].capacity, cap, "capacity of a link of the topology changed")
    new = [x for i, x in top.sites.items() if i not in {r[0] for r in before[0]}]
    c.check(len(new) == len(chosen) and all(x.site_type == T.POP and x.status_type == T.CAN for x in new), "one candidate POP for every chosen candidate DN")
    at = {}
    for s in chosen:
        d = sites[s]
        m = [x for x in new if x.location.utm_x == d.location.utm_x and x.location.utm_y == d.location.utm_y]
        c.check(len(m) == 1, "the new POP is at the spot of its DN")
        x = at[s] = m[0]
        c.check(x.altitude == d.altitude and x.device is d.device and x.location_type == d.location_type and x.building_id == d.building_id, "the new POP is like its DN")
        c.check(x.number_of_subscribers == 0 and x.name != d.name, "the new POP has a name of its own and no subscribers")
        mine = {(q.node_id, q.position_in_node): q for q in top.sectors.values() if q.site is x}
        orig = {(q.node_id, q.position_in_node): q for q in secs.values() if q.site is d}
        c.check(set(mine) == set(orig), "the new POP has the sectors of its DN")
        for k, q in mine.items():
            c.check(q.status_type == T.CAN and q.ant_azimuth == orig[k].ant_azimuth, "sectors of the new POP point as those of its DN")
            c.eq(q.channel, orig[k].channel, "sectors of the new POP use the channel of those of its DN")
    c.check(len(top.sectors) == len(secs) + sum(sum(1 for q in secs.values() if q.site is sites[s]) for s in chosen), "no other sectors are added")
    want = []
    for l in links:
        a, b = l.tx_site.site_id, l.rx_site.site_id
        if l.is_wireless and l.tx_sector is None:
            continue
        for u, v, q, r in ((at.get(a), l.rx_site, l.tx_sector, None), (l.tx_site, at.get(b), None, l.rx_sector)):
            o = l.rx_site if q is not None or v is l.rx_site else l.tx_site
            if u is None or v is None or o.site_type == T.POP:
                continue
            want.append((l, u, v))
    got = [l for l in top.links.values() if l not in links]
    c.check(len(got) == len(want), "the new POPs have the links of their DNs except those with POPs")
    for l, u, v in want:
        g = top.get_link_by_site_ids(u.site_id, v.site_id)
        c.check(g is not None, "link of a new POP is missing")
        c.check(g.status_type == T.CAN and g.is_wireless == l.is_wireless, "link of a new POP is a candidate of the same kind")
        c.eq(g.capacity, l.capacity, "link of a new POP has the capacity of the original")
        c.eq(g.mcs_level, l.mcs_level, "link of a new POP has the class of the original")
        c.eq(g.rsl_dbm, l.rsl_dbm, "link of a new POP has the signal of the original")
        c.eq(g.confidence_level, l.confidence_level, "link of a new POP has the confidence of the original")
        c.check(g.link_budget is not l.link_budget, "links share their link budget")
        for mine, orig, site in ((g.tx_sector, l.tx_sector, u), (g.rx_sector, l.rx_sector, v)):
            c.check((mine is None) == (orig is None), "link of a new POP uses sectors like the original")
            if orig is not None:
                c.check(mine.site is site and (mine.node_id, mine.position_in_node) == (orig.node_id, orig.position_in_node), "link of a new POP uses the sectors of the original")
    for d in dem:
        ids = [s.site_id for s in d.connected_sites]
        old = dict((i, x) for i, x, _ in before[3])[d.demand_id]
        c.check(sorted(ids) == sorted(old + [at[s].site_id for s in old if s in at]), "demand of the DN is offered to the new POP, once")
    c.reach("end")


def step(c):
    """when POPs are proposed at all, and what happens without an answer"""
    from unittest import mock
    from terragraph_planner.common.exceptions import OptimizerException
    from terragraph_planner.optimization import topology_optimization as to
    types = [c.choice(f"type{k}", (T.CN, T.DN, T.POP)) for k in range(2)]
    extra = c.choice("extra_pops", (0, 1, 2))
    answer, timeout = c.flag("answer"), c.flag("timeout")
    manual, uniform = c.flag("manual"), c.flag("uniform")
    top = T.Topology([T.site(f"S{k}", t, 100 * k, 0, c.choice(f"status{k}", (T.CAN, T.UNA, T.EXI))) for k, t in enumerate(types)])
    p = T.params()
    p.number_of_extra_pops, p.enable_manual_demand, p.enable_uniform_demand = extra, manual, uniform
    try:
        to.pre_opt_check(top, p)
        ok = True
    except OptimizerException:
        ok = False
    want = (extra > 0 or T.POP in types) and (manual or uniform or T.CN in types)
    c.check(ok == want, "rejected exactly without any POP to use or propose, or without any demand")
    asked, dup = [], []
    sol = object()

    class Fake:
        def __init__(self, t, q):
            asked.append((t, q))

        def propose_pops(self):
            return sol if answer else None

        def did_problem_timeout(self):
            return timeout
    before = snapshot(top)
    with mock.patch.object(to, "POPProposalNetwork", Fake), mock.patch.object(to, "add_duplicate_pop_to_dn_site", lambda t, s: dup.append((t, s))):
        try:
            r = to._run_propose_extra_pops_step(top, p)
        except OptimizerException:
            c.check(extra == 0 and T.POP not in types, "stopped although there is a POP to use or propose")
            c.reach("end")
            return
    c.check(extra > 0 or T.POP in types, "went on without any POP")
    c.check(asked == ([(top, p)] if extra else []), "POPs are proposed exactly when asked for")
    c.check(dup == ([(top, sol)] if extra and answer else []), "proposed POPs are added exactly if there is an answer")
    c.check(snapshot(top) == before, "topology changed")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case("step", step)]
    for w in ("plain", "pops", "devices"):
        out.append(Case(f"proposal/{w}", lambda c, w=w: proposal(c, w)))
    for w in ("sites", "links", "few"):
        out.append(Case(f"duplicates/{w}", lambda c, w=w: duplicates(c, w)))
    return out
