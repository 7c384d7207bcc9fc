"""Redundancy model: both phases, extraction, configured levels and the candidate-link heuristic."""
import z3

import xpress as xp
from checks import p10
from vlib import siteopt
from vlib import topo as T
from vlib.ilp import SUPER, Net, entails, problem_terms, satisfiable, term
from vlib.runner import Case
from vlib.siteopt import one, zsum

META = {
    "functions": ["RedundantNetwork.__init__/setup_problem_skeleton/create_*/shortage_solve/solve/extract_redundancy_solution", "OptimizationSetup.*",
                  "topology_optimization._run_redundancy_step", "compute_candidate_edges_for_redundancy",
                  "get_link_decisions_from_sectors_and_polarity", "get_sector_decisions_from_sites", "_extract_cost"],
    "bounds": "fixed networks of 5-6 sites (two DNs needing redundancy, up to two POPs, candidate DNs, a CN with an upgrade at its spot) with "
              "arbitrary statuses of chosen sites and links, absent or zero-capacity links, candidate-link restrictions and the node limits of every "
              "level; every solver vector (flows, shortages, sites, polarities); prices are arbitrary reals",
    "outside": "larger networks; optimality of the solver; the quality of the candidate-link heuristic (only its soundness is decided)",
    "assumptions": ["the solver returns a vector satisfying the constraints it was given (binaries within 1e-6)", "arithmetic is exact (reals)"],
}

BIG = False
LEVELS = {"low": (2, 2, 2), "medium": (1, 1, 2), "medium1": (2, 1, 2), "high": (2, 1, 4), "high1": (3, 1, 3)}
CAP = 1.0


def net_ring(c):
    """P-A-B base; candidate X and POP Q close the ring; a spare DN Y at X's spot"""
    sb = siteopt.status(c, "B", (T.PRO, T.EXI)) if BIG else T.EXI
    sx = siteopt.status(c, "X", T.ALL5 if BIG else (T.CAN, T.EXI, T.UNA))
    sq = siteopt.status(c, "Q", (T.CAN, T.PRO, T.UNR) if BIG else (T.CAN, T.PRO))
    pa = T.PRO
    ab = siteopt.link_status(c, "AB", T.PRO, sb, (T.CAN, T.PRO, T.UNA) if BIG else (T.PRO, T.UNA))
    xb = siteopt.link_status(c, "XB", sx, sb, T.ALL5 if BIG else (T.CAN, T.PRO, T.UNA))
    sites = {"P": (T.POP, 0, 0, T.PRO), "A": (T.DN, 100, 0, T.PRO), "B": (T.DN, 200, 0, sb), "X": (T.DN, 100, 90, sx),
             "Y": (T.DN, 100, 90, T.CAN, T.dn_device("DY")), "Q": (T.POP, 300, 0, sq)}
    return siteopt.build(c, sites, [("P", "A", {"cap": CAP, "status": pa}), ("A", "B", {"cap": CAP, "status": ab}), ("P", "X", {"cap": CAP}),
                                    ("X", "B", {"cap": CAP, "status": xb}), ("Y", "B", {"cap": CAP, "oneway": 1}), ("B", "Y", {"cap": 0.0, "oneway": 1}),
                                    ("P", "Y", {"cap": CAP, "wired": 1}), ("Q", "B", {"cap": CAP})],
                         [("d1", ["B"], 1)], dem=1.0)


def net_cn(c):
    """the demand sits on a CN with a DN upgrade at its spot; a POP that serves only demand; a DN without links; a sectorless link"""
    sc = siteopt.status(c, "C", (T.PRO, T.CAN, T.EXI))
    sq = siteopt.status(c, "Q", (T.CAN, T.EXI))
    su = siteopt.status(c, "U", (T.CAN, T.UNA))
    bu = siteopt.link_status(c, "BU", T.PRO, su, (T.CAN, T.UNA))
    wired = c.flag("AB_wired")
    sites = {"P": (T.POP, 0, 0, T.EXI), "A": (T.DN, 100, 0, T.PRO), "B": (T.DN, 200, 0, T.PRO), "C": (T.CN, 300, 0, sc),
             "U": (T.DN, 300, 0, su), "Q": (T.POP, 900, 0, sq), "Z": (T.DN, 400, 0, T.CAN), "V": (T.CN, 250, 9, siteopt.status(c, "V", (T.PRO, T.CAN)))}
    return siteopt.build(c, sites, [("P", "A", {"cap": CAP, "status": T.PRO}), ("A", "B", {"cap": CAP, "wired": wired, "status": T.PRO}),
                                    ("P", "B", {"nosec": 1, "cap": 0.5}), ("B", "C", {"cap": CAP}), ("B", "U", {"cap": CAP, "status": bu}), ("P", "U", {"cap": CAP}),
                                    ("U", "A", {"cap": CAP}), ("A", "V", {"cap": CAP})],
                         [("d1", ["C", "V"], 1), ("d2", ["Q"], 1)], dem=1.0)


NETS = {"ring": net_ring, "cn": net_cn}


def spec(net, opt, lim, links, SH):
    p = net.p
    pop_cap, dn_cap, sink_cap = lim
    inactive = (T.UNA, T.UNR)
    dns = [s for s, x in net.sites.items() if x.site_type == T.DN and x.status_type in T.ACTIVE]
    E = list(links) + [(SUPER, q) for q in net.pops]
    sites = {s for e in E for s in e if s != SUPER}
    S = {s: opt.site_vars[s].b for s in sites}
    out = []
    for d in dns:
        F = {e: term(opt.flow[(*e, d)]) for e in E}
        for e in E:
            out.append((f"flow within [0, limit] @{e}", z3.And(F[e] >= 0, F[e] <= (pop_cap if e[0] == SUPER else 1))))
            if e[0] != SUPER and not net.usable(e):
                out.append((f"unusable link carries nothing @{e}", F[e] == 0))
        for s in sites:
            i, o = zsum([F[e] for e in E if e[1] == s]), zsum([F[e] for e in E if e[0] == s])
            cap = pop_cap if net.sites[s].site_type == T.POP else sink_cap if s == d else dn_cap
            out.append((f"flow through a site within its limit, none through an unselected one @{s}", z3.Implies(True, i <= cap * one(S[s]))))
            if s == d:
                out.append((f"the DN receives its required flows less the shortage @{s}", i - o >= sink_cap - SH[d]))
            else:
                out.append((f"flow in equals flow out @{s}", i == o))
        out.append((f"the POPs send at most the required flows less the shortage @{d}", zsum([F[(SUPER, q)] for q in net.pops]) <= sink_cap - SH[d]))
        if not p.ignore_polarities:
            for i, j in links:
                l = net.links[(i, j)]
                if l.is_wireless and l.status_type not in T.ACTIVE:
                    out.append((f"flow joins opposite polarities @{(i, j)}", z3.And(F[(i, j)] <= one(opt.odd[i].b) + one(opt.odd[j].b),
                                                                                 F[(i, j)] <= 2 - one(opt.odd[i].b) - one(opt.odd[j].b))))
    if not p.ignore_polarities:
        for i, j in links:
            l = net.links[(i, j)]
            if l.is_wireless and l.status_type in T.ACTIVE:
                out.append((f"active link keeps opposite polarities @{(i, j)}", opt.odd[i].b != opt.odd[j].b))
    for s in sites:
        x = net.sites[s]
        if x.status_type in T.ACTIVE:
            out.append((f"a site already in the plan stays @{s}", S[s]))
        elif x.status_type in inactive or x.site_type == T.POP:
            out.append((f"no unusable site and no further POP is selected @{s}", z3.Not(S[s])))
    for g in net.groups():
        v = [S[s] for s in g if s in sites]
        if len(v) > 1:
            out.append((f"at most one co-located backhaul device @{g}", z3.PbLe([(b, 1) for b in v], 1)))
    cost = zsum([one(S[s]) * siteopt.site_cost(net, s) for s in sites])
    return dns, out, cost


def setup(c, name, level, ignore, restrict, prices=False):
    from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork
    from terragraph_planner.optimization.structs import RedundancyParams
    top = NETS[name](c)
    common = level == "high"
    prm = dict(pop_capacity=5.0, oversubscription=1.0, ignore_polarities=ignore, maximize_common_bandwidth=common)
    for k, v in (("cn_site_capex", 10.0), ("dn_site_capex", 300.0), ("pop_site_capex", 2000.0)):
        prm[k] = c.real(k, 0, 5000) if prices else v
    p = siteopt.mk_params(c, **prm)
    lim = LEVELS[level]
    net = Net(top, p)
    links = [e for e, l in net.links.items() if net.dist(e[0]) and net.dist(e[1]) and l.capacity > 0]
    lim_links = None
    if restrict:
        drop = c.choice("not_candidate", [("P", "X"), ("X", "B"), ("A", "B")] if name == "ring" else [("B", "U"), ("P", "A"), ("P", "U")])
        links = [e for e in links if e != drop]
        lim_links = set(net.links) - {drop}
    opt = siteopt.construct(c, RedundantNetwork, top, p, RedundancyParams(*lim), lim_links)
    c.check(opt.params.maximize_common_bandwidth is False and p.maximize_common_bandwidth is common, "common bandwidth plays no role")
    return top, p, net, opt, lim, links


def phases(c, name, level, ignore, restrict):
    top, p, net, opt, lim, links = setup(c, name, level, ignore, restrict, prices=True)
    n = [0]
    box = {}

    def on_solve(prob):
        n[0] += 1
        ms = [t for _, t in problem_terms(prob)]
        if n[0] == 1:
            SH = {d: term(v) for d, v in opt.shortage.items()}
            dns, sp, _ = spec(net, opt, lim, links, SH)
            c.check(set(SH) == set(dns), "redundancy is built for exactly the active DNs")
            sp += [(f"shortage between 0 and the required flows @{d}", z3.And(SH[d] >= 0, SH[d] <= lim[2])) for d in dns]
            obj = zsum(SH.values())
            if satisfiable(c, [t for _, t in sp] + [z3.And([s < lim[2] for s in SH.values()])], "some redundancy possible"):
                pass
        else:
            SH = {d: term(x) for d, x in box["sh"].items()}
            dns, sp, obj = spec(net, opt, lim, links, SH)
        entails(c, ms, sp, f"phase {n[0]} allows: ")
        entails(c, [t for _, t in sp], [(f"{siteopt.kind(lab, t)} rule of the model not in the specification @{lab}", t) for lab, t in problem_terms(prob)],
                f"phase {n[0]} too strict: ")
        entails(c, ms, [("objective", term(prob.objective) == obj)], f"phase {n[0]}: ")
        c.check(prob.sense == xp.minimize, "shortage, then cost, is minimised")
        # the answer of the first phase: arbitrary shortages (only those matter from here on)
        box["sh"] = {d: c.real(f"shortage{n[0]}_{d}", 0, lim[2]) for d in SH}
        if n[0] == 2 or c.flag("no_first_solution"):
            prob.attrib["mipsols"] = 0
            return
        prob.solution = [0.0] * len(prob.vars)
        for d in SH:
            prob.solution[prob.getIndex(opt.shortage[d])] = box["sh"][d]
    xp.ON_SOLVE = on_solve
    try:
        sol = opt.solve()
    finally:
        xp.ON_SOLVE = None
    c.check(sol is None, "no plan without a solution")
    c.reach("phase%d" % n[0])
    c.reach("end")


_cache = {}


def extract(c, name, ignore):
    """the plan handed back for an arbitrary answer of the second phase"""
    top, p, net, opt, lim, links = setup(c, name, "medium1", ignore, False)
    p = opt.params
    eps = c.real("solver_tolerance", 0, 1e-6)
    box, n = {}, [0]
    key = (name, ignore, str([x.status_type for x in (*top.sites.values(), *top.links.values())] + [l.is_wireless for l in top.links.values()]))

    def on_solve(prob):
        n[0] += 1
        if n[0] == 1:
            prob.solution = [0.0] * len(prob.vars)
            prob.objval = 0.0
            for d in opt.shortage:
                prob.solution[prob.getIndex(opt.shortage[d])] = 2.0
            return
        box["prob"] = prob
        box["vec"], box["bits"], box["terms"] = p10.deliver(c, prob, eps)
    if c.symbolic and key in _cache:
        top, opt, net, prob, terms = _cache[key]
        box["vec"], box["bits"], _ = p10.deliver(c, prob, eps, terms)
        sol = opt.extract_redundancy_solution()
    else:
        xp.ON_SOLVE = on_solve
        try:
            sol = opt.solve()
        finally:
            xp.ON_SOLVE = None
            if c.symbolic and "prob" in box:
                _cache[key] = (top, opt, net, box["prob"], box["terms"])
    bits = box["bits"]
    D, L = sol.site_decisions, sol.link_decisions
    forced = {s for s, x in net.sites.items() if x.status_type in T.ACTIVE} | {s for e, l in net.links.items() if l.status_type in T.ACTIVE for s in e}
    inmodel = {s for e in links for s in e} | set(net.pops)
    at = {s: g for g in net.groups() for s in g}
    for s, x in net.sites.items():
        if x.site_type == T.CN:
            want = s in forced
            if want:
                ups = [D[q] == 1 for q in at[s] if net.dist(q)]
                want = c.NOT(c.OR(*ups)) if ups else True
        elif s in inmodel:
            want = bits[opt.site_vars[s].name]
        else:
            want = s in forced
        c.check((D[s] == 1) == want, "backhaul sites are the solver's, CNs stay unless upgraded, other sites stay")
        if x.status_type in T.ACTIVE and x.site_type != T.CN:
            c.check(D[s] == 1, "backhaul sites in the plan stay")
        if net.dist(s) and not ignore:
            c.check(sol.odd_site_decisions[s] + sol.even_site_decisions[s] == D[s], "exactly one polarity for sites in the plan")
            if s in inmodel:
                c.check(c.OR(D[s] == 0, (sol.odd_site_decisions[s] == 1) == bits[opt.odd[s].name]), "polarity is the solver's")
            else:
                c.check(c.OR(D[s] == 0, (sol.odd_site_decisions[s] == 1) == (x.polarity == T.PolarityType.ODD)), "other sites keep their polarity")
    cost = 0
    for (i, j), l in net.links.items():
        able = net.usable((i, j)) and l.capacity > 0
        want = c.AND(D[i] == 1, D[j] == 1, able)
        if able and l.is_wireless and net.dist(i) and net.dist(j) and l.status_type not in T.ACTIVE and not ignore:
            want = c.AND(want, bits[opt.odd[i].name] ^ bits[opt.odd[j].name])
        c.check((L[(i, j)] == 1) == want, "link active iff both sites are in the plan, it is usable and polarities fit")
        if l.status_type in T.ACTIVE and net.dist(j):
            c.check(L[(i, j)] == 1, "backhaul links in the plan stay")
    for s, x in net.sites.items():
        nodes = {}
        for q in net.top.sectors.values():
            if q.site is x:
                nodes.setdefault(q.node_id, []).append(q)
        if x.status_type != T.EXI:
            cost = cost + c.ITE(D[s] == 1, {T.CN: p.cn_site_capex, T.DN: p.dn_site_capex, T.POP: p.pop_site_capex}[x.site_type], 0)
            cost = cost + c.ITE(D[s] == 1, sum(x.device.node_capex for _ in nodes), 0)
        for q in net.top.sectors.values():
            if q.site is x:
                c.check((sol.sector_decisions[(s, q.sector_id)] == 1) == (D[s] == 1), "all sectors of a site in the plan are active")
                c.check(sol.channel_decisions[(s, q.sector_id)] == c.ITE(D[s] == 1, 0, -1), "active sectors use channel 0")
    c.eq(sol.cost, cost, "reported cost is the price of the plan's new sites and nodes")
    c.reach("end")


def levels(c):
    """which node limits a configured level stands for"""
    import terragraph_planner.optimization.topology_optimization as to
    from terragraph_planner.common.configuration.enums import RedundancyLevel
    st = [c.choice(f"P{k}", (T.CAN, T.PRO, T.EXI, T.UNA)) for k in range(3)]
    level = c.choice("level", list(RedundancyLevel))
    S = {f"P{k}": T.site(f"P{k}", T.POP, 300.0 * k, 0, st[k]) for k in range(3)}
    S["A"] = T.site("A", T.DN, 100, 100, T.PRO)
    S["B"] = T.site("B", T.DN, 200, 100, T.PRO)
    S["K"] = T.site("K", T.CN, 200, 200, T.PRO)
    q = {s: T.sector(x) for s, x in S.items()}
    ab = c.choice("AB", (T.CAN, T.PRO, T.UNA))
    L = [T.link(S[i], S[j], cap, q[i], q[j], s) for i, j, cap, s in (
        *((x, "A", 1.0, None) for x in ("P0", "P1", "P2")), ("A", "B", 1.0, ab), ("B", "A", 1.0, ab), ("B", "P1", 0.0, None), ("B", "K", 1.0, T.PRO))]
    top = T.Topology(S.values(), [], q.values(), L)
    if not any(s in T.ACTIVE for s in st):
        return c.reach("end")
    seen = []

    class Net_:
        def __init__(self, topology, params, limits, links):
            seen.append((limits, links))

        def solve(self):
            return None

        def did_problem_timeout(self):
            return False
    old = to.RedundantNetwork
    to.RedundantNetwork = Net_
    try:
        r = to._run_redundancy_step(top, T.params(redundancy_level=level))
    finally:
        to.RedundantNetwork = old
    c.check(r is None, "no plan without a solution")
    multi = sum(s in T.ACTIVE for s in st) > 1
    want = {RedundancyLevel.LOW: (2, 2, 2), RedundancyLevel.MEDIUM: (1, 1, 2) if multi else (2, 1, 2), RedundancyLevel.HIGH: (2, 1, 4) if multi else (3, 1, 3)}.get(level)
    c.check((tuple(seen[0][0]) if seen else None) == want, "node limits of the configured level")
    if seen:
        # heuristic restriction: only real links, usable backhaul ones, and nothing that is part of the base network is lost
        links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in L}
        got = seen[0][1]
        nodes = {s for e in got for s in e}
        for e in got:
            c.check(e in links and (links[e].status_type in T.ACTIVE or (links[e].capacity > 0 and S[e[1]].site_type != T.CN and links[e].status_type not in (T.UNA, T.UNR))),
                    "candidate links are usable backhaul links")
        for e, l in links.items():
            if l.status_type in T.ACTIVE and set(e) <= nodes:
                c.check(e in got, "active links stay candidates")
        act = [s for s in ("P0", "P1", "P2") if S[s].status_type in T.ACTIVE]
        for s in act:
            c.check((s, "A") in got, "the only path from an active POP to a DN is kept")
        if ab != T.UNA and act:
            c.check(("A", "B") in got, "the only path to a DN is kept")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = siteopt.BIG = tier == "thorough"
    out = []
    for n in NETS:
        for lv in LEVELS if BIG or n == "ring" else ("medium1", "high"):
            for ig in (False, True) if BIG or lv == "high" else (False,):
                out.append(Case(f"phases/{n}/{lv}{'/nopolarity' if ig else ''}", lambda c, n=n, lv=lv, ig=ig: phases(c, n, lv, ig, False)))
            if BIG or lv == "medium":
                out.append(Case(f"phases/{n}/{lv}/restricted", lambda c, n=n, lv=lv: phases(c, n, lv, False, True)))
        for ig in (False, True):
            out.append(Case(f"extract/{n}{'/nopolarity' if ig else ''}", lambda c, n=n, ig=ig: extract(c, n, ig)))
    out.append(Case("levels", levels))
    return out
