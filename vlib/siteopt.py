"""Specification of the cost / coverage models (P01-P05) and the small networks they are checked on."""
import z3

from vlib import topo as T
from fractions import Fraction

from vlib.ilp import SUPER, Net, entails, names_in, problem_terms, satisfiable, solver_for, term, zmax, zmin
from vlib.symex import Infeasible

import xpress as xp


BIG = False  # thorough tier: more statuses


def one(b):
    return z3.If(b, z3.RealVal(1), z3.RealVal(0))


def zsum(xs):
    xs = list(xs)
    return z3.Sum(xs) if len(xs) > 1 else xs[0] if xs else z3.RealVal(0)


def site_cost(net, s):
    """price of building a site: its type's price plus one price per node (existing sites are free)"""
    x = net.sites[s]
    if x.status_type == T.EXI:
        return z3.RealVal(0)
    p = net.p
    base = {T.CN: p.cn_site_capex, T.DN: p.dn_site_capex, T.POP: p.pop_site_capex}[x.site_type]
    nodes = {q.node_id for q in net.top.sectors.values() if q.site is x}
    return term(base) + term(x.device.node_capex) * len(nodes)


def spec(net, opt, adversarial=()):
    """-> {category: [(label, term)]} over the optimizer's solution variables"""
    p = net.p
    F = {e: term(opt.flow[e]) for e in net.edges()}
    S = {s: opt.site_vars[s].b for s in net.sites}
    SH = {d: term(opt.shortage[d]) for d in net.demand}
    wl = [e for e, l in net.links.items() if l.is_wireless]
    TD = {e: term(opt.tdm[(e[0], e[1], 0)]) for e in wl}
    tot = net.total_demand()
    inn, out = {}, {}
    for (i, j) in F:
        out.setdefault(i, []).append((i, j))
        inn.setdefault(j, []).append((i, j))
    sm = lambda es: zsum([F[e] for e in es or ()])
    flow, air, pol, site = [], [], [], []
    for e in F:
        flow.append((f"flow non-negative @{e}", F[e] >= 0))
    for s in net.sites:
        if s in inn or s in out:
            flow.append((f"traffic in equals traffic out @{s}", sm(inn.get(s)) == sm(out.get(s))))
        flow.append((f"no traffic through unselected site @{s}", z3.Implies(z3.Not(S[s]), z3.And(sm(inn.get(s)) == 0, sm(out.get(s)) == 0))))
        flow.append((f"site carries at most the total demand @{s}", z3.And(sm(inn.get(s)) <= tot, sm(out.get(s)) <= tot)))
    for d in net.demand:
        dv = net.demand_value(d)
        flow.append((f"shortage between 0 and demand @{d}", z3.And(SH[d] >= 0, SH[d] <= dv)))
        flow.append((f"demand receives demand minus shortage @{d}", sm(inn.get(d)) == dv - SH[d]))
    flow.append(("supersource sends all delivered traffic", sm(out.get(SUPER)) == tot - zsum(SH.values())))
    for e, l in net.links.items():
        cap = term(l.capacity)
        if l.is_wireless:
            flow.append((f"traffic within capacity times airtime @{e}", F[e] <= cap * TD[e]))
        else:
            flow.append((f"traffic within wired capacity @{e}", F[e] <= cap))
        if not net.usable(e):
            flow.append((f"unusable link carries nothing @{e}", F[e] == 0))
        if e in adversarial:
            flow.append((f"adversarial link carries nothing @{e}", F[e] == 0))
    for q in net.pops:
        flow.append((f"POP capacity @{q}", sm(out.get(q)) <= term(p.pop_capacity)))
    maxcap = zmax([term(l.capacity) for l in net.links.values()]) if net.links else term(p.pop_capacity)
    for d, (ds, _) in net.demand.items():
        for s in ds.connected_sites:
            # hand-off to a demand point is limited by the largest link capacity
            flow.append((f"hand-off limit @{d}", F[(s.site_id, d)] <= maxcap))
    # airtime
    for e in wl:
        air.append((f"airtime share in [0,1] @{e}", z3.And(TD[e] >= 0, TD[e] <= 1)))
    for sec in net.top.sectors.values():
        sid = sec.site.site_id
        o = [TD[e] for e in wl if net.links[e].tx_sector is sec]
        i = [TD[e] for e in wl if net.links[e].rx_sector is sec]
        for nm, x in (("transmit", o), ("receive", i)):
            if x:
                air.append((f"{nm} airtime of a sector @{sec.sector_id}", zsum(x) <= one(S[sid])))
    if not p.ignore_polarities:
        O = {s: opt.odd[s].b for s in net.sites if net.dist(s)}
        for (i, j), l in net.links.items():
            if not (net.dist(i) and net.dist(j)):
                continue
            if l.status_type in T.ACTIVE:
                pol.append((f"active link forces opposite polarity @{(i, j)}", O[i] != O[j]))
            elif l.is_wireless:
                pol.append((f"used link joins opposite polarities @{(i, j)}", z3.Implies(TD[(i, j)] > 0, O[i] != O[j])))
                # traffic needs airtime, so the rule follows for links with traffic
                pol.append((f"link with traffic joins opposite polarities @{(i, j)}", z3.Implies(F[(i, j)] > 0, O[i] != O[j])))
    # site selection
    for g in net.groups():
        a = [s for s in g if s in net.mandatory()]
        if len(g) == 1:
            if a:
                site.append((f"existing/proposed/mandatory site is selected @{g[0]}", S[g[0]]))
            continue
        site.append((f"at most one co-located device @{g}", z3.PbLe([(S[s], 1) for s in g], 1)))
        if a:
            site.append((f"active location keeps a device @{g}", z3.Or([S[s] for s in g])))
            ok = net.allowed(g)
            for s in g:
                if s not in ok:
                    site.append((f"no downgrade or swap of active device @{s}", z3.Not(S[s])))
    for s, x in net.sites.items():
        if x.status_type in (T.UNA, T.UNR):
            site.append((f"unusable site is not selected @{s}", z3.Not(S[s])))
    cost = zsum([one(S[s]) * site_cost(net, s) for s in net.sites])
    return {"flow": flow, "air": air, "pol": pol, "site": site, "COST": cost, "SH": SH, "S": S, "F": F, "TD": TD}


def kind(lab, t):
    """category of a model constraint by the variables it mentions"""
    k = {n.split("_")[0] for n in names_in(t)}
    if "common" in k:
        return "cov"
    if "flow" in k:
        return "flow"
    if "shortage" in k:
        return "flow" if lab.startswith("bound") else "cov"
    if "tdm" in k or "odd" in k:
        return "air"
    return "site"


# ---------------------------------------------------------------- networks
def build(c, sites, links, demands, dem=None):
    """sites: {id: (type, x, y, status[, device])}; links: [(a, b, opts)] opts: status, wired, nosec, cap, oneway, conf,
    sec={site: (node, pos)} (default: one node/sector per site); demands: [(id, [sites], num)]."""
    S = {}
    for sid, v in sites.items():
        st, x, y, status = v[:4]
        S[sid] = T.site(sid, st, x, y, status, *v[4:])
    secs = {}

    def sec(sid, np):
        if (sid, np) not in secs:
            secs[(sid, np)] = T.sector(S[sid], np[0], np[1], 0.0)
        return secs[(sid, np)]
    L = []
    for a, b, o in links:
        pairs = [(a, b)] if o.get("oneway") or S[b].site_type == T.CN else [(a, b), (b, a)]
        for i, j in pairs:
            cap = o.get("cap")
            if cap is None:
                cap = c.real(f"cap_{i}_{j}", 0, 5)
            if o.get("wired") or o.get("nosec"):
                sa = sb = None
            else:
                sm = o.get("sec", {})
                sa, sb = sec(i, sm.get(i, (0, 0))), sec(j, sm.get(j, (0, 0)))
            L.append(T.link(S[i], S[j], cap, sa, sb, o.get("status"), not o.get("wired")))
    for sid, np in [x for _, _, o in links for x in o.get("extra", ())]:
        sec(sid, np)
    D = [T.demand(d, [S[s] for s in ss], c.real("dem_" + d, 0, 4) if dem is None else dem, num, x=1000.0 * k)
         for k, (d, ss, num) in enumerate(demands)]
    return T.Topology(S.values(), D, secs.values(), L)


def status(c, name, opts=(T.CAN, T.PRO, T.EXI, T.UNA, T.UNR)):
    return c.choice("status_" + name, opts)


def link_status(c, name, a, b, opts=(T.CAN, T.PRO, T.EXI, T.UNA, T.UNR)):
    """a link status consistent with its sites' statuses"""
    ok = []
    for s in opts:
        if T.UNA in (a, b):
            if s != T.UNA:
                continue
        elif T.UNR in (a, b):
            if s != T.UNR:
                continue
        elif s == T.PRO and not (a in T.ACTIVE and b in T.ACTIVE):
            continue
        elif s == T.EXI and not (a == T.EXI and b == T.EXI):
            continue
        ok.append(s)
    return ok[0] if len(ok) == 1 else c.choice("lstatus_" + name, ok)


def net_line(c, big=False):
    """POP - A - B - C(CN): A's single sector serves two links; demand at B and (twice) at C"""
    lk = [("P", "A", {}), ("A", "B", {}), ("B", "C", {"sec": {"B": (0, 0)}})]
    return build(c, {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 100, 0, T.CAN), "B": (T.DN, 200, 0, T.CAN), "C": (T.CN, 300, 0, T.CAN)},
                 lk, [("d1", ["B"], 1), ("d2", ["C", "B"], 2)])


def net_diamond(c, big=False):
    """two POPs, two DNs joined by a wired link, user-active links and sites"""
    sp = status(c, "P1", (T.CAN, T.EXI))
    sa = status(c, "A", (T.CAN, T.PRO, T.EXI))
    l1 = link_status(c, "P1A", sp, sa, (T.CAN, T.PRO, T.EXI))
    return build(c, {"P1": (T.POP, 0, 0, sp), "P2": (T.POP, 500, 0, T.CAN), "A": (T.DN, 100, 0, sa), "B": (T.DN, 200, 0, T.CAN)},
                 [("P1", "A", {"status": l1}), ("P1", "B", {}), ("P2", "B", {"sec": {"B": (1, 0)}}), ("A", "B", {"wired": 1})],
                 [("d1", ["A", "B"], 1), ("d2", ["P1"], 1)])


def net_unusable(c, big=False):
    """statuses of a middle site and of two links are arbitrary; one link without sectors, one POP without links"""
    sb = status(c, "B")
    l1 = link_status(c, "AB", T.CAN, sb)
    l2 = link_status(c, "PA", T.CAN, T.CAN)
    sq = status(c, "Q")
    return build(c, {"P": (T.POP, 0, 0, T.CAN), "Q": (T.POP, 900, 0, sq), "A": (T.DN, 100, 0, T.CAN), "B": (T.DN, 200, 0, sb)},
                 [("P", "A", {"status": l2, "sec": {"P": (0, 0), "A": (0, 1)}}), ("P", "B", {"nosec": 1, "status": T.UNA if sb == T.UNA else T.UNR if sb == T.UNR else T.CAN}),
                  ("A", "B", {"status": l1})],
                 [("d1", ["B", "Q"], 1), ("d2", ["A"], 1)])


def net_coloc(c, big=False):
    """three devices at one spot with arbitrary types and statuses, plus a second pair"""
    tys = (T.CN, T.DN, T.POP)
    n = 3
    ty = [c.choice(f"type{k}", tys) for k in range(n)]
    st = [status(c, f"X{k}") if BIG or k < 2 else status(c, f"X{k}", (T.CAN, T.PRO)) for k in range(n)]
    sites = {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 50, 0, T.CAN)}
    links = [("P", "A", {"cap": 1.8})]
    for k in range(n):
        dev = T.dn_device(f"D{k}") if ty[k] != T.CN else T.cn_device(f"C{k}")
        sites[f"X{k}"] = (ty[k], 100, 0, st[k], dev)
        links.append(("P", f"X{k}", {"cap": 1.8}))
    return build(c, sites, links, [("d1", [f"X{k}" for k in range(n)], 1)], dem=1.0)


def net_coloc2(c, big=False):
    """two devices at each of two spots; arbitrary statuses; a user-active link makes its sites mandatory"""
    sx, sy, sz = (status(c, n) for n in "XYZ")
    l1 = link_status(c, "XZ", sx, sz, (T.CAN, T.PRO, T.EXI, T.UNA, T.UNR))
    tx = c.choice("typeX", (T.DN, T.POP))
    sites = {"P": (T.POP, 0, 0, T.CAN), "X": (tx, 100, 0, sx, T.dn_device("DX")), "Y": (T.CN, 100, 0, sy),
             "Z": (T.DN, 200, 0, sz), "W": (T.CN, 200, 0, T.CAN)}
    return build(c, sites, [("P", "X", {"cap": 1.8}), ("P", "Y", {"cap": 1.8}), ("X", "Z", {"cap": 1.8, "status": l1}), ("X", "W", {"cap": 1.0})],
                 [("d1", ["Y", "Z", "W"], 1)], dem=1.0)


def net_cost(c, big=False):
    """several sectors per node (in any order, not all nodes have the first one), several nodes per site, different devices, co-located upgrade, existing sites"""
    sa = status(c, "A", (T.CAN, T.PRO, T.EXI))
    sp = status(c, "P", (T.CAN, T.PRO, T.EXI))
    dev2 = T.dn_device("DN2", sectors=2, nodes=2, capex=c.real("node_capex2", 0, 900))
    dev3 = T.dn_device("DN3", sectors=1, nodes=3, capex=c.real("node_capex3", 0, 900))
    cdev = T.cn_device("CNX", capex=c.real("node_capexc", 0, 900))
    sites = {"P": (T.POP, 0, 0, sp, dev2), "A": (T.DN, 100, 0, sa, dev3), "B": (T.DN, 200, 0, T.CAN, dev2),
             "C": (T.CN, 300, 0, T.CAN, cdev)}
    links = [("P", "A", {"cap": 1.8, "sec": {"P": (0, 0), "A": (0, 0)}, "extra": [("P", (0, 1)), ("P", (1, 0)), ("P", (1, 1)), ("B", (0, 0)), ("A", (2, 1))]}),
             ("A", "B", {"cap": 1.8, "sec": {"A": (1, 0), "B": (1, 0)}}),
             ("P", "B", {"cap": 1.8, "sec": {"P": (0, 1), "B": (1, 1)}}),
             ("B", "C", {"cap": 1.8, "sec": {"B": (0, 1)}})]
    return build(c, sites, links, [("d1", ["C", "B"], 1)], dem=1.0)


def net_conn(c, big=False):
    """polarity matters: triangle P-A-B with a tail, a co-located spare of A, a wired shortcut; few symbolic capacities"""
    sa = status(c, "A", (T.CAN, T.PRO, T.EXI, T.UNA) if BIG else (T.CAN, T.EXI))
    sp = status(c, "P", (T.CAN, T.EXI)) if BIG else sa
    l1 = link_status(c, "PA", sp, sa, (T.CAN, T.EXI, T.UNA))
    l2 = link_status(c, "AB", sa, T.CAN, (T.CAN, T.UNA)) if BIG else T.CAN
    pa, ab = c.real("cap_PA", 0, 4), c.real("cap_AB", 0, 4)
    wired = c.flag("PB_wired")
    sites = {"P": (T.POP, 0, 0, sp), "A": (T.DN, 100, 0, sa), "B": (T.DN, 200, 0, T.CAN), "Y": (T.DN, 100, 0, T.CAN, T.dn_device("DY")),
             "Q": (T.POP, 0, 500, T.UNR)}
    return build(c, sites, [("P", "A", {"cap": pa, "status": l1}), ("A", "B", {"cap": ab, "status": l2}),
                            ("P", "B", {"cap": 1.5, "wired": wired}), ("P", "Y", {"cap": 1.0})],
                 [("d1", ["A"], 1), ("d2", ["B"], 2), ("d3", ["Y"], 1), ("d4", ["Q"], 1)])


def net_tail(c, big=False):
    """only way on is through a site of arbitrary status and links of arbitrary capacity; one link is sectorless"""
    sb = status(c, "B")
    l1 = link_status(c, "AB", T.CAN, sb)
    l2 = link_status(c, "BC", sb, T.CAN)
    sites = {"P": (T.POP, 0, 0, T.CAN), "A": (T.DN, 100, 0, T.CAN), "B": (T.DN, 200, 0, sb), "C": (T.CN, 300, 0, T.CAN)}
    return build(c, sites, [("P", "A", {"cap": c.real("cap_PA", 0, 4)}), ("A", "B", {"cap": 1.0, "status": l1}),
                            ("B", "C", {"cap": c.real("cap_BC", 0, 4), "status": l2}), ("A", "C", {"nosec": 1, "cap": 0.0})],
                 [("d1", ["A"], 1), ("d2", ["C"], 1)])


def net_air(c, big=False):
    """multi-sector nodes; two sectors of a POP serve three sites, one of them over two of its own sectors' links"""
    sx = status(c, "X", (T.CAN, T.EXI))
    sy = status(c, "Y", (T.CAN, T.EXI, T.PRO))
    l1 = link_status(c, "XY", sx, sy, (T.CAN, T.PRO, T.EXI))
    wired = l1 == T.CAN and c.flag("XY_wired")
    dev = T.dn_device("D2", sectors=2, nodes=2)
    sites = {"P": (T.POP, 0, 0, T.CAN, dev), "X": (T.DN, 100, 0, sx, dev), "Y": (T.DN, 200, 0, sy, dev), "Z": (T.CN, 300, 0, T.CAN)}
    links = [("P", "X", {"cap": 1.0, "sec": {"P": (0, 0), "X": (0, 1)}}), ("P", "Y", {"cap": 1.0, "sec": {"P": (0, 0), "Y": (1, 1)}}),
             ("X", "Y", {"cap": 1.0, "sec": {"X": (0, 1), "Y": (1, 0)}, "status": l1, "wired": wired}),
             ("P", "Z", {"cap": 1.0, "sec": {"P": (0, 1)}}), ("Y", "Z", {"cap": 1.0, "sec": {"Y": (1, 1)}})]
    return build(c, sites, links, [("d1", ["Z"], 1), ("d2", ["X", "Y"], 1)])


NETS = {"air": net_air, "conn": net_conn, "tail": net_tail, "line": net_line, "diamond": net_diamond, "unusable": net_unusable, "colocated": net_coloc,
        "colocated2": net_coloc2, "cost": net_cost}


def mk_params(c, **kw):
    kw.setdefault("pop_capacity", c.real("pop_capacity", 0, 20, strict_lo=True))
    kw.setdefault("oversubscription", c.real("oversubscription", 1, 4))
    p = T.params()
    for k, v in kw.items():
        assert hasattr(p, k), k
        setattr(p, k, v)
    return p


class Captured(Exception):
    pass


def capture(opt, fn):
    """run fn() up to the solver call, returning the captured problem (None when the solver was not called)"""
    from terragraph_planner.common.exceptions import OptimizerException  # noqa
    got = []

    def on(p):
        got.append(p)
        raise Captured()
    old = xp.ON_SOLVE
    xp.ON_SOLVE = on
    try:
        r = fn()
    except Captured:
        return got[0], None
    finally:
        xp.ON_SOLVE = old
    return None, r


def construct(c, cls, *a):
    """construct the optimizer; inputs the planner itself rejects are outside the property"""
    from terragraph_planner.common.exceptions import OptimizerException
    try:
        return cls(*a)
    except OptimizerException:
        c.reach("rejected")
        raise Infeasible()


def optimizer_in_flight():
    """the optimizer object whose method is calling problem.solve()"""
    import sys
    from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
    f = sys._getframe(1)
    while f is not None:
        o = f.f_locals.get("self")
        if isinstance(o, NetworkOptimization):
            return o
        f = f.f_back
    return None


def solve_linear(p, maximise=None):
    """an optimal vector of a captured problem without symbolic parameters"""
    o = z3.Optimize()
    for _, t in problem_terms(p):
        o.add(t)
    if p.objective is not None:
        (o.maximize if p.sense == xp.maximize else o.minimize)(term(p.objective))
    if o.check() != z3.sat:
        p.attrib["mipsols"] = 0
        return None
    m = o.model()
    p.solution = [vector_value(m, v) for v in p.vars]
    return m


def vector_value(m, v):
    x = m.eval(v.t, model_completion=True)
    return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))


def reach_terms(net, cond):
    """{site: condition under which a usable POP reaches it}; cond(edge) -> z3 condition or False"""
    R = {s: z3.BoolVal(x.site_type == T.POP and net.site_ok(s)) for s, x in net.sites.items()}
    for _ in range(len(net.sites)):
        N = dict(R)
        for (i, j) in net.links:
            cd = cond((i, j))
            if cd is not False and net.site_ok(i) and net.site_ok(j):
                N[j] = z3.Or(N[j], z3.And(R[i], cd))
        R = {s: z3.simplify(t) for s, t in N.items()}
    return R


def connectable(net, adversarial, odd):
    """{demand: condition} -- connectable over usable positive-capacity links; odd: {site: Bool} or None (polarity ignored)"""
    swap = set()
    for g in net.groups():
        a = {s for s in g if net.sites[s].status_type in T.ACTIVE}
        if a:
            order = {T.CN: 0, T.DN: 1, T.POP: 2}
            tt = net.sites[max(a, key=lambda s: order[net.sites[s].site_type])].site_type
            swap |= {s for s in g if not ((net.sites[s].site_type == tt and s in a) or (tt == T.CN and net.sites[s].site_type != T.CN))}
    net.site_ok = lambda s: net.sites[s].status_type not in (T.UNA, T.UNR) and s not in swap

    def cond(e):
        l = net.links[e]
        if not net.usable(e) or e in adversarial:
            return False
        t = _sbt(l.capacity > 0)
        if odd is not None and l.is_wireless and net.dist(e[0]) and net.dist(e[1]):
            t = z3.And(t, odd[e[0]] != odd[e[1]])
        return t
    R = reach_terms(net, cond)
    return {d: z3.simplify(z3.Or([R[s.site_id] for s in ds.connected_sites] or [z3.BoolVal(False)])) for d, (ds, _) in net.demand.items()}


def check_connectable(c, p, opt, net, adv):
    """the connectable-demand model against graph reachability"""
    import itertools
    D = {d: opt.demand_vars[d].b for d in net.demand}
    dist = [s for s in net.sites if net.dist(s)]
    odd = {s: opt.odd[s].b for s in dist}
    want = connectable(net, adv, odd)
    ms = [t for _, t in problem_terms(p)]
    entails(c, ms, [(f"demand counted as connectable is reachable @{d}", z3.Implies(D[d], want[d])) for d in D], "connectable: ")
    entails(c, ms, [("objective counts the connectable demand points", term(p.objective) == zsum(one(b) for b in D.values()))], "connectable: ")
    c.check(p.sense == xp.maximize, "number of connectable demand points is maximised")
    act = [odd[i] != odd[j] for (i, j), l in net.links.items() if l.status_type in T.ACTIVE and net.dist(i) and net.dist(j)]
    for bits in itertools.product((False, True), repeat=len(dist)):
        col = [odd[s] if b else z3.Not(odd[s]) for s, b in zip(dist, bits)]
        if not satisfiable(c, col + act, "polarity assignment"):
            continue
        must = [D[d] == want[d] for d in D]
        if not satisfiable(c, ms + col + must, "connectable set attained"):
            raise_or_fail(c, f"connectable: reachable demand cannot all be connected @{bits}", col + must)


def raise_or_fail(c, label, terms):
    """a satisfiability obligation that failed"""
    from vlib.symex import CheckFailed, Violation
    if c.symbolic:
        m = c.get_model()
        raise Violation(label, c.values(m))
    raise CheckFailed(label)


def _sbt(x):
    from vlib.symex import boolterm
    return boolterm(x)


def model(c, net_name, mode, adversarial=False, check_conn=False, **prm):
    """build the real model of `mode` ('cost'|'coverage') for a network; -> (optimizer, Net, captured problem)"""
    from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
    from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
    top = NETS[net_name](c)
    adv = set()
    if adversarial:
        keys = [(l.tx_site.site_id, l.rx_site.site_id) for l in top.links.values()]
        k = c.choice("adversarial", keys[:3] if BIG else keys[:2])
        adv = {k, (k[1], k[0])}
    p = mk_params(c, **prm)
    conn = {"set": None}

    def on_connect(prob):
        o = optimizer_in_flight()
        n = Net(top, p)
        if check_conn:
            check_connectable(c, prob, o, n, adv)
        solve_linear(prob)
        conn["set"] = {d for d, v in o.demand_vars.items() if prob.solution[prob.getIndex(v)] > 0.5}
        conn["problem"] = prob
    xp.ON_SOLVE = on_connect
    if mode == "cost":
        opt = construct(c, MinCostNetwork, top, p)
        cov = c.real("coverage", 0, 1)
        prob, r = capture(opt, lambda: opt.solve(cov))
    else:
        opt = construct(c, MaxCoverageNetwork, top, p, adv)
        prob, r = capture(opt, lambda: opt.solve())
        cov = None
    xp.ON_SOLVE = None
    net = Net(top, p)
    net.connected = None
    if p.maximize_common_bandwidth:
        if conn["set"] is None:
            # no polarity: plain reachability decided on this path
            w = connectable(net, adv, None)
            s = solver_for(c)
            net.connected = set()
            for d, t in w.items():
                yes, no = s.check(t) == z3.sat, s.check(z3.Not(t)) == z3.sat
                assert yes != no or z3.is_true(t) or z3.is_false(t), "reachability must be decided on a path"
                if yes:
                    net.connected.add(d)
        else:
            net.connected = conn["set"]
        c.check(set(opt.connected_demand_sites) == net.connected, "connectable demand points are the reachable ones")
    return opt, net, prob, adv, cov


def check_model(c, net_name, mode, cats, adversarial=False, resolve=False, objective=None, **prm):
    if mode == "coverage":
        prm.setdefault("budget", c.real("budget", 0, 5000))
    opt, net, prob, adv, cov = model(c, net_name, mode, adversarial, **prm)
    if resolve and prob is not None:
        # a second target on the same optimizer
        cov = c.real("coverage2", 0, 1)
        first = prob
        prob, _ = capture(opt, lambda: opt.solve(cov))
        if prob is None:
            return
        c.reach("re-solved")
    skipped = prob is None
    if skipped:
        # nothing was solved: only right when the budget is not positive or no plan can reach the coverage
        if mode == "coverage":
            c.check(net.p.budget <= 0, "model not solved although the budget is positive")
            c.reach("not solved")
            return
        opt.build_model()
        prob = opt.problem
    M = problem_terms(prob)
    sp = spec(net, opt, adv)
    ms = [t for _, t in M]
    extra = []
    conn = net.connected
    if mode == "coverage":
        if objective != "coverage":
            extra.append(("cost within budget", sp["COST"] <= term(net.p.budget)))
    elif conn is not None:
        lo = zmin(*[net.demand_value(d) for d in conn]) if conn else None
        for d in conn:
            extra.append((f"connectable demand gets p times the smallest connectable demand @{d}",
                          net.demand_value(d) - sp["SH"][d] >= term(cov) * lo))
    elif net.demand:
        extra.append(("total shortage at most (1-p) of demand", zsum(sp["SH"].values()) <= (1 - term(cov)) * net.total_demand()))
    cb = None
    if mode == "coverage" and conn and objective == "coverage":
        cb = term(opt.common_bandwidth)
        extra.append(("common bandwidth is not negative", cb >= 0))
        for d in conn:
            extra.append((f"every connectable demand point receives the common bandwidth @{d}", cb <= net.demand_value(d) - sp["SH"][d]))
    S = [t for k in ("flow", "air", "pol", "site") for _, t in sp[k]] + [t for _, t in extra]
    if objective == "coverage":
        S.append(sp["COST"] <= term(net.p.budget))
    if skipped:
        if "extra" in cats:
            entails(c, S, [("optimization skipped although a plan reaching the coverage exists", z3.BoolVal(False))])
        c.reach("not solved")
        return
    if satisfiable(c, ms + [zsum(sp["F"].values()) > 0], "model satisfiable with traffic"):
        pass
    satisfiable(c, S + [zsum(sp["F"].values()) > 0], "specification satisfiable with traffic")
    for k in cats:
        if k == "extra":
            entails(c, ms, extra, "model allows: ")
        else:
            entails(c, ms, sp[k], "model allows: ")
    want = {"flow": {"flow"}, "air": {"air"}, "pol": {"air"}, "site": {"site"}, "extra": {"site"} if mode == "coverage" and objective != "coverage" else {"cov"}}
    ks = set().union(*(want[k] for k in cats))
    entails(c, S, [(f"{kind(l, t)} rule of the model not in the specification @{l}", t) for l, t in M if kind(l, t) in ks], "too strict: ")
    if objective == "cost":
        entails(c, ms, [("objective is the plan cost", term(prob.objective) == sp["COST"])])
        c.check(prob.sense == xp.minimize, "cost is minimised")
    elif objective == "coverage":
        if conn is None:
            entails(c, ms, [("objective is the total shortage", term(prob.objective) == zsum(sp["SH"].values()))])
            c.check(prob.sense == xp.minimize, "shortage is minimised")
        elif conn:
            sg = -1 if prob.sense == xp.minimize else 1
            entails(c, ms, [("objective is the common bandwidth", sg * term(prob.objective) == cb)])
    c.reach("end")


def _sb(t):
    from vlib.symex import SymBool
    if z3.is_true(z3.simplify(t)) or z3.is_false(z3.simplify(t)):
        return z3.is_true(z3.simplify(t))
    return SymBool(t)
