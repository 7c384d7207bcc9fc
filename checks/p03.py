from vlib import siteopt
from vlib.runner import Case

from checks.p01 import META as M1

META = dict(M1)


def prices(c):
    return {k: c.real(k, 0, 3000) for k in ("cn_site_capex", "dn_site_capex", "pop_site_capex")}


def cases(tier):
    siteopt.BIG = tier == "thorough"
    out = [Case("capex", capex),
           Case("cost/objective", lambda c: siteopt.check_model(c, "cost", "cost", [], objective="cost", pop_capacity=5.0, oversubscription=1.0, **prices(c))),
           Case("coverage/budget", lambda c: siteopt.check_model(c, "cost", "coverage", ["extra"], pop_capacity=5.0, oversubscription=1.0, **prices(c))),
           Case("cost/objective/colocated", lambda c: siteopt.check_model(c, "colocated2", "cost", [], objective="cost", pop_capacity=5.0, oversubscription=1.0, **prices(c))),
           Case("coverage/budget/colocated", lambda c: siteopt.check_model(c, "colocated2", "coverage", ["extra"], pop_capacity=5.0, oversubscription=1.0, **prices(c)))]
    return out


def capex(c):
    """capital expense of a finished topology"""
    from terragraph_planner.optimization.topology_operations import compute_capex
    from vlib import topo as T
    d2 = T.dn_device("D2", sectors=2, nodes=2, capex=c.real("capex2", 0, 900))
    d3 = T.dn_device("D3", sectors=1, nodes=3, capex=c.real("capex3", 0, 900))
    dc = T.cn_device("DC", capex=c.real("capexc", 0, 900))
    p = siteopt.mk_params(c, pop_capacity=5.0, oversubscription=1.0, **prices(c))
    types = [T.POP, T.DN, T.CN]
    devs = [d2, d3, dc]
    sites, secs, tot, new = [], [], 0, 0
    for k, (t, d) in enumerate(zip(types, devs)):
        st = c.choice(f"site{k}", T.ALL5)
        s = T.site(f"S{k}", t, 100.0 * k, 0, st, d)
        sites.append(s)
        base = {T.CN: p.cn_site_capex, T.DN: p.dn_site_capex, T.POP: p.pop_site_capex}[t]
        if st in T.ACTIVE:
            tot = tot + base
        if st == T.PRO:
            new = new + base
        nodes = {T.POP: 2, T.DN: 2, T.CN: 1}[t]
        for n in range(nodes):
            # all sectors of a node share their status
            if st in T.ACTIVE:
                ss = c.choice(f"node{k}_{n}", (st, T.CAN) if st == T.PRO else (T.EXI, T.PRO, T.CAN))
            else:
                ss = st
            for q in range(2 if d is d2 else 1):
                secs.append(T.sector(s, n, (n + 1) % 2 if d is not d2 else 1 - q, 90.0 * n + 30 * q, ss))
            if ss in T.ACTIVE:
                tot = tot + d.node_capex
            if ss == T.PRO:
                new = new + d.node_capex
    # interleave the sectors of different sites and nodes
    top = T.Topology(sites, [], secs[::2] + secs[1::2], [])
    r = compute_capex(top, p)
    c.eq(r.total_capex, tot, "total capex counts every active site and node once")
    c.eq(r.proposed_capex, new, "proposed capex counts every proposed site and node once")
    c.reach("end")
