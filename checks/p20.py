"""Single failures, disjoint paths, adversarial links and routes of the plan against reachability computed here."""
from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["topology_networkx: build_digraph, find_connected_demands, single_edge_failures, single_site_failures, find_most_disruptive_links, "
                  "disjoint_paths, get_topology_routing_results", "topology_operations.get_adversarial_links",
                  "topology_report.add_statistics_to_topology"],
    "bounds": "networks of up to 6 sites, 8 links and 4 demand points, built for loops, several POPs, wired and access links; every combination of "
              "active and inactive for the varied sites and links, including one direction of a link only; modulation classes chosen among 5 for weighted routes",
    "outside": "larger graphs; completeness of the disjoint-path test, which only tries one pair of paths (claimed: what it reports is true)",
    "assumptions": ["every topology has an active POP"],
}

BIG = False


def demo_net(c, big=False):
    """two POPs, a ring of DNs, CNs below; returns topology"""
    st = {"P": T.PRO, "Q": c.choice("site_Q", (T.EXI, T.CAN)), "A": T.PRO, "B": T.PRO, "D": c.choice("site_D", (T.PRO, T.CAN)), "C": T.PRO}
    S = {n: T.site(n, ty, 100.0 * i, 37.0 * i * i, st[n]) for i, (n, ty) in enumerate(
        {"P": T.POP, "Q": T.POP, "A": T.DN, "B": T.DN, "D": T.DN, "C": T.CN}.items())}
    L = []
    # names run against the direction of the graph for some
    for a, b, kind in (("P", "A", "wl"), ("A", "B", "wl?"), ("Q", "B", "wl"), ("B", "D", "w"), ("P", "D", "?"), ("A", "C", "acc"), ("D", "C", "acc")):
        ok = st[a] in T.ACTIVE and st[b] in T.ACTIVE
        s = c.choice(f"link_{a}{b}", (T.PRO, T.CAN)) if ok else T.CAN
        wired = kind == "w" or (kind == "wl?" and s == T.PRO and c.flag(f"wired_{a}{b}"))
        sec = (None, None) if wired else (T.sector(S[a]), T.sector(S[b]))
        for x, y, p, q in ((a, b, sec[0], sec[1]), (b, a, sec[1], sec[0])):
            if S[x].site_type == T.CN:
                continue
            L.append(T.link(S[x], S[y], 1.0, p, q, s, not wired))
    D = [T.demand("d1", [S["B"]], 1.0), T.demand("d2", [S["C"]], 1.0, x=9.0), T.demand("d3", [S["D"], S["Q"]], 1.0, x=19.0),
         T.demand("d4", [S["P"], S["A"]], 1.0, x=29.0)]
    return T.Topology(S.values(), D, [], L), S


def edges(top, statuses):
    return [l for l in top.links.values() if l.status_type in statuses and l.tx_site.status_type in statuses and l.rx_site.status_type in statuses]


def served(top, statuses, dead_links=(), dead_site=None, ok=None):
    """demand points some POP reaches; dead_links: pairs (both directions) out of service"""
    dead = {frozenset(p) for p in dead_links}
    seen = {s for s, x in top.sites.items() if x.site_type == T.POP and x.status_type in statuses and s != dead_site}
    todo = list(seen)
    es = [(l.tx_site.site_id, l.rx_site.site_id) for l in edges(top, statuses) if ok is None or ok(l)]
    while todo:
        u = todo.pop()
        for a, b in es:
            if a == u and b not in seen and b != dead_site and frozenset((a, b)) not in dead:
                seen.add(b)
                todo.append(b)
    return {d for d, x in top.demand_sites.items() if any(s.site_id in seen for s in x.connected_sites)}


def dump(g):
    return sorted((str(u), str(v), sorted((k, str(x)) for k, x in d.items())) for u, v, d in g.edges(data=True)), sorted(map(str, g.nodes(data=True)))


def physical(top, statuses, wired=True):
    return {l.sorted_site_ids for l in edges(top, statuses) if l.rx_site.site_type != T.CN and (wired or l.is_wireless)}


def failures(c):
    from terragraph_planner.optimization import topology_networkx as nw
    from terragraph_planner.optimization import topology_report as tr
    top, S = demo_net(c)
    g = nw.build_digraph(top, T.ACTIVE)
    before = dump(g)
    base = served(top, T.ACTIVE)
    c.check(nw.find_connected_demands(g) == base, "connected demand")
    dj = nw.disjoint_paths(top, g)
    c.check(dump(g) == before, "looking for disjoint paths leaves the graph as it was")
    ef = nw.single_edge_failures(g)
    pf, df = nw.single_site_failures(g)
    c.check(dump(g) == before, "analysing failures leaves the graph as it was")
    got = {frozenset(k): v for k, v in ef.items()}
    c.check(len(got) == len(ef), "both directions of a link fail together")
    want = {frozenset(p): base - served(top, T.ACTIVE, [p]) for p in physical(top, T.ACTIVE, wired=False)}
    c.check(got == want, "demand cut off by the failure of a link")
    for ty, r in ((T.POP, pf), (T.DN, df)):
        want = {s: base - served(top, T.ACTIVE, dead_site=s) for s, x in S.items() if x.site_type == ty and x.status_type in T.ACTIVE}
        c.check({k: v for k, v in r.items() if v} == {k: v for k, v in want.items() if v}, f"demand cut off by the failure of a {ty.name}")
    pops = {s for s, x in S.items() if x.site_type == T.POP and x.status_type in T.ACTIVE}
    direct = {d for d, x in top.demand_sites.items() if any(s.site_id in pops for s in x.connected_sites)}
    c.check(dj.disconnected_demand_locations == set(top.demand_sites) - base, "disconnected demand")
    c.check(dj.demand_connected_to_pop == direct, "demand at a POP")
    for d in dj.demand_with_disjoint_paths:
        c.check(d in base, "disjoint paths are reported for connected demand only")
        for p in physical(top, T.ACTIVE):
            c.check(d in served(top, T.ACTIVE, [p]), "demand with disjoint paths survives the loss of any one link")
    tr.add_statistics_to_topology(top, None, ef, pf, df)
    for l in top.links.values():
        if l.status_type in T.ACTIVE:
            n = len(base - served(top, T.ACTIVE, [l.sorted_site_ids])) if l.is_wireless and l.rx_site.site_type != T.CN else 0
            c.check(l.breakdowns == n, "outages a link causes, in both directions")
    for s, x in S.items():
        n = len(base - served(top, T.ACTIVE, dead_site=s)) if x.site_type != T.CN and x.status_type in T.ACTIVE else 0
        c.check(x.breakdowns == n, "outages a site causes")
    c.reach("end")


def directions(c, names):
    """every direction of a link may be active or not"""
    from terragraph_planner.optimization import topology_networkx as nw
    n = dict(zip("PABD", names))
    S = {k: T.site(n[k], T.POP if k == "P" else T.DN, 100.0 * i, 41.0 * i * i, T.PRO) for i, k in enumerate("PABD")}
    L = []
    for a, b in ("PA", "AB", "BP", "BD"):
        p, q = T.sector(S[a]), T.sector(S[b])
        st = c.choice(f"{a}{b}", ("both", "there", "back", "none"))
        L.append(T.link(S[a], S[b], 1.0, p, q, T.PRO if st in ("both", "there") else T.CAN))
        L.append(T.link(S[b], S[a], 1.0, q, p, T.PRO if st in ("both", "back") else T.CAN))
    top = T.Topology(S.values(), [T.demand("d1", [S["B"]], 1.0), T.demand("d2", [S["A"], S["D"]], 1.0, x=9.0)], [], L)
    g = nw.build_digraph(top, T.ACTIVE)
    before = dump(g)
    base = served(top, T.ACTIVE)
    c.check(nw.find_connected_demands(g) == base, "connected demand")
    got = {frozenset(k): v for k, v in nw.single_edge_failures(g).items()}
    want = {frozenset(p): base - served(top, T.ACTIVE, [p]) for p in physical(top, T.ACTIVE, wired=False)}
    c.check(got == want, "demand cut off by the failure of a link")
    pf, df = nw.single_site_failures(g)
    c.check(dump(g) == before, "analysing failures leaves the graph as it was")
    for ty, r in ((T.POP, pf), (T.DN, df)):
        want = {s.site_id: base - served(top, T.ACTIVE, dead_site=s.site_id) for s in S.values() if s.site_type == ty}
        c.check({k: v for k, v in r.items() if v} == {k: v for k, v in want.items() if v}, f"demand cut off by the failure of a {ty.name}")
    c.reach("end")


def ring(c):
    """POP and four DNs with all candidate links between neighbours and across; the plan is any subset"""
    names = ("P", "A", "B", "D")
    S = {n: T.site(n, T.POP if n == "P" else T.DN, 100.0 * i, 0, T.PRO) for i, n in enumerate(names)}
    X = T.site("X", T.DN, 50, 90, c.choice("site_X", (T.CAN, T.UNR)))
    L = []
    for a, b in (("P", "A"), ("A", "B"), ("D", "B"), ("P", "D"), ("A", "D")):
        s = c.choice(f"link_{a}{b}", (T.PRO, T.CAN, T.UNA) if (a, b) == ("A", "D") else (T.PRO, T.CAN))
        for x, y in ((a, b), (b, a)):
            L.append(T.link(S[x], S[y], 1.0, T.sector(S[x]), T.sector(S[y]), s))
    for a, b in ((S["P"], X), (X, S["B"])):
        for x, y in ((a, b), (b, a)):
            L.append(T.link(x, y, 1.0, T.sector(x), T.sector(y)))
    D = [T.demand("d1", [S["A"]], 1.0), T.demand("d2", [S["B"]], 1.0, x=9.0), T.demand("d3", [S["D"]], 1.0, x=19.0)]
    return T.Topology(list(S.values()) + [X], D, [], L), S


def adversarial(c):
    from terragraph_planner.common.configuration.enums import StatusType
    from terragraph_planner.optimization import topology_networkx as nw
    from terragraph_planner.optimization import topology_operations as to
    top, S = ring(c)
    cand = StatusType.reachable_status()
    base_ok = lambda l: True
    if c.flag("by_ratio"):
        ratio = c.choice("ratio", (0.0, 0.2, 1.0))
        # links without capacity (an existing one may be such), a spare device beside an active one
        zero = c.choice("zero", ((), ("PA",), ("AP",), ("PA", "AP"), ("BD", "DB", "AP")))
        for l in top.links.values():
            if l.tx_site.site_id + l.rx_site.site_id in zero:
                l.link_budget.capacity = 0.0
        Y = T.site("Y", T.DN, 100.0, 0, T.CAN, T.dn_device("SPARE"))
        top.add_site(Y)
        for x, y in ((S["P"], Y), (Y, S["P"]), (Y, S["B"]), (S["B"], Y)):
            top.add_link(T.link(x, y, 1.0))
        base_ok = lambda l: l.capacity > 0 and "Y" not in (l.tx_site.site_id, l.rx_site.site_id)
        adv = to.get_adversarial_links(top, ratio)
        limit = None
    else:
        limit = c.choice("count", (0, 1, 2, 5))
        gp, gc = nw.build_digraph(top, T.ACTIVE), nw.build_digraph(top, cand)
        a, b = dump(gp), dump(gc)
        adv = nw.find_most_disruptive_links(gp, gc, limit)
        c.check((dump(gp), dump(gc)) == (a, b), "choosing adversarial links leaves the graphs as they were")
    c.check(adv == {(v, u) for u, v in adv}, "adversarial links come in both directions")
    c.check(served(top, cand, ok=base_ok) == served(top, cand, adv, ok=base_ok), "removed together they cut off no demand that was connectable")
    base = served(top, T.ACTIVE)
    for e in adv:
        c.check(tuple(sorted(e)) in physical(top, T.ACTIVE, wired=False), "adversarial links are wireless backhaul links of the plan")
        c.check(base != served(top, T.ACTIVE, [e]), "the failure of an adversarial link disrupts the plan")
    if limit is not None:
        c.check(len({frozenset(e) for e in adv}) <= (limit + 1) // 2 if limit else not adv, "no more links than asked for")
        if limit == 5:
            # those left out are harmless for the plan or needed by some demand
            for p in physical(top, T.ACTIVE, wired=False):
                if p not in adv and base != served(top, T.ACTIVE, [p]):
                    c.check(served(top, cand) != served(top, cand, list(adv) + [p]), "only links that some demand needs are spared")
    c.reach("end")


def routes(c, kind):
    from terragraph_planner.common.configuration.enums import TopologyRouting as R
    from terragraph_planner.optimization import topology_networkx as nw
    cost = {0: None, 3: 15, 5: 3, 9: 1, 14: 1}
    S = {n: T.site(n, ty, 100.0 * i, 0, T.PRO) for i, (n, ty) in enumerate({"P": T.POP, "Q": T.POP, "A": T.DN, "B": T.DN, "C": T.CN}.items())}
    L = []
    for a, b in (("P", "A"), ("A", "B"), ("P", "B"), ("Q", "B"), ("B", "C"), ("A", "C")):
        s = c.choice(f"link_{a}{b}", (T.PRO, T.CAN)) if (a, b) != ("A", "B") else T.PRO
        m = c.choice(f"mcs_{a}{b}", (9, 5, 3, 0) if (a, b) == ("P", "B") else (14, 5)) if kind != R.SHORTEST_PATH and s == T.PRO and (a, b) != ("B", "C") else 9
        for x, y in ((a, b), (b, a)):
            if x != "C":
                l = T.link(S[x], S[y], 1.0, T.sector(S[x]), T.sector(S[y]), s)
                l.mcs_level = m
                L.append(l)
    D = [T.demand("d1", [S["A"]], 1.0), T.demand("d2", [S["C"]], 1.0, x=9.0), T.demand("d3", [S["B"], S["P"]], 1.0, x=19.0)]
    top = T.Topology(S.values(), D, [], L)
    used = nw.get_topology_routing_results(top, nw.build_digraph(top, T.ACTIVE), kind)
    c.check(all(top.links[u].status_type in T.ACTIVE for u in used), "routes use active links only")
    INF = 10 ** 9
    weight = lambda l: 1 if kind == R.SHORTEST_PATH else (cost[l.mcs_level] or 10 ** 6)

    def dist(ok):
        d = {s: 0 if x.site_type == T.POP else INF for s, x in S.items()}
        for _ in S:
            for l in edges(top, T.ACTIVE):
                if ok(l):
                    a, b = l.tx_site.site_id, l.rx_site.site_id
                    d[b] = min(d[b], d[a] + weight(l))
        return d
    full, part = dist(lambda l: True), dist(lambda l: l.link_id in used)
    for did, d in top.demand_sites.items():
        best = min(full[s.site_id] for s in d.connected_sites)
        have = min(part[s.site_id] for s in d.connected_sites)
        if kind == R.DPA_PATH:
            c.check((best == INF) == (have == INF), "every connectable demand point keeps a route")
        else:
            c.check(have == best, "the routes in use include a best one to every demand point")
    # nothing but routes: each used link lies on a way to some demand point, and there are no more than one route each
    c.check(len({u.split("-")[1] for u in used}) == len(used) or kind == R.DPA_PATH, "no site is fed over two links")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    from terragraph_planner.common.configuration.enums import TopologyRouting as R
    return [Case("failures", failures), Case("adversarial", adversarial)] + [Case(f"routes/{k.name}", lambda c, k=k: routes(c, k)) for k in R] + [
        Case(f"directions/{n}", lambda c, n=n: directions(c, n)) for n in ("PABD", "DCBA", "BDAP")]
