"""Hop counts and marking of unreachable components."""
from vlib import siteopt
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["topology_operations.hops_from_pops", "mark_unreachable_components", "get_reachable_demand_sites",
                  "Topology.get_successor_sites/get_predecessor_sites", "Site/Sector/Link.status_type"],
    "bounds": "networks of 4-5 sites (up to two POPs) with up to 8 directed links; every combination of site statuses, link statuses and "
              "presence of links in either direction; every hop limit",
    "outside": "larger networks",
    "assumptions": [],
}


BIG = False


def build(c, st, ty, edges, demands=()):
    S = {s: T.site(s, ty[s], 100.0 * k, 0, st[s]) for k, s in enumerate(st)}
    secs, links = {}, {}
    for a, b, kind, both in edges:
        dirs = [(a, b)]
        if both == "choice":
            k = c.choice(f"dir_{a}{b}", (3, 1, 2))
            dirs = [e for n, e in ((1, (a, b)), (2, (b, a))) if k & n]
        elif both:
            dirs = [(a, b), (b, a)]
        elif both is None:
            dirs = [(a, b)] if c.flag(f"has_{a}{b}") else []
        opts = T.ALL5 if kind == "any" else (T.CAN, T.PRO, T.EXI) if kind == "act" else (T.CAN, T.UNA, T.UNR) if BIG or kind == "x" else (T.CAN, T.UNA)
        pick = None
        for i, j in dirs:
            ss = {st[i], st[j]}
            if T.UNA in ss:
                ls = T.UNA
            elif T.UNR in ss:
                ls = c.choice(f"link_{i}{j}", (T.UNR, T.UNA)) if BIG or kind == "any" else T.UNR
            else:
                ok = [x for x in opts if not (x == T.PRO and not ss <= T.ACTIVE) and not (x == T.EXI and ss != {T.EXI})]
                if pick is None or BIG:
                    pick = ok[0] if len(ok) == 1 else c.choice(f"link_{i}{j}", ok)
                ls = pick
            for s in (i, j):
                if s not in secs:
                    secs[s] = T.sector(S[s], 0, 0, 0.0)
            links[(i, j)] = T.link(S[i], S[j], 1.0, secs[i], secs[j], ls)
    T.vary(c, links.values())
    D = [T.demand(d, [S[s] for s in ss], 1.0) for d, ss in demands]
    return S, secs, links, T.Topology(S.values(), D, secs.values(), links.values())


def hops(S, links, ok):
    h = {s: 0 for s, x in S.items() if x.site_type == T.POP and x.status_type in ok}
    for _ in S:
        for (i, j), l in links.items():
            if i in h and l.status_type in ok and S[j].status_type in ok:
                h[j] = min(h.get(j, 99), h[i] + 1)
    return h


def net_line(c, sp):
    st = {"P": sp, "A": c.choice("A", T.ALL5), "B": c.choice("B", T.ALL5), "C": c.choice("C", (T.CAN, T.UNA, T.PRO) if BIG else (T.CAN, T.UNA))}
    ty = {"P": T.POP, "A": T.DN, "B": T.DN, "C": T.CN}
    return st, ty, [("P", "A", "any", True), ("A", "B", "", "choice"), ("B", "C", "", None), ("P", "B", "", None)], [("d1", ["B", "C"]), ("d2", ["A"])]


def net_pops(c, sp):
    st = {"P": sp, "Q": c.choice("Q", (T.CAN, T.UNA, T.UNR, T.EXI) if BIG else (T.CAN, T.UNR)), "A": c.choice("A", (T.CAN, T.UNA)), "B": c.choice("B", (T.CAN, T.PRO)), "C": T.CAN}
    ty = {"P": T.POP, "Q": T.POP, "A": T.DN, "B": T.DN, "C": T.DN}
    return st, ty, [("P", "A", "", "choice"), ("A", "B", "x", True), ("B", "C", "", "choice"), ("C", "Q", "", None)], [("d1", ["C"])]


def count(c, net, sp):
    from terragraph_planner.common.configuration.enums import StatusType
    from terragraph_planner.optimization.topology_operations import get_reachable_demand_sites, hops_from_pops
    S, _, links, top = build(c, *net(c, sp))
    f = c.choice("filter", (StatusType.reachable_status(), StatusType.active_status(), None, {StatusType.CANDIDATE}))
    want = hops(S, links, f or set(T.ALL5))
    got = hops_from_pops(top, f)
    c.check(got == want, "hop count is the length of the shortest path from a POP")
    if f is not None:
        d = get_reachable_demand_sites(top, f)
        c.check(d == {k for k, x in top.demand_sites.items() if any(s.site_id in want for s in x.connected_sites)}, "reachable demand has a reachable site")
    c.reach("end")


def mark(c, net, sp):
    from terragraph_planner.common.configuration.enums import StatusType
    from terragraph_planner.optimization.topology_operations import mark_unreachable_components
    S, secs, links, top = build(c, *net(c, sp))
    h = hops(S, links, StatusType.reachable_status())
    limit = c.int("max_hops", 1, 5) if c.flag("limited") else None
    old = {k: x.status_type for k, x in [*S.items(), *links.items()]}
    olds = {s: x.status_type for s, x in secs.items()}
    mark_unreachable_components(top, limit)
    gone = {}
    for s, x in S.items():
        far = s not in h or (limit is not None and h[s] > limit)
        gone[s] = c.AND(old[s] == T.CAN, far)
        c.check(c.ITE(gone[s], 1, 0) == (1 if x.status_type == T.UNR and old[s] != T.UNR else 0), "exactly the unreachable or too distant candidate sites are marked")
        c.check(x.status_type in (old[s], T.UNR), "no other change of a site status")
    for (i, j), l in links.items():
        now = l.status_type
        if old[(i, j)] in (T.EXI, T.UNA, T.UNR):
            c.check(now == old[(i, j)], "existing, unavailable and unreachable links are unchanged")
        else:
            c.check(c.OR(gone[i], gone[j]) if now == T.UNR else c.AND(now == old[(i, j)], c.NOT(c.OR(gone[i], gone[j]))), "exactly the links of marked sites are marked")
    for s, q in secs.items():
        c.check(q.status_type == (T.UNR if S[s].status_type == T.UNR else olds[s]), "exactly the sectors of unreachable sites are unreachable")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for sp in T.ALL5:
        for n, f in (("line", net_line), ("pops", net_pops)):
            out.append(Case(f"hops/{n}/{sp.name}", lambda c, f=f, sp=sp: count(c, f, sp)))
            out.append(Case(f"mark/{n}/{sp.name}", lambda c, f=f, sp=sp: mark(c, f, sp)))
    return out
