"""Applying a plan to a topology: statuses, polarities and channels afterwards."""
from vlib import siteopt
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import Infeasible

META = {
    "functions": ["topology_optimization.update_topology_with_solution", "_update_topology_sites", "_update_topology_sectors",
                  "_update_topology_links", "_remove_disconnected_components_from_topology", "hops_from_pops", "Site/Sector/Link.status_type"],
    "bounds": "networks of 4 sites and up to 6 directed links (wireless, wired, with and without sectors); every combination of previous "
              "statuses and every self-consistent plan (link in the plan only between sites in the plan, sector only at a site in the plan)",
    "outside": "larger networks; plans that contradict themselves (excluded by P10)",
    "assumptions": ["the plan is self-consistent as stated in P10"],
}
BIG = False
IMM = (T.EXI, T.UNA, T.UNR)


class Plan:
    pass


def net_a(c, sp, sa):
    """P - A - B in line, B also wired to W (no sectors)"""
    st = {"P": sp, "A": sa, "B": c.choice("B", (T.CAN, T.PRO, T.EXI, T.UNA) if BIG else (T.CAN, T.EXI, T.UNA)), "W": c.choice("W", (T.CAN, T.PRO))}
    return st, {"P": T.POP, "A": T.DN, "B": T.DN, "W": T.DN}, [("P", "A", 1), ("A", "B", 1), ("B", "W", 0)]


def net_b(c, sp):
    """two POPs, a CN behind B"""
    st = {"P": sp, "Q": c.choice("Q", (T.CAN, T.EXI, T.UNR) if BIG else (T.CAN, T.EXI)), "B": c.choice("B", T.ALL5 if BIG else (T.CAN, T.PRO, T.EXI)),
          "C": c.choice("C", (T.CAN, T.PRO, T.EXI) if BIG else (T.CAN, T.EXI))}
    return st, {"P": T.POP, "Q": T.POP, "B": T.DN, "C": T.CN}, [("P", "B", 1), ("Q", "B", 1), ("B", "C", 1)]


def net_c(c, sp):
    """P - A - B with free polarity and sector decisions"""
    st = {"P": sp, "A": sp, "B": c.choice("B", (T.CAN, T.PRO))}
    return st, {"P": T.POP, "A": T.DN, "B": T.DN}, [("P", "A", 1), ("A", "B", 1)]


def run(c, net, sp, drop=False, mixed=("B",), free=False):
    from terragraph_planner.common.configuration.enums import PolarityType
    from terragraph_planner.optimization.constants import UNASSIGNED_CHANNEL
    from terragraph_planner.optimization.topology_optimization import update_topology_with_solution
    st, ty, edges = net(c, sp)
    S = {s: T.site(s, ty[s], 100.0 * k, 0, st[s]) for k, s in enumerate(st)}
    secs, links = {}, {}
    for n, (a, b, wireless) in enumerate(edges):
        for s in (a, b):
            if wireless and (s, n % 2) not in secs:
                opts = [T.CAN, st[s]] if st[s] in T.ACTIVE and (s in mixed or BIG) else [st[s]]
                o = opts[0] if len(opts) == 1 else c.choice(f"sector_{s}{n % 2}", opts)
                secs[(s, n % 2)] = T.sector(S[s], 0, n % 2, 0.0, o)
        ls = siteopt.link_status(c, a + b, st[a], st[b], (T.CAN, T.PRO, T.EXI) if {st[a], st[b]} <= T.ACTIVE else T.ALL5 if n == 1 else (T.CAN, T.UNA, T.UNR))
        for i, j in [(a, b)] + ([(b, a)] if ty[b] != T.CN else []):
            links[(i, j)] = T.link(S[i], S[j], 1.0, secs.get((i, n % 2)) if wireless else None, secs.get((j, n % 2)) if wireless else None, ls, bool(wireless))
    top = T.Topology(S.values(), [], secs.values(), links.values())
    old = {k: x.status_type for k, x in [*S.items(), *[(q.sector_id, q) for q in secs.values()], *links.items()]}
    p = Plan()
    bit = lambda n: c.int(n, 0, 1)
    D = {s: bit("plan_" + s) for s in S}
    dist = [s for s in S if ty[s] != T.CN]
    O = {s: bit("odd_" + s) if free else 1 - k % 2 for k, s in enumerate(dist[:2])}
    # never both
    E = {s: c.ITE(D[s] == 1, 1 - O[s], 0) for s in O}
    O = {s: c.ITE(D[s] == 1, O[s], 0) for s in O}
    L, Q = {}, {}
    for n, (a, b, w) in enumerate(edges):
        l = bit(f"plan_{a}{b}")
        if old[(a, b)] in (T.UNA, T.UNR):
            c.assume(l == 0)
        c.assume(c.OR(l == 0, c.AND(D[a] == 1, D[b] == 1)))
        for e in ((a, b), (b, a)):
            if e in links:
                L[e] = l
    for s in S:
        if st[s] in (T.UNA, T.UNR):
            c.assume(D[s] == 0)
    CH = {}
    for (s, k), q in secs.items():
        x = D[s]
        if free or (s == "B" and BIG):
            x = bit(f"plan_sector_{s}{k}")
            c.assume(c.OR(x == 0, D[s] == 1))
        Q[(s, q.sector_id)] = x
        CH[(s, q.sector_id)] = c.int(f"channel_{s}{k}", -1, 3)
    p.site_decisions, p.link_decisions, p.sector_decisions, p.channel_decisions = D, L, Q, dict(CH)
    p.odd_site_decisions, p.even_site_decisions = O, E
    if drop:
        # decisions may leave out components that are off
        gone = next(iter(L))
        c.assume(L[gone] == 0)
        p.link_decisions = {k: v for k, v in L.items() if k not in (gone, gone[::-1])}
        k = next(iter(CH))
        p.channel_decisions.pop(k)
        CH[k] = UNASSIGNED_CHANNEL
    update_topology_with_solution(p, top)
    # specification
    a0 = {s: (True if st[s] == T.EXI else False if st[s] in IMM else D[s] == 1) for s in S}
    l0 = {e: (True if old[e] == T.EXI else False if old[e] in IMM else L[e] == 1) for e in links}
    R = {s: c.AND(ty[s] == T.POP, a0[s]) for s in S}
    for _ in S:
        R = {s: c.OR(R[s], *[c.AND(R[i], l0[(i, j)], a0[j]) for (i, j) in links if j == s]) for s in S}
    fin = {}
    for s in S:
        x = S[s].status_type
        if st[s] in IMM:
            c.check(x == st[s], "existing, unavailable and unreachable sites are unchanged")
            fin[s] = st[s] == T.EXI
        else:
            c.check(x in (T.PRO, T.CAN), "other sites become proposed or candidate")
            fin[s] = c.AND(D[s] == 1, R[s])
            c.check(c.AND(x == T.PRO, fin[s]) if x == T.PRO else c.NOT(fin[s]), "site is proposed iff in the plan and connected to an active POP")
        pol = S[s].polarity
        if s in O:
            c.check((O[s] == 1) == (pol == PolarityType.ODD), "odd polarity is the plan's")
            c.check((E[s] == 1) == (pol == PolarityType.EVEN), "even polarity is the plan's")
        else:
            c.check(pol == PolarityType.UNASSIGNED, "no polarity without a decision")
    for (s, k), q in secs.items():
        x = q.status_type
        if old[q.sector_id] in IMM:
            c.check(x == old[q.sector_id], "existing, unavailable and unreachable sectors are unchanged")
        else:
            want = c.AND(Q[(s, q.sector_id)] == 1, R[s])
            c.check(want if x == T.PRO else c.AND(x == T.CAN, c.NOT(want)), "sector is proposed iff in the plan and connected")
        c.check(q.channel == CH[(s, q.sector_id)], "sector channel is the plan's")
    for (i, j), l in links.items():
        x = l.status_type
        if old[(i, j)] in IMM:
            c.check(x == old[(i, j)], "existing, unavailable and unreachable links are unchanged")
        else:
            want = c.AND(L[(i, j)] == 1, fin[i], fin[j])
            c.check(want if x == T.PRO else c.AND(x == T.CAN, c.NOT(want)), "link is proposed iff in the plan and its sites are active")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for sp in T.ALL5 if BIG else (T.CAN, T.PRO, T.EXI, T.UNA):
        for n, f in [(f"line/{a.name}", lambda c, sp, a=a: net_a(c, sp, a)) for a in T.ALL5] + [("two POPs", net_b)]:
            out.append(Case(f"{n}/{sp.name}", lambda c, f=f, sp=sp: run(c, f, sp, False, "B" if BIG or f is not net_b else ""), must_reach=() if sp == T.UNA else ("end",)))
        out.append(Case(f"polarity/{sp.name}", lambda c, sp=sp: run(c, net_c, sp, False, "PABW" if BIG else "", True)))
    out.append(Case("incomplete plan", lambda c: run(c, net_c, T.CAN, True, (), True)))
    return out
