"""Availability simulation on every history of failures and repairs."""
import itertools

import numpy as np

from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["topology_availability.compute_availability", "topology_networkx: build_digraph, find_connected_demands"],
    "bounds": "plans of up to 5 sites: a chain, a loop and a mix of wired, access and backhaul links; all failure and repair times, with up to 2 outages "
              "on one link or one outage on each of 2 links (thorough: 2 on each of 2, one on each of 3) within a window of any length; link availability 0, 50 and 100 percent; "
              "time limit running out after any event",
    "outside": "the distribution of the times (numpy's exponential generator); more outages",
    "assumptions": ["the random generator returns positive times (zero when their mean is zero)", "backhaul links come in both directions (validated)"],
}

BIG = False
NETS = {
    # name: (sites, links (a, b, wired), demands)
    "chain": ({"P": T.POP, "B": T.DN, "A": T.DN}, [("P", "B", 0), ("B", "A", 0)], {"d1": ["B"], "d2": ["A"], "d3": ["P"]}),
    "loop": ({"P": T.POP, "A": T.DN, "B": T.DN}, [("B", "P", 0), ("P", "A", 0), ("A", "B", 1)], {"d1": ["A"], "d2": ["B"]}),
    "triangle": ({"P": T.POP, "A": T.DN, "B": T.DN}, [("B", "P", 0), ("P", "A", 0), ("A", "B", 0)], {"d1": ["A"], "d2": ["B"]}),
    "two POPs": ({"P": T.POP, "Q": T.POP, "A": T.DN}, [("P", "A", 0), ("A", "Q", 0)], {"d1": ["A"], "d2": ["A", "P"]}),
    "mixed": ({"P": T.POP, "A": T.DN, "B": T.DN, "C": T.CN, "E": T.DN}, [("P", "A", 1), ("A", "B", 0), ("B", "C", 0)],
              {"d1": ["A"], "d2": ["C"], "d3": ["E"]}),
}


def build(name):
    sites, links, dem = NETS[name]
    S = {n: T.site(n, t, 100.0 * i, 30.0 * i * i, T.PRO) for i, (n, t) in enumerate(sites.items())}
    L = []
    for a, b, w in links:
        p, q = (None, None) if w else (T.sector(S[a]), T.sector(S[b]))
        for x, y, f, g in ((a, b, p, q), (b, a, q, p)):
            if S[x].site_type != T.CN:
                L.append(T.link(S[x], S[y], 1.0, f, g, T.PRO, not w))
    D = [T.demand(d, [S[s] for s in ss], 1.0, x=5.0 * i) for i, (d, ss) in enumerate(dem.items())]
    return T.Topology(S.values(), D, [], L), links


def reached(top, down):
    seen = {s for s, x in top.sites.items() if x.site_type == T.POP}
    for _ in top.sites:
        seen |= {l.rx_site.site_id for l in top.links.values() if l.tx_site.site_id in seen and frozenset((l.tx_site.site_id, l.rx_site.site_id)) not in down}
    return {d for d, x in top.demand_sites.items() if any(s.site_id in seen for s in x.connected_sites)}


class Draws:
    """stands for numpy's generator; each link gets at most k outages inside the window"""
    def __init__(self, c, horizon, k):
        self.c, self.horizon, self.k = c, horizon, k
        self.hist, self.cur, self.t, self.n = [], [], 0, 0

    def exponential(self, scale=1.0, size=None):
        assert size is None
        c = self.c
        self.n += 1
        if scale == 0:
            v = 0.0
        elif len(self.cur) >= 2 * self.k:
            v = self.horizon
        else:
            v = c.real(f"t{self.n}", 0, 50, strict_lo=True)
        self.t = self.t + v
        self.cur.append(self.t)
        # the history of a link is complete when a repair lies beyond the window
        if len(self.cur) % 2 == 0 and not self.t < self.horizon:
            self.hist.append(self.cur)
            self.cur, self.t = [], 0
        return v


def simulate(c, name, k, percent, limited=False):
    from unittest import mock
    from terragraph_planner.optimization import topology_networkx as nw
    from terragraph_planner.optimization.topology_availability import compute_availability
    top, links = build(name)
    g = nw.build_digraph(top, T.ACTIVE)
    before = sorted((u, v, str(sorted(d.items(), key=str))) for u, v, d in g.edges(data=True))
    T_end = c.real("window", 0, 100, strict_lo=True)
    draws = Draws(c, T_end, k)
    clock = [0]

    def now():
        clock[0] += 1
        # runs over the limit at some reading of the clock
        return 0.0 if clock[0] == 1 or not c.flag(f"late{clock[0]}") else 1000.0
    with mock.patch.object(np.random, "default_rng", lambda *a: draws):
        if limited:
            import time
            import types
            import terragraph_planner.optimization.topology_availability as ta
            names = ("time", "monotonic", "perf_counter")
            fake = types.SimpleNamespace(**{**vars(time), **{n: now for n in names}})
            new = {k: fake if v is time else now for k, v in vars(ta).items() if v is time or any(v is getattr(time, n) for n in names)}
            with mock.patch.multiple(ta, **new):
                av, la = compute_availability(g, percent, T_end, 10.0, 3)
        else:
            av, la = compute_availability(g, percent, T_end)
    after = sorted((u, v, str(sorted(d.items(), key=str))) for u, v, d in g.edges(data=True))
    c.check(before == after, "the graph is left as it was")
    fallible = [frozenset((a, b)) for a, b, w in links if not w and "C" not in (a, b)]
    base = reached(top, set())
    c.check(set(av) == base, "demand that is connected without failures has an availability")
    c.check({frozenset(x) for x in la} == set(fallible) and len(la) == len(fallible), "only wireless backhaul links fail, both directions as one")
    c.check(len(draws.hist) == len(fallible), "one history per link")
    for v in list(av.values()) + ([] if limited else list(la.values())):
        c.check(c.AND(v >= -1e-9, v <= 1 + 1e-9), "availability lies between zero and one")
    # times of all outages, in order (mostly known from the run)
    marks = [(T_end, None, None)]
    for i, h in enumerate(draws.hist):
        for j, t in enumerate(h):
            marks.append((t, i, j))
    order = []
    for m in marks:
        if m[1] is not None and not m[0] < T_end:
            continue
        pos = len(order)
        while pos and m[0] < order[pos - 1][0]:
            pos -= 1
        order.insert(pos, m)
    assert all(x[1] is not None for x in order[:-1])

    def result(perm, stop):
        """connected and up time until the stop-th mark when history i belongs to fallible[perm[i]]"""
        con, up = {d: 0 for d in base}, {f: 0 for f in fallible}
        down, last = set(), 0
        for t, i, j in order[:stop]:
            dt = t - last
            for d in reached(top, down):
                con[d] = con[d] + dt
            for f in fallible:
                if f not in down:
                    up[f] = up[f] + dt
            last = t
            if i is not None:
                down = down ^ {fallible[perm[i]]}
        return con, up, last
    opts = []
    for stop in range(1, len(order) + 1) if limited else (len(order),):
        for perm in itertools.permutations(range(len(fallible))):
            con, up, end = result(perm, stop)
            near = lambda x, y: c.AND(x - y <= 1e-6 * T_end, y - x <= 1e-6 * T_end)
            opts.append(c.AND(*[near(av[d] * end, con[d]) for d in base],
                              *([] if limited else [near(la[x] * T_end, up[frozenset(x)]) for x in la])))
    c.check(c.OR(*opts), "availability is the share of time with a connection")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for n, k in (("chain", 2 if BIG else 1), ("loop", 1), ("two POPs", 2 if BIG else 1), ("mixed", 2)):
        out.append(Case(f"{n}", lambda c, n=n, k=k: simulate(c, n, k, 50.0)))
    if BIG:
        out.append(Case("triangle", lambda c: simulate(c, "triangle", 1, 50.0), budget=3000))
    for p in (0.0, 100.0):
        out.append(Case(f"chain {p:.0f}%", lambda c, p=p: simulate(c, "chain", 1, p)))
    out.append(Case("time limit", lambda c: simulate(c, "two POPs", 1, 50.0, True)))
    return out
