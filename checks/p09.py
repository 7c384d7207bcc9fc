from itertools import permutations

from vlib.runner import Case
from vlib.symex import Infeasible

META = {
    "functions": ["NetworkOptimization.prune_loops (with nested _prune_loop)"],
    "bounds": "all non-negative real flow vectors on the listed graphs (up to 5 nodes, up to 12 directed edges; self-contained loops of every length)",
    "outside": "larger graphs; floating point rounding (exact reals)",
    "assumptions": ["flow entries between 0 and the code's EPSILON count as no flow, as in the code"],
}

E = 1e-3


def graph(name):
    if name == "k3":
        return ["a", "b", "c"], [(i, j) for i in "abc" for j in "abc" if i != j]
    if name == "k3+":
        return ["S", "a", "b", "c", "d"], [("S", "a"), ("a", "b"), ("b", "a"), ("b", "c"), ("c", "b"), ("a", "c"), ("c", "a"), ("c", "d")]
    if name == "ring4":
        n = "abcd"
        return list(n), [(n[i], n[(i + 1) % 4]) for i in range(4)] + [("c", "a"), ("b", "a")]
    if name == "two loops":
        return list("abcde"), [("a", "b"), ("b", "c"), ("c", "a"), ("b", "d"), ("d", "e"), ("e", "b")]
    if name == "chord":
        return list("abcd"), [("a", "b"), ("b", "c"), ("c", "d"), ("d", "b"), ("d", "a"), ("b", "d"), ("a", "c")]
    if name == "k4":
        return list("abcd"), [(i, j) for i in "abcd" for j in "abcd" if i < j] + [("d", "a"), ("c", "a"), ("d", "b"), ("b", "a")]
    raise KeyError(name)


def cycles(nodes, edges):
    es, out = set(edges), []
    for k in range(2, len(nodes) + 1):
        for p in permutations(nodes, k):
            if p[0] != min(p):
                continue
            c = [(p[i], p[(i + 1) % k]) for i in range(k)]
            if all(e in es for e in c):
                out.append(c)
    return out


def run(c, name, order=None):
    from terragraph_planner.optimization.constants import EPSILON
    from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization
    nodes, edges = graph(name)
    if order == "reversed":
        nodes, edges = nodes[::-1], edges[::-1]
    o = NetworkOptimization.__new__(NetworkOptimization)
    o.locations, o.links = list(nodes), list(edges)
    inp = {e: c.real(f"f_{e[0]}{e[1]}", 0, 10) for e in edges}
    # values the code treats as zero are zero
    for e in edges:
        c.assume(c.OR(inp[e] == 0, inp[e] > EPSILON))
    cyc = cycles(nodes, edges)
    out = o.prune_loops(dict(inp))
    c.check(set(out) == set(edges), "every link has a flow")
    for e in edges:
        c.le(0, out[e], "no negative flow")
        c.le(out[e], inp[e], "no link carries more than before")
    for n in nodes:
        ni = sum(inp[e] for e in edges if e[1] == n) - sum(inp[e] for e in edges if e[0] == n)
        no = sum(out[e] for e in edges if e[1] == n) - sum(out[e] for e in edges if e[0] == n)
        c.eq(no, ni, "net inflow of every location is kept")
    for cy in cyc:
        c.check(c.NOT(c.AND(*[out[e] > EPSILON for e in cy])), "no loop remains")
    loopfree = c.AND(*[c.NOT(c.AND(*[inp[e] > EPSILON for e in cy])) for cy in cyc])
    for e in edges:
        c.check(c.OR(c.NOT(loopfree), out[e] == inp[e]), "loop-free flow is left unchanged")
    c.reach("end")


def cases(tier):
    out = []
    for g in ("k3", "ring4", "two loops", "chord", "k3+") + (("k4",) if tier == "thorough" else ()):
        out.append(Case(g, lambda c, g=g: run(c, g)))
        out.append(Case(g + " reversed", lambda c, g=g: run(c, g, "reversed")))
    return out
