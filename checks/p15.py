"""Deployment rule violations: angles, near-far and point-to-multipoint limits."""
from itertools import combinations

from vlib import boot, symex  # noqa: F401
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["deployment_rules: find_angle_violating_link_pairs, _get_adjacency_dictionary, get_violating_link_ids, find_sector_limit_violations",
                  "Topology.sector_connectivity"],
    "bounds": "one or two centre sites with up to 3 (thorough: 4) links each; every real angle, length ratio and limit; every assignment of links to "
              "sectors, channels, statuses, wired or wireless; sector limits 0..4",
    "outside": "more links per site",
    "assumptions": ["the angle and length ratio between two directions are arbitrary reals here; their computation is the subject of P26"],
}

BIG = False


def star(c, n, act):
    """centre x with links to a, b, c.. and one second centre y"""
    names = "abcd"[:n]
    S = {s: T.site(s, T.DN, 100.0 * (k + 1), 13.0 * k * k, T.PRO) for k, s in enumerate("xy" + names)}
    secs, links, info = {}, {}, {}
    for s in "y" + names:
        secs[s] = T.sector(S[s], 0, 0, 0.0, T.PRO, 0)
    second = c.choice("second_channel", (0, 1))
    for k in range(2):
        secs[f"x{k}"] = T.sector(S["x"], k, 0, 90.0 * k, T.PRO, second if k else 0)
    for s in names:
        k = c.choice(f"sector_{s}", (0, 1)) if s != "a" else 0
        st = c.choice(f"status_{s}", (T.PRO, T.CAN) if s != "a" else (T.PRO,))
        wl = c.flag(f"wireless_{s}") if s in "ab" else True
        rx = secs[s]
        links["x", s] = T.link(S["x"], S[s], 1.0, secs[f"x{k}"] if wl else None, rx if wl else None, st, wireless=wl)
        links[s, "x"] = T.link(S[s], S["x"], 1.0, rx if wl else None, secs[f"x{k}"] if wl else None, st, wireless=wl)
        info[s] = (k, st, wl)
    links["y", "a"] = T.link(S["y"], S["a"], 1.0, secs["y"], secs["a"], T.PRO)
    for s in names:  # wired links have no sectors
        pass
    return S, secs, links, info, second, T.Topology(S.values(), [], secs.values(), links.values())


def angles(c, n, act):
    from terragraph_planner.optimization import deployment_rules as M
    S, secs, links, info, second, top = star(c, n, act)
    diff, near, ratio = c.real("diff_limit", 0, 180), c.real("near_limit", 0, 180), c.real("near_ratio", 1, 10)
    where = {(s.latitude, s.longitude): k for k, s in S.items()}
    val = {}
    calls = []

    def fake(la0, lo0, la1, lo1, la2, lo2):
        k = (where[la0, lo0],) + tuple(sorted((where[la1, lo1], where[la2, lo2])))
        calls.append(k)
        if k not in val:
            val[k] = c.real("angle_" + "".join(k), 0, 180), c.real("ratio_" + "".join(k), 1, 20)
        return val[k]
    with symex.swapped((M.law_of_cosines_spherical, fake)):
        got = M.find_angle_violating_link_pairs(top, diff, near, ratio, act)
    names = "abcd"[:n]
    c.check(len(set(got.diff_sector_list)) == len(got.diff_sector_list) and len(set(got.near_far_list)) == len(got.near_far_list), "each offending pair is reported once")
    c.check(not set(got.diff_sector_list) & set(got.near_far_list), "a pair is reported under one rule")
    for lst in (got.diff_sector_list, got.near_far_list):
        c.check(all(p[0] in S and p[1] in S and p[1] < p[2] for p in lst), "pairs name the common site and the two others in order")
    for i, j in combinations(names, 2):
        (ki, si, wi), (kj, sj, wj) = info[i], info[j]
        rel = wi and wj and ki != kj
        if act:
            rel = rel and si == T.PRO and sj == T.PRO and second == 0
        p = ("x", i, j)
        a, r = val.get(p, (None, None))
        if not rel:
            c.check(p not in got.diff_sector_list and p not in got.near_far_list, "links of one sector, wired, and (on request) inactive links or other channels are not reported")
            continue
        c.check(a is not None, "every pair of links from different sectors is examined")
        c.check((a <= diff) if p in got.diff_sector_list else (a > diff), "angle violations are exactly the pairs within the angle limit")
        nf = c.AND(a > diff, a <= near, r >= ratio)
        c.check(nf if p in got.near_far_list else c.NOT(nf), "near-far violations are exactly the pairs within the near-far limits")
    c.check(all(p[0] == "x" and set(p[1:]) <= set(names) for p in got.diff_sector_list + got.near_far_list), "only pairs of links leaving one site are reported")
    ids = M.get_violating_link_ids(top, got.diff_sector_list + got.near_far_list)
    want = {links[k].link_id for p in got.diff_sector_list + got.near_far_list for k in ((p[0], p[1]), (p[1], p[0]), (p[0], p[2]), (p[2], p[0])) if k in links}
    c.check(ids == want, "violating links are both directions of the links of the reported pairs")
    c.reach("end")


def shared(c):
    """links incident to a site from both directions: only links leaving it count; one-way links are covered"""
    from terragraph_planner.optimization import deployment_rules as M
    S = {s: T.site(s, T.CN if s == "c" else T.DN, 100.0 * k, 7.0 * k * k, T.PRO) for k, s in enumerate("abc")}
    secs = {"a0": T.sector(S["a"], 0, 0, 0.0, T.PRO, 0), "a1": T.sector(S["a"], 1, 0, 90.0, T.PRO, 0), "b": T.sector(S["b"], 0, 0, 0.0, T.PRO, 0), "c": T.sector(S["c"], 0, 0, 0.0, T.PRO, 0)}
    back = c.flag("back")
    links = [T.link(S["a"], S["c"], 1.0, secs["a1"], secs["c"], T.PRO)]
    fwd = c.flag("forward")
    if fwd:
        links.append(T.link(S["a"], S["b"], 1.0, secs["a0"], secs["b"], T.PRO))
    if back:
        links.append(T.link(S["b"], S["a"], 1.0, secs["b"], secs["a0"], T.PRO))
    top = T.Topology(S.values(), [], secs.values(), links)
    with symex.swapped((M.law_of_cosines_spherical, lambda *a: (10.0, 1.0))):
        got = M.find_angle_violating_link_pairs(top, 20.0, 30.0, 3.0, True)
    c.check(got.diff_sector_list == ([("a", "b", "c")] if fwd else []) and got.near_far_list == [], "pairs are formed of links leaving the common site")
    ids = M.get_violating_link_ids(top, [("a", "b", "c")])
    c.check(ids == {l.link_id for l in links}, "existing directions of the links of a pair")
    c.reach("end")


def limits(c, n):
    from terragraph_planner.optimization import deployment_rules as M
    names = "abcd"[:n]
    typ = {s: c.choice(f"type_{s}", (T.DN, T.CN)) for s in names}
    st = {s: c.choice(f"status_{s}", (T.PRO, T.EXI, T.CAN) if s == "a" else (T.PRO, T.CAN)) for s in names}
    sx = c.choice("status_x", (T.PRO, T.EXI, T.CAN))
    S = {"x": T.site("x", T.DN, 0, 0, T.EXI)}
    xs = [T.sector(S["x"], k, 0, 90.0 * k, sx if k == 0 else T.EXI, 0) for k in range(2)]
    secs, links = list(xs), []
    used = {0: [], 1: []}
    for m, s in enumerate(names):
        S[s] = T.site(s, typ[s], 100.0 * (m + 1), 0, T.EXI)
        inact = sx == T.CAN
        q = T.sector(S[s], 0, 0, 0.0, T.EXI if s != "b" or st[s] != T.CAN else c.choice("sector_b", (T.EXI, T.CAN)), 0)
        secs.append(q)
        k = 1 if s == "c" and c.flag("other_sector") else 0
        ls = T.CAN if inact and k == 0 else st[s]
        links.append(T.link(S["x"], S[s], 1.0, xs[k], q, ls))
        if typ[s] != T.CN:
            links.append(T.link(S[s], S["x"], 1.0, q, xs[k], ls))
        used[k].append((s, q, ls))
    dd, tot = c.int("dn_limit", 0, 4), c.int("total_limit", 0, 4)
    top = T.Topology(S.values(), [], secs, links)
    got = M.find_sector_limit_violations(top, dd, tot)
    for k in (0, 1):
        act = xs[k].status_type in T.ACTIVE
        up = [s for s, q, ls in used[k] if ls in T.ACTIVE]
        d = sum(typ[s] != T.CN for s in up)
        bad = c.OR(d > dd, len(up) > tot) if act else False
        there = xs[k].sector_id in got
        c.check(bad if there else c.NOT(bad), "sectors over the limits are exactly those reported, counting active links only")
        if there:
            v = got[xs[k].sector_id]
            c.check(len(set(v)) == len(v) and set(v) == {q.sector_id for s, q, ls in used[k] if q.status_type in T.ACTIVE}, "the active peer sectors of an offending sector are listed")
    for s, q, ls in used[0] + used[1]:
        if q.sector_id in got:
            c.check(typ[s] == T.DN and c.OR(dd < 1, tot < 1), "CN sectors are never reported, single-link sectors only for limits below one")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    n = 4 if BIG else 3
    out = [Case("shared", shared)]
    for act in (True, False):
        out.append(Case(f"angles/{'active' if act else 'all'}", lambda c, act=act: angles(c, 3, act)))
        if BIG:
            out.append(Case(f"angles4/{'active' if act else 'all'}", lambda c, act=act: angles(c, 4, act)))
    out.append(Case("limits/2", lambda c: limits(c, 2)))
    out.append(Case("limits/3", lambda c: limits(c, 3)))
    return out
