"""Statuses of sites, sectors and links; lookups of a topology after additions and removals."""
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["Site/Sector/Link.__init__ and status_type setters", "Link._check_compatible_status", "Sector._check_compatible_status_type",
                  "Topology.add_*/remove_*", "Topology lookups", "Link.link_type/link_channel", "utils.deterministic_hash"],
    "bounds": "one link or sector under every combination of old and new statuses of its sites and itself, in sequences construct / site change / "
              "status change; topologies of 4 sites, 5 sectors and 6 links (each possibly absent at first) under every sequence of 2 operations "
              "(thorough: 3) out of 22",
    "outside": "longer histories; assigning a component the status it already has; re-adding a link or demand point that is present; hash collisions",
    "assumptions": [],
}

BIG = False


def refused(f):
    from terragraph_planner.common.exceptions import PlannerException
    try:
        return f(), False
    except PlannerException:
        return None, True


def link_ok(a, b, l):
    if l == T.EXI and (a != T.EXI or b != T.EXI):
        return False
    if T.UNA in (a, b):
        return l == T.UNA
    if T.UNR in (a, b):
        return l in (T.UNR, T.UNA)
    return not (T.CAN in (a, b) and l in T.ACTIVE)


def sector_ok(s, q):
    return q in (T.CAN, T.PRO, T.EXI) if s in T.ACTIVE else q == s


def change(c, x, name, compat=lambda v: True):
    """Assign any status; returns the status afterwards"""
    old, new = x.status_type, c.choice(name, T.ALL5)
    ok = not {old, new} & {T.EXI, T.UNA} and compat(new)
    _, ref = refused(lambda: setattr(x, "status_type", new))
    if old != new:
        c.check(ref == (not ok), "a status change is accepted exactly when it is allowed")
    c.check(x.status_type == (new if not ref else old), "a status change takes effect exactly when it is accepted")


def links(c, sp):
    ty = c.choice("type", (T.DN, T.CN))
    a = T.site("a", T.POP, 0, 0, sp)
    b = T.site("b", ty, 100, 0, c.choice("b", T.ALL5))
    sa, sb = (T.sector(a), T.sector(b)) if c.flag("sectors") else (None, None)
    ls = c.choice("link", T.ALL5)
    w = c.flag("wireless")
    l, ref = refused(lambda: T.Link(a, b, sa, sb, ls, w))
    c.check(ref == (not link_ok(sp, b.status_type, ls)), "a link is accepted exactly when its status agrees with its sites")
    if ty == T.CN:
        c.check(refused(lambda: T.Link(b, a, sb, sa, ls, w))[1], "a CN never transmits")
    c.reach("end")
    if ref:
        return
    c.check(l.status_type == ls, "a link has the status it was given")
    c.check(l.link_type == (T.LinkType.ETHERNET if not w else T.LinkType.WIRELESS_ACCESS if ty == T.CN else T.LinkType.WIRELESS_BACKHAUL), "link type")
    for n, x in (("a2", a), ("b2", b)):
        if c.flag("change_" + n):
            change(c, x, n)
    change(c, l, "link2", lambda v: link_ok(a.status_type, b.status_type, v))


def sectors(c):
    a = T.site("a", T.DN, 0, 0, c.choice("a", T.ALL5))
    qs = c.choice("q", T.ALL5)
    q, ref = refused(lambda: T.Sector(a, 0, 0, 0.0, qs, 0))
    c.check(ref == (not sector_ok(a.status_type, qs)), "a sector is accepted exactly when its status agrees with its site")
    c.reach("end")
    if ref:
        return
    c.check(q.status_type == qs, "a sector has the status it was given")
    change(c, a, "a2")
    change(c, q, "q2", lambda v: sector_ok(a.status_type, v))
    change(c, q, "q3", lambda v: sector_ok(a.status_type, v))


def ends(c):
    a, b, x = (T.site(k, T.DN, 50.0 * i, 0) for i, k in enumerate("abx"))
    sec = {"a": T.sector(a), "b": T.sector(b), "x": T.sector(x), None: None}
    t, r = c.choice("tx", ("a", "b", "x", None)), c.choice("rx", ("a", "b", "x", None))
    l, ref = refused(lambda: T.Link(a, b, sec[t], sec[r], T.CAN))
    c.check(ref == ((t, r) not in (("a", "b"), (None, None))), "the sectors of a link belong to its sites")
    a.status_type = b.status_type = T.PRO
    sec["a"].channel, sec["b"].channel = c.choice("ca", (-1, 0, 1)), c.choice("cb", (-1, 0, 1))
    if not ref:
        l.status_type = c.choice("link", (T.CAN, T.PRO))
        ch, bad = refused(lambda: l.link_channel)
        used = l.status_type == T.PRO and t
        if used and sec["a"].channel != sec["b"].channel:
            c.check(bad, "the two sectors of an active link share a channel")
        else:
            c.check(not bad and ch == (sec["a"].channel if used else -1), "a link's channel is that of its sectors")
    c.reach("end")


def ids(c):
    import copy
    base = dict(sku=c.choice("sku", ("d1", "d2")), pos=c.choice("pos", (0, 1)), alt=c.choice("alt", (None, 0.0, 3.0)), pop=c.flag("pop"))
    other = dict(sku=c.choice("sku'", ("d1", "d2")), pos=c.choice("pos'", (0, 1)), alt=c.choice("alt'", (None, 0.0, 3.0)), pop=c.flag("pop'"))

    def mk(k, name, st, roof):
        return T.Site(T.POP if k["pop"] else T.DN, T.GeoLocation(latitude=10.0 + 0.001 * k["pos"], longitude=20.0, altitude=k["alt"]), T.dn_device(k["sku"]),
                      st, T.LocationType.ROOFTOP if roof else T.LocationType.STREET_LEVEL, 3 if roof else None, name, None)
    s = mk(base, "one", T.CAN, False)
    sid = s.site_id
    t = mk(other, c.choice("name", ("", "one")), c.choice("status", T.ALL5), c.flag("roof"))
    c.check((s.site_id == t.site_id) == (base == other), "a site id depends exactly on type, position and device")
    q = [T.Sector(z, n, p, az, z.status_type, ch) for z in (s, t) for n, p, az, ch in ((0, 0, 0.0, 0), (0, 1, 0.0, 1), (1, 0, 9.0, 2))]
    c.check(len({x.sector_id for x in q}) == (3 if base == other else 6), "a sector id depends exactly on site, node and position")
    c.check(T.Sector(s, 0, 0, 77.0, T.CAN, 5).sector_id == q[0].sector_id, "a sector id does not depend on azimuth or channel")
    d, e = (T.DemandSite(z.location, n, v, [z]) for z, n, v in ((s, 1, 1.0), (t, 2, 3.0)))
    c.check((d.demand_id == e.demand_id) == ((base["pos"], base["alt"]) == (other["pos"], other["alt"])), "a demand id depends exactly on the position")
    if base != other and t.status_type == T.CAN:
        l, r = T.Link(s, t), T.Link(t, s, is_wireless=False, confidence_level=0.5)
        c.check(l.link_id != r.link_id and l.link_id == T.Link.get_link_id_by_site_ids(s.site_id, t.site_id) == T.Link(s, t, is_wireless=False).link_id,
                "a link id depends exactly on its ordered sites")
        s.status_type, s.name, s.polarity = T.PRO, "zzz", T.PolarityType.ODD
        c.check(s.site_id == sid == copy.deepcopy(s).site_id and l.link_id.startswith(sid), "identifiers never change")
    c.reach("end")


class World:
    """The components and the set of those that ought to be in the topology"""

    def __init__(self, c, start):
        self.S = {"P": T.site("P", T.POP, 0, 0), "A": T.site("A", T.DN, 100, 0, T.PRO), "B": T.site("B", T.DN, 100, 0, device=T.dn_device("D2")), "C": T.site("C", T.CN, 200, 0)}
        self.Q = {k: T.sector(self.S[k[0]], int(k[1])) for k in ("P0", "A0", "A1", "B0", "C0")}
        self.A1 = self.Q["A1"]
        self.A1.status_type = T.CAN
        self.L = {}
        for i, j, a, b, w in (("P", "A", "P0", "A0", True), ("A", "P", "A0", "P0", True), ("A", "C", "A1", "C0", True), ("B", "C", None, None, True),
                              ("A", "B", None, None, False), ("B", "P", "B0", "P0", True)):
            self.L[i + j] = T.Link(self.S[i], self.S[j], self.Q.get(a), self.Q.get(b), T.CAN, w)
        self.D = {"d": T.demand("d", [self.S["C"]], 1.0)}
        self.s, self.q, self.l, self.d = set(), set(), set(), set()
        if start != "empty":
            self.s = set(self.S)
            if start == "full":
                self.q, self.l, self.d = set(self.Q), set(self.L), set(self.D)
            else:
                self.q, self.l = {"P0", "A0", "C0"}, {"PA", "AB", "BP"}
        self.t = T.Topology([self.S[k] for k in sorted(self.s)], [self.D[k] for k in self.d], [self.Q[k] for k in sorted(self.q)], [self.L[k] for k in sorted(self.l)])
        self.sec = {k: tuple(q and next(n for n, v in self.Q.items() if v is q) for q in (x.tx_sector, x.rx_sector)) for k, x in self.L.items()}
        self.loose = set()

    OPS = ([("+s", k) for k in "PABC"] + [("-s", k) for k in "PABC"] + [("+q", k) for k in ("P0", "A1")] + [("-q", k) for k in ("P0", "A0", "C0")]
           + [("+l", k) for k in ("PA", "AP", "AC", "AB")] + [("-l", k) for k in ("PA", "AC", "BP")] + [("+d", "d"), ("-d", "d")])

    def apply(self, c, op, k):
        t = self.t
        if op == "+s":
            ok, f = k not in self.s, lambda: t.add_site(self.S[k])
        elif op == "-s":
            ok, f = k in self.s, lambda: t.remove_site(k)
        elif op == "+q":
            ok, f = k not in self.q and k[0] in self.s, lambda: t.add_sector(self.Q[k])
        elif op == "-q":
            ok, f = k in self.q, lambda: t.remove_sector(self.Q[k].sector_id)
        elif op == "+l":
            if k in self.l:
                return
            ok, f = set(k) <= self.s, lambda: t.add_link(self.L[k])
        elif op == "-l":
            ok, f = k in self.l, lambda: t.remove_link(self.L[k].link_id)
        elif op == "+d":
            if k in self.d:
                return
            ok, f = True, lambda: t.add_demand_site(self.D[k])
        else:
            ok, f = k in self.d, lambda: t.remove_demand_site(k)
        _, ref = refused(f)
        c.check(ref == (not ok), "an operation is refused exactly when it is invalid: " + op)
        if not ok:
            return
        if op[1] in "qld":
            (set.add if op[0] == "+" else set.discard)(getattr(self, op[1]), k)
            if op == "-q":
                self.clear(k)
        elif op == "+s":
            self.s.add(k)
        else:
            self.s.discard(k)
            for q in [q for q in self.q if q[0] == k]:
                self.q.discard(q)
            self.l -= {x for x in self.l if k in x}

    def clear(self, q):
        for x in self.l:
            if q in self.sec[x]:
                self.sec[x] = (None, None)

    def verify(self, c):
        t, S, Q, L = self.t, self.S, self.Q, self.L
        ok = c.check
        ok({k: v for k, v in t.sites.items()} == {k: S[k] for k in self.s}, "sites present")
        ok(dict(t.sectors) == {Q[k].sector_id: Q[k] for k in self.q}, "sectors present")
        ok(dict(t.links) == {L[k].link_id: L[k] for k in self.l}, "links present")
        ok(dict(t.demand_sites) == {k: self.D[k] for k in self.d}, "demand points present")
        ok({k: v for k, v in t.site_id_to_sector_ids.items() if v} == {s: {Q[q].sector_id for q in self.q if q[0] == s} for s in {q[0] for q in self.q}},
           "sectors by site")
        for k in self.l:
            ok((L[k].tx_sector, L[k].rx_sector) == tuple(Q.get(q) for q in self.sec[k]), "links refer to their sectors, or to none after one is removed")
        ids = lambda xs: sorted(x.site_id for x in xs)  # noqa
        for s in S:
            if s not in self.s:
                for f in (t.get_successor_sites, t.get_predecessor_sites):
                    ok(refused(lambda: f(S[s]))[1], "neighbours of an absent site are refused")
                ok(refused(lambda: t.get_link_by_site_ids(s, "P"))[1], "links of an absent site are refused")
                continue
            ok(ids(t.get_successor_sites(S[s])) == sorted(k[1] for k in self.l if k[0] == s), "successors")
            ok(ids(t.get_predecessor_sites(S[s])) == sorted(k[0] for k in self.l if k[1] == s), "predecessors")
            ok(ids(t.get_wireless_successor_sites(S[s])) == sorted(k[1] for k in self.l if k[0] == s and L[k].is_wireless), "wireless successors")
            ok(ids(t.get_wireless_predecessor_sites(S[s])) == sorted(k[0] for k in self.l if k[1] == s and L[k].is_wireless), "wireless predecessors")
            for r in self.s:
                ok(t.get_link_by_site_ids(s, r) is (L[s + r] if s + r in self.l else None), "link by sites")
        for k in self.l:
            ok(t.get_reverse_link(L[k]) is (L[k[::-1]] if k[::-1] in self.l else None), "reverse link")
        fwd, rev = {}, {}
        for k in self.l:
            a, b = self.sec[k]
            if a:
                fwd.setdefault(Q[a].sector_id, {})[Q[b].sector_id] = L[k].link_id
                rev.setdefault(Q[b].sector_id, {})[Q[a].sector_id] = L[k].link_id
                if {a, b} <= self.q:
                    ok(t.get_link_by_sector_ids(Q[a].sector_id, Q[b].sector_id) is L[k], "link by sectors")
        ok(t.sector_connectivity == fwd and t.sector_connectivity_reverse == rev, "sector connectivity")
        ok(t.get_link_site_id_pairs() == {tuple(k) for k in self.l}, "link pairs")
        ok(t.get_link_site_id_pairs(link_type_filter={T.LinkType.WIRELESS_ACCESS}) == {tuple(k) for k in self.l if k[1] == "C"}, "link pairs by type")
        ok(t.get_sectorless_links() == {tuple(k) for k in self.l if L[k].is_wireless and self.sec[k] == (None, None)}, "links without sectors")
        ok(t.get_site_ids({T.PRO}) == {"A"} & self.s and t.get_site_ids(None, {T.DN, T.CN}) == self.s - {"P"} and t.get_site_ids() == self.s, "sites by status and type")
        got = t.get_sector_ids({T.CAN})
        want = {}
        for q in self.q:
            if q != "A0":
                want.setdefault(q[0], set()).add(Q[q].sector_id)
        ok(got == want, "sectors by status")
        co = sorted(sorted(v) for v in t.get_colocated_sites().values())
        groups = [sorted(x for x in g if x in self.s) for g in ("AB", "C", "P")]
        ok(co == sorted(g for g in groups if g), "co-located sites")


def history(c, start, first):
    w = World(c, start)
    w.verify(c)
    for n in range(3 if BIG else 2):
        i = first if n == 0 else c.choice(f"op{n}", range(len(World.OPS)))
        w.apply(c, *World.OPS[i])
        w.verify(c)
    w.t.sort()
    w.verify(c)
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case(f"link/{sp.name}", lambda c, sp=sp: links(c, sp)) for sp in T.ALL5]
    out += [Case("sector", sectors), Case("ends", ends), Case("ids", ids)]
    for start in ("empty", "full", "part"):
        for i, o in enumerate(World.OPS):
            out.append(Case(f"history/{start}/{o[0]}{o[1]}", lambda c, s=start, i=i: history(c, s, i)))
    return out
