"""Demand models: which demand points exist and what they attach to."""
import itertools

from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import SymNum, hnum, swapped

META = {
    "functions": ["topology_demand.add_demand_to_topology, _add_cn_demand_sites, _add_uniform_demand_sites, _add_dn_sites_to_cn_connected_demand, "
                  "_handle_hybrid_locations, _handle_rooftop_connections, connect_demand_to_colocated_sites", "geos.grid_deltas", "Topology.get_colocated_sites"],
    "bounds": "up to 3 sites and 2 manual demand points at any position, any spacing and radius, grids of up to 6x6 points (anywhere, also across or "
              "next to the antimeridian), any building ids and location types, every combination of the demand models",
    "outside": "larger grids (the loop is unrolled); spherical geometry, for which stand-ins (a weighted Manhattan metric, constant degrees per meter) are used: "
               "P26 decides those functions; rounding",
    "assumptions": ["places are identified by their coordinates (md5 does not collide)", "rooftop sites have a building id"],
}

BIG = False


class Ids:
    """stands for the md5 of a tuple: equal exactly for equal tuples"""
    def __init__(self):
        self.seen = []

    def __call__(self, *args):
        for a, i in self.seen:
            if len(a) == len(args) and all((x is None) == (y is None) and (x is None or bool(x == y)) for x, y in zip(a, args)):
                return i
        self.seen.append((args, f"id{len(self.seen)}"))
        return self.seen[-1][1]


KX, KY = 2.0 ** -15, 2.0 ** -16


def _translate(longitude, latitude, bearing, distance):
    if bearing == 90:
        return longitude + distance * KX, latitude
    if bearing == 0:
        return longitude, latitude + distance * KY
    raise AssertionError(bearing)


def dist(lon1, lat1, lon2, lat2):
    return abs(lat1 - lat2) * 1000 + abs(lon1 - lon2) * 2000


def stand_ins():
    from terragraph_planner.common import geos, utils
    return swapped((utils.deterministic_hash, Ids()), (geos.translate_point, _translate), (geos.haversine_distance, dist))


def place(c, s, n, lat=(-80, 80), lon=(-170, 170), alt=False):
    from terragraph_planner.common.geos import GeoLocation
    la, lo = c.real("lat" + n, *lat), c.real("lon" + n, *lon)
    al = c.real("alt" + n, 0, 100) if alt else None
    l = GeoLocation(latitude=hnum(la), longitude=hnum(lo), altitude=hnum(al))
    if s is not None:
        s._location = l
    return l


def run(c, top, **kw):
    from terragraph_planner.optimization.topology_demand import add_demand_to_topology
    from terragraph_planner.common.exceptions import OptimizerException
    kw.setdefault("enable_cn_demand", False)
    kw.setdefault("demand_spacing", 30.0)
    kw.setdefault("demand_connection_radius", 50.0)
    sym = {k: v for k, v in kw.items() if isinstance(v, SymNum)}
    p = T.params(**{k: 7.0 if k in sym else v for k, v in kw.items()})
    for k, v in sym.items():
        setattr(p, k, v)
    try:
        add_demand_to_topology(top, p)
    except OptimizerException:
        c.check(len(top.demand_sites) == 0, "an error is raised only when no demand was created")
        return False
    c.check(len(top.demand_sites) > 0, "an error is raised when no demand was created")
    return True


def grid(c, where, n=2):
    """the grid of uniform demand"""
    lon = {"inner": [(-170, 170)] * 2, "east edge": [(179, 180)] * 2, "west edge": [(-180, -179)] * 2, "across": [(179, 180), (-180, -179)]}[where][:n]
    S = [T.site(f"S{i}", T.DN, 100 * i, 0) for i in range(n)]
    with stand_ins():
        spacing = c.real("spacing", 1, 20000)
        dx, dy = spacing * KX, spacing * KY
        for i, s in enumerate(S):
            place(c, s, str(i), lon=lon[i])
        x = [s.longitude + (360 if where == "across" and i else 0) for i, s in enumerate(S)]
        y = [s.latitude for s in S]
        m = 4 if BIG else 3
        for a, b in itertools.combinations(range(n), 2):
            c.assume(abs(x[a] - x[b]) <= dx * m)
            c.assume(abs(y[a] - y[b]) <= dy * 3)
        top = T.Topology(S, [], [], [])
        value = c.real("demand", 0, 10, strict_lo=True)
        if not run(c, top, enable_uniform_demand=True, demand_spacing=spacing, demand_connection_radius=1e7, demand=value):
            c.check(False, "there is uniform demand")
        D = list(top.demand_sites.values())
        px, py = c.real("px", -181, 541), c.real("py", -90, 90)
        lo = lambda v: c.ITE(v[0] <= v[1], v[0], v[1]) if n == 2 else v[0]  # noqa
        hi = lambda v: c.ITE(v[0] >= v[1], v[0], v[1]) if n == 2 else v[0]  # noqa
        c.assume(c.AND(px >= lo(x), px <= hi(x), py >= lo(y), py <= hi(y)))
        near, tol = [], 0 if c.symbolic else 1e-9
        for d in D:
            c.eq(d.demand, value, "configured demand")
            c.check(d.num_sites == 1, "one subscriber")
            c.check(c.AND(d.longitude >= -180, d.longitude <= 180), "longitude is normalised")
            c.check({s.site_id for s in d.connected_sites} == {s.site_id for s in S} and len(d.connected_sites) == n, "connected to all sites in the radius")
            fits = []
            for w in (-360, 0, 360):
                u = d.longitude + w
                near.append(c.AND(u >= px - tol, u < px + dx - tol, d.latitude >= py - tol, d.latitude < py + dy - tol))
                fits.append(c.AND(u >= lo(x) - dx - tol, u <= hi(x) + dx + tol))
            c.check(c.OR(*fits), "no demand further than one spacing from the box in longitude")
            c.check(c.AND(d.latitude >= lo(y) - dy - tol, d.latitude <= hi(y) + dy + tol), "no demand further than one spacing from the box in latitude")
        c.check(sum(c.ITE(b, 1, 0) for b in near) == 1, "every spacing-sized cell that starts in the box has exactly one demand point")
    c.reach("end")


def attach(c, kinds, flags):
    """connection radius, pruning, combination of the models"""
    S = [T.site(f"S{i}", k, 100 * i, 0) for i, k in enumerate(kinds)]
    manual, uniform, cn = flags
    with stand_ins():
        from terragraph_planner.common.topology_models.demand_site import DemandSite
        for i, s in enumerate(S):
            place(c, s, str(i), alt=True)
            if s.site_type == T.CN:
                s._number_of_subscribers = c.int(f"subs{i}", 1, 9)
        M = []
        for i in range(2 if not uniform else 1):
            place_ = place(c, None, f"_m{i}")
            M.append(DemandSite(place_, num_sites=c.int(f"num{i}", 1, 5), demand=c.real(f"old{i}", 0, 5)))
        if len(M) == 2:
            c.assume(c.OR(M[0].latitude != M[1].latitude, M[0].longitude != M[1].longitude))
        # manual points do not coincide with other demand
        nums = [m.num_sites for m in M]
        spacing, radius = c.real("spacing", 1, 100), c.real("radius", 1, 100)
        if uniform or cn:
            for m in M:
                for s in S:
                    c.assume(c.OR(abs(m.latitude - s.latitude) > 1, abs(m.longitude - s.longitude) > 1) if uniform else
                             c.OR(m.latitude != s.latitude, m.longitude != s.longitude))
        top = T.Topology(S, M, [], [])
        before = [[id(s) for s in m.connected_sites] for m in M]
        value = c.real("demand", 0, 10, strict_lo=True)
        ok = run(c, top, enable_manual_demand=manual, enable_uniform_demand=uniform, enable_cn_demand=cn, demand_spacing=spacing,
                 demand_connection_radius=radius, demand=value)
        D = dict(top.demand_sites)
        mine = {m.demand_id: m for m in M}
        if not manual:
            c.check(not any(d is m for d in D.values() for m in M), "no manual demand unless enabled")
        else:
            c.check(all(i in D for i in mine), "every manual demand stays")
            for m, k in zip(M, nums):
                c.eq(m.num_sites, k, "subscribers of manual demand are kept")
        cnpos = [s for s in S if s.site_type == T.CN] if cn else []
        # uniform demand around one site: 3x3
        G = {}
        if uniform:
            s = S[0]
            for i, j in itertools.product((-1, 0, 1), repeat=2):
                at = (s.latitude + spacing * KY * j, s.longitude + spacing * KX * i)
                G[(i, j)] = at
        rest = []
        for i, d in D.items():
            c.eq(d.demand, value, "configured demand")
            got = [s.site_id for s in d.connected_sites]
            c.check(len(set(got)) == len(got), "each site attached once")
            at_cn = [s for s in cnpos if bool(c.AND(d.latitude == s.latitude, d.longitude == s.longitude))]
            if at_cn:
                base = {s.site_id for s in at_cn}
                c.check(d.num_sites in [s._number_of_subscribers for s in at_cn] if not c.symbolic else
                        c.OR(*[d.num_sites == s._number_of_subscribers for s in at_cn]), "CN demand counts the CN's subscribers")
                c.check(d.altitude is None, "demand has no altitude")
            else:
                if not (manual and i in mine):
                    rest.append(d)
                base = None
            for s in S:
                near = dist(s.longitude, s.latitude, d.longitude, d.latitude) <= radius
                extra = [k for k in S if k.site_type == T.CN and s.site_type != T.CN and k is not s]
                same = lambda k: c.AND(k.latitude == s.latitude, k.longitude == s.longitude, k.altitude == s.altitude)  # noqa
                of = lambda k: (k.site_id in base) if base is not None else dist(k.longitude, k.latitude, d.longitude, d.latitude) <= radius  # noqa
                want = c.OR(s.site_id in base if base is not None else near, *[c.AND(of(k), same(k)) for k in extra])
                c.check(want if s.site_id in got else c.NOT(want),
                        "attached to exactly the sites it should be")
        for s in cnpos:
            c.check(c.OR(*[c.AND(d.latitude == s.latitude, d.longitude == s.longitude) for d in D.values()]), "every CN has demand")
        for a, b in itertools.combinations(cnpos, 2):
            c.check(c.OR(c.NOT(c.AND(a.latitude == b.latitude, a.longitude == b.longitude)),
                         sum(c.ITE(c.AND(d.latitude == a.latitude, d.longitude == a.longitude), 1, 0) for d in D.values()) == 1), "one demand per CN position")
        if uniform:
            same = (lambda u, v: u == v) if c.symbolic else (lambda u, v: abs(u - v) < 1e-9)
            for (i, j), (la, lo) in G.items():
                there = c.OR(*[c.AND(same(d.latitude, la), same(d.longitude, lo)) for d in D.values()])
                far = dist(S[0].longitude, S[0].latitude, lo, la) - radius
                if not c.symbolic and abs(far) < 1e-5:
                    continue
                c.check(c.OR(c.NOT(there), far <= 0, (i, j) == (0, 0)), "grid points without a site in the radius are dropped")
                if i < 1 and j < 1:  # the last row and column may fall on either side of the edge
                    c.check(c.OR(there, far > 0, (i, j) == (0, 0)), "grid points with a site in the radius stay")
            for d in rest:
                c.check(c.OR(*[c.AND(same(d.latitude, la), same(d.longitude, lo)) for la, lo in G.values()]), "no other demand")
        elif not uniform:
            c.check(not rest, "no other demand")
        if not ok:
            c.check(not manual and not cnpos, "error only when nothing was created")
    c.reach("end")


def roof(c, kinds, places):
    """rooftop and hybrid companions of CNs"""
    from terragraph_planner.common.configuration.enums import LocationType
    S = []
    for i, k in enumerate(kinds):
        s = T.site(f"S{i}", k, 100 * i, 0)
        S.append(s)
    with stand_ins():
        for i, s in enumerate(S):
            place(c, s, str(i), alt=True)
            s._location_type = c.choice(f"type{i}", [LocationType.ROOFTOP, LocationType.STREET_LEVEL, LocationType.UNKNOWN][:places])
            s._building_id = hnum(c.int(f"building{i}", -2, 5)) if s._location_type == LocationType.ROOFTOP else None
        c.assume(c.AND(*[c.OR(a.latitude != b.latitude, a.longitude != b.longitude, a.altitude != b.altitude)
                         for a, b in itertools.combinations(S, 2) if a.site_type == b.site_type]))
        top = T.Topology(S, [], [], [])
        before = {s.site_id for s in S}
        ok = run(c, top, enable_cn_demand=True, demand=1.0)
        c.check(ok, "CN demand exists")
        c.check(set(top.sites) == before, "sites stay")
        for k in (s for s in S if s.site_type == T.CN):
            for d in top.demand_sites.values():
                if not bool(c.AND(d.latitude == k.latitude, d.longitude == k.longitude)):
                    continue
                got = [s.site_id for s in d.connected_sites]
                c.check(len(set(got)) == len(got), "each site attached once")
                for s in S:
                    peers = [q for q in S if q.site_type == T.CN and bool(c.AND(q.latitude == d.latitude, q.longitude == d.longitude))]
                    if s.site_type == T.CN:
                        c.check((s.site_id in got) == (s in peers), "CN demand belongs to the CNs at its position")
                        continue
                    want = []
                    for q in peers:
                        want.append(c.AND(q.latitude == s.latitude, q.longitude == s.longitude, q.altitude == s.altitude))
                        if q._building_id is not None and s._building_id is not None:
                            want.append(c.AND(q._building_id == s._building_id, q._building_id > -1))
                    want = c.OR(*want)
                    c.check(want if s.site_id in got else c.NOT(want), "DNs at the CN's spot or on its roof serve the same demand")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for w in ("inner", "east edge", "west edge", "across"):
        out.append(Case(f"grid/{w}", lambda c, w=w: grid(c, w), max_paths=4000, timeout_ms=20000))
    for w in ("inner", "east edge", "west edge"):
        out.append(Case(f"grid/one site/{w}", lambda c, w=w: grid(c, w, 1), max_paths=4000))
    D, N, P = T.DN, T.CN, T.POP
    lists = [([N, D], (1, 0, 0)), ([N, D], (1, 0, 1)), ([D, P], (1, 0, 0)), ([N], (1, 1, 1)), ([D], (0, 1, 0)), ([N], (0, 1, 1)), ([N, N], (0, 0, 1)),
             ([D], (0, 0, 1)), ([N, P], (0, 0, 1)), ([N, N], (1, 0, 1))]
    if BIG:
        lists += [([N, D, N], (0, 0, 1)), ([N, D, N], (1, 0, 1)), ([N, D, P], (1, 0, 0))]
    for kinds, f in lists:
        f = tuple(map(bool, f))
        n = "+".join(x for x, y in zip(("manual", "uniform", "cn"), f) if y)
        out.append(Case(f"attach/{n}/{'-'.join(k.name for k in kinds)}", lambda c, k=kinds, f=f: attach(c, k, f), max_paths=6000, timeout_ms=20000))
    for kinds in [[N, D], [N, P], [N, N, D], [N, D, P]]:
        out.append(Case(f"roof/{'-'.join(k.name for k in kinds)}", lambda c, k=kinds: roof(c, k, 3 if BIG or len(kinds) == 2 else 2), max_paths=20000))
    return out
