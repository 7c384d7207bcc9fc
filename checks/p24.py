"""The candidate graph holds exactly the valid links."""
import itertools
import multiprocessing
import sys
from contextlib import ExitStack, contextmanager
from unittest import mock

from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import SymNum, hnum, swapped

META = {
    "functions": ["core.generate_candidate_topology, compute_los, build_candidate_topology", "helper.get_los_topology, compute_los_batch, get_exclusion_zones, "
                  "pick_best_sites_per_building, select_additional_dns, get_site_connectable_status, construct_topology_from_los_result",
                  "BaseLOSValidator simple checks", "Topology.add_site/add_link"],
    "bounds": "up to 4 input, base and rooftop sites of any type and status in every combination of line-of-sight outcomes (any confidence), any distances, "
              "elevation angles and limits; up to 3 links validated at any position, one exclusion zone",
    "outside": "more sites; the geometry of single line-of-sight checks (P23), GIS input files and building outlines; rounding at exact zone edges",
    "assumptions": ["worker processes behave like a call in the same process", "distance and elevation angle of a link are symmetric/antisymmetric (P26)",
                    "no line of sight between sites of one building (P23)"],
}


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a):
        return [f(x) for x in it]

    imap = map

    def starmap(self, f, it, *a):
        return [f(*x) for x in it]

    def close(self):
        pass

    join = terminate = close


@contextmanager
def in_process(batch=None):
    import terragraph_planner.los.core  # noqa: F401
    with ExitStack() as st:
        real = multiprocessing.Pool
        st.enter_context(mock.patch.object(multiprocessing, "Pool", Pool))
        for n, m in list(sys.modules.items()):
            if not n.startswith("terragraph_planner") or ".test" in n:
                continue
            for k, v in list(vars(m).items()):
                if v is real or v == real and callable(v):
                    st.enter_context(mock.patch.object(m, k, Pool))
                if k == "BATCH_SIZE" and batch:
                    st.enter_context(mock.patch.object(m, k, batch))
        yield


@contextmanager
def confidence(fn):
    from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
    from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
    with mock.patch.object(CylindricalLOSValidator, "compute_confidence", lambda self, a, b: fn(a, b)), \
            mock.patch.object(EllipsoidalLOSValidator, "compute_confidence", lambda self, a, b: fn(a, b)):
        yield


def put(s, x, y, z, epsg=32631):
    """moves a site to a symbolic position"""
    x, y, z = (hnum(v) if isinstance(v, SymNum) else v for v in (x, y, z))
    s._location = T.GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg, altitude=z)
    return s


def los(sites, cands, zones=(), lo=1, hi=1000, el=25, thr=0.5, ellipsoid=False, radius=1.0, freq=60480.0, surface=None):
    from terragraph_planner.los.core import compute_los
    if any(isinstance(v, SymNum) for s in sites for v in (s.utm_x, s.utm_y)):
        with segments():
            return los_(sites, cands, zones, lo, hi, el, thr, ellipsoid, radius, freq, surface)
    return los_(sites, cands, zones, lo, hi, el, thr, ellipsoid, radius, freq, surface)


@contextmanager
def segments():
    """stand-ins for shapely, which takes plain numbers only"""
    import shapely.geometry
    import shapely.prepared
    with ExitStack() as st:
        for n, m in list(sys.modules.items()):
            if n.startswith("terragraph_planner") and ".test" not in n:
                for k, v in list(vars(m).items()):
                    if v is shapely.geometry.LineString:
                        st.enter_context(mock.patch.object(m, k, Line))
                    elif v is shapely.prepared.prep and ".los." in n and not n.endswith("helper") and "building" not in n:
                        st.enter_context(mock.patch.object(m, k, Zone))
        yield


def los_(sites, cands, zones, lo, hi, el, thr, ellipsoid, radius, freq, surface):
    from terragraph_planner.los.core import compute_los
    return compute_los(sites=list(sites), candidate_links=cands, surface_elevation=surface, exclusion_zones=list(zones), max_los_distance=hi,
                       min_los_distance=lo, max_el_scan_angle=el, los_confidence_threshold=thr, use_ellipsoidal_los_model=ellipsoid,
                       fresnel_radius=radius, carrier_frequency=freq, num_processors=1)


def reuse(c, n, batch):
    """each candidate gets the confidence of its own two sites"""
    from terragraph_planner.common.configuration.enums import LocationType
    from terragraph_planner.common.structs import CandidateLOS
    S, A = [], []
    for i in range(n):
        x, z = c.int(f"x{i}", 0, 3), c.int(f"alt{i}", 0, 1) if i != 1 else 0
        lt = c.choice(f"type{i}", [LocationType.ROOFTOP, LocationType.STREET_LEVEL]) if i < 2 else LocationType.ROOFTOP
        b = c.int(f"building{i}", -1, 1) if lt == LocationType.ROOFTOP else None
        S.append(T.site(f"S{i}", T.DN, 100.0 * i, 0.0, loc_type=lt, building_id=None if b is None else i))
        put(S[-1], hnum(x), 0.0, hnum(z))
        S[-1]._building_id = None if b is None else hnum(b)
        A.append((x, z, lt.value, b))
    seen = []

    def same(a, b):
        return a[2] == b[2] and (a[3] is None) == (b[3] is None) and bool(c.AND(a[0] == b[0], a[1] == b[1], True if a[3] is None else a[3] == b[3]))

    def conf(a, b):
        for p, q, v in seen:
            if same(a, p) and same(b, q) or same(a, q) and same(b, p):
                return v
        seen.append((a, b, c.real(f"confidence{len(seen)}", 0, 1)))
        return seen[-1][2]

    key = lambda s: (s.utm_x, s.altitude, s.location_type, s.building_id)  # noqa
    cand = []
    for i, j in itertools.combinations(range(n), 2):
        k = c.choice(f"direction{i}{j}", ["both", "forth", "back"]) if i == 0 else "both"
        cand.append((j, i, False) if k == "back" else (i, j, k == "both"))
    with in_process(batch), confidence(lambda a, b: conf(key(a), key(b))):
        got = los(S, [CandidateLOS(*x) for x in cand])
    want = []
    for i, j, both in cand:
        v = conf(A[i], A[j])
        want += [(i, j, v)] + ([(j, i, v)] if both else [])
    for i, j, v in want:
        g = [x for x in got if (x[0], x[1]) == (i, j)]
        c.check(len(g) <= 1, "each link reported at most once")
        c.check(v > 0 if g else v <= 0, "reported exactly with positive confidence")
        if g:
            c.eq(g[0][2], v, "confidence of the link")
    c.check(all(any((i, j) == (x[0], x[1]) for i, j, _ in want) for x in got), "nothing but candidates")
    c.reach("end")


def limits(c, alts, ellipsoid):
    """without surface data, exactly the links within the limits have line of sight"""
    import math
    from terragraph_planner.common.structs import CandidateLOS
    x = c.real("x", -3000, 3000)
    y = c.choice("y", [0.0, 40.0])
    z = [c.real(f"alt{i}", 0, 300) if a else None for i, a in enumerate(alts)]
    S = [put(T.site("S0", T.DN, 0.0, 0.0), 0.0, 0.0, z[0]), put(T.site("S1", T.CN, 1.0, 0.0), x, y, z[1])]
    lo, hi = c.int("min", 5, 300), c.int("max", 6, 1000)
    c.assume(lo < hi)
    el = c.real("maxel", 0, 90)
    c.assume(c.OR(x != 0, y != 0))
    with in_process():
        got = los(S, [CandidateLOS(0, 1, False)], lo=lo, hi=hi, el=el, ellipsoid=ellipsoid)
    d2 = x * x + y * y
    dz = 0
    if all(alts):
        dz = z[0] - z[1]
        d2 = d2 + dz * dz
    d = math.sqrt(d2)
    if got:
        c.check(len(got) == 1 and got[0][:2] == (0, 1), "one direction")
        c.eq(got[0][2], 1, "full confidence without obstructions")
        c.check(c.AND(d >= lo * 0.97, d <= hi * 1.03), "links far outside of the distance range are rejected")
        if all(alts):
            c.check(c.OR(el >= 87, math.degrees(math.asin(abs(dz) / d)) <= el + 3), "links far beyond the elevation limit are rejected")
    else:
        ok = [d < lo, d > hi]
        if all(alts):
            ok.append(math.degrees(math.asin(abs(dz) / d)) > el)
        c.check(c.OR(*ok), "links within the limits are kept")
    c.reach("end")


class Line:
    def __init__(self, coords):
        self.p = [tuple(p)[:2] for p in (coords.coords if hasattr(coords, "coords") else coords)]

    def intersects(self, o):
        return (o if isinstance(o, Zone) else Zone(o)).intersects(self)


class Zone:
    """convex polygon against a segment, by separating axes"""
    ctx = None

    def __init__(self, poly):
        self.context = poly
        self.v = list(poly.exterior.coords)[:-1]

    def intersects(self, line, margin=0):
        c, (p, q), v = Zone.ctx, line.p, self.v
        out = []
        for i in range(len(v)):
            a, b = v[i - 1], v[i]
            n = (b[1] - a[1], a[0] - b[0])
            r = (n[0] ** 2 + n[1] ** 2) ** 0.5
            n = (n[0] / r, n[1] / r)
            pr = [n[0] * w[0] + n[1] * w[1] for w in v]
            e = [n[0] * w[0] + n[1] * w[1] for w in (p, q)]
            out.append(c.AND(e[0] > max(pr) - margin, e[1] > max(pr) - margin))
            out.append(c.AND(e[0] < min(pr) + margin, e[1] < min(pr) + margin))
        side = [(q[0] - p[0]) * (w[1] - p[1]) - (q[1] - p[1]) * (w[0] - p[0]) for w in v]
        m = margin * (abs(q[0] - p[0]) + abs(q[1] - p[1]))
        out.append(c.AND(*[s > -m for s in side] if margin else [s > 0 for s in side]))
        out.append(c.AND(*[s < m for s in side] if margin else [s < 0 for s in side]))
        return c.NOT(c.OR(*out))

    crosses = intersects

    def disjoint(self, line):
        return Zone.ctx.NOT(self.intersects(line))


def zones(c, shape):
    """links crossing a zone are excluded, wherever the zone lies"""
    from pyproj import Transformer
    from shapely.geometry import Polygon
    from terragraph_planner.common.data_io import kml_library
    from terragraph_planner.common.structs import CandidateLOS
    from terragraph_planner.los.helper import get_exclusion_zones
    lat, lon, epsg, south = {"north": (51.5, 2.9, 32631, False), "south": (-33.2, 18.5, 32734, True), "triangle": (10.0, -70.0, 32619, False)}[shape]
    d = 0.0005
    ring = [(lon - d, lat - d), (lon + d, lat - d), (lon + d, lat + d), (lon - d, lat + d)]
    if shape == "triangle":
        ring = ring[:3]
    zone = Polygon(ring)
    outer = Polygon([(lon - .02, lat - .02), (lon + .02, lat - .02), (lon + .02, lat + .02), (lon - .02, lat + .02)])
    partly = Polygon([(lon + .019, lat), (lon + .03, lat), (lon + .03, lat + .01), (lon + .019, lat + .01)])
    tr = Transformer.from_crs(4326, epsg, always_xy=True)
    utm = Polygon([tr.transform(*p) for p in ring])
    cx, cy = utm.centroid.x, utm.centroid.y
    x0, x1 = c.real("x0", -400, 400), c.real("x1", -400, 400)
    y0, y1 = c.choice("y0", [-200, 30]), c.choice("y1", [10, 300, -200])
    c.assume(c.OR(abs(x0 - x1) > 10, abs(y0 - y1) > 10))
    S = [put(T.site("S0", T.DN, 0.0, 0.0), cx + x0, cy + y0, None, epsg), put(T.site("S1", T.CN, 1.0, 0.0), cx + x1, cy + y1, None, epsg)]
    with ExitStack() as st:
        st.enter_context(swapped((kml_library.extract_polygons, lambda f: [zone, partly])))
        st.enter_context(in_process())
        Z = get_exclusion_zones("sites.kml", outer)
        c.check(len(Z) == 1, "zones that are not in the area do not count")
        c.check(len(get_exclusion_zones("sites.csv", outer)) + len(get_exclusion_zones(None, outer)) == 0, "only KML files have zones")
        st.enter_context(segments())
        Zone.ctx = c
        got = los(S, [CandidateLOS(0, 1, False)], zones=Z, lo=1, hi=2000)
        none = los(S, [CandidateLOS(0, 1, False)], lo=1, hi=2000)
    c.check(len(none) == 1, "without zones there is line of sight")
    line = Line([(cx + x0, cy + y0), (cx + x1, cy + y1)])
    if got:
        c.check(c.NOT(Zone(utm).intersects(line, margin=0.01)), "no line of sight through an exclusion zone")
    else:
        c.check(Zone(utm).intersects(line, margin=-0.01), "links that stay clear of the zones are kept")
    c.reach("end")


# ---------------------------------------------------------------- whole candidate graph

SKU = {T.POP: ["DN_A", "DN_B"], T.DN: ["DN_A", "DN_B"], T.CN: ["CN_A"]}


def devices(c, n):
    dns = [T.dn_device("DN_A"), T.dn_device("DN_B")][:n]
    return dns + [T.cn_device("CN_A")]


@contextmanager
def world(c, inputs, base, conf, dist, el, maxdist, roof):
    """generate_candidate_topology with everything around it replaced"""
    from shapely.geometry import Polygon
    from terragraph_planner.common.data_io import kml_library, topology_serializer, utils as dutils
    from terragraph_planner.common.data_io.input_sites import InputSites
    from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
    from terragraph_planner.common.topology_models.link import Link
    from terragraph_planner.los import core, helper
    poly = Polygon([(2.9, 51.4), (3.1, 51.4), (3.1, 51.6), (2.9, 51.6)])

    class Group:
        def detect_site_candidates(self, *a, **k):
            return list(roof)

    def read(self, *a, **k):
        r = InputSites()
        for s in inputs:
            r.add_site(s)
        return r
    place = lambda s: (s.utm_x, s.utm_y)  # noqa
    with ExitStack() as st:
        st.enter_context(in_process())
        st.enter_context(confidence(lambda a, b: conf(place(a), place(b))))
        st.enter_context(mock.patch.object(InputSitesLoader, "read_user_input", read))
        st.enter_context(mock.patch.object(Link, "distance", property(lambda l: dist(place(l.tx_site), place(l.rx_site)))))
        st.enter_context(mock.patch.object(Link, "el_dev", property(lambda l: el(place(l.tx_site), place(l.rx_site)))))
        st.enter_context(swapped(
            (core.load_gis_data, lambda g: (poly, None, None, Group() if roof is not None else None)),
            (helper.get_max_los_dist_for_device_pairs, lambda *a: dict(maxdist)),
            (dutils.extract_topology_from_file, lambda *a: base),
            (kml_library.extract_polygons, lambda f: []),
            (topology_serializer.dump_topology_to_kml, lambda *a: None)))
        yield


def generate(devs, base, roof, lo, maxel, dn_deployment=False):
    from terragraph_planner.common.configuration.configs import GISDataParams, LOSParams, SiteDetectionParams
    from terragraph_planner.los.core import generate_candidate_topology
    with mock.patch("os.path.isfile", lambda *a: True), mock.patch("os.path.exists", lambda *a: True):
        gis = GISDataParams("/x/b.kml", building_outline_file_path="/x/o.kml" if roof is not None else None, dsm_file_paths=[],
                            site_file_path="/x/s.csv", base_topology_file_path="/x/base.kml" if base is not None else None)
    p = LOSParams(devs, num_processors=1, site_detection=SiteDetectionParams(dn_deployment=dn_deployment, detect_corners=True),
                  maximum_los_distance=None)
    p.minimum_los_distance = lo
    p.maximum_elevation_scan_angle = maxel
    return generate_candidate_topology(p, gis)


class Pairs:
    """symbolic attributes of unordered pairs of positions"""
    def __init__(self, c, names, prefix, lo, hi, anti=False):
        self.c, self.names, self.prefix, self.lo, self.hi, self.anti, self.v = c, names, prefix, lo, hi, anti, {}

    def __call__(self, a, b):
        i, j = self.names[a], self.names[b]
        if i == j:  # the same place
            return 0
        k = (min(i, j), max(i, j))
        if k not in self.v:
            self.v[k] = self.c.real(f"{self.prefix}{k[0]}{k[1]}", self.lo, self.hi)
        v = self.v[k]
        return -v if self.anti and (i, j) != k else v


def graph(c, inputs, base, dup=False, nlinks=0, skus=1):
    """input sites and a base topology, no site detection"""
    devs = devices(c, skus)
    by = {d.device_sku: d for d in devs}
    at = lambda i: (500000.0 + 100 * i, 5700000.0)  # noqa

    def mk(i, k, status, sku):
        s = T.Site(k, T.GeoLocation(utm_x=at(i)[0], utm_y=at(i)[1], utm_epsg=32631, altitude=10.0 + i), by[sku], status, T.LocationType.STREET_LEVEL,
                   None, f"N{i}", None)
        return s
    from terragraph_planner.common.configuration.enums import LinkType, StatusType
    n = len(inputs)
    I = [mk(i, k, T.CAN if i else T.EXI, SKU[k][min(i, skus - 1) if k != T.CN else 0]) for i, k in enumerate(inputs)]
    B = []
    for j, k in enumerate(base):
        i = n + j
        if dup and j == 0:  # the same site in the base topology and in the input
            i, k = n - 1, inputs[-1]
            sku = I[-1].device.device_sku
        else:
            sku = SKU[k][0]
        st = c.choice(f"status{j}", [T.CAN, T.EXI, T.UNA, T.UNR] if j == len(base) - 1 else [T.CAN])
        B.append(mk(i, k, st, sku))
    top, old = None, []
    if base:
        top = T.Topology(B, [], [], [])
        pairs = [(a, b) for a in B for b in B if a is not b and a.site_type != T.CN][:nlinks]
        for a, b in pairs:
            l = T.link(a, b, conf=0.25, wireless=len(old) % 2 == 0)
            top.add_link(l)
            old.append(l)
    names = {at(i): i for i in range(n + len(base))}
    conf, dist, el = Pairs(c, names, "confidence", 0, 1), Pairs(c, names, "distance", 0, 2000, ), Pairs(c, names, "elevation", -90, 90, anti=True)
    lo, maxel = c.int("min", 5, 200), c.real("maxel", 0, 90)
    maxd, sk = {}, [d.device_sku for d in devs]
    for a, b in itertools.combinations_with_replacement(sk, 2):
        v = c.int(f"max_{a}_{b}", 6, 1000)
        c.assume(lo < v)
        maxd[(a, b)] = maxd[(b, a)] = v
    before = {id(l): (l.status_type, l.is_wireless, l.confidence_level, l.tx_site.site_id, l.rx_site.site_id) for l in old}
    with world(c, I, top, conf, dist, el, maxd, None):
        res = generate(devs, top, None, lo, maxel)
        allsites = {}
        for s in B + I:
            allsites.setdefault(s.site_id, s)
        c.check(set(res.sites) == set(allsites), "exactly the sites of the input and of the base topology")
        for s in B:
            c.check(res.sites[s.site_id] is s, "sites of the base topology stay as they are")
        new = {s.site_id for s in I}
        P = lambda s: (s.utm_x, s.utm_y)  # noqa
        count = 0
        for t, r in itertools.permutations(allsites.values(), 2):
            l = [x for x in res.links.values() if x.tx_site.site_id == t.site_id and x.rx_site.site_id == r.site_id]
            c.check(len(l) <= 1, "no link is repeated")
            count += len(l)
            kept = [x for x in old if x.tx_site is t and x.rx_site is r]
            if kept:
                c.check(len(l) == 1 and l[0] is kept[0], "links of the base topology stay")
                c.check(before[id(kept[0])] == (kept[0].status_type, kept[0].is_wireless, kept[0].confidence_level, t.site_id, r.site_id),
                        "links of the base topology are not changed")
                continue
            possible = t.site_type != T.CN and not (t.site_type == r.site_type == T.POP) and (t.site_id in new or r.site_id in new)
            if not possible:
                c.check(not l, "no links from CNs, between POPs or within the base topology")
                continue
            d = dist(P(t), P(r))
            ok = c.AND(conf(P(t), P(r)) > 0, d >= lo, d <= maxd[(t.device.device_sku, r.device.device_sku)], abs(el(P(t), P(r))) <= maxel)
            c.check(ok if l else c.NOT(ok), "links are exactly the pairs with line of sight within the limits")
            if l:
                x = l[0]
                c.eq(x.confidence_level, conf(P(t), P(r)), "confidence")
                c.check(x.tx_sector is None and x.rx_sector is None, "no sectors yet")
                c.check(x.link_type == (LinkType.WIRELESS_ACCESS if r.site_type == T.CN else LinkType.WIRELESS_BACKHAUL), "type of the link")
                sts = {t.status_type, r.status_type}
                c.check(x.status_type == (StatusType.UNAVAILABLE if T.UNA in sts else StatusType.UNREACHABLE if T.UNR in sts else StatusType.CANDIDATE),
                        "status of the link")
                c.check(x.tx_site is res.sites[t.site_id] and x.rx_site is res.sites[r.site_id], "links use the sites of the topology")
        c.check(len(res.links) == count, "no other links")
    c.reach("end")


def rooftops(c, users, buildings, deploy, skus=1):
    """selection of rooftop sites"""
    from terragraph_planner.common.topology_models.site import DetectedSite
    devs = devices(c, skus)
    by = {d.device_sku: d for d in devs}
    at = lambda i: (500000.0 + 100 * i, 5700000.0)  # noqa
    loc = lambda i: T.GeoLocation(utm_x=at(i)[0], utm_y=at(i)[1], utm_epsg=32631, altitude=10.0 + i)  # noqa
    n = len(users)
    I = [T.Site(k, loc(i), by[SKU[k][0]], T.CAN, T.LocationType.ROOFTOP, -1, f"N{i}", None) for i, k in enumerate(users)]
    R = [DetectedSite(T.DN, loc(n + j), b) for j, b in enumerate(buildings)]
    where = lambda s: (round(s.longitude, 7), round(s.latitude, 7))  # noqa
    allsites = I + R
    idx = {where(s): i for i, s in enumerate(allsites)}
    m = len(allsites)
    bld = [None] * n + list(buildings)
    S = {}
    for i, j in itertools.combinations(range(m), 2):
        both = [allsites[i].site_type, allsites[j].site_type]
        if both in ([T.POP, T.POP], [T.CN, T.CN]) or bld[i] is not None and bld[i] == bld[j]:
            S[i, j] = 0.0
        else:
            S[i, j] = c.real(f"confidence{i}{j}", 0, 1)
    L = {}

    def see(i, j):
        k = (min(i, j), max(i, j))
        if i != j and k not in L:
            L[k] = bool(S[k] > 0)
        return i != j and L[k]
    names = {at(i): i for i in range(m)}

    def conf(a, b):
        i, j = names[a], names[b]
        return S[min(i, j), max(i, j)]
    maxd = {(a, b): 10000 for a in by for b in by}
    with world(c, I, None, conf, lambda a, b: 100.0, lambda a, b: 0.0, maxd, R):
        res = generate(devs, None, R, 50, 25.0, deploy)
    sends = lambda i: bld[i] is not None or users[i] != T.CN  # noqa
    los_of = lambda i: {j for j in range(m) if see(i, j)}  # noqa
    byplace = {}
    for s in res.sites.values():
        c.check(where(s) in idx, "only sites at known places")
        byplace.setdefault(idx[where(s)], []).append(s)
    ndn, ncn = skus, 1
    for i in range(n):
        c.check([s.site_id for s in byplace.get(i, [])] == [I[i].site_id], "input sites are kept")
    spots = {}
    for b in sorted(set(buildings)):
        on = [n + j for j, x in enumerate(buildings) if x == b]
        cns = [i for i in on if any(s.site_type == T.CN for s in byplace.get(i, []))]
        c.check(len(cns) == 1, "one CN spot on every building")
        if len(cns) != 1:
            continue
        p = spots[b] = cns[0]
        c.check(len([s for s in byplace[p] if s.site_type == T.CN]) == ncn, "one CN site for every CN device")
        for q in on:
            c.check(not los_of(p) < los_of(q), "a better connected spot of the building is preferred")
            if len(set(buildings)) == 1:
                c.check(len(los_of(q)) <= len(los_of(p)), "the best connected spot of the building is picked")
            k = len([s for s in byplace.get(q, []) if s.site_type == T.DN])
            c.check(k in (0, ndn), "one DN site for every DN device")
            if deploy and q == p:
                c.check(k == ndn, "the picked spot gets a DN")
    picked = {n + j for j in range(len(R)) if any(s.site_type == T.DN for s in byplace.get(n + j, []))}
    extra = {q for q in picked if not (deploy and q in spots.values())}
    cn_of = {p: b for b, p in spots.items()}

    def reached(dns):
        """CN spots and user CNs with a path from a POP"""
        conn = {i for i in range(n) if users[i] == T.POP}
        todo, got = list(conn), set()
        while todo:
            i = todo.pop()
            for j in range(m):
                if not see(i, j):
                    continue
                if j in spots.values():
                    got.add(j)
                if j < n and users[j] == T.CN:
                    got.add(j)
                elif (j < n or j in dns) and j not in conn:
                    conn.add(j)
                    todo.append(j)
        return conn, got
    base_dns = picked - extra
    conn0, got0 = reached(base_dns)
    conn1, got1 = reached(picked)
    allcns = set(spots.values()) | {i for i in range(n) if users[i] == T.CN}
    for q in extra:
        c.check(q in conn1, "additional DNs are connectable to a POP")
        c.check(any(see(q, x) for x in allcns - got0), "additional DNs cover a CN that has no connection yet")
    for x in allcns - got1:
        for q in range(n, m):
            c.check(not (q not in picked and see(q, x) and any(see(i, q) for i in conn1)), "CNs that one more DN can connect are connected")
    # links: line of sight between the sites of the topology
    for t, r in itertools.permutations(res.sites.values(), 2):
        i, j = idx[where(t)], idx[where(r)]
        l = [x for x in res.links.values() if x.tx_site.site_id == t.site_id and x.rx_site.site_id == r.site_id]
        want = t.site_type != T.CN and i != j and see(i, j) and not t.site_type == r.site_type == T.POP
        c.check(len(l) == int(want), "links between the sites of the topology are the lines of sight")
        if l and want:
            c.eq(l[0].confidence_level, S[min(i, j), max(i, j)], "confidence")
            c.check(l[0].status_type == T.CAN, "candidates")
    c.reach("end")


def cases(tier):
    big = tier == "thorough"
    P, D, N = T.POP, T.DN, T.CN
    out = []
    for n, b in [(2, 1), (3, 2)] + ([(3, 10)] if big else []):
        out.append(Case(f"reuse/{n} sites/batches of {b}", lambda c, n=n, b=b: reuse(c, n, b), max_paths=60000, timeout_ms=20000))
    for a in [(1, 1), (0, 1), (0, 0)]:
        for e in (0, 1):
            out.append(Case(f"limits/altitudes {a[0] + a[1]}/{'ellipsoid' if e else 'cylinder'}", lambda c, a=a, e=e: limits(c, a, bool(e)), timeout_ms=30000))
    for s in ("north", "south", "triangle"):
        out.append(Case(f"zones/{s}", lambda c, s=s: zones(c, s), timeout_ms=30000))
    for inputs, base, kw in [([P, D], [], {}), ([D, N], [], {}), ([P, P], [], {}), ([N, N], [], {}), ([P, D, N], [], dict(skus=2)), ([D, D], [], dict(skus=2)),
                             ([D], [P], {}), ([N], [D], {}), ([D], [D, N], dict(nlinks=2)), ([D], [P], dict(dup=True)), ([D], [D, P], dict(dup=True, nlinks=1)),
                             ([P, N], [D], {}), ([D], [D, P], dict(dup=True, nlinks=2))] + ([([P, D, D, N], [], {}), ([D, N], [D, P], dict(nlinks=2)),
                             ([P, D], [D, D], dict(dup=True, nlinks=1))] if big else []):
        nm = "-".join(k.name for k in inputs) + ("+" + "-".join(k.name for k in base) if base else "") + "".join(f"/{k}={v}" for k, v in kw.items())
        out.append(Case(f"graph/{nm}", lambda c, i=inputs, b=base, kw=kw: graph(c, i, b, **kw), max_paths=40000, timeout_ms=20000))
    for users, b, dep, sk in [([P], [0], False, 1), ([P], [0, 0], False, 1), ([P], [0, 1], False, 1), ([P], [0, 1, 1], False, 1), ([P], [0, 1, 1], True, 1), ([P], [0, 1, 2], False, 1),
                              ([P, D], [0, 0], False, 2), ([P, N], [0, 0], False, 1), ([P, N], [4, 7], True, 2), ([], [0, 1], False, 1)] + \
            ([([P, D], [0, 1, 1], False, 1), ([P], [0, 0, 1, 1], False, 1), ([P], [0, 1, 2, 2], False, 1), ([P, N], [0, 1, 1], False, 1)] if big else []):
        out.append(Case(f"rooftops/{'-'.join(k.name for k in users)}/buildings {b}/{'dn' if dep else 'cn'}/{sk}",
                        lambda c, u=users, b=b, d=dep, s=sk: rooftops(c, u, b, d, s), max_paths=60000))
    return out
