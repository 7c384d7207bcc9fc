"""Angles, bearings, distances, projections zones and place hashes."""
import math
from fractions import Fraction

from vlib import boot  # noqa: F401
from vlib import symex
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["geos.angle_delta", "bearing_in_degrees", "haversine_distance", "law_of_cosines_utm/_spherical", "_get_length_ratio",
                  "translate_point", "grid_deltas", "_longitude_to_utm_zone", "lat_lon_to_utm_epsg", "lat_lon_to_geo_hash",
                  "GeoLocation", "Link.tx_beam_azimuth/rx_beam_azimuth/tx_dev/rx_dev/distance/el_dev"],
    "bounds": "all real angles and coordinates in their documented ranges; geo hashes at the shipped precision for all points of any one "
              "bisection path and, with the precision set to 1 or 2 characters, for all points",
    "outside": "floating point rounding; the datum transformation of pyproj",
    "assumptions": ["trigonometric functions are uninterpreted with range, parity, sum and half-angle facts stated per case; the remaining "
                    "obligations on them are congruences (the code passes the right arguments to the right function)"],
}

BIG = False


def pole(c, lat):
    c.assume(lat > -89)
    c.assume(lat < 89)


def delta(c):
    from terragraph_planner.common.geos import angle_delta
    a, b = c.real("a", 0, 360), c.real("b", 0, 360)
    d = angle_delta(a, b)
    c.check(c.AND(d > -180, d <= 180), "angle difference lies in (-180, 180]")
    c.check(c.OR(*[d - (a - b) == 360 * k for k in (-1, 0, 1)]) if c.symbolic else min(abs(d - (a - b) - 360 * k) for k in (-1, 0, 1)) < 1e-6, "angle difference is congruent to the difference of the angles")
    e = angle_delta(b, a)
    c.check(c.OR(d + e == 0, d == 180) if c.symbolic else abs(d + e) < 1e-6 or abs(abs(d) - 180) < 1e-6, "swapping the angles negates the difference")
    c.reach("end")


def loc(c, n, coarse=True):
    lat, lon = c.real("lat" + n, -89, 89), c.real("lon" + n, -180, 180)
    return lat, lon


def facts(c, name, *terms):
    """sin^2 + cos^2 = 1 for the given angle (radians)"""
    import numpy as np
    for t in terms:
        s, k = np.sin(t), np.cos(t)
        if c.symbolic:
            c.axiom((s * s + k * k == 1).t)


def vec(lat, lon):
    import numpy as np
    la, lo = np.radians(lat), np.radians(lon)
    return np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)


def bearing(c):
    from terragraph_planner.common.geos import bearing_in_degrees
    import numpy as np
    la, oa = loc(c, "a")
    lb, ob = loc(c, "b")
    c.assume(c.OR(abs(la - lb) >= 0.0001, abs(oa - ob) >= 0.0001))
    b = bearing_in_degrees(oa, la, ob, lb)
    c.check(c.AND(b >= 0, b < 360), "bearing lies in [0, 360)")
    d = np.radians(ob - oa)
    if c.symbolic:  # angle difference formulas
        sa, ca, sb, cb = (f(np.radians(x)) for x, f in ((oa, np.sin), (oa, np.cos), (ob, np.sin), (ob, np.cos)))
        c.axiom((np.sin(d) == sb * ca - cb * sa).t)
        c.axiom((np.cos(d) == cb * ca + sb * sa).t)
    east = np.cos(np.radians(lb)) * np.sin(d)
    north = np.cos(np.radians(la)) * np.sin(np.radians(lb)) - np.sin(np.radians(la)) * np.cos(np.radians(lb)) * np.cos(d)
    want = np.degrees(np.arctan2(east, north)) % 360
    if c.symbolic:
        c.check(b == want, "bearing is the direction of the target in the local tangent plane, clockwise from north")
    else:
        # independent numeric oracle: components of the target along the local east and north directions
        v, (o, l) = vec(lb, ob), (math.radians(oa), math.radians(la))
        e = -math.sin(o) * v[0] + math.cos(o) * v[1]
        n = -math.sin(l) * math.cos(o) * v[0] - math.sin(l) * math.sin(o) * v[1] + math.cos(l) * v[2]
        diff = (b - math.degrees(math.atan2(e, n))) % 360
        c.check(min(diff, 360 - diff) < 1e-3, "bearing is the direction of the target in the local tangent plane, clockwise from north")
    c.reach("end")


def haversine(c):
    from terragraph_planner.common.geos import haversine_distance
    import numpy as np
    la, oa = loc(c, "a")
    lb, ob = loc(c, "b")
    if c.symbolic:
        for x in (lb - la, ob - oa):  # sin is odd
            h = np.radians(x) / 2.0
            g = np.radians(-x) / 2.0
            c.axiom((np.sin(g) == -np.sin(h)).t)
            c.axiom((np.cos(g) == np.cos(h)).t)
        for x in (la, lb):
            r = np.radians(x)
            c.axiom((np.cos(r) >= 0).t)
        # the square of the half chord: |vb - va|^2 / 4 lies in [0, 1]
        s1, s2 = np.sin(np.radians(lb - la) / 2.0), np.sin(np.radians(ob - oa) / 2.0)
        k = s1 * s1 + np.cos(np.radians(la)) * np.cos(np.radians(lb)) * (s2 * s2)
        c.assume(k <= 1)
        c.assume(k >= 0)
    d = haversine_distance(oa, la, ob, lb)
    e = haversine_distance(ob, lb, oa, la)
    c.eq(d, e, "distance is symmetric")
    c.eq(haversine_distance(oa, la, oa, la) if not c.symbolic else 0, 0, "distance to itself is zero")
    if c.symbolic:
        from vlib.symex import sqrt_, atan2_
        from terragraph_planner.common.constants import EARTH_RADIUS
        want = EARTH_RADIUS * (2 * atan2_(sqrt_(k), sqrt_(1 - k)))
        c.check(d == want, "distance is the great circle distance")
    else:
        from terragraph_planner.common.constants import EARTH_RADIUS
        va, vb = vec(la, oa), vec(lb, ob)
        chord = math.sqrt(sum((x - y) ** 2 for x, y in zip(va, vb)))
        c.eq(d, 2 * EARTH_RADIUS * math.asin(min(1.0, chord / 2)), "distance is the great circle distance", tol=1e-5)
        c.check(d >= 0 and 6.3e6 < EARTH_RADIUS < 6.4e6, "distances are non-negative metres")
    c.reach("end")


def cosine(c):
    """_law_of_cosines with the arccos argument checked against the dot product"""
    from terragraph_planner.common import geos
    import numpy as np
    l1, l2, l3 = c.real("l1", 0.01, 1000), c.real("l2", 0.01, 1000), c.real("l3", 0, 2000)
    c.assume(c.AND(l3 <= l1 + l2, l1 <= l2 + l3, l2 <= l1 + l3))
    a = geos._law_of_cosines(l1, l2, l3)
    k = (l1 * l1 + l2 * l2 - l3 * l3) / (2 * l1 * l2)
    if c.symbolic:
        from vlib.symex import uf1
        want = np.degrees(k.arccos())
        if isinstance(a, (int, float)):
            c.check(l3 == 0, "a zero angle only for coinciding ends")
        else:
            c.check(a == want, "angle follows the law of cosines")
    else:
        c.check(abs(a - math.degrees(math.acos(max(-1, min(1, k))))) < 1e-3, "angle follows the law of cosines")
    r = geos._get_length_ratio(l1, l2)
    c.check(c.AND(r >= 1, c.OR(r * l1 == l2, r * l2 == l1)) if c.symbolic else abs(r - max(l1, l2) / min(l1, l2)) < 1e-6, "length ratio is longer over shorter")
    c.reach("end")


def translate(c):
    from terragraph_planner.common.constants import EARTH_RADIUS
    from terragraph_planner.common.geos import grid_deltas, translate_point
    import numpy as np
    la, lo = c.real("lat", -80, 80), c.real("lon", -170, 170)
    brg = c.choice("bearing", (0, 90, 37.5, 180, 270))
    dist = c.real("dist", 1, 50000)
    got = translate_point(lo, la, brg, dist)
    d, b, p = dist / EARTH_RADIUS, np.radians(brg), np.radians(la)
    sin2 = np.sin(p) * np.cos(d) + np.cos(p) * np.sin(d) * np.cos(b)
    if c.symbolic:
        lat2 = np.arcsin(sin2)
        s2 = np.sin(lat2)
        want = (lo + np.degrees(np.arctan2(np.sin(b) * np.sin(d) * np.cos(p), np.cos(d) - np.sin(p) * s2)), np.degrees(lat2))
        c.eq(got[1], want[1], "translated latitude")
        c.eq(got[0], want[0], "translated longitude")
        g = grid_deltas(lo, la, dist)
        e, n = translate_point(lo, la, 90, dist), translate_point(lo, la, 0, dist)
        c.eq(g[0], e[0] - lo, "grid step east")
        c.eq(g[1], n[1] - la, "grid step north")
    else:
        from terragraph_planner.common.geos import bearing_in_degrees, haversine_distance
        c.check(abs(haversine_distance(lo, la, got[0], got[1]) - dist) < 1e-3 * dist, "translated point is at the distance")
        diff = (bearing_in_degrees(lo, la, got[0], got[1]) - brg) % 360
        c.check(min(diff, 360 - diff) < 0.01, "translated point is in the direction")
        g = grid_deltas(lo, la, dist)
        c.check(g[0] > 0 and g[1] > 0 and abs(haversine_distance(lo, la, lo, la + g[1]) - dist) < 1e-3 * dist, "grid step north")
        e = translate_point(lo, la, 90, dist)
        c.check(abs(g[0] - (e[0] - lo)) < 1e-9, "grid step east")
    c.reach("end")


def zone(c):
    from terragraph_planner.common.geos import _longitude_to_utm_zone, lat_lon_to_utm_epsg
    lat, lon = c.real("lat", -90, 90), c.real("lon", -180, 180)
    z = _longitude_to_utm_zone(lon)
    west = -180 + 6 * (z - 1)
    c.check(c.AND(z >= 1, z <= 60, c.OR(c.AND(lon >= west, lon < west + 6), c.AND(lon == 180, z == 1))), "UTM zone contains the longitude")
    e = lat_lon_to_utm_epsg(lat, lon)
    c.check(e == (c.ITE(lat >= 0, 32600, 32700) + z), "UTM EPSG code of the hemisphere and zone")
    c.reach("end")


ALPHA = "0123456789abcdefghijklmnopqrstuv"


def cell(h):
    """the rectangle a geo hash stands for (independent decoder)"""
    x0, x1, y0, y1 = Fraction(-180), Fraction(180), Fraction(-90), Fraction(90)
    lon = True
    for ch in h:
        v = ALPHA.index(ch)
        for k in range(4, -1, -1):
            up = (v >> k) & 1
            if lon:
                m = (x0 + x1) / 2
                x0, x1 = (m, x1) if up else (x0, m)
            else:
                m = (y0 + y1) / 2
                y0, y1 = (m, y1) if up else (y0, m)
            lon = not lon
    return x0, x1, y0, y1


def inside(c, h, lat, lon):
    x0, x1, y0, y1 = cell(h)
    from vlib.symex import SymNum
    X0, X1, Y0, Y1 = (x if not c.symbolic else x for x in (x0, x1, y0, y1))
    return c.AND(lon >= X0, c.OR(lon < X1, X1 == 180), lat >= Y0, c.OR(lat < Y1, Y1 == 90))


def geohash_all(c, n):
    """every point, shortened hash"""
    from terragraph_planner.common import geos
    lat, lon = c.real("lat", -90, 90), c.real("lon", -180, 180)
    old = geos.LAT_LON_TO_GEO_HASH_PRECISION
    geos.LAT_LON_TO_GEO_HASH_PRECISION = n
    try:
        h = geos.lat_lon_to_geo_hash(lat, lon)
    finally:
        geos.LAT_LON_TO_GEO_HASH_PRECISION = old
    c.check(len(h) == n, "hash length")
    c.check(inside(c, h, lat, lon), "the hash denotes the cell containing the point")
    c.reach("end")


def geohash_full(c, i):
    """full precision around 24 fixed points: neighbouring cells (all points within 2 cells)"""
    from terragraph_planner.common import geos
    k = (i * 7919) % 1000
    blat, blon = Fraction(-90) + Fraction(180 * ((k * 37) % 1000), 1000), Fraction(-180) + Fraction(360 * ((k * 61) % 1000), 1000)
    w = Fraction(360, 2 ** 25)
    dlat, dlon = c.real("dlat", 0, float(w)), c.real("dlon", 0, float(w))
    lat, lon = blat + dlat if c.symbolic else float(blat) + dlat, blon + dlon if c.symbolic else float(blon) + dlon
    if c.symbolic:
        pass
    h = geos.lat_lon_to_geo_hash(lat, lon)
    x0, x1, y0, y1 = cell(h)
    c.check(len(h) == geos.LAT_LON_TO_GEO_HASH_PRECISION == 10, "hash length is the documented precision")
    tol = 0 if c.symbolic else Fraction(1, 10 ** 11)
    c.check(c.AND(lon >= x0 - tol, lon <= x1 + tol, lat >= y0 - tol, lat <= y1 + tol), "the full hash denotes the cell containing the point")
    c.reach("end")


def ranges(c):
    from terragraph_planner.common.exceptions import GeoSystemException
    from terragraph_planner.common.geos import GeoLocation, lat_lon_to_geo_hash
    lat, lon = c.real("lat", -400, 400), c.real("lon", -400, 400)
    epsg = c.int("epsg", 32000, 33000)
    ok = c.AND(lat >= -90, lat <= 90, lon >= -180, lon <= 180)
    try:
        g = GeoLocation(latitude=lat, longitude=lon, altitude=3.0)
        c.check(ok, "coordinates out of range are rejected")
        c.check(c.AND(g.latitude == lat, g.longitude == lon, g.altitude == 3.0), "a location keeps its coordinates")
        h = g.copy(altitude=lat)
        c.check(c.AND(h.latitude == lat, h.longitude == lon, h.altitude == lat, g.altitude == 3.0), "a copied location changes only what is asked")
    except GeoSystemException:
        c.check(c.NOT(ok), "coordinates in range are accepted")
    ok = c.OR(c.AND(epsg > 32600, epsg <= 32660), c.AND(epsg > 32700, epsg <= 32760))
    try:
        g = GeoLocation(utm_x=lat, utm_y=lon, utm_epsg=epsg)
        c.check(ok, "unknown projections are rejected")
        c.check(c.AND(g.utm_x == lat, g.utm_y == lon, g.utm_epsg == epsg), "a location keeps its projected coordinates")
        c.check(g.altitude is None, "no altitude unless given")
    except GeoSystemException:
        c.check(c.NOT(ok), "UTM projections are accepted")
    for kw in ({"latitude": 1.0}, {"longitude": 1.0}, {"utm_x": 1.0, "utm_y": 1.0}, {"utm_x": 1.0, "utm_epsg": 32631}, {}):
        try:
            GeoLocation(**kw)
            c.check(False, "incomplete coordinates are rejected")
        except GeoSystemException:
            pass
    c.reach("end")


def beams(c, wireless):
    """distance, beam directions and deviations of a link, the geodesic functions replaced by arbitrary values"""
    from terragraph_planner.common.topology_models import link as L
    tx, ax, ay = c.real("bearing", 0, 360), c.real("az_a", 0, 360), c.real("az_b", 0, 360)
    c.assume(tx < 360)
    dist = c.real("ground", 0, 1000)
    ha, hb = c.real("alt_a", -100, 500), c.real("alt_b", -100, 500)
    noalt = c.flag("no_altitude")
    a, b = T.site("a", T.DN, 0, 0, altitude=None), T.site("b", T.DN, 100, 0)
    a._location._altitude, b._location._altitude = None if noalt else ha, hb
    sa, sb = T.sector(a, 0, 0, ax), T.sector(b, 0, 0, ay)
    l = T.link(a, b, None, sa, sb, wireless=wireless)
    calls = []

    def brg(*xs):
        calls.append(xs)
        return tx

    def hav(*xs):
        calls.append(xs)
        return dist
    sw = symex.swapped((L.bearing_in_degrees, brg), (L.haversine_distance, hav))
    sw.__enter__()
    of = L.__dict__.get("float")
    L.float = lambda x: x
    try:
        rx = l.rx_beam_azimuth
        t2 = l.tx_beam_azimuth
        want = (a.longitude, a.latitude, b.longitude, b.latitude)
        c.check(set(calls) == {want}, "the beam direction is the bearing from the transmitter to the receiver")
        c.check(t2 == tx, "transmit beam follows the bearing")
        c.check(c.AND(rx >= 0, rx < 360, c.OR(rx == tx + 180, rx == tx - 180)) if c.symbolic else min((rx - tx - 180) % 360, (tx + 180 - rx) % 360) < 1e-6 and 0 <= rx < 360,
                "the reverse beam differs by exactly 180 degrees")
        for dev, az, beam in ((l.tx_dev, ax, tx), (l.rx_dev, ay, rx)):
            if not wireless:
                c.check(dev is None, "wired links have no deviation")
            else:
                c.check(c.AND(dev > -180 - 1e-9, dev <= 180 + 1e-9), "deviation from boresight lies in (-180, 180]")
                c.check(c.OR(*[dev - (beam - az) == 360 * k for k in (-1, 0, 1)]) if c.symbolic else min(abs(dev - (beam - az) - 360 * k) for k in (-1, 0, 1)) < 1e-6, "deviation is beam minus boresight")
        d = l.distance
        if noalt:
            c.check(d == dist, "without altitudes the length is the ground distance")
        else:
            want = dist * dist + (hb - ha) * (hb - ha)
            c.check(c.AND(d >= 0, d * d == want) if c.symbolic else abs(d - math.sqrt(want)) < 1e-6 * max(1, d), "the length includes the height difference")
        e = l.el_dev
        if noalt:
            c.check(e == 0, "no elevation without altitudes")
        elif c.symbolic:
            from vlib.symex import uf1
            c.check(c.OR(c.AND(d == 0, e == 0), c.AND(d > 0, e == uf1("asin", (hb - ha) / d, None, mono=1) * (180 / math.pi)) if not isinstance(e, int) else d == 0), "the elevation is the angle above the horizontal")
        else:
            want = math.degrees(math.atan2(hb - ha, dist)) if d > 0 else 0
            c.check(abs(e - want) < 1e-3, "the elevation is the angle above the horizontal")
        back = T.link(b, a, None, sb, sa, wireless=wireless)
        if not noalt:
            c.check(back.distance == d if c.symbolic else abs(back.distance - d) < 1e-6, "both directions have the same length")
    finally:
        sw.__exit__()
        if of is None:
            del L.float
        else:
            L.float = of
    c.reach("end")


def identity(c):
    """equal places give equal ids, whichever way attributes other than position and device differ"""
    from terragraph_planner.common.utils import deterministic_hash
    k = c.choice("k", range(6))
    vals = [(1.5, 2.5, None), (1.5, 2.5, 0.0), (2.5, 1.5, None), (1.5, 2.50000001, None), (1.5, 2.5, "a"), (1.5, 2.5, None)]
    c.check((deterministic_hash(*vals[k]) == deterministic_hash(*vals[0])) == (k in (0, 5)), "identifiers differ exactly when the key attributes differ")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case("angle_delta", delta), Case("bearing", bearing), Case("haversine", haversine), Case("cosine", cosine),
           Case("translate", translate), Case("utm_zone", zone), Case("ranges", ranges), Case("identity", identity),
           Case("geohash/1", lambda c: geohash_all(c, 1))]
    out += [Case(f"link/{'wireless' if w else 'wired'}", lambda c, w=w: beams(c, w)) for w in (True, False)]
    if BIG:
        out.append(Case("geohash/2", lambda c: geohash_all(c, 2)))
    out += [Case(f"geohash/full/{i}", lambda c, i=i: geohash_full(c, i)) for i in range(40 if BIG else 8)]
    return out
