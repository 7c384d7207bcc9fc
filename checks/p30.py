"""Rooftop site detection."""
import itertools

from vlib import boot  # noqa: F401
from checks.p25 import near, raster
from vlib.runner import Case
from vlib.symex import swapped

META = {
    "functions": ["BuildingGroup.detect_site_candidates", "Building.detect_center, detect_highest, detect_corners", "detect_corners_from_polygon_vertices",
                  "Elevation.get_value, get_value_list_within_bound, get_value_matrix_within_bound", "DetectedSite"],
    "bounds": "outlines of up to 12 vertices out of 8 shapes (concave, sliver, smaller than a cell, beyond the raster, with repeated vertices), rasters of up to 5x5 "
              "cells with any elevations, cells of 0.5 to 4 m, any angle at up to 5 vertices (thorough: 7) and any angle limit, any mounting height, any choice of locations, up to 2 buildings",
    "outside": "reading outlines and cutting them to the area (shapely, GDAL); rasterising outlines (PIL); missing elevations (P25)",
    "assumptions": ["an outline is a valid polygon"],
}
BIG = False
SHAPES = {
    "square": [(1, 1), (3, 1), (3, 3), (1, 3)],
    "diamond": [(2, 0), (4, 2), (2, 4), (0, 2)],
    "concave": [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (3, 3), (3, 4), (0, 4)],
    "sliver": [(0.25, 0.75), (3.75, 0.75), (3.75, 0.875)],
    "tiny": [(2.25, 2.25), (2.75, 2.25), (2.75, 2.75), (2.25, 2.75)],
    "repeated": [(1, 1), (1, 1), (3, 1), (3, 3), (3, 3), (1, 3)],
    "outside": [(3, 3), (7, 3), (7, 7), (3, 7)],
    "triangle": [(0, 0), (4, 0), (1, 3)],
}
HEIGHT, SIDE, SHARP = 2, 1, 30


def inside(pts, x, y):
    """(x, y) is in the polygon or on its outline"""
    odd = False
    for (x1, y1), (x2, y2) in zip(pts, pts[1:] + pts[:1]):
        d = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if d == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return True
        if (y1 > y) != (y2 > y) and (d > 0) == (y2 > y1):
            odd = not odd
    return odd


def surface(c, n, res, left, top, name=""):
    from terragraph_planner.common.structs import UTMBoundingBox
    box = UTMBoundingBox(min_utm_x=left, max_utm_x=left + n * res, min_utm_y=top - n * res, max_utm_y=top)
    e = raster(c, n, n, res, res, name, origin=False, box=box)
    e.left_top_x, e.left_top_y = left, top
    return e


def grid(e):
    return [(e.left_top_x + i * e.x_resolution, e.left_top_y - j * e.y_resolution, i, j) for i in range(e.x_size) for j in range(e.y_size)]


def at(c, e, m, x, y, z):
    """z is an elevation of a grid point nearest to the position"""
    return c.OR(*[c.AND(z == m[j, i], near(c, e, i, j, x, y, 1e-9)) for _, _, i, j in grid(e)])


def is_center(c, pts, e, m, p, label):
    from shapely.geometry import Polygon
    g = Polygon(pts).centroid
    if inside(pts, g.x, g.y):
        c.check(abs(p.x - g.x) < 1e-6 and abs(p.y - g.y) < 1e-6, f"{label}: the centroid")
    else:
        c.check(inside(pts, p.x, p.y), f"{label}: on the roof")
    c.check(at(c, e, m, p.x, p.y, p.z) if e is not None else p.z == 0, f"{label}: elevation there")


def is_highest(c, pts, e, m, p, label):
    cand = [(x, y, i, j) for x, y, i, j in grid(e) if inside(pts, x, y)]
    if beyond(pts, e):
        c.check(inside(pts, p.x, p.y), f"{label}: on the roof")
        return
    if not cand:
        is_center(c, pts, e, m, p, label)
        return
    here = [(x, y, i, j) for x, y, i, j in cand if abs(x - p.x) < 1e-9 and abs(y - p.y) < 1e-9]
    c.check(len(here) == 1, f"{label}: a grid point on the roof")
    for x, y, i, j in here:
        c.eq(p.z, m[j, i], f"{label}: elevation there")
    c.check(c.AND(*[p.z >= m[j, i] for _, _, i, j in cand]), f"{label}: nothing on the roof is higher")


def beyond(pts, e):
    return (max(x for x, _ in pts) > e.left_top_x + (e.x_size - 1) * e.x_resolution or min(y for _, y in pts) < e.left_top_y - (e.y_size - 1) * e.y_resolution
            or min(x for x, _ in pts) < e.left_top_x or max(y for _, y in pts) > e.left_top_y)


def altitude(c, e, m, x, y, z, label):
    """elevation of a roof cell next to the corner, or of the corner itself"""
    win = [(i, j) for X, Y, i, j in grid(e) if abs(X - x) <= SIDE and abs(Y - y) <= SIDE]
    roof, any_ = [], []
    for i, j in win:
        edge = c.OR(*[m[j, i] - m[q, p] > HEIGHT for p, q in win if (p, q) != (i, j) and abs(p - i) <= 1 and abs(q - j) <= 1])
        roof.append(c.AND(edge, z == m[j, i]))
        any_.append(edge)
    c.check(c.OR(c.OR(*roof), c.AND(c.NOT(c.OR(*any_)), at(c, e, m, x, y, z))), label)


def build(pts):
    from shapely.geometry import Polygon
    from terragraph_planner.los.building import Building
    return Building(Polygon(pts))


def highest(c, shape, n, res, left, top):
    pts = SHAPES[shape]
    e = surface(c, n, res, left, top)
    m = e.data_matrix.copy()
    is_highest(c, pts, e, m, build(pts).detect_highest(e), "highest point")
    is_center(c, pts, e, m, build(pts).detect_center(e), "center")
    is_center(c, pts, None, None, build(pts).detect_center(None), "center")
    c.reach("end")


def roof(c, shape, k, n, res, left, top):
    """altitude of one corner: the raster around it"""
    from shapely.geometry import Polygon
    pts = SHAPES[shape]
    e = surface(c, n, res, left, top)
    m = e.data_matrix.copy()
    keep = pts[k]
    import terragraph_planner.los.building as mod

    def one(vertices, limit):
        return [keep]
    with swapped((mod.detect_corners_from_polygon_vertices, one)):
        got = build(pts).detect_corners(e, 90.0)
    c.check(len(got) == 1 and (got[0].x, got[0].y) == keep, "position of the corner")
    altitude(c, e, m, keep[0], keep[1], got[0].z, "altitude of the corner: a cell of the roof next to it, else the elevation there")
    c.check(bool(Polygon(pts).is_valid), "shape")
    c.reach("end")


def angles(c, n):
    import terragraph_planner.los.building as mod
    pts = [(float(i), float(i * i)) for i in range(n)]
    limit = c.real("limit", 0.5, 179.5)
    ang = [c.real(f"angle{i}", 0.01, 180) for i in range(n)]
    seen = []

    def law(x0, y0, x1, y1, x2, y2):
        i, j, k = (pts.index((float(x), float(y))) for x, y in ((x0, y0), (x1, y1), (x2, y2)))
        c.check({(i - 1) % n, (i + 1) % n} == {j, k}, "a corner's angle is between its two walls")
        seen.append(i)
        return ang[i]
    with swapped((mod.law_of_cosines_utm, law)):
        mod_round = getattr(mod, "round", None)
        mod.round = lambda v, d=0: v
        try:
            got = build_raw(pts, limit)
        finally:
            if mod_round is None:
                del mod.round
            else:
                mod.round = mod_round
    c.check(len(set(got)) == len(got), "no corner twice")
    surely = [c.AND(a >= SHARP + 0.01, a <= limit - 0.01) for a in ang]
    maybe = [c.AND(a >= SHARP - 0.01, a <= limit + 0.01) for a in ang]
    if got:
        only_fallback = c.AND(*[c.NOT(s) for s in surely])
        for i, p in enumerate(pts):
            if p in got:
                c.check(c.OR(maybe[i], c.AND(only_fallback, len(got) == 1, i == 0)), "only corners sharper than the limit (and no spikes)")
            else:
                c.check(c.NOT(surely[i]), "every corner sharper than the limit")
    c.check(len(got) > 0, "every building has a corner")
    c.reach("end")


def build_raw(pts, limit):
    class Ring:
        coords = pts + pts[:1]

    class Poly:
        exterior = Ring()
    from terragraph_planner.los.building import Building
    return [(p.x, p.y) for p in Building(Poly()).detect_corners(None, limit)]


def vertices(c, shape):
    """real angles"""
    import math
    pts = SHAPES[shape]
    limit = c.real("limit", 0.5, 179.5) if not c.flag("every vertex") else None
    got = [(p.x, p.y) for p in build(pts).detect_corners(None, limit)]
    ring = [p for p, q in zip(pts, pts[1:] + pts[:1]) if p != q]
    n = len(ring)
    c.check(len(set(got)) == len(got) and set(got) <= set(ring) and len(got) > 0, "corners are vertices")
    if limit is None:
        c.check(set(got) == set(ring), "every vertex is a corner")
    else:
        for i, (x, y) in enumerate(ring):
            (a, b), (p, q) = ring[i - 1], ring[(i + 1) % n]
            d = abs(math.degrees(math.atan2(b - y, a - x) - math.atan2(q - y, p - x)))
            d = min(d, 360 - d)
            if (x, y) in got:
                c.check(c.OR(len(got) == 1 and (x, y) == ring[0], c.AND(d >= SHARP - 0.02, limit >= d - 0.02)), "only corners sharper than the limit (and no spikes)")
            else:
                c.check(c.OR(d < SHARP + 0.02, limit <= d + 0.02), "every corner sharper than the limit")
    c.reach("end")


def candidates(c, shapes, use_surface, res):
    from osgeo import osr
    from shapely.geometry import Polygon
    from terragraph_planner.common.configuration.enums import LocationType, SiteType, StatusType
    from terragraph_planner.common import utils
    from terragraph_planner.common.geos import TransformerLib
    from terragraph_planner.los.building import Building
    from terragraph_planner.los.building_group import BuildingGroup
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32631)
    X, Y = 500000.0, 4000000.0
    polys = [[(X + x + 8 * k, Y + y) for x, y in SHAPES[s]] for k, s in enumerate(shapes)]
    height = c.real("mounting height", 0, 30)
    e = surface(c, 3, res, X + 0.5, Y + 2.5) if use_surface else None
    m = e.data_matrix.copy() if e is not None else None
    corners, center, top = c.flag("corners"), c.flag("center"), c.flag("highest")
    ids = itertools.count()
    with swapped((utils.deterministic_hash, lambda *a: f"id{next(ids)}")):
        got = BuildingGroup([Building(Polygon(p)) for p in polys], sr).detect_site_candidates(e, height, None, corners, center, top)
    back = TransformerLib.get_tranformer(4326, 32631)
    per = {k: [] for k in range(len(polys))}
    for s in got:
        c.check(s.building_id in per, "building of the site")
        if s.building_id not in per:
            continue
        per[s.building_id].append((*back.transform(s.longitude, s.latitude), s.altitude))
        c.check((s.site_type, s.status_type, s.location_type) == (SiteType.DN, StatusType.CANDIDATE, LocationType.ROOFTOP) and s.device is None,
                "detected sites are candidates on the rooftop, without a device yet")
        c.check((s.altitude is None) == (e is None), "sites have an altitude if there is elevation data")
    for k, pts in enumerate(polys):
        b = Building(Polygon(pts))
        want = []
        if center or top and e is None:
            want.append(b.detect_center(e))
        if top and e is not None:
            want.append(b.detect_highest(e))
        rest = list(per[k])
        for w in want:
            hit = [r for r in rest if abs(r[0] - w.x) < 1e-3 and abs(r[1] - w.y) < 1e-3]
            c.check(len(hit) >= 1, "the center (or, with elevation data, the highest point) is a candidate")
            if hit:
                ok = [h for h in hit if e is None or bool(h[2] == w.z + height)]
                c.check(len(ok) >= 1, "altitude: elevation of the roof plus mounting height")
                rest.remove((ok or hit)[0])
        if corners:
            vs = [(v.x, v.y, v.z) for v in b.detect_corners(e, None)]
            c.check(len(rest) == min(3, len(vs)), "three corners, or all if there are fewer")
            used = []
            for x, y, z in rest:
                hit = [v for v in vs if abs(x - v[0]) < 1e-3 and abs(y - v[1]) < 1e-3]
                c.check(len(hit) == 1 and hit[0] not in used, "different corners of the building")
                if hit:
                    used.append(hit[0])
                    if e is not None:
                        c.eq(z, hit[0][2] + height, "altitude: elevation of the roof plus mounting height")
        else:
            c.check(not rest, "no other candidates")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for shape, n, res, left, top in [("square", 4, 1.0, 0.5, 3.5), ("square", 3, 1.0, 1.0, 3.0), ("diamond", 3, 2.0, 0.0, 4.0), ("concave", 4, 1.0, 0.5, 3.5),
                                     ("sliver", 3, 2.0, 0.0, 4.0), ("tiny", 3, 2.0, 0.0, 4.0), ("triangle", 4, 1.0, 0.5, 3.5), ("repeated", 3, 1.0, 1.0, 3.0),
                                     ("triangle", 3, 2.0, 0.0, 4.0), ("outside", 3, 2.0, 0.0, 4.0)] + (
            [("diamond", 4, 1.0, 0.5, 3.5), ("concave", 5, 1.0, 0.0, 4.0), ("square", 5, 0.5, 1.0, 3.0)] if BIG else []):
        out.append(Case(f"highest/{shape}-{n}-{res}", lambda c, a=(shape, n, res, left, top): highest(c, *a), max_paths=20000))
    for shape, k, n, res, left, top in [("square", 0, 3, 1.0, 0.0, 2.0), ("square", 2, 2, 1.0, 2.5, 3.5), ("square", 1, 3, 1.0, 2.25, 1.75), ("tiny", 0, 3, 2.0, 0.0, 4.0),
                                        ("diamond", 0, 3, 0.75, 1.5, 0.5), ("triangle", 2, 3, 0.9, 0.3, 3.7), ("outside", 2, 2, 1.0, 0.0, 2.0)] + (
            [("square", 0, 4, 0.5, 0.25, 1.75)] if BIG else []):
        out.append(Case(f"roof/{shape}-{k}-{n}-{res}", lambda c, a=(shape, k, n, res, left, top): roof(c, *a), max_paths=20000))
    for n in (3, 4, 5) + ((6, 7) if BIG else ()):
        out.append(Case(f"angles/{n}", lambda c, n=n: angles(c, n), max_paths=20000))
    for shape in SHAPES:
        out.append(Case(f"vertices/{shape}", lambda c, s=shape: vertices(c, s)))
    for shapes in (("square",), ("triangle", "concave"), ("repeated", "diamond"), ("sliver",)):
        for use in (False, True):
            out.append(Case(f"candidates/{'-'.join(shapes)}-{'surface' if use else 'flat'}", lambda c, a=(shapes, use, 1.0 if len(shapes) == 1 else 4.0): candidates(c, *a),
                            max_paths=20000))
    return out
