"""Line-of-sight confidence of a single link."""
import itertools
import math
from contextlib import ExitStack

import numpy as np

from checks.p24 import in_process, los, put
from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import hnum

META = {
    "functions": ["core.compute_los, helper.compute_los_batch", "BaseLOSValidator simple checks", "CylindricalLOSValidator.compute_confidence, "
                  "_compute_confidence_by_radius, _distance_between_grid_and_center_line, corner and rectangle tests", "EllipsoidalLOSValidator.compute_confidence",
                  "FresnelZone (all)", "Elevation.get_all_obstructions"],
    "bounds": "links in 6 directions (up to 60 m, level or tilted up to about 60 degrees), any altitudes (cylinder, level ellipsoid; 4 tilts of the tilted "
              "ellipsoid), up to 2 obstructions of any height at any place, rasters up to 5x5 with up to 3 cells of any height, 4 thresholds, any radius (cylinder)",
    "outside": "GIS files; values within 1e-6 of a decision",
    "assumptions": ["worker processes behave like a call in the same process",
                    "tilted ellipsoid: the documented formulas are the oracle (they approximate the projection of the zone)"],
}
LOW = -500.0


def conf(a, b, **kw):
    from terragraph_planner.common.structs import CandidateLOS
    with in_process():
        got = los([a, b], [CandidateLOS(0, 1, True)], **kw)
    for x in got:
        if (x[0], x[1]) not in ((0, 1), (1, 0)):
            raise AssertionError("unknown link")
    v = {(x[0], x[1]): x[2] for x in got}
    return v.get((0, 1), 0), v.get((1, 0), 0)


def surface(c, cells, rx=1.0, ry=1.0, left=0.0, top=0.0):
    """raster from a list of rows"""
    from osgeo import osr
    from terragraph_planner.common.structs import UTMBoundingBox
    from terragraph_planner.los.elevation import Elevation
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32631)
    ny, nx = len(cells), len(cells[0])
    m = np.empty((ny, nx), dtype=object if c.symbolic else float)
    for j in range(ny):
        for i in range(nx):
            m[j, i] = cells[j][i]
    box = UTMBoundingBox(min_utm_x=left - rx / 2, max_utm_x=left + (nx - 0.5) * rx, min_utm_y=top - (ny - 0.5) * ry, max_utm_y=top + ry / 2)
    return Elevation(data_matrix=m, utm_bounding_box=box, x_resolution=rx, y_resolution=ry, left_top_x=left, left_top_y=top, spatial_reference=sr,
                     collection_time=None)


def simple(c, ellipsoid, case):
    """pairs that can never be linked"""
    from terragraph_planner.common.configuration.enums import LocationType as L
    lt = [c.choice(f"type{i}", [L.ROOFTOP, L.STREET_LEVEL, L.UNKNOWN]) if case == "building" else L.ROOFTOP for i in (0, 1)]
    bid = [c.int(f"building{i}", -1, 2) if t == L.ROOFTOP else None for i, t in enumerate(lt)]
    if case == "spot":
        xy = [(1.0, 1.0), (1.0 + c.choice("dx", [0.0, 0.75, -9.0]), 1.0 + c.choice("dy", [0.0, 1e-6, 20.0]))]
        z = [5.0, c.choice("z", [5.0, 7.0, 30.0])]
        c.assume(bid[0] != bid[1])
    else:
        xy = [(0.0, 0.0), (30.0, 40.0)]
        z = [5.0, 7.0]
    S = []
    for i in (0, 1):
        S.append(put(T.site(f"S{i}", (T.DN, T.CN)[i], 0.0, 0.0, loc_type=lt[i], building_id=None if bid[i] is None else i), xy[i][0], xy[i][1], z[i]))
        S[-1]._building_id = None if bid[i] is None else hnum(bid[i])
    e = surface(c, [[LOW] * 2] * 2) if c.flag("surface") else None
    a, b = conf(*S, ellipsoid=ellipsoid, surface=e, lo=0.5, hi=100, el=90, radius=0.25, thr=0.5)
    c.eq(a, b, "same confidence in both directions")
    if case == "spot":
        same = xy[0] == xy[1]
        n2 = (xy[1][0] - 1) ** 2 + (xy[1][1] - 1) ** 2 + (z[0] - z[1]) * (z[0] - z[1])
        c.check(a == 0 if same else c.OR(a == 1, n2 < 0.25 + EPS), "no link straight up, full confidence without obstructions")
    else:
        same = c.AND(bid[0] == bid[1], bid[0] >= 0) if None not in bid else False
        c.check(a == c.ITE(same, 0, 1), "no link within one building, full confidence otherwise")
    c.reach("end")


DIRS = {"east": (20.0, 0.0), "north": (0.0, 20.0), "345": (12.0, 16.0), "west": (-20.0, 0.0), "diagonal": (15.0, -15.0), "steep": (-5.0, 12.0), "long": (36.0, -48.0)}
THR = [0.0, 0.4, 0.75, 1.0]
EPS = 1e-6


def cyl_oracle(c, a, b, r, P, got, thr):
    """P: list of grid points (x, y, z)"""
    dx, dy, dz = b[0] - a[0], b[1] - a[1], b[2] - a[2]
    n2 = dx * dx + dy * dy
    n3 = n2 + dz * dz
    blocked, maybe, dists = [], [], []
    for x, y, z in P:
        ex, ey, ez = x - a[0], y - a[1], z - a[2]
        p = (ex * dx + ey * dy) / n2
        s2 = (ey * dx - ex * dy) * (ey * dx - ex * dy) / n2      # squared horizontal distance from the line
        q = ez - p * dz
        t = p * n2 + ez * dz                                     # times n3
        inside = lambda m: c.AND(p >= -m, p <= 1 + m, s2 <= r * r + m)  # noqa
        # distance below the line: s2 + vertical offset shortened by the slope
        d2 = c.ITE(q > 0, s2, s2 + q * q * n2 / n3)
        ok = lambda m: c.OR(q > 0, c.AND(t >= -m, t <= n3 + m))  # noqa
        blocked.append(c.AND(inside(-EPS), ok(-EPS), d2 < r * r * thr * thr - EPS))
        maybe.append(c.AND(inside(EPS), ok(EPS), d2 < r * r * thr * thr + EPS))
        dists.append((c.AND(inside(-EPS), ok(-EPS)), c.AND(inside(EPS), ok(EPS)), d2))
    g2 = got * got * r * r
    c.check(c.AND(got >= 0, got <= 1), "confidence between 0 and 1")
    c.check(c.OR(got == 0, c.NOT(c.OR(*blocked))), "blocked links have no confidence")
    c.check(c.OR(got > 0, *[m for m in maybe], *[c.AND(m, d <= EPS) for _, m, d in dists]), "links that are clear to the threshold have line of sight")
    for must, may, d2 in dists:
        c.check(c.OR(got == 0, c.NOT(must), g2 <= d2 + EPS), "confidence at most the clearance")
    c.check(c.OR(got == 0, got == 1, *[c.AND(may, g2 >= d2 - EPS, g2 <= d2 + EPS) for _, may, d2 in dists]), "confidence is the clearance of the closest obstruction")


def sites(a, b):
    return put(T.site("A", T.DN, 0.0, 0.0), *a), put(T.site("B", T.CN, 0.0, 0.0), *b)


def cylinder_point(c, d, tilt, thr, mode):
    """one obstruction"""
    dx, dy = DIRS[d]
    if mode == "height":
        za, zb = 0.0, c.choice("zb", [3.25, 11.0, -25.0]) if tilt == "any" else TILT[tilt]
        s, v = c.choice("s", [-0.02, 0.01, 0.03, 0.5, 0.9, 0.98, 1.01]), c.choice("v", [0.0, 0.45, -0.9, 1.7])
        z = c.real("z", -40, 40)
    elif mode == "tilt":
        za, zb = 0.0, c.real("zb", -25, 25)
        s, v = c.choice("s", [-0.02, 0.02, 0.5, 0.98]), c.choice("v", [0.0, 0.45, -0.9])
        z = s * zb + c.choice("h", [0.5, -0.2, -0.7, -1.5, -4.0])
    else:
        za = c.real("za", -400, 400)
        zb = za + TILT[tilt]
    if mode == "along":
        s, v = c.real("s", -0.2, 1.2), c.choice("v", [0.0, 0.45, -0.9])
    elif mode == "across":
        s, v = c.choice("s", [0.1, 0.5, 0.8]), c.real("v", -3, 3)
    if mode in ("along", "across"):
        z = za + s * TILT[tilt] + c.choice("h", [0.5, -0.3, -1.5])
    x, y = place(dx, dy, s, v)
    r = c.choice("radius", [1.0, 3.5])
    a, b = (0.0, 0.0, za), (dx, dy, zb)
    kw = dict(lo=1, hi=500, el=90, thr=thr, radius=r, surface=surface(c, [[z]], 1.0, 1.0, x, y))
    g1, g2 = conf(*sites(a, b), **kw)
    c.eq(g1, g2, "same confidence in both directions")
    cyl_oracle(c, a, b, r, [(x, y, z)], g1, thr)
    c.reach("end")


TILT = {"level": 0.0, "up": 21.0, "down": -15.0, "any": 3.25}


def place(dx, dy, s, v):
    n = math.hypot(dx, dy)
    return s * dx - v * dy / n, s * dy + v * dx / n


def cylinder_raster(c, d, thr, k):
    """raster with k cells of any height"""
    dx, dy = DIRS[d]
    za, zb = 10.0, c.choice("zb", [10.0, 16.0])
    rx, ry = abs(dx) / 4 or 1.0, abs(dy) / 4 or 1.0
    left, top = min(0.0, dx) - (0 if dx else 2 * rx), max(0.0, dy) + (0 if dy else 2 * ry)
    z = [[LOW] * 5 for _ in range(5)]
    cells = list(itertools.product(range(5), range(5)))
    # cells near the line
    n = math.hypot(dx, dy)
    cells.sort(key=lambda ij: abs((left + ij[0] * rx) * dy - (top - ij[1] * ry) * dx) / n)
    spot = c.choice("spots", [0, 2, 7, 19])
    for m, (i, j) in enumerate(cells[spot:][:k]):
        z[j][i] = c.real(f"z{m}", -10, 40)
    r = c.choice("radius", [1.1, 3.3])
    a, b = (0.0, 0.0, za), (dx, dy, zb)
    g1, g2 = conf(*sites(a, b), lo=1, hi=500, el=90, thr=thr, radius=r, surface=surface(c, z, rx, ry, left, top))
    c.eq(g1, g2, "same confidence in both directions")
    cyl_oracle(c, a, b, r, [(left + i * rx, top - j * ry, z[j][i]) for i, j in cells], g1, thr)
    c.reach("end")


def ell_oracle(c, a, b, f, P, got, thr):
    dx, dy, dz = b[0] - a[0], b[1] - a[1], b[2] - a[2]
    n2 = dx * dx + dy * dy
    n3 = n2 + dz * dz
    r2 = 8.65725790883 ** 2 * math.sqrt(n3) / f               # squared radius of the first zone
    nn2, nn3 = math.sqrt(n2), math.sqrt(n3)
    cb, sb = nn2 / nn3, dz / nn3
    must0, may0, lows = [], [], []
    for x, y, z in P:
        ex, ey, ez = x - (a[0] + b[0]) / 2, y - (a[1] + b[1]) / 2, z - (a[2] + b[2]) / 2
        u, v = (ex * dx + ey * dy) / nn2, (ey * dx - ex * dy) / nn2
        q = ez - u * dz / nn2                                   # height over the line
        U, W = u * cb + ez * sb, ez * cb - u * sb               # along and across the tilted axis
        e2 = 1 - u * u / (n2 / 4)
        e3 = 1 - U * U / (n3 / 4)

        def flat(rr, m):                                        # in the vertical projection
            return v * v <= rr * e2 + m

        def above(rr, m):                                       # not below the zone
            # lower height: the zone is met at or below z
            vertex = (u * cb * sb) * (1 / rr - 4 / n3) / (sb * sb / (n3 / 4) + cb * cb / rr)
            top = 1 - u * u * cb * cb / (n3 / 4) - u * u * sb * sb / rr - v * v / rr \
                + (u * cb * sb) ** 2 * (1 / rr - 4 / n3) ** 2 / (sb * sb / (n3 / 4) + cb * cb / rr)
            return c.AND(top > -m, c.OR(v * v + W * W <= rr * e3 + m, ez >= vertex - m))

        end = c.AND(ex * ex + ey * ey - n2 / 4 <= EPS, ex * ex + ey * ey - n2 / 4 >= -EPS, v <= EPS, v >= -EPS)
        if thr > 0:
            ri = r2 * thr * thr
            must0.append(c.AND(flat(ri, -EPS), above(ri, -EPS), c.NOT(end)))
            may0.append(c.AND(flat(ri, EPS), above(ri, EPS)))
        num = c.ITE(q >= 0, v * v, v * v + W * W)
        den = c.ITE(q >= 0, e2, e3)
        must = c.AND(flat(r2, -EPS), above(r2, -EPS), den > EPS)
        may = c.AND(flat(r2, EPS), above(r2, EPS))
        alt = (v * v, e2), (v * v + W * W, e3)
        near = c.AND(q <= EPS, q >= -EPS)
        lows.append((must, may, num, den, near, alt))
    c.check(c.AND(got >= 0, got <= 1 + 1e-9), "confidence between 0 and 1")
    c.check(c.OR(got == 0, c.NOT(c.OR(*must0))), "blocked links have no confidence")
    c.check(c.OR(got > 0, *may0, *[c.AND(may, num <= EPS) for _, may, num, *_ in lows]), "links that are clear to the threshold have line of sight")
    g2 = got * got * r2
    for must, may, num, den, near, alt in lows:
        c.check(c.OR(got == 0, c.NOT(must), near, g2 * den <= num + EPS), "confidence at most the clearance")
    c.check(c.OR(got == 0, got >= 1 - 1e-6, *[c.AND(may, c.OR(c.AND(g2 * den >= num - EPS, g2 * den <= num + EPS),
                                                              c.AND(near, c.OR(*[c.AND(g2 * e >= m - EPS, g2 * e <= m + EPS) for m, e in alt]))))
                                              for _, may, num, den, near, alt in lows]), "confidence is the largest clear zone")


def ellipsoid_point(c, d, tilt, thr, mode):
    dx, dy = DIRS[d]
    za = 0.0
    zb = TILT[tilt]
    if mode == "height":        # any height at certain spots
        s, v = c.choice("s", [-0.02, 0.03, 0.3, 0.5, 0.9]), c.choice("v", [0.0, 0.3, -0.8, 1.1])
    elif mode == "along":
        s, v = c.real("s", -0.2, 1.2), c.choice("v", [0.4, -1.0])
    else:
        s, v = c.choice("s", [0.1, 0.5, 0.8]), c.real("v", -3, 3)
    x, y = place(dx, dy, s, v)
    if mode == "height":
        z = c.real("z", -40, 40)
    else:
        z = s * zb + c.choice("h", [0.5, -0.4])
    f = c.choice("frequency", [1500.0, 700.0]) if mode == "height" else 1500.0
    a, b = (0.0, 0.0, za), (dx, dy, zb)
    kw = dict(lo=1, hi=500, el=90, thr=thr, ellipsoid=True, freq=f, surface=surface(c, [[z]], 1.0, 1.0, x, y))
    g1, g2 = conf(*sites(a, b), **kw)
    c.close(g1, g2, "same confidence in both directions", 1e-6)
    ell_oracle(c, a, b, f, [(x, y, z)], g1, thr)
    c.reach("end")


def ellipsoid_raster(c, d, tilt, thr, k):
    dx, dy = DIRS[d]
    za, zb = 10.0, {"level": 10.0, "up": 16.0}[tilt]
    rx, ry = abs(dx) / 4 or 1.0, abs(dy) / 4 or 1.0
    left, top = min(0.0, dx) - (0 if dx else 2 * rx), max(0.0, dy) + (0 if dy else 2 * ry)
    z = [[LOW] * 5 for _ in range(5)]
    cells = list(itertools.product(range(5), range(5)))
    n = math.hypot(dx, dy)
    cells.sort(key=lambda ij: abs((left + ij[0] * rx) * dy - (top - ij[1] * ry) * dx) / n)
    spot = c.choice("spots", [0, 2, 7, 19])
    for m, (i, j) in enumerate(cells[spot:][:k]):
        z[j][i] = c.real(f"z{m}", -10, 40)
    f = c.choice("frequency", [1500.0, 150.0])
    a, b = (0.0, 0.0, za), (dx, dy, zb)
    g1, g2 = conf(*sites(a, b), lo=1, hi=500, el=90, thr=thr, ellipsoid=True, freq=f, surface=surface(c, z, rx, ry, left, top))
    c.close(g1, g2, "same confidence in both directions", 1e-6)
    ell_oracle(c, a, b, f, [(left + i * rx, top - j * ry, z[j][i]) for i, j in cells], g1, thr)
    c.reach("end")


def cases(tier):
    out = []
    for e in (False, True):
        for k in ("spot", "building"):
            out.append(Case(f"simple-{k}-{'ellipsoid' if e else 'cylinder'}", lambda c, e=e, k=k: simple(c, e, k)))
    for d, t, thr in [("east", "any", 0.4), ("345", "up", 0.75), ("north", "level", 1.0), ("diagonal", "up", 0.0), ("steep", "any", 1.0), ("long", "up", 0.4)]:
        for mode in ("height", "along", "across") + (("tilt",) if t == "any" else ()):
            out.append(Case(f"cylinder-{mode}-{d}-{t}-{thr}", lambda c, d=d, t=t, thr=thr, mode=mode: cylinder_point(c, d, t, thr, mode)))
    for d, thr in [("east", 0.4), ("345", 0.75), ("diagonal", 1.0), ("west", 0.0)]:
        out.append(Case(f"cylinder-raster-{d}-{thr}", lambda c, d=d, thr=thr: cylinder_raster(c, d, thr, 3 if tier == "thorough" else 2)))
    for d, t, thr in [("east", "level", 0.4), ("345", "up", 0.75), ("diagonal", "down", 1.0), ("north", "up", 0.0), ("west", "down", 0.4)]:
        for mode in ("height", "along", "across"):
            if mode != "height" and d in ("345", "diagonal") and tier != "thorough":
                continue
            out.append(Case(f"ellipsoid-{mode}-{d}-{t}-{thr}", lambda c, d=d, t=t, thr=thr, mode=mode: ellipsoid_point(c, d, t, thr, mode)))
    for d, t, thr in [("east", "level", 0.4), ("345", "up", 0.75)]:
        out.append(Case(f"ellipsoid-raster-{d}-{t}-{thr}", lambda c, d=d, t=t, thr=thr: ellipsoid_raster(c, d, t, thr, 2)))
    return out
