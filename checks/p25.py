"""Elevation rasters."""
import itertools
import sys
from contextlib import ExitStack
from unittest import mock

import numpy as np

from vlib import boot  # noqa: F401
from vlib.runner import Case
from vlib.symex import swapped

META = {
    "functions": ["Elevation.utm_to_idx, idx_to_utm, get_value, get_all_obstructions, get_value_list_within_bound, get_value_matrix_within_bound, set_resolution, "
                  "get_data_as_list, find_closest_valid_elevation, __add__, __sub__", "ElevationKDTree", "core.load_gis_data (which elevation is used)",
                  "helper.upsample_to_same_resolution"],
    "bounds": "rasters of up to 4x4 cells with any elevations, any origin, cell sizes 0.25, 1, 2.5 and 30 m (different in x and y; any real size for single "
              "lookups), any position and window in or around the raster, any missing cells (up to 2x3 cells)",
    "outside": "reading GeoTIFF files (GDAL); the search tree for missing data, replaced by an exhaustive search; float rounding",
    "assumptions": ["cells are addressed by their grid points: left_top is the first one", "the area of interest reaches at most half a cell beyond the grid points"],
}
BIG = False
MISSING = -1000.0


def raster(c, nx, ny, rx, ry, name="", missing=False, origin=True, box=None):
    from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
    from terragraph_planner.common.structs import UTMBoundingBox
    from terragraph_planner.los.elevation import Elevation
    from osgeo import osr
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32631)
    m = np.empty((ny, nx), dtype=object if c.symbolic else float)
    for j in range(ny):
        for i in range(nx):
            v = c.real(f"z{name}{j}{i}", -100, 9000)
            if missing and c.flag(f"missing{name}{j}{i}"):
                v = NO_DATA_VALUE
            m[j, i] = v
    left, top = (c.real("left", -10, 10), c.real("top", -10, 10)) if origin else (0.0, 0.0)
    if box is None:
        box = UTMBoundingBox(min_utm_x=left, max_utm_x=left + (nx - 1) * rx, min_utm_y=top - (ny - 1) * ry, max_utm_y=top)
    return Elevation(data_matrix=m, utm_bounding_box=box, x_resolution=rx, y_resolution=ry, left_top_x=left, left_top_y=top, spatial_reference=sr,
                     collection_time=None)


def near(c, e, i, j, x, y, tol=0):
    """grid point (i, j) is the nearest one to the position"""
    X, Y = e.left_top_x + i * e.x_resolution, e.left_top_y - j * e.y_resolution
    nx, ny = e.data_matrix.shape[1], e.data_matrix.shape[0]
    hx, hy = e.x_resolution / 2 + tol, e.y_resolution / 2 + tol
    return c.AND(True if i == 0 else x >= X - hx, True if i == nx - 1 else x <= X + hx, True if j == 0 else y <= Y + hy, True if j == ny - 1 else y >= Y - hy)


def lookup(c, nx, ny, rx, ry):
    if rx is None:
        rx, ry = c.real("rx", 0.15, 35), c.real("ry", 0.15, 35)
    e = raster(c, nx, ny, rx, ry)
    u, v = c.real("u", -2, nx + 1), c.real("v", -2, ny + 1)
    x, y = e.left_top_x + u * rx, e.left_top_y - v * ry
    m = e.data_matrix.copy()
    got = e.get_value(x, y)
    tol = 0 if c.symbolic else 1e-9
    c.check(c.OR(*[c.AND(got == m[j, i], u >= i - 0.5 - tol if i else True, u <= i + 0.5 + tol if i < nx - 1 else True,
                         v >= j - 0.5 - tol if j else True, v <= j + 0.5 + tol if j < ny - 1 else True) for i in range(nx) for j in range(ny)]),
            "elevation of the nearest grid point")
    i, j = c.choice("i", list(range(nx))), c.choice("j", list(range(ny)))
    X, Y = e.idx_to_utm(i, j)
    c.check(tuple(int(q) for q in e.utm_to_idx(X, Y)) == (i, j), "grid points find themselves")
    c.close(X, e.left_top_x + i * rx, "grid point east")
    c.close(Y, e.left_top_y - j * ry, "grid point north")
    c.reach("end")


class Tree:
    """stands for the search tree"""
    def __init__(self, pts, *a, **k):
        self.pts = list(pts)

    def query(self, points, k=1, distance_upper_bound=float("inf"), **kw):
        ds, out = [], []
        for x, y in points:
            best, at = None, len(self.pts)
            for i, (a, b) in enumerate(self.pts):
                d = (a - x) * (a - x) + (b - y) * (b - y)
                if d < distance_upper_bound ** 2 and (best is None or d < best):
                    best, at = d, i
            ds.append(best)
            out.append(at)
        return ds, out


def gaps(c, nx, ny, rx, ry, along):
    from scipy.spatial import cKDTree
    from terragraph_planner.common.data_io.constants import DEFAULT_ELEVATION_SEARCH_RADIUS as R, NO_DATA_VALUE
    from terragraph_planner.common.exceptions import DataException
    e = raster(c, nx, ny, rx, ry, missing=True, origin=False)
    x, y = (c.real("x", -3 * rx, (nx + 2) * rx), c.choice("y", [0.0, 0.3, -ry])) if along else (c.choice("x", [0.0, 0.3]), c.real("y", -(ny + 2) * ry, 3 * ry))
    m = e.data_matrix.copy()
    cells = list(itertools.product(range(nx), range(ny)))
    have = [(i, j) for i, j in cells if not bool(m[j, i] == NO_DATA_VALUE)]
    with ExitStack() as st:
        for n, mod in list(sys.modules.items()):
            if n.startswith("terragraph_planner") and ".test" not in n:
                for k, v in list(vars(mod).items()):
                    if v is cKDTree:
                        st.enter_context(mock.patch.object(mod, k, Tree))
        try:
            got = e.get_value(x, y)
        except DataException:
            c.check(not have, "lookups fail only without any data")
            return
    if not have:
        at = [(i, j) for i, j in cells]
        c.check(False, "no elevation without any data")
        return
    D = {k: (x - k[0] * rx) * (x - k[0] * rx) + (y + k[1] * ry) * (y + k[1] * ry) for k in have}
    ok = []
    for i, j in cells:
        n = near(c, e, i, j, x, y, 1e-9)
        if (i, j) in D:
            ok.append(c.AND(n, got == m[j, i]))
        else:
            ok.append(c.AND(n, c.OR(*[c.AND(got == m[k[1], k[0]], D[k] <= R * R, *[D[k] <= D[o] + 1e-6 for o in have if o != k]) for k in have])))
            avg = sum(m[b, a] for a, b in have) / len(have)
            d = got - avg
            ok.append(c.AND(n, d <= 1e-6, d >= -1e-6, *[D[k] >= R * R for k in have]))
    c.check(c.OR(*ok), "missing elevations come from the nearest cell with data within the search radius, else from the average")
    c.reach("end")


def window(c, what, nx, ny, rx, ry):
    e = raster(c, nx, ny, rx, ry)
    m = e.data_matrix.copy()
    out = 3 if what != "list" or BIG else 1.2
    a = [c.real(n, -out, nx - 1 + out) for n in ("u1", "u2")]
    b = [c.real(n, -out, ny - 1 + out) for n in ("v1", "v2")]
    if what != "obstructions":
        c.assume(c.AND(a[0] <= a[1], b[1] <= b[0]))
    xs = [e.left_top_x + u * rx for u in a]
    ys = [e.left_top_y - v * ry for v in b]
    tol = 0 if c.symbolic else 1e-9
    inside = lambda i, j, t=0: c.AND(c.OR(c.AND(a[0] - t <= i, i <= a[1] + t), c.AND(a[1] - t <= i, i <= a[0] + t)),  # noqa
                                     c.OR(c.AND(b[0] - t <= j, j <= b[1] + t), c.AND(b[1] - t <= j, j <= b[0] + t)))
    cells = list(itertools.product(range(nx), range(ny)))

    def cell(x, y):
        u, v = (x - e.left_top_x) / rx, (e.left_top_y - y) / ry
        r = [(i, j) for i, j in itertools.product(range(-3, nx + 3), range(-3, ny + 3)) if bool(c.AND(u > i - 0.01, u < i + 0.01, v > j - 0.01, v < j + 0.01))]
        c.check(len(r) == 1, "only grid points")
        return r[0] if r else None

    if what == "matrix":
        r = e.get_value_matrix_within_bound(xs[0], ys[0], xs[1], ys[1])
        isin = [k for k in cells if bool(inside(*k, -tol))]
        border = [k for k in cells if k not in isin and bool(inside(*k, tol))] if tol else []
        if border:
            return
        if isin:
            I, J = sorted({i for i, _ in isin}), sorted({j for _, j in isin})
            c.check(r.shape == (len(J), len(I)), "exactly the cells of the window")
            if r.shape == (len(J), len(I)):
                for (q, j), (p, i) in itertools.product(enumerate(J), enumerate(I)):
                    c.eq(r[q, p], m[j, i], "elevation of the cell")
        else:
            c.check(r.shape == (1, 1), "a window without cells gives one elevation")
            c.check(c.OR(*[c.AND(r[0, 0] == m[j, i], near(c, e, i, j, xs[0], ys[0], tol)) for i, j in cells]), "elevation next to the window's corner")
        c.reach("end")
        return
    if what == "list":
        r = e.get_value_list_within_bound(xs[0], ys[0], xs[1], ys[1])
        pred = {k: True for k in cells}
    else:
        pred = {k: c.bool(f"pass{k[0]}{k[1]}") for k in cells}

        def passes(x, y):
            k = cell(x, y)
            return bool(pred[k]) if k in pred else False
        r = e.get_all_obstructions(xs[0], ys[0], xs[1], ys[1], passes)
    seen = []
    for x, y, z in r:
        k = cell(x, y)
        c.check(k not in seen, "no cell twice")
        seen.append(k)
        if k in m_cells(cells):
            c.eq(z, m[k[1], k[0]], "elevation of the cell")
            c.check(pred[k], "only cells that pass the filter")
        else:
            c.check(what == "list", "only cells of the raster")
            kk = (min(max(k[0], 0), nx - 1), min(max(k[1], 0), ny - 1))
            c.eq(z, m[kk[1], kk[0]], "beyond the raster, elevations continue")
        if what == "list":
            c.check(inside(*k, tol), "only cells in the window")
        else:
            apart = c.OR(c.AND(a[0] < 0, a[1] < 0), c.AND(a[0] > nx - 1, a[1] > nx - 1), c.AND(b[0] < 0, b[1] < 0), c.AND(b[0] > ny - 1, b[1] > ny - 1))
            c.check(c.OR(apart, inside(*k, 1)), "only cells in or next to the window")
    for k in cells:
        if k not in seen:
            c.check(c.NOT(c.AND(inside(*k, -tol), pred[k])), "every cell of the window is there")
    c.reach("end")


def m_cells(cells):
    return set(cells)


def resample(c, nx, ny, old, new):
    from terragraph_planner.common.structs import UTMBoundingBox
    rx, ry = old
    box = UTMBoundingBox(min_utm_x=0.0, max_utm_x=nx * rx, min_utm_y=0.0, max_utm_y=ny * ry)
    e = raster(c, nx, ny, rx, ry, box=box)
    e.left_top_x, e.left_top_y = c.real("l", 0, rx / 2), c.real("t", ny * ry - ry / 2, ny * ry)
    m = e.data_matrix.copy()
    left, top = e.left_top_x, e.left_top_y
    before = e
    e.set_resolution(*new)
    c.check(bool(e.x_resolution == new[0] and e.y_resolution == new[1]), "new cell size")
    c.check(bool(c.AND(e.left_top_x == left, e.left_top_y == top)), "the first grid point stays")
    n2, n1 = e.data_matrix.shape
    if new == old:
        c.check((n1, n2) == (nx, ny), "unchanged size")
    else:
        tol = 1e-9
        last = left + (n1 - 1) * new[0]
        c.check(c.AND(last >= box.max_utm_x - new[0] / 2 - tol, last <= box.max_utm_x + new[0] / 2 + tol), "the cells reach the eastern end of the area")
        last = top - (n2 - 1) * new[1]
        c.check(c.AND(last <= box.min_utm_y + new[1] / 2 + tol, last >= box.min_utm_y - new[1] / 2 - tol), "the cells reach the southern end of the area")
    for j in range(n2):
        for i in range(n1):
            u, v = i * new[0] / rx, j * new[1] / ry
            got = e.data_matrix[j, i]
            src = [(p, q) for p in range(nx) for q in range(ny) if (abs(u - p) <= .5 or p == nx - 1 and u > p) and (abs(v - q) <= .5 or q == ny - 1 and v > q)]
            c.check(c.OR(*[got == m[q, p] for p, q in src]), "elevation of the nearest grid point")
    c.check(before is e, "in place")
    c.reach("end")


def arithmetic(c, minus, nx, ny):
    from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
    from terragraph_planner.common.exceptions import DataException
    a, b = raster(c, nx, ny, 1.0, 2.0, "a", missing=True), raster(c, nx, ny, 1.0, 2.0, "b", missing=True)
    A, B = a.data_matrix.copy(), b.data_matrix.copy()
    r = a - b if minus else a + b
    for j in range(ny):
        for i in range(nx):
            gone = bool(A[j, i] == NO_DATA_VALUE) or bool(B[j, i] == NO_DATA_VALUE)
            if gone:
                c.eq(r.data_matrix[j, i], NO_DATA_VALUE, "missing data stays missing")
            else:
                c.eq(r.data_matrix[j, i], A[j, i] - B[j, i] if minus else A[j, i] + B[j, i], "cell by cell")
            c.check(c.AND(a.data_matrix[j, i] == A[j, i], b.data_matrix[j, i] == B[j, i]), "operands stay")
    c.check(bool(c.AND(r.left_top_x == a.left_top_x, r.left_top_y == a.left_top_y, r.x_resolution == 1.0, r.y_resolution == 2.0)), "same grid")
    k = c.choice("differs", ["left", "top", "rx", "ry", "size"])
    d = c.real("by", 0.01, 5)
    if k == "left":
        b.left_top_x = b.left_top_x + d
    elif k == "top":
        b.left_top_y = b.left_top_y + d
    elif k == "rx":
        b.x_resolution = b.x_resolution + d
    elif k == "ry":
        b.y_resolution = b.y_resolution + d
    else:
        b.data_matrix = np.zeros((ny + 1, nx), dtype=object)
    try:
        a - b if minus else a + b
        c.check(False, "different grids cannot be combined")
    except DataException:
        pass
    c.reach("end")


def sources(c, given, fine):
    """which elevation is used"""
    from shapely.geometry import Polygon
    from terragraph_planner.common.configuration.configs import GISDataParams
    from terragraph_planner.common.data_io import kml_library
    from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
    from terragraph_planner.common.structs import UTMBoundingBox
    from terragraph_planner.los.core import load_gis_data
    box = UTMBoundingBox(min_utm_x=0, max_utm_x=2, min_utm_y=0, max_utm_y=2)
    E, G = {}, {}
    for k in ("dsm", "dtm", "dhm"):
        r, l, t = (0.5, 0.3, 1.8) if fine and k == "dhm" else (1.0, 0.5, 1.5)
        n = int(2 / r) - (1 if r < 1 else 0)
        E[k] = raster(c, n, n, r, r, k, origin=False, box=box)
        E[k].left_top_x, E[k].left_top_y = l, t
        G[k] = (r, l, t, n)
    M = {k: e.data_matrix.copy() for k, e in E.items()}
    asked = []

    def read(self, files, epsg, bb):
        asked.append((list(files), epsg, bb))
        return E[files[0][1:4]]
    poly = Polygon([(3.0, 51.0), (3.001, 51.0), (3.001, 51.001), (3.0, 51.001)])
    with mock.patch("os.path.isfile", lambda *a: True), mock.patch("os.path.exists", lambda *a: True):
        kw = {}
        if "dsm" in given:
            kw["dsm_file_paths"] = ["/dsm.tif"]
        for k in ("dtm", "dhm"):
            if k in given:
                kw[k + "_file_path"] = f"/{k}.tif"
        gis = GISDataParams("/b.kml", **kw)
    with mock.patch.object(ElevationLoader, "read", read), swapped((kml_library.extract_boundary_polygon, lambda f: (poly, 32631))):
        ll, dsm, dtm, group = load_gis_data(gis)
    c.check(ll is poly and group is None, "boundary and buildings")
    for f, epsg, bb in asked:
        from pyproj import Transformer
        tr = Transformer.from_crs(4326, 32631, always_xy=True)
        P = [tr.transform(*p) for p in poly.exterior.coords]
        c.check(epsg == 32631, "UTM zone of the area")
        c.check(bb.min_utm_x <= min(p[0] for p in P) and bb.max_utm_x >= max(p[0] for p in P) and
                bb.min_utm_y <= min(p[1] for p in P) and bb.max_utm_y >= max(p[1] for p in P), "the whole area is read")
    want_s = "dsm" if "dsm" in given else "sum" if {"dtm", "dhm"} <= set(given) else None
    want_t = "dtm" if "dtm" in given else "diff" if {"dsm", "dhm"} <= set(given) else None
    for e, w in ((dsm, want_s), (dtm, want_t)):
        if w is None:
            c.check(e is None, "no such elevation")
            continue
        c.check(e is not None, "elevation is available")
        ny, nx = e.data_matrix.shape
        c.check(nx >= 2 and ny >= 2, "the whole area is covered")

        def at(k, x, y):
            """elevations of the nearest grid points"""
            r, l, t, n = G[k]
            I, J = [[q for q in range(n) if abs(v - q) <= 0.5 + 1e-9 or v < 0 == q or q == n - 1 and v > q] for v in ((x - l) / r, (t - y) / r)]
            return [M[k][j, i] for i in I for j in J]
        for i, j in itertools.product(range(nx), range(ny)):
            x, y = e.idx_to_utm(i, j)
            got = e.data_matrix[j, i]
            if w in M:
                want = at(w, x, y)
            else:
                p, q = ("dtm", "dhm") if w == "sum" else ("dsm", "dhm")
                want = [f + g if w == "sum" else f - g for f in at(p, x, y) for g in at(q, x, y)]
            c.check(c.OR(*[c.AND(got - v < 1e-9, v - got < 1e-9) for v in want]), "surface, terrain and height belong together")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for nx, ny, rx, ry in [(3, 2, 1.0, 1.0), (2, 3, 0.25, 2.5), (4, 4, 30.0, 2.5), (1, 2, 2.5, 1.0), (2, 2, None, None)] + ([(4, 4, None, None), (5, 5, 1.0, 0.3)] if BIG else []):
        out.append(Case(f"lookup/{nx}x{ny}/{rx or 'any'}x{ry or 'any'}", lambda c, a=(nx, ny, rx, ry): lookup(c, *a), max_paths=4000, timeout_ms=30000))
    for nx, ny, rx, ry in [(2, 2, 1.0, 1.0), (3, 1, 40.0, 2.0), (1, 2, 30.0, 40.0)] + ([(3, 2, 30.0, 20.0), (2, 3, 1.0, 35.0)] if BIG else []):
        for along in (0, 1):
            out.append(Case(f"missing/{nx}x{ny}/{rx}x{ry}/{'x' if along else 'y'}", lambda c, a=(nx, ny, rx, ry, bool(along)): gaps(c, *a), max_paths=20000, timeout_ms=20000))
    for what in ("obstructions", "list", "matrix"):
        for nx, ny, rx, ry in [(2, 2, 1.0, 2.5), (3, 1, 0.25, 30.0)] + ([(3, 3, 1.0, 1.0), (4, 2, 2.5, 0.25)] if BIG else []):
            out.append(Case(f"{what}/{nx}x{ny}/{rx}x{ry}", lambda c, w=what, a=(nx, ny, rx, ry): window(c, w, *a), max_paths=60000, timeout_ms=20000))
    for old, new in [((1.0, 1.0), (0.5, 1.0)), ((1.0, 1.0), (1.0, 1.0)), ((2.0, 3.0), (1.5, 2.0)), ((1.0, 1.0), (1.0, 0.4)), ((1.0, 2.0), (3.0, 1.0))]:
        out.append(Case(f"resample/{old[0]}x{old[1]}/{new[0]}x{new[1]}", lambda c, a=(3, 2, old, new): resample(c, *a), max_paths=4000))
    for minus in (0, 1):
        out.append(Case(f"{'difference' if minus else 'sum'}", lambda c, m=minus: arithmetic(c, bool(m), 2, 2 if BIG else 1), max_paths=20000))
    for given in [(), ("dsm",), ("dsm", "dtm"), ("dsm", "dhm"), ("dtm", "dhm"), ("dtm",), ("dhm",), ("dsm", "dtm", "dhm")]:
        for fine in ((0, 1) if "dhm" in given and len(given) == 2 else (0,)):
            out.append(Case(f"sources/{'+'.join(given)}/{'finer height' if fine else 'same size'}", lambda c, g=given, f=fine: sources(c, g, bool(f)), max_paths=4000))
    return out
