"""Input data: sites, links, tables and parameters."""
import itertools
import os
import shutil
import tempfile
from unittest import mock

from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import SymNum, hnum, plain_casts, swapped
from checks.p22 import Ids

META = {
    "functions": ["InputSites", "InputSitesLoader.get_input_sites", "load_input_sites_from_csv_file", "load_topology_link_csv", "extract_topology_from_csv_files",
                  "kml_library.extract_sites/extract_links/extract_demand_sites", "map_input_sites_links_from_kml", "read_mcs_snr_mbps_map_data", "dms_to_decimal",
                  "los.helper.infer_input_site_location", "SectorParams, DeviceData, SiteDetectionParams, LOSParams, OptimizerParams (direct and from_dict)",
                  "ElevationLoader.read (date)", "topology_serializer.get_site_altitude_mode and coordinates"],
    "bounds": "up to 3 raw sites at any positions and altitudes with every combination of up to 3 names and 3 SKUs, every type and location type; 2 links with any "
              "end points (3 sites); link tables of 2 rows; MCS tables of up to 3 rows with any numbers; every numeric parameter with any value (pairs for coupled ones)",
    "outside": "parsing of KML/GeoTIFF by GDAL and of CSV syntax by pandas (file contents are enumerated through selectors); the UTM projection and the search tree "
               "of scipy are replaced by an affine map and an exhaustive search; antenna and scan pattern files",
    "assumptions": ["md5 of site attributes does not collide"],
}
BIG = False


class Box:
    """a boundary"""
    def __init__(self, x, y):
        self.x, self.y = x, y

    def contains(self, p):
        return self.x[0] < p[0] and p[0] < self.x[1] and self.y[0] < p[1] and p[1] < self.y[1]


def stand_ins():
    from shapely.geometry import Point
    from shapely.prepared import prep
    from terragraph_planner.common import geos, utils
    hashes = Ids()
    return swapped((utils.deterministic_hash, Ids()), (geos.lat_lon_to_geo_hash, lambda la, lo, *a: "h" + hashes(la, lo)),
                   (prep, lambda p: p), (Point, lambda x, y: (x, y)))


def dev(sku, dn=True):
    return T.dn_device(sku) if dn else T.cn_device(sku)


def raw(c, n, stype, name=None, sku=None, alt=None, height=None, loc=None, building=None, status=None, subs=None, lat=None, lon=None):
    from terragraph_planner.common.structs import RawSite
    return RawSite(site_type=stype, status_type=status or T.CAN, device_sku=sku, name=name,
                   latitude=hnum(c.real("lat" + n, -80, 80)) if lat is None else lat, longitude=hnum(c.real("lon" + n, -170, 170)) if lon is None else lon,
                   altitude=alt, height=height, location_type=loc or T.LocationType.UNKNOWN, building_id=building, number_of_subscribers=subs)


def same(a, b):
    """equal positions (None only equals None)"""
    return all((x is None) == (y is None) and (x is None or bool(x == y)) for x, y in zip(a, b))


def expected(raws, devices, infer=None):
    """the sites a user expects: (position, type, device, location type, final name, raw site) or None when the input must be rejected"""
    out = []
    for r in raws:
        if r.device_sku is not None:
            d = [d for d in devices if d.device_sku.casefold() == r.device_sku.casefold()]
            if not d:
                return None
        else:
            d = [d for d in devices if (d.device_type == T.DeviceType.CN) == (r.site_type == T.CN)]
        for x in d:
            if (x.device_type == T.DeviceType.CN) != (r.site_type == T.CN):
                return None
            alt, loc = (r.altitude, r.location_type) if infer is None else infer(r)
            pos = (r.latitude, r.longitude, alt)
            dup = [o for o in out if o["type"] == r.site_type and o["dev"] is x and o["loc"] == loc and (o["raw"].name or "") == (r.name or "") and same(o["pos"], pos)]
            if not dup:
                out.append(dict(pos=pos, type=r.site_type, dev=x, loc=loc, raw=r, name=r.name or ""))
    for a, b in itertools.combinations(out, 2):
        if a["dev"] is b["dev"] and a["name"] == b["name"] and (a["name"] != "" or a["type"] == b["type"] and same(a["pos"], b["pos"])):
            return None
    for n in {o["name"] for o in out} - {""}:
        group = [o for o in out if o["name"] == n and o["raw"].name]
        if len(group) > 1:
            for o in group:
                o["final"] = f"{n}_{o['dev'].device_sku.casefold()}"
    names = [o.get("final", o["name"]) for o in out if o["name"] != ""]
    return out if len(set(names)) == len(names) else None


def compare(c, raws, devices, infer=None, boundary=None):
    from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
    from terragraph_planner.common.exceptions import PlannerException
    call = None
    if infer is not None:
        def call(latitude, longitude, altitude, height, location_type, site_type):
            r = [r for r in raws if r.latitude is latitude and r.longitude is longitude and r.altitude is altitude][0]
            a, l = infer(r)
            return T.GeoLocation(latitude=latitude, longitude=longitude, altitude=a), l
    inside = [r for r in raws if boundary is None or boundary.contains((r.longitude, r.latitude))]
    want = expected(inside, devices, infer)
    try:
        got = InputSitesLoader(devices).get_input_sites(raws, boundary, call)
    except PlannerException:
        c.check(want is None, "acceptable sites are not rejected")
        return None
    c.check(want is not None, "unknown devices, wrong device types and ambiguous names are rejected")
    if want is None:
        return None
    c.check(len(got) == len(want) == len(got.site_list), "every distinct input site inside the boundary is loaded once")
    sites = list(got)
    for o in want:
        m = [s for s in sites if s.device is o["dev"] and s.site_type == o["type"] and s.location_type == o["loc"]
             and same((s.latitude, s.longitude, s.altitude), o["pos"]) and s.status_type == o["raw"].status_type
             and s.name == (o.get("final", o["name"]) or s.site_id)]
        c.check(len(m) == 1, "site with unchanged position, type, location type, status, device and name (with the SKU where names are shared)")
        if not m:
            return None
        s = m[0]
        c.check(got.get_site_by_name(s.name) is s, "sites are found by their names")
        # several location types of one place share an id; then any of them is found
        c.check(got.get_site_by_id(s.site_id) is not None and got.get_site_by_id(s.site_id).site_id == s.site_id, "sites are found by their ids")
        r = o["raw"]
        b = None if o["loc"] != T.LocationType.ROOFTOP else -1 if infer is not None or r.building_id is None else r.building_id
        c.check(s.building_id == b, "building of rooftop sites, or the unknown one")
        c.check(s.number_of_subscribers == ((r.number_of_subscribers or 1) if o["type"] == T.CN else 0), "subscribers")
    return got


def names(c, n):
    D = [dev("D1"), dev("D2"), dev("C1", False)]
    with stand_ins():
        pool = ["a", "a_d1", None]
        R = []
        for i in range(n):
            sku = c.choice(f"sku{i}", ["D1", "d2", "d1"] if n < 3 else ["D1", "d2"])
            lat = hnum(c.real("lat0" if i == 2 else f"lat{i}", -80, 80))
            lon = 5.0 if n == 3 else hnum(c.real(f"lon{i}", -170, 170))
            R.append(raw(c, str(i), T.DN, c.choice(f"name{i}", pool), sku, alt=hnum(c.real(f"alt{i}", 0, 50)) if n < 3 else None, lat=lat, lon=lon))
        compare(c, R, D)
        c.reach("end")


def kinds(c, infer):
    D = [dev("D1"), dev("D2"), dev("C1", False)]
    L = T.LocationType
    with stand_ins():
        R = []
        name = c.choice("name", [None, "x"])
        for i in range(2):
            loc = c.choice(f"loc{i}", [L.UNKNOWN, L.ROOFTOP, L.STREET_LEVEL])
            typ = c.choice(f"type{i}", [T.DN, T.POP, T.CN])
            R.append(raw(c, str(i), typ, name, c.choice(f"sku{i}", [None, "c1" if typ == T.CN else "d1"] if i else [None, "C1" if typ == T.CN else "D1"]),
                         alt=hnum(c.real(f"alt{i}", 0, 50)) if i and c.flag("altitude") else None,
                         loc=loc, building=4 if i else c.choice(f"building{i}", [None, 4]), lat=hnum(c.real(f"lat{i}", -80, 80)), lon=5.0,
                         status=T.EXI if i else T.UNA, subs=[2, None][i]))
        f = None
        if infer:
            up = hnum(c.real("inferred", 0, 90))
            unk = c.choice("unknown becomes", [L.STREET_LEVEL, L.UNKNOWN]) if any(r.location_type == L.UNKNOWN for r in R) else None
            f = lambda r: (r.altitude if r.altitude is not None else up, unk if r.location_type == L.UNKNOWN else r.location_type)  # noqa
        compare(c, R, D, f)
        c.reach("end")


def boundary(c):
    D = [dev("D1")]
    with stand_ins():
        R = [raw(c, str(i), T.DN, f"n{i}") for i in range(2)]
        b = Box((c.real("x0", -170, 0), c.real("x1", 0, 170)), (c.real("y0", -80, 0), c.real("y1", 0, 80)))
        compare(c, R, D, boundary=b)
        c.reach("end")


def unknown_device(c):
    D = [dev("D1"), dev("C1", False)]
    with stand_ins():
        compare(c, [raw(c, "0", c.choice("type", [T.DN, T.POP, T.CN]), "n", c.choice("sku", ["D1", "X", "c1", "", None]))], D)
        c.reach("end")


# ---- KML ----

class Tree:
    def __init__(self, pts, *a, **k):
        self.pts = list(pts)

    def query(self, p, k=1, distance_upper_bound=float("inf"), **kw):
        best, at = None, len(self.pts)
        for i, (x, y) in enumerate(self.pts):
            d = (x - p[0]) * (x - p[0]) + (y - p[1]) * (y - p[1])
            if d < distance_upper_bound * distance_upper_bound and (best is None or d < best):
                best, at = d, i
        return (0.0 if best is None else best), at


class Affine:
    """stands for the projection: degrees to meters"""
    def transform(self, x, y):
        return x * 100, y * 100


def mapping_stand_ins():
    from scipy.spatial import KDTree
    from terragraph_planner.common.geos import TransformerLib
    st = stand_ins()
    st.pairs.append((KDTree, Tree))
    return st, mock.patch.object(TransformerLib, "get_tranformer", staticmethod(lambda *a, **k: Affine()))


def input_sites(S):
    from terragraph_planner.common.data_io.input_sites import InputSites
    res = InputSites()
    for s in S:
        res.add_site(s)
    return res


def mksite(t, dv, name, lat, lon, status=None, alt=None):
    return T.Site(t, T.GeoLocation(latitude=lat, longitude=lon, altitude=alt), dv, status or T.EXI, T.LocationType.STREET_LEVEL, None, name, None)


def rawlink(tx, rx, status, ltype, conf=None, a=(0.0, 0.0), b=(0.0, 0.0)):
    from terragraph_planner.common.structs import RawLink
    return RawLink(link_type=ltype, status_type=status, confidence_level=conf, tx_site_name=tx, tx_latitude=a[0], tx_longitude=a[1],
                   rx_site_name=rx, rx_latitude=b[0], rx_longitude=b[1])


def check_links(c, top, want):
    """want: {(tx, rx): (status, wireless, confidence)}"""
    got = {(l.tx_site, l.rx_site): l for l in top.links.values()}
    c.check({(a.site_id, b.site_id) for a, b in got} == {(a.site_id, b.site_id) for a, b in want}, "links between the named sites in both directions, none from CNs")
    for (a, b), (st, w, conf) in want.items():
        l = got.get((a, b))
        if l is None:
            return
        c.check(l.status_type == st and l.is_wireless == w, "status and type of the link")
        c.check((l.confidence_level is None) == (conf is None), "links keep their confidence")
        if conf is not None and l.confidence_level is not None:
            c.eq(l.confidence_level, conf, "links keep their confidence")


def named(c):
    from terragraph_planner.common.data_io.utils import map_input_sites_links_from_kml
    from terragraph_planner.common.exceptions import DataException
    LT = T.LinkType
    d, cn = dev("D1"), dev("C1", False)
    st, tr = mapping_stand_ins()
    with st, tr:
        S = {"p": mksite(T.POP, d, "p", 1.0, 1.0), "d": mksite(T.DN, d, "d", 2.0, 2.0), "c": mksite(T.CN, cn, "c", 3.0, 3.0)}
        sites = input_sites(S.values())
        top = T.Topology(sites, [], [], [])
        L, bad, want = [], False, {}
        ends = [("p", "d"), ("d", "p"), ("d", "c"), ("c", "d"), ("c", "p"), ("p", "q"), ("P", "d")]
        for i in range(2):
            tx, rx = c.choice(f"ends{i}", ends)
            lt = c.choice(f"type{i}", [LT.WIRELESS_BACKHAUL, LT.WIRELESS_ACCESS, LT.ETHERNET])
            s = c.choice(f"status{i}", [T.CAN, T.EXI, T.UNA])
            conf = c.real(f"conf{i}", 0, 1) if i == 0 or c.flag("confidence") else None
            L.append(rawlink(tx, rx, s, lt, conf))
            if lt == LT.ETHERNET or bad:
                continue
            if tx not in S or rx not in S:
                bad = True
                continue
            for a, b in ((tx, rx), (rx, tx)):
                if a == "c":
                    continue
                if (S[a], S[b]) in want:
                    bad = bad or want[S[a], S[b]][0] != s
                else:
                    want[S[a], S[b]] = (s, True, conf)
        try:
            map_input_sites_links_from_kml(top, sites, L)
        except DataException:
            c.check(bad, "links with known sites and consistent statuses are accepted")
            return
        c.check(not bad, "links to missing sites or with inconsistent statuses are rejected")
        if not bad:
            check_links(c, top, want)
        c.reach("end")


def located(c, together):
    from terragraph_planner.common.data_io.utils import map_input_sites_links_from_kml
    from terragraph_planner.common.exceptions import DataException
    d, cn = dev("D1"), dev("C1", False)
    st, tr = mapping_stand_ins()
    with st, tr:
        x = [0.0, 0.0 if together else 0.4, 3.0]
        S = [mksite(T.DN, d, "a", 0.0, x[0]), mksite(T.CN, cn, "b", 0.0, x[1]), mksite(T.POP, d, "c", 0.0, x[2])]
        sites = input_sites(S)
        top = T.Topology(sites, [], [], [])
        a, b = c.real("tx", -1, 4), c.real("rx", -1, 4)
        conf = c.real("conf", 0, 1)
        link = rawlink(c.choice("txname", [None, "a"]), None, T.EXI, T.LinkType.WIRELESS_BACKHAUL, conf, (0.0, a), (0.0, b))
        near = []
        for p in (a, b):
            ds = [abs(p - q) * 100 for q in x]
            c.assume(c.AND(*[u != v for u, v in itertools.combinations(ds, 2) if u is not v]) if not together else True)
            best = min(range(3), key=lambda i: _Key(ds[i]))
            for q in x:
                c.assume(abs(abs(p - q) * 100 - 10) > 1e-6)
            near.append([i for i in range(3) if x[i] == x[best]] if bool(ds[best] < 10) else None)
        c.assume(near[0] is None or near[0] != near[1])
        try:
            map_input_sites_links_from_kml(top, sites, [link])
        except DataException:
            c.check(None in near, "links are matched with the sites at their ends")
            return
        c.check(None not in near, "links without a site within 10 m of an end are rejected")
        if None in near:
            return
        want = {}
        for i, j in itertools.product(*near):
            for u, v in ((i, j), (j, i)):
                if S[u].site_type != T.CN:
                    want[S[u], S[v]] = (T.EXI, True, conf)
        check_links(c, top, want)
        c.reach("end")


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


class Geometry:
    def __init__(self, *pts):
        self.pts = pts

    def GetX(self, i=0):
        return self.pts[i][0]

    def GetY(self, i=0):
        return self.pts[i][1]

    def GetZ(self, i=0):
        return self.pts[i][2]

    def GetPoint(self, i=0):
        return self.pts[i]

    def GetPointCount(self):
        return len(self.pts)


class Feature:
    def __init__(self, geometry, **fields):
        self.g, self.f = geometry, fields

    def keys(self):
        return list(self.f)

    def GetGeometryRef(self):
        return self.g

    geometry = GetGeometryRef

    def GetField(self, k):
        for f, v in self.f.items():
            if f.casefold() == k.casefold():
                return v
        raise KeyError(k)


def kml_sites(c):
    from terragraph_planner.common.data_io.kml_library import extract_sites
    L = T.LocationType
    x, y, z = c.real("x", -180, 180), c.real("y", -90, 90), c.real("z", 0, 9000)
    mode = c.choice("mode", ["absolute", "relativeToGround", "clampToGround", None])
    loc = c.choice("loc", ["Rooftop", "STREET_LEVEL", "unknown", None])
    bid, subs, sku, name = c.choice("building", ["5", None]), c.choice("subs", ["3", "", None]), c.choice("sku", ["D1", None]), c.choice("name", ["n", None])
    t, s = c.choice("type", [T.CN, T.POP]), c.choice("status", [T.CAN, T.EXI])
    spell = c.choice("spelling", [str.upper, str.lower])
    keys = dict(altitudeMode=mode, Name=name)
    keys[spell("Location Type")], keys[spell("building_id")], keys[spell("Number of Subscribers")], keys[spell("device sku")] = loc, bid, subs, sku
    if sku is None:
        del keys[spell("device sku")]
    out = []
    extract_sites(out, [Feature(Geometry((x, y, z)), **keys)], t, s)
    c.check(len(out) == 1, "one site per placemark")
    r = out[0]
    c.eq(r.latitude, y, "latitude")
    c.eq(r.longitude, x, "longitude")
    for got, is_it, label in ((r.altitude, mode == "absolute", "absolute altitudes are kept"), (r.height, mode == "relativeToGround", "relative altitudes are heights")):
        c.check((got is not None) == is_it, label)
        if got is not None:
            c.eq(got, z, label)
    c.check((r.site_type, r.status_type) == (t, s), "type and status of the folder")
    c.check(r.name == name and r.device_sku == sku, "name and device of the placemark")
    lt = L[loc.upper()] if loc else None
    c.check(r.location_type == lt if lt else r.location_type in (L.UNKNOWN, L.STREET_LEVEL), "location type of the placemark")
    c.check(r.building_id == (5 if bid and lt == L.ROOFTOP else None), "building of rooftop sites")
    c.check(r.number_of_subscribers == (3 if subs else None), "subscribers of the placemark")
    c.reach("end")


def kml_links(c):
    from terragraph_planner.common.data_io.kml_library import extract_links, extract_demand_sites
    LT = T.LinkType
    P = [tuple(c.real(f"{n}{i}", -90, 90) for n in "xyz") for i in range(2)]
    folder = c.choice("folder", [LT.WIRELESS_BACKHAUL, LT.WIRELESS_ACCESS, LT.ETHERNET])
    field = c.choice("field", [None, "", "WIRELESS_ACCESS", "ethernet"])
    tx, rx = c.choice("tx", [None, "", "a"]), c.choice("rx", ["b", None])
    conf = c.choice("conf", [None, "", "N/A", "1", "0.85", "0", "0.0"])
    st = c.choice("status", [T.CAN, T.EXI])
    out = []
    other = Feature(Geometry(*P), link_type="ETHERNET")
    extract_links(out, [other, Feature(Geometry(*P), tx_site_name=tx, TO_SITE=rx, **{"Link Type": field, "CONFIDENCE_LEVEL": conf})], folder, st)
    c.check(len(out) == 2, "one link per placemark")
    r = out[-1]
    c.check(r.link_type == (LT[field.upper()] if field else folder), "type of the placemark or else of the folder")
    c.check(r.status_type == st, "status of the folder")
    c.check((r.tx_site_name or None) == (tx or None) and (r.rx_site_name or None) == rx, "site names of the placemark")
    c.check(tx not in (None, "") or r.tx_site_name is None, "missing names are recognised")
    w = None if conf in (None, "", "N/A") else float(conf)
    c.check(r.confidence_level == w, "confidence of the placemark")
    for got, want, label in ((r.tx_longitude, P[0][0], "start"), (r.tx_latitude, P[0][1], "start"), (r.rx_longitude, P[1][0], "end"), (r.rx_latitude, P[1][1], "end")):
        c.eq(got, want, label + " of the link")
    D = []
    with stand_ins():
        extract_demand_sites(D, [Feature(Geometry(p)) for p in P])
    c.check(len(D) == 2, "one demand site per placemark")
    for d, p in zip(D, P):
        c.eq(d.longitude, p[0], "demand site longitude")
        c.eq(d.latitude, p[1], "demand site latitude")
        c.check(d.altitude is None, "altitude of demand sites is ignored")
    c.reach("end")


# ---- CSV ----

class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def file(self, name, text):
        p = os.path.join(self.d, name)
        with open(p, "w") as f:
            f.write(text)
        return p


def csv_sites(c):
    from terragraph_planner.common.data_io.csv_library import load_input_sites_from_csv_file
    L = T.LocationType
    user = c.flag("user input")
    rows = []
    for i in range(2):
        rows.append(dict(lat=["10.5", "-3"][i], lon=["20.25", "4.5"][i], alt=c.choice(f"alt{i}", ["", "12.5"]), h=["", "3"][i] if c.flag("heights") else "7",
                         name=["n0", "n1"][i], type=["DN", "cn"][i], sku=c.choice(f"sku{i}", ["", "D1"]), subs=["", "3"][i], loc=["Rooftop", c.choice("loc", ["", "STREET_LEVEL"])][i]))
    head = c.choice("head", ["lat,LON,alt,height,name,type,sku,number_of_subscribers,location type", "Latitude,base_lon,Altitude,install_height,site name,site_type,Device SKU,demand sites,Location_Type"])
    with scratch() as d:
        p = d.file("s.csv", head + "\n" + "\n".join(",".join(r.values()) for r in rows) + "\n")
        out = load_input_sites_from_csv_file(p, user)
    num = lambda v: None if v == "" else float(v)  # noqa
    c.check(len(out) == 2, "one site per row")
    for r, w in zip(out, rows):
        c.check(type(r.altitude) in (type(None), float) and type(r.height) in (type(None), float), "altitudes and heights are numbers or missing")
        c.check((r.latitude, r.longitude, r.altitude, r.height) == (num(w["lat"]), num(w["lon"]), num(w["alt"]), num(w["h"])), "position of the row")
        c.check(r.site_type == T.SiteType[w["type"].upper()] and (r.name or "") == w["name"] and r.device_sku == (w["sku"] or None), "type, name and device of the row")
        c.check(r.number_of_subscribers == (int(w["subs"]) if w["subs"] else None), "subscribers of the row")
        c.check(r.location_type == (L[w["loc"].upper()] if w["loc"] else L.UNKNOWN), "location type of the row")
    c.reach("end")


def csv_links(c):
    from terragraph_planner.common.data_io.utils import extract_topology_from_csv_files
    from terragraph_planner.common.exceptions import DataException
    form = c.choice("form", ["sites", "tx_site,to_site", "Site1,site2_name"])
    pool = ["a", "b", "c", "z"]
    L = [(c.choice(f"from{i}", pool[:3]), c.choice(f"to{i}", pool)) for i in range(2)]
    for a, b in L:
        c.assume(a != b)
    types = {"a": "POP", "b": "DN", "c": "CN"}
    with scratch() as d:
        s = d.file("sites.csv", "name,type,lat,lon\n" + "".join(f"{n},{t},{10 + i / 1000},20\n" for i, (n, t) in enumerate(types.items())))
        l = d.file("links.csv", form + "\n" + "".join((f"{a}-->{b}\n" if form == "sites" else f"{a},{b}\n") for a, b in L))
        two = form.startswith("Site1")
        bad = L[0] == L[1] or two and L[0] == L[1][::-1] or any(b == "z" for _, b in L)
        try:
            top = extract_topology_from_csv_files(s, l, [dev("D1"), dev("C1", False)], None)
        except DataException:
            c.check(bad, "tables of distinct links between known sites are accepted")
            return
    c.check(not bad, "duplicate links and links to missing sites are rejected")
    got = {(k.tx_site.name, k.rx_site.name) for k in top.links.values()}
    need = {k for k in L if k[0] != "c"} | ({k[::-1] for k in L if k[1] != "c"} if two else set())
    c.check(need <= got <= {k for k in L + [k[::-1] for k in L] if k[0] != "c"}, "links of the table, both directions for site pairs, none from CNs")
    c.check(all(k.is_wireless and k.status_type == T.CAN for k in top.links.values()), "links of tables are wireless candidates")
    c.check({(s.name, s.site_type.name) for s in top.sites.values()} == set(types.items()), "sites of the table")
    c.reach("end")


class tokens:
    """texts of symbolic numbers: float(text) inside the module yields the number"""
    def __init__(self, c, mod):
        self.c, self.mod, self.of = c, mod, {}

    def text(self, v):
        if not isinstance(v, SymNum):
            return repr(v)
        t = f"{1000 + len(self.of)}.5"
        self.of[t] = v
        return t

    def __enter__(self):
        self.p = plain_casts(self.mod)
        self.p.__enter__()
        self.q = None
        if self.c.symbolic:
            old = vars(self.mod).get("float", float)
            self.q = mock.patch.object(self.mod, "float", lambda v: self.of[v.strip()] if isinstance(v, str) and v.strip() in self.of else old(v), create=True)
            self.q.__enter__()

    def __exit__(self, *a):
        if self.q:
            self.q.__exit__(*a)
        self.p.__exit__(*a)


def dms(c):
    from terragraph_planner.common.data_io import csv_library
    tk = tokens(c, csv_library)
    d, m, s = c.int("deg", 0, 90), c.int("min", 0, 59), c.real("sec", 0, 59.9)
    side = c.choice("side", ["N", "S", "E", "W"])
    with tk:
        sign = 1 if side in "NE" else -1
        v = csv_library.dms_to_decimal(c.choice("form", ["{}°{}'{}\"{}", " {}° {}' {}\" {} "]).format(tk.text(d), tk.text(m), tk.text(s), side))
        c.close(v, sign * (d + m / 60 + s / 3600), "degrees, minutes and seconds")
        f = c.real("decimal", 0, 180)
        c.close(csv_library.dms_to_decimal(c.choice("form2", ["{}° {}", "{} {}"]).format(tk.text(f), side)), sign * f, "decimal degrees with a direction")
        c.reach("end")


def mcs(c, n, order, backoff):
    from terragraph_planner.common.data_io import csv_library
    from terragraph_planner.common.exceptions import DataException
    tk = tokens(c, csv_library)
    cols = ["mcs", "snr", "mbps"] + (["tx_backoff"] if backoff else [])
    head = {"mcs": "MCS", "snr": "SNR (dB)", "mbps": "Mbps", "tx_backoff": "tx_backoff"}
    order = [o for o in order if o in cols]
    V = [{k: c.int(f"mcs{i}", 0, 12) if k == "mcs" else c.real(f"{k}{i}", -10, 40) for k in cols} for i in range(n)]
    lo, pmax, pmin = c.int("min mcs", 0, 12), c.real("max power", 0, 40), c.real("min power", 0, 40)
    c.assume(pmin <= pmax)
    p = T.sp()
    p.maximum_tx_power = pmax
    p.minimum_mcs_level = lo if n < 3 and c.flag("mcs limit") else None
    p.minimum_tx_power = pmin if (n < 3 or backoff) and c.flag("power limit") else None
    with scratch() as d, tk:
        f = d.file("m.csv", ",".join(head[k] for k in order) + "\n" + "".join(",".join(tk.text(r[k]) for k in order) + "\n" for r in V))
        up = lambda r, s: c.AND(*[r[k] < s[k] for k in cols])  # noqa
        good = c.AND(*[c.OR(up(r, s), up(s, r)) for r, s in itertools.combinations(V, 2)])
        worse = c.OR(*[c.AND(r[a] < s[a], r[b] > s[b]) for r, s in itertools.permutations(V, 2) for a, b in itertools.permutations(cols, 2)])
        low = p.minimum_mcs_level is not None and c.AND(*[r["mcs"] < lo for r in V])
        try:
            out = csv_library.read_mcs_snr_mbps_map_data(f, p)
        except DataException:
            c.check(c.OR(c.NOT(good), low), "consistent tables reaching the minimum class are accepted")
            return
        c.check(c.NOT(worse), "tables in which a higher class has a lower threshold, throughput or backoff are rejected")
        c.check(c.NOT(low), "tables without any allowed class are rejected")
        keep = [r for r in V if (p.minimum_mcs_level is None or bool(r["mcs"] >= lo)) and (p.minimum_tx_power is None or bool(pmax - r.get("tx_backoff", 0) >= pmin))]
        c.check(len(out) == len(keep), "rows of the allowed classes and powers")
        for m, r in zip(out, keep):
            c.eq(m.mcs, r["mcs"], "class of the row")
            c.eq(m.snr, r["snr"], "threshold of the row")
            c.eq(m.mbps, r["mbps"], "throughput of the row")
            c.eq(m.tx_backoff, r.get("tx_backoff", 0), "backoff of the row")
        c.reach("end")


# ---- parameters ----

def between(a=None, b=None, open_a=False, open_b=False):
    def ok(c, v):
        return c.AND(True if a is None else v > a if open_a else v >= a, True if b is None else v < b if open_b else v <= b)
    return ok


NONNEG, POS, ANY = between(0), between(0, open_a=True), between()
SECTOR = dict(antenna_boresight_gain=NONNEG, maximum_tx_power=NONNEG, number_sectors_per_node=between(1), horizontal_scan_range=between(0, 360), carrier_frequency=POS,
              thermal_noise_power=ANY, noise_figure=NONNEG, rain_rate=NONNEG, link_availability_percentage=between(0, 100), tx_diversity_gain=NONNEG,
              rx_diversity_gain=NONNEG, tx_miscellaneous_loss=NONNEG, rx_miscellaneous_loss=NONNEG, minimum_mcs_level=NONNEG, minimum_tx_power=between(None, 16))
SECTOR_D = dict(antenna_boresight_gain=30.0, maximum_tx_power=16.0, number_sectors_per_node=1, horizontal_scan_range=70.0, carrier_frequency=60000.0,
                thermal_noise_power=-81.0, noise_figure=7.0, rain_rate=30.0, link_availability_percentage=99.9, tx_diversity_gain=0.0, rx_diversity_gain=0.0,
                tx_miscellaneous_loss=0.0, rx_miscellaneous_loss=0.0, minimum_mcs_level=None, minimum_tx_power=None)
LOS = dict(minimum_mcs_of_backhaul_links=NONNEG, minimum_mcs_of_access_links=NONNEG, maximum_eirp=ANY, rain_rate=ANY, link_availability_percentage=ANY,
           maximum_los_distance=between(50, open_a=True), minimum_los_distance=between(5, 200, open_b=True), maximum_elevation_scan_angle=between(0, 90),
           carrier_frequency=ANY, thermal_noise_power=ANY, noise_figure=ANY, mounting_height_above_rooftop=NONNEG, default_dn_height_on_pole=NONNEG,
           default_cn_height_on_pole=NONNEG, default_pop_height_on_pole=NONNEG, fresnel_radius=POS, los_confidence_threshold=between(0, 1))
LOS_D = dict(minimum_mcs_of_backhaul_links=None, minimum_mcs_of_access_links=None, maximum_eirp=None, rain_rate=30.0, link_availability_percentage=99.9,
             maximum_los_distance=200, minimum_los_distance=50, maximum_elevation_scan_angle=25, carrier_frequency=60000.0, thermal_noise_power=-81.0, noise_figure=7.0,
             mounting_height_above_rooftop=1.5, default_dn_height_on_pole=5.0, default_cn_height_on_pole=5.0, default_pop_height_on_pole=5.0, fresnel_radius=1.0,
             los_confidence_threshold=0.8)
OPT = dict(pop_site_capex=NONNEG, cn_site_capex=NONNEG, dn_site_capex=NONNEG, budget=NONNEG, pop_capacity=POS, oversubscription=between(1), number_of_extra_pops=NONNEG,
           demand_spacing=ANY, demand_connection_radius=ANY, demand=POS, dn_dn_sector_limit=between(0, 15, open_a=True), dn_total_sector_limit=between(2),
           maximum_number_hops=POS, diff_sector_angle_limit=between(0, 180), near_far_length_ratio=POS, near_far_angle_limit=between(0, 180),
           number_of_channels=between(1), backhaul_link_redundancy_ratio=between(0, 1), num_threads=POS, min_cost_max_time=POS, redundancy_max_time=POS,
           max_coverage_max_time=POS, interference_max_time=POS, pop_proposal_max_time=POS, demand_site_max_time=POS, availability_max_time=POS,
           min_cost_rel_stop=ANY, redundancy_rel_stop=ANY, availability_sim_time=ANY, maximum_eirp=ANY, rain_rate=ANY, noise_figure=ANY, carrier_frequency=ANY,
           thermal_noise_power=ANY, link_availability_percentage=ANY)
OPT_D = dict(pop_site_capex=1500.0, cn_site_capex=1500.0, dn_site_capex=1500.0, budget=300000.0, pop_capacity=10.0, oversubscription=1.0, number_of_extra_pops=0,
             demand_spacing=0.0, demand_connection_radius=0.0, demand=0.025, dn_dn_sector_limit=2, dn_total_sector_limit=15, maximum_number_hops=15,
             diff_sector_angle_limit=25.0, near_far_length_ratio=3.0, near_far_angle_limit=45.0, number_of_channels=1, backhaul_link_redundancy_ratio=0.2, num_threads=None,
             min_cost_max_time=60, redundancy_max_time=60, max_coverage_max_time=60, interference_max_time=60, pop_proposal_max_time=60, demand_site_max_time=15,
             availability_max_time=60, min_cost_rel_stop=0.05, redundancy_rel_stop=0.05, availability_sim_time=100.0, maximum_eirp=None, rain_rate=30.0, noise_figure=7.0,
             carrier_frequency=60000.0, thermal_noise_power=-81.0, link_availability_percentage=99.9)
WHOLE = {"number_sectors_per_node", "minimum_mcs_level", "minimum_mcs_of_backhaul_links", "minimum_mcs_of_access_links", "maximum_los_distance", "minimum_los_distance",
         "number_of_extra_pops", "dn_dn_sector_limit", "dn_total_sector_limit", "maximum_number_hops", "number_of_channels", "num_threads", "number_of_nodes_per_site"}
PROJECT = ["carrier_frequency", "thermal_noise_power", "noise_figure", "rain_rate", "link_availability_percentage"]


def device_dicts():
    return [dict(DEVICE_SKU="A", DEVICE_TYPE="DN", sector_params=dict(NOISE_FIGURE=3.0)), dict(device_sku="B", device_type="CN", sector_params={})]


def params(c, what):
    from terragraph_planner.common.configuration import configs
    from terragraph_planner.common.exceptions import ConfigException
    cls, rules, default = {"sector": (configs.SectorParams, SECTOR, SECTOR_D), "los": (configs.LOSParams, LOS, LOS_D), "optimizer": (configs.OptimizerParams, OPT, OPT_D)}[what]
    k = c.choice("parameter", sorted(rules))
    v = c.int("value", -1000, 1000) if k in WHOLE or k.endswith("max_time") else c.real("value", -1000, 400000)
    file = c.flag("from configuration file")
    rule = SECTOR[k] if file and k in PROJECT else rules[k]
    kw = {k: v}
    if what != "sector":
        kw["device_list"] = device_dicts() if file else [dev("A"), dev("B", False)]
    if file:
        other = c.choice("omitted", [None, "null"])
        kw = {(q if q == "device_list" else c.choice("case", [str.upper, str.lower])(q)): w for q, w in kw.items()}
        if other:
            kw["noise_figure" if k != "noise_figure" else "rain_rate"] = None
    try:
        p = cls.from_dict(kw) if file else cls(**kw)
    except ConfigException:
        c.check(c.NOT(rule(c, v)), "documented values are accepted")
        return
    c.check(rule(c, v), "values outside the documented range are rejected")
    c.eq(getattr(p, k), v, "the parameter is stored as given")
    for q, w in default.items():
        if q != k:
            c.check(getattr(p, q) == w, "documented defaults of the other parameters")
    if what != "sector":
        c.check([d.device_sku for d in p.device_list] == ["A", "B"] and [d.device_type.name for d in p.device_list] == ["DN", "CN"], "devices")
        for d in p.device_list:
            for q in PROJECT:
                c.eq(getattr(d.sector_params, q), v if q == k else default[q], "radio parameters of the project apply to every device")
    c.reach("end")


def coupled(c, which):
    from terragraph_planner.common.configuration import configs
    from terragraph_planner.common.exceptions import ConfigException
    D = [dev("A"), dev("B", False)]
    if which == "powers":
        a, b = c.real("minimum", -50, 50), c.real("maximum", -50, 50)
        make, ok = lambda: configs.SectorParams(minimum_tx_power=a, maximum_tx_power=b), c.AND(b >= 0, a <= b)
    elif which == "distances":
        a, b = c.int("minimum", -50, 500), c.int("maximum", -50, 500)
        none = c.flag("unlimited")
        make = lambda: configs.LOSParams(D, minimum_los_distance=a, maximum_los_distance=None if none else b)  # noqa
        ok = c.AND(a >= 5, True if none else a < b)
    elif which == "sector limits":
        a, b = c.int("dn", -5, 20), c.int("total", -5, 20)
        make, ok = lambda: configs.OptimizerParams(D, dn_dn_sector_limit=a, dn_total_sector_limit=b), c.AND(a > 0, b >= a)
    elif which == "demand":
        cn, uni, man = c.flag("cn"), c.flag("uniform"), c.flag("manual")
        a, b = c.real("spacing", -50, 500), c.real("radius", -50, 500)
        make = lambda: configs.OptimizerParams(D, enable_cn_demand=cn, enable_uniform_demand=uni, enable_manual_demand=man, demand_spacing=a, demand_connection_radius=b)  # noqa
        ok = c.AND(cn or uni or man, a > 0 if uni else True, b > 0 if uni or man else True)
    elif which == "device":
        t = c.choice("type", [T.DeviceType.DN, T.DeviceType.CN])
        n = c.int("nodes", -2, 12) if c.flag("nodes given") else None
        capex, s, r = c.real("capex", -10, 1000), c.int("sectors", 1, 12), c.real("scan", 0, 360)
        sp = configs.SectorParams(number_sectors_per_node=s, horizontal_scan_range=r)
        make = lambda: configs.DeviceData("x", sp, capex, n, t)  # noqa
        cnt = n if n is not None else 1 if t == T.DeviceType.CN else 4
        ok = c.AND(capex >= 0, cnt >= 1, c.OR(t == T.DeviceType.DN, cnt == 1), r * s * cnt <= 360)
    elif which == "corner angle":
        a = c.real("angle", -10, 400)
        make, ok = lambda: configs.SiteDetectionParams(max_corner_angle=a), c.AND(a > 0, a < 180)
    else:  # devices
        s = [c.choice(f"sku{i}", ["a", "A", "b", ""]) for i in range(3)]
        cls = c.choice("class", [configs.LOSParams, configs.OptimizerParams])
        k = c.choice("count", [0, 2, 3])
        make = lambda: cls([dev(x) for x in s[:k]])  # noqa
        ok = k > 0 and all(s[:k]) and len({x.casefold() for x in s[:k]}) == k
    try:
        p = make()
    except ConfigException:
        c.check(c.NOT(ok), "documented values are accepted")
        return
    c.check(ok, "values outside the documented range are rejected")
    if which == "device":
        c.eq(p.number_of_nodes_per_site, cnt, "nodes per site")
        c.eq(p.node_capex, capex, "node price")
    c.reach("end")


def config_file(c):
    """misspelt fields are found at every level; names are case-insensitive; omitted and null fields get their defaults"""
    import yaml
    import json
    from terragraph_planner.common.configuration.constants import OPTIMIZATION, LINE_OF_SIGHT, SYSTEM
    from terragraph_planner.common.configuration.utils import struct_objects_from_file
    from terragraph_planner.common.exceptions import PlannerException
    what = c.choice("what", [OPTIMIZATION, LINE_OF_SIGHT, SYSTEM])
    where = c.choice("field", ["RADIO", "NETWORK_DESIGN", "LINE_OF_SIGHT", "SYSTEM", "device", "sector", "group", "top", "none"])
    name = c.choice("name", ["typo", "lower", "missing section"])
    dn = {"DEVICE_SKU": "A", "DEVICE_TYPE": "DN", "NODE_CAPEX": 11.5, "SECTOR_PARAMS": {"MAXIMUM_TX_POWER": 9.5, "HORIZONTAL_SCAN_RANGE": None}}
    cn = {"DEVICE_SKU": "B", "DEVICE_TYPE": "CN"}
    data = {"SYSTEM": {"DEBUG_MODE": True}, "RADIO": {"MAXIMUM_EIRP": 33.5, "RAIN_RATE": None, "DEVICE_LIST": [dn, {**cn, "SECTOR_PARAMS": {"MAXIMUM_TX_POWER": None}}]},
            "NETWORK_DESIGN": {"FINANCIAL": {"BUDGET": None}, "DIMENSIONING": {"DEMAND": 0.5}, "POP_CAPACITY": 3.5},
            "LINE_OF_SIGHT": {"FRESNEL_RADIUS": 1.5, "MINIMUM_LOS_DISTANCE": None, "SITE_DETECTION": {"DETECT_CENTERS": True, "MAX_CORNER_ANGLE": None}}}
    part, key = {"device": (dn, "NODE_CAPEX"), "sector": (dn["SECTOR_PARAMS"], "MAXIMUM_TX_POWER"), "top": (data, "NETWORK_DESIGN"), "none": (None, None), "group": (data["NETWORK_DESIGN"]["DIMENSIONING"], "DEMAND"),
                 "RADIO": (data["RADIO"], "MAXIMUM_EIRP"), "NETWORK_DESIGN": (data["NETWORK_DESIGN"], "POP_CAPACITY"), "LINE_OF_SIGHT": (data["LINE_OF_SIGHT"], "FRESNEL_RADIUS"),
                 "SYSTEM": (data["SYSTEM"], "DEBUG_MODE")}[where]
    bad = False
    if part is not None:
        if name == "missing section":
            sec = "RADIO" if where in ("device", "sector") else "NETWORK_DESIGN" if where in ("top", "group") else where
            del data[sec]
            bad = sec in {OPTIMIZATION: ("RADIO", "NETWORK_DESIGN"), LINE_OF_SIGHT: ("LINE_OF_SIGHT",), SYSTEM: ()}[what]
            if what == LINE_OF_SIGHT and sec == "RADIO":
                return
        elif name == "typo":
            part[key + "X"] = part.pop(key)
            bad = True
        elif where != "top":
            part[key.lower()] = part.pop(key)
    with scratch() as d:
        p = d.file("c.yml", yaml.safe_dump(data)) if c.flag("yaml") else d.file("c.json", json.dumps(data))
        try:
            o = struct_objects_from_file(what, p)
        except PlannerException:
            c.check(bad, "complete configurations are accepted")
            return
    c.check(not bad, "misspelt fields and missing sections are rejected")
    if what == SYSTEM:
        c.check(o.debug_mode is ("SYSTEM" in data) and o.log_to_stderr is True, "system parameters")
    else:
        c.check(o.rain_rate == 30.0 and o.maximum_eirp == 33.5, "radio parameters")
        a, b = o.device_list
        c.check((a.device_sku, a.node_capex, a.sector_params.maximum_tx_power, b.device_sku, b.node_capex, b.sector_params.maximum_tx_power) == ("A", 11.5, 9.5, "B", 250.0, 16.0),
                "devices of the file, defaults for the rest")
        c.check(a.number_of_nodes_per_site == 4 and b.number_of_nodes_per_site == 1, "default nodes of the device types")
        c.check(all(x.sector_params.noise_figure == 7.0 for x in o.device_list), "radio parameters of the project apply to every device")
    if what == OPTIMIZATION:
        c.check(o.demand == 0.5 and o.budget == 300000.0 and o.pop_capacity == 3.5, "network design parameters")
    if what == LINE_OF_SIGHT:
        c.check(o.fresnel_radius == 1.5 and o.minimum_los_distance == 50 and o.site_detection.detect_centers is True and o.site_detection.max_corner_angle is None
                and o.site_detection.detect_corners is True, "line of sight parameters")
    c.reach("end")


# ---- locations ----

class Level:
    def __init__(self, v):
        self.v = v

    def get_value(self, x, y):
        return self.v


def infer(c):
    from terragraph_planner.los import helper
    from terragraph_planner.los.constants import BUILDING_HEIGHT_THRESHOLD
    L = T.LocationType
    s, t = c.real("surface", -100, 5000), c.real("terrain", -100, 5000)
    has_s, has_t = c.flag("surface known"), c.flag("terrain known")
    alt = c.real("altitude", -100, 5000) if c.flag("altitude given") else None
    h = c.real("height", 0, 50) if c.flag("height given") else None
    loc, typ = c.choice("loc", [L.UNKNOWN, L.ROOFTOP, L.STREET_LEVEL]), c.choice("type", [T.POP, T.DN, T.CN])
    d = {k: c.real(k, 0, 20) for k in ("roof", "pop", "dn", "cn")}
    with plain_casts(helper):
        g, l = helper.infer_input_site_location(latitude=10.0, longitude=20.0, altitude=alt, height=h, location_type=loc, site_type=typ,
                                                surface_elevation=Level(s) if has_s else None, terrain_elevation=Level(t) if has_t else None,
                                                mounting_height_above_rooftop=d["roof"], default_pop_height_on_pole=d["pop"], default_dn_height_on_pole=d["dn"],
                                                default_cn_height_on_pole=d["cn"])
    c.check((g.latitude, g.longitude) == (10.0, 20.0), "the position stays")
    if loc == L.UNKNOWN and has_s and has_t:
        roof = s - t >= BUILDING_HEIGHT_THRESHOLD
        c.check(c.OR(c.AND(roof, l == L.ROOFTOP), c.AND(c.NOT(roof), l == L.STREET_LEVEL)), "unknown locations on buildings are rooftops, others at street level")
    else:
        c.check(l == loc, "known location types stay")
    if alt is not None or not has_s:
        c.check((g.altitude is None) == (alt is None), "given altitudes stay")
        if alt is not None:
            c.eq(g.altitude, alt, "given altitudes stay")
    elif h is not None:
        c.eq(g.altitude, s + h, "heights are above the surface")
    else:
        c.eq(g.altitude, s + (d["roof"] if l == L.ROOFTOP else d[typ.name.lower()]), "default heights above the surface")
    c.reach("end")


def geotiff_date(c):
    import numpy as np
    from osgeo import gdal, osr
    from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
    from terragraph_planner.common.structs import UTMBoundingBox
    date = c.choice("date", [None, "2019:03:04 05:06:07", "2021:12:31 00:00:00"])
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32631)
    with scratch() as d:
        p = os.path.join(d.d, "e.tif")
        ds = gdal.GetDriverByName("GTiff").Create(p, xsize=4, ysize=4, bands=1, eType=gdal.GDT_Float32)
        ds.SetGeoTransform([500000.0, 1.0, 0, 4000000.0, 0, -1.0])
        ds.SetSpatialRef(sr)
        if date:
            ds.SetMetadataItem("TIFFTAG_DATETIME", date)
        ds.GetRasterBand(1).WriteArray(np.arange(16.0).reshape(4, 4))
        ds = None
        e = ElevationLoader().read([p], 32631, UTMBoundingBox(min_utm_x=500000.0, max_utm_x=500004.0, min_utm_y=3999996.0, max_utm_y=4000000.0))
    c.check(e.data_matrix.shape == (4, 4) and e.data_matrix[1, 2] == 6, "elevations of the file")
    c.reach("end")


def kml_round(c):
    """links of written topologies are read with the positions and names of their sites, also without altitudes"""
    from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
    from terragraph_planner.common.data_io.utils import extract_topology_from_file
    L = T.LocationType
    d, cn = dev("D1"), dev("C1", False)
    alt = c.flag("altitudes")
    roof = c.flag("rooftop")
    st = c.choice("status", [T.CAN, T.UNA, T.UNR])
    name = c.choice("name", ["p", "a & <b>", ""])
    def mk(t, dv, nm, lat, s, subs=None):
        return T.Site(t, T.GeoLocation(latitude=lat, longitude=20.5, altitude=7.5 if alt else None), dv, s, L.ROOFTOP if roof and t == T.DN else L.STREET_LEVEL,
                      3 if roof and t == T.DN else None, nm, subs)
    S = [mk(T.POP, d, name, 10.0, T.EXI), mk(T.DN, d, "d", 10.001, T.CAN), mk(T.CN, cn, "c", 10.002, st, 2)]
    top = T.Topology(S, [], [], [])
    conf = c.choice("confidence", [None, 0.9, 1.0])
    for a, b, s in ((0, 1, T.CAN), (1, 0, T.CAN), (1, 2, st)):
        top.add_link(T.Link(S[a], S[b], None, None, s, True, conf))
    with scratch() as w:
        p = os.path.join(w.d, "t.kml")
        write_to_kml_file(top, p)
        got = extract_topology_from_file(p, [d, cn], None)
    show = lambda t: sorted((s.name if s.name != s.site_id else "", s.site_type.name, s.status_type.name, s.location_type.name, s.latitude, s.longitude, s.altitude or 0, s.device.device_sku, s.number_of_subscribers) for s in t.sites.values())  # noqa
    if name:
        c.check(show(top) == show(got), "sites come back unchanged")
    key = lambda t: sorted((l.tx_site.latitude, l.rx_site.latitude, l.status_type.name, l.confidence_level or 0, l.is_wireless) for l in t.links.values())  # noqa
    c.check(key(top) == key(got), "links come back unchanged")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case("names of 2 sites", lambda c: names(c, 2)), Case("names of 3 sites", lambda c: names(c, 3)),
           Case("kinds of sites", lambda c: kinds(c, False)), Case("kinds of sites, inferred locations", lambda c: kinds(c, True)),
           Case("boundary", boundary), Case("unknown devices", unknown_device), Case("named links", named),
           Case("links by place, apart", lambda c: located(c, False)), Case("links by place, together", lambda c: located(c, True)),
           Case("KML sites", kml_sites), Case("KML links", kml_links), Case("CSV sites", csv_sites), Case("CSV links", csv_links), Case("degrees", dms),
           Case("inferred locations", infer), Case("GeoTIFF date", geotiff_date), Case("written topologies", kml_round), Case("configuration files", config_file)]
    for n, o, b in ((2, ["mcs", "snr", "mbps", "tx_backoff"], True), (3, ["mbps", "mcs", "snr"], False), (2, ["tx_backoff", "snr", "mcs", "mbps"], True)) + \
            (((3, ["mcs", "snr", "mbps", "tx_backoff"], True),) if BIG else ()):
        out.append(Case(f"MCS table {n} rows {'/'.join(o)}", lambda c, n=n, o=o, b=b: mcs(c, n, o, b)))
    for w in ("sector", "los", "optimizer"):
        out.append(Case(f"{w} parameters", lambda c, w=w: params(c, w)))
    for w in ("powers", "distances", "sector limits", "demand", "device", "corner angle", "devices"):
        out.append(Case(f"coupled: {w}", lambda c, w=w: coupled(c, w)))
    return out
