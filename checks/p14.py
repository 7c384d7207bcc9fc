"""Assignment of antenna sectors to links."""
import inspect
import math
from unittest import mock

import numpy as np

from vlib import symex
from vlib import topo as T
from vlib.runner import Case
from vlib.symex import SymNum

META = {
    "functions": ["topology_preparation.add_sectors_to_links", "validate_link_sectors", "get_sector_azimuths_from_node_center", "find_best_sectors",
                  "find_best_equidistant_sectors", "create_dn_sectors", "create_cn_sectors", "add_link_capacities", "setup_node_structure",
                  "topology_operations.readjust_sectors_post_opt", "_set_sector_status_in_same_node", "geos.angle_delta", "validate_topology_status"],
    "bounds": "assignment: both ends of one link with up to three sectors of arbitrary real azimuths, arbitrary real beam azimuths and scan ranges, all statuses, "
              "with and without the full scan range of CNs; node geometry: arbitrary centre and scan range, one to four sectors; orientation search: one or two "
              "neighbours at arbitrary real bearings, one or two nodes of one or two sectors, candidate orientations every 30 degrees (CN: every 3 degrees for one "
              "neighbour); readjustment: five sites with every combination of active statuses, fixed geometry",
    "outside": "more neighbours; the trigonometry behind bearings (given as arbitrary angles); acceptance of user supplied node geometry",
    "assumptions": ["arithmetic is exact (reals)"],
}
BIG = False
TOL = 1e-2


def circ(c, a, b):
    """angular distance of two azimuths in [0, 360)"""
    d = abs(a - b)
    return c.ITE(d > 180, 360 - d, d)


def assign(c, n_from, n_to, cn):
    from terragraph_planner.optimization import topology_preparation as tp
    kind = c.choice("kind", ("new", "active", "wired"))
    hs = [c.real("scan_from", 0, 360, strict_lo=True), c.real("scan_to", 0, 360, strict_lo=True)]
    full = c.flag("full_cn_range")
    st = T.PRO if kind == "active" else T.CAN
    devs = [T.dn_device("DA", scan=70.0), T.cn_device("DB") if cn else T.dn_device("DB", scan=70.0)]
    for d, h in zip(devs, hs):
        d.sector_params.horizontal_scan_range = h
    A, B = T.site("A", T.DN, 0, 0, st, devs[0]), T.site("B", T.CN if cn else T.DN, 100, 0, st, devs[1])
    # every second sector of an active site was there before
    old = kind == "active" and c.flag("existing_sector")
    if old:
        A._status_type = T.EXI
    az = [[c.real(f"azimuth_{s}{k}", 0, 360) for k in range(n)] for s, n in (("A", n_from), ("B", n_to))]
    secs = [[T.sector(x, 0 if not T.CN else k, k, a, (T.EXI if old and x is A and k == 0 else T.CAN)) for k, a in enumerate(l)] for x, l in ((A, az[0]), (B, az[1]))]
    for l in az:
        for a in l:
            c.assume(a < 360)
    link = T.link(A, B, 1.0, status=st, wireless=kind != "wired")
    rev = None if cn else T.link(B, A, 1.0, status=st, wireless=kind != "wired")
    beam = [c.real("beam_from", 0, 360), c.real("beam_to", 0, 360)]
    for b in beam:
        c.assume(b < 360)
    link._tx_beam_azimuth, link._rx_beam_azimuth = beam
    if rev:
        rev._tx_beam_azimuth, rev._rx_beam_azimuth = beam[::-1]
    links = [link] + ([rev] if rev else [])
    top = T.Topology([A, B], [], secs[0] + secs[1], links)
    chan = {l.link_id: 1 for l in links} if kind == "active" else None
    from terragraph_planner.common.exceptions import OptimizerException
    err = None
    try:
        with symex.swapped((tp.bearing_in_degrees, lambda lo, la, *_: beam[0] if (lo, la) == (A.longitude, A.latitude) else beam[1])):
            tp.add_sectors_to_links(top, full, chan)
    except OptimizerException as e:
        err = e
    dist = [[circ(c, a, beam[k]) for a in az[k]] for k in (0, 1)]
    lim = [hs[0] / 2 + TOL, (360 if full and cn else hs[1]) / 2 + TOL]
    cover = [c.OR(*[d < lim[k] for d in dist[k]]) if dist[k] else False for k in (0, 1)]
    if kind == "wired":
        c.check(err is None and all(l.tx_sector is None and l.rx_sector is None for l in links), "wired links have no sectors")
        return c.reach("end")
    if err is not None:
        c.check(kind == "active", "only active links must have sectors")
        c.check(c.NOT(c.AND(*cover)), "active link rejected although both ends are covered")
        return c.reach("rejected")
    if link.tx_sector is None or link.rx_sector is None:
        c.check(all(l.tx_sector is None and l.rx_sector is None for l in links), "no sectors on either side, in both directions")
        c.check(c.NOT(c.AND(*cover)), "link with both ends covered has sectors")
        c.check(kind != "active", "active links have sectors")
        return c.reach("uncovered")
    c.check(c.AND(*cover), "link with sectors is covered at both ends")
    for k, s in ((0, link.tx_sector), (1, link.rx_sector)):
        i = secs[k].index(s)
        c.check(dist[k][i] < lim[k], "assigned sector covers the link direction")
        for j in range(len(dist[k])):
            c.le(dist[k][i], dist[k][j], "assigned sector is the nearest one")
    if rev:
        c.check(rev.tx_sector is link.rx_sector and rev.rx_sector is link.tx_sector, "both directions use the same sectors")
    for s in secs[0] + secs[1]:
        was = T.EXI if old and s is secs[0][0] else T.CAN
        used = s is link.tx_sector or s is link.rx_sector
        want = T.PRO if used and kind == "active" and was == T.CAN else was
        c.check(s.status_type == want, "sectors of active links become active, no other sector changes")
        c.check(s.channel == (1 if used and kind == "active" else -1), "sectors of active links get the channel of the link")
    c.reach("end")


def _np(tp):
    """numpy with an arange that accepts symbolic bounds"""
    class NP:
        def __getattr__(self, n):
            return getattr(np, n)

        @staticmethod
        def arange(start, stop=None, step=1, **kw):
            if not any(isinstance(x, SymNum) for x in (start, stop, step)):
                return np.arange(start, stop, step, **kw) if stop is not None else np.arange(start, **kw)
            out, x, k = [], start, 0
            while start + k * step < stop:
                out.append(start + k * step)
                k += 1
            return np.array(out, dtype=object)
    return mock.patch.object(tp, "np", NP())


def node(c, n):
    """sectors of a node are one scan range apart and centred"""
    from terragraph_planner.optimization import topology_preparation as tp
    hs = c.real("scan", 0, 360 / n, strict_lo=True)
    cb = c.real("centre", 0, 360)
    with _np(tp):
        got = list(tp.get_sector_azimuths_from_node_center(cb, n, hs))
    c.check(len(got) == n, "one azimuth per sector")
    for k, a in enumerate(got):
        c.check(c.AND(0 <= a, a < 360), "azimuth in [0, 360)")
        want = cb + (k - (n - 1) / 2) * hs
        d = a - want
        c.check(c.OR(*[abs(d - 360 * m) < 1e-9 for m in (-2, -1, 0, 1, 2)]), "sectors are spaced by the scan range around the centre")
    c.reach("end")


def orient(c, neighbours, nodes, per, scan, fn, step=30):
    """orientation search with neighbours in arbitrary directions"""
    from terragraph_planner.optimization import topology_preparation as tp
    me = T.site("S", T.DN, 0, 0)
    nb = [T.site(f"N{k}", T.DN, 100.0 + k, 50.0) for k in range(neighbours)]
    ang = [c.real(f"bearing{k}", 0, 360) for k in range(neighbours)]
    for a in ang:
        c.assume(a < 360)
    with symex.swapped((tp.bearing_in_degrees, lambda *a: np.array(ang, dtype=object if c.symbolic else float)), (tp.haversine_distance, lambda *a: np.array([1.0] * neighbours))), mock.patch.object(tp, "DEFAULT_POINTING_PRECISION", step), \
            mock.patch.object(tp, "len", len, create=True):
        if fn == "equidistant":
            got = tp.find_best_equidistant_sectors(me, nb, nodes, per, scan)
        else:
            got = tp.find_best_sectors(me, nb, nodes, per, scan, None, None, None, None, None, None, None)
    got = [list(map(float, n)) for n in got]
    most = min(int(360 / (scan * per)), nodes)
    c.check(1 <= len(got) <= most, "at most the device's number of nodes")
    mid = []
    for n in got:
        c.check(len(n) == per, "device's number of sectors per node")
        for a, b in zip(n, n[1:]):
            c.check(abs((b - a - scan) % 360) < 1e-6, "sectors of one node are spaced by the scan range")
        mid.append((n[0] + (per - 1) / 2 * scan) % 360)
    for i in range(len(mid)):
        for j in range(i):
            d = abs(mid[i] - mid[j])
            c.check(min(d, 360 - d) >= scan * per - 1e-6, "nodes do not overlap")
    sects = [a for n in got for a in n]
    cov = [c.OR(*[circ(c, a, s) < scan / 2 for s in sects]) for a in ang]
    edge = [c.OR(*[circ(c, a, s) <= scan / 2 for s in sects]) for a in ang]
    if fn == "best":
        if neighbours == 1:
            c.check(cov[0], "the only neighbour is covered")
            if per == 1:
                c.check(c.OR(*[circ(c, ang[0], s) <= step / 2 for s in sects]), "a sector points at the only neighbour")
        for n in got:
            c.check(c.OR(*[circ(c, a, (n[0] + (per - 1) / 2 * scan) % 360) < scan * per / 2 for a in ang]), "every node kept sees a neighbour")
        if most == 1 and per == 1:
            # no single candidate orientation covers more
            for x in range(0, 360, step):
                for k in range(neighbours):
                    better = c.AND(*[circ(c, a, x) < scan / 2 for a in ang])
                    c.check(c.OR(c.NOT(better), cov[k]), "a sector that can see every neighbour does")
        else:
            both = [circ(c, a, x) < scan / 2 for a in ang for x in ()]
            if neighbours == 2 and most >= 2 and per == 1:
                # two neighbours far enough apart each get a sector
                far = circ(c, ang[0], ang[1]) >= scan + step
                c.check(c.OR(c.NOT(far), 360 < 2 * (scan + step), c.AND(*cov)), "neighbours far apart are all covered")
    else:
        c.check(len(got) == most, "equidistant nodes use all of the device's nodes")
        if neighbours == 1:
            c.check(edge[0], "the only neighbour is covered")
            if per == 1 and nodes == 1:
                c.check(circ(c, ang[0], sects[0]) <= step / 2, "the sector of a CN points at its only neighbour")
    c.reach("end")


def create(c):
    """which sites get sectors, and how many"""
    from terragraph_planner.optimization import topology_preparation as tp
    dev = T.dn_device("D2", sectors=2, nodes=2, scan=60.0)
    st = {s: c.choice("status_" + s, (T.CAN,) if s == "B" else (T.CAN, T.UNA)) for s in "ABK"}
    S = {"A": T.site("A", T.DN, 0, 0, st["A"], dev), "B": T.site("B", T.POP, 500, 0, st["B"], dev), "C": T.site("C", T.DN, 0, 500, T.CAN, dev),
         "K": T.site("K", T.CN, 300, 300, st["K"]), "L": T.site("L", T.CN, 600, 600, T.CAN)}
    given = c.flag("B_has_sectors")
    secs = [T.sector(S["B"], 0, k, a, T.CAN) for k, a in ((0, 240.0), (1, 300.0))] if given else []
    cgiven = st["K"] == T.CAN and c.flag("K_has_sector")
    if cgiven:
        secs.append(T.sector(S["K"], 0, 0, 200.0, T.CAN))
    wired = c.flag("AC_wired")
    pairs = [("A", "B", True), ("B", "A", True), ("A", "C", not wired), ("C", "A", not wired), ("B", "K", True), ("A", "K", True)]
    T_ = T.Topology(S.values(), [], secs, [T.link(S[i], S[j], wireless=w) for i, j, w in pairs])
    before = {q: (x.ant_azimuth, x.status_type) for q, x in T_.sectors.items()}
    bad = [s for s in "AK" if st[s] != T.CAN and not (s == "K" and cgiven)]
    from terragraph_planner.common.exceptions import TopologyException
    try:
        tp.setup_node_structure(T_)
    except TopologyException:
        c.check(bool(bad), "sectors can be laid out")
        return c.reach("end")
    by = {s: [q for q in T_.sectors.values() if q.site is S[s]] for s in S}
    for q, v in before.items():
        c.check((T_.sectors[q].ant_azimuth, T_.sectors[q].status_type) == v, "sectors in the input stay")
    if given:
        c.check(len(by["B"]) == 2, "sites with sectors get no further ones")
    for s in "ABC":
        nb = {j for i, j, w in pairs if i == s and w}
        if s == "C" and wired:
            c.check(not by[s], "no sectors without wireless links")
            continue
        nodes = {}
        for q in by[s]:
            nodes.setdefault(q.node_id, []).append(q)
            c.check(q.sector_type == T.SectorType.DN, "sector type")
            if not (s == "B" and given):
                c.check(q.status_type == T.CAN, "new sectors are candidates")
        c.check(1 <= len(nodes) <= 2 and all({q.position_in_node for q in n} == {0, 1} for n in nodes.values()), "nodes and sectors of the device")
    c.check(len(by["K"]) == 1 and not by["L"], "CNs with a serving DN get one sector, others none")
    for l in T_.links.values():
        if not l.is_wireless:
            c.check(l.tx_sector is None, "wired links have no sectors")
        elif l.rx_site.site_type == T.CN:
            c.check((l.tx_sector is None) == (l.rx_sector is None), "both or no sectors")
        if l.tx_sector is not None:
            c.check(l.tx_sector in by[l.tx_site.site_id] and l.rx_sector in by[l.rx_site.site_id], "sectors of the link's own sites")
    c.reach("end")


def capacities(c):
    """what the link budget is computed from, and which links have none"""
    from terragraph_planner.common.structs import LinkBudgetMeasurements
    from terragraph_planner.optimization import topology_preparation as tp
    kind = c.choice("kind", ("sectors", "no sectors", "wired"))
    cn = c.flag("to_CN")
    dev = c.flag("with_deviation")
    A = T.site("A", T.DN, 0, 0, altitude=10.0, device=T.dn_device("DA"))
    B = T.site("B", T.CN if cn else T.DN, 300, 100, altitude=c.choice("altitude", (10.0, 60.0)), device=T.cn_device("DC") if cn else T.dn_device("DB"))
    l = T.link(A, B, None, *((T.sector(A, 0, 0, c.real("az_A", 0, 359)), T.sector(B, 0, 0, c.real("az_B", 0, 359))) if kind == "sectors" else (None, None)),
               wireless=kind != "wired")
    p = T.params(device_list=[A.device, B.device], pop_capacity=7.5, maximum_eirp=c.choice("eirp", (None, 40.0)))
    calls = []
    mark = LinkBudgetMeasurements(mcs_level=9, rsl_dbm=-50.0, snr_dbm=10.0, capacity=1.25, tx_power=20.0)

    names = list(inspect.signature(tp.fspl_based_estimation).parameters)

    def est(*a):
        calls.append(dict(zip(names, a)))
        return mark
    with symex.swapped((tp.fspl_based_estimation, est)):
        tp.add_link_capacities(T.Topology([A, B], [], [x for x in (l.tx_sector, l.rx_sector) if x], [l]), p, with_deviation=dev)
    if kind == "wired":
        c.check(l.capacity == 7.5, "wired links carry the POP capacity")
    elif kind == "no sectors":
        c.check(l.capacity == 0 and l.mcs_level == 0, "links without sectors have no capacity")
    else:
        c.check(len(calls) >= 1 and l.capacity == 1.25 and l.mcs_level == 9, "link budget of the link")
        k = calls[0]
        c.check(k["tx_sector_params"] is A.device.sector_params and k["rx_sector_params"] is B.device.sector_params
                and k["mcs_snr_mbps_map"] is B.device.sector_params.mcs_map, "transmitter and receiver parameters")
        c.check(abs(k["distance"] - l.distance) < 1e-9, "distance of the link")
        c.eq(k["tx_deviation"], l.tx_dev if dev else 0, "transmit deviation")
        c.eq(k["rx_deviation"], l.rx_dev if dev else 0, "receive deviation")
        c.eq(k["tx_el_deviation"], l.el_dev if dev else 0, "transmit elevation")
        c.eq(k["rx_el_deviation"], 0 if cn or not dev else -l.el_dev, "receive elevation (CNs are tilted)")
        from terragraph_planner.common.rf.link_budget_calculator import get_max_tx_power
        c.eq(k["max_tx_power"], get_max_tx_power(A.device.sector_params, p.maximum_eirp), "power of the transmitting device")
    c.reach("end")


def readjust(c, sa):
    """after planning: antennas turn towards the links in use, existing ones stay"""
    from terragraph_planner.optimization import topology_operations as to, topology_preparation as tp
    dev = T.dn_device("D2", sectors=2, nodes=2, scan=60.0)
    pos = {"P": (0, 0), "A": (400, 50), "B": (420, 420), "K": (-300, 200), "L": (700, -150)}
    ty = {"P": T.POP, "A": T.DN, "B": T.DN, "K": T.CN, "L": T.CN}
    st = {s: c.choice("status_" + s, (T.CAN, T.PRO, T.EXI) if BIG else (T.CAN, T.EXI) if s == "B" else (T.PRO,)) for s in ("B", "K")}
    st["A"] = sa
    st["P"] = c.choice("status_P", (T.PRO, T.EXI)) if BIG else T.EXI
    st["L"] = T.CAN if st["A"] == T.CAN else T.PRO
    S = {s: T.site(s, ty[s], *pos[s], st[s], None if ty[s] == T.CN else dev) for s in pos}
    pairs = [("P", "A"), ("A", "B"), ("P", "B"), ("P", "K"), ("A", "L"), ("B", "L")]
    links = {}
    for i, j in pairs:
        ok = [x for x in (T.CAN, T.PRO, T.EXI) if not (x == T.PRO and not (st[i] in T.ACTIVE and st[j] in T.ACTIVE)) and not (x == T.EXI and not (st[i] == st[j] == T.EXI))]
        if (i, j) in (("P", "B"), ("A", "B")):
            ok = ok[:1] if (i, j) == ("P", "B") else ok
        s = ok[0] if len(ok) == 1 else c.choice(f"link_{i}{j}", ok)
        for e in ((i, j), (j, i)) if ty[j] != T.CN else ((i, j),):
            links[e] = T.link(S[e[0]], S[e[1]], 1.0, status=T.CAN)
            links[e]._want = s
    top = T.Topology(S.values(), [], [], links.values())
    tp.setup_node_structure(top)
    # what the planner leaves behind: active links with active sectors on one channel
    for e, l in links.items():
        if l._want in T.ACTIVE and l.tx_sector is None:
            return c.reach("no sector")
    for e, l in links.items():
        if l._want in T.ACTIVE:
            for q in (l.tx_sector, l.rx_sector):
                if q._status_type != T.EXI:
                    q._status_type = l._want
                q.channel = 0
        l._status_type = l._want
    to._set_sector_status_in_same_node(top)
    for q in top.sectors.values():
        if q.status_type == T.CAN and q.site.status_type == T.EXI and any(x.status_type == T.EXI and x.node_id == q.node_id and x.site is q.site for x in top.sectors.values()):
            q._status_type = T.EXI
    tp.validate_topology_status(top)
    before = {q: (x.ant_azimuth, x.status_type, x.channel, x.site.site_id) for q, x in top.sectors.items()}
    kept = {v[3] for v in before.values() if v[1] == T.EXI}
    ends = {e: (l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id) for e, l in links.items()}
    real, turn = to.find_best_sectors, c.real("orientation_A", 0, 360)
    c.assume(turn < 300)
    for e, l in links.items():
        if "A" in e:
            # directions at the very edge of a sector are subject to rounding
            d = [circ(c, l.tx_beam_azimuth if e[0] == "A" else l.rx_beam_azimuth, x) for x in (turn, turn + 60)]
            c.assume(c.AND(*[abs(x - 30 - TOL) > 1e-4 for x in d]))

    def find(site, *a):
        # the orientation found for one site is arbitrary
        r = real(site, *a)
        return [[turn, turn + 60]] if site is S["A"] and len(r) else r
    from terragraph_planner.common.exceptions import OptimizerException
    try:
        with symex.swapped((to.find_best_sectors, find)):
            run_readjust(to, top, dev, S)
    except OptimizerException:
        for e in (("P", "A"), ("A", "B"), ("A", "L")):
            if links[e]._want in T.ACTIVE and not kept & {"A"}:
                b = links[e].tx_beam_azimuth if e[0] == "A" else links[e].rx_beam_azimuth
                if c.AND(*[circ(c, b, x) >= 30 - TOL for x in (turn, turn + 60)]):
                    return c.reach("uncovered")
        c.check(False, "readjustment fails although active links are covered")
    after(c, top, links, before, kept, ends, S)
    tp.validate_topology_status(top)
    c.reach("end")


def run_readjust(to, top, dev, S):
    to.readjust_sectors_post_opt(top, T.params(device_list=[dev, S["K"].device], dn_dn_sector_limit=2, dn_total_sector_limit=15,
                                               diff_sector_angle_limit=0, near_far_angle_limit=0))


def after(c, top, links, before, kept, ends, S):
    from terragraph_planner.common.geos import angle_delta
    for q, v in before.items():
        if v[1] == T.EXI:
            x = top.sectors.get(q)
            c.check(x is not None and (x.ant_azimuth, x.status_type, x.channel) == v[:3], "existing sectors stay as they are")
    for e, l in links.items():
        c.check(l.status_type == l._want, "links keep their status")
        c.check((l.tx_sector is None) == (l.rx_sector is None), "both or no sectors")
        if l._want in T.ACTIVE:
            c.check(l.tx_sector is not None, "active links have sectors")
        if l._want == T.EXI:
            c.check((l.tx_sector.sector_id, l.rx_sector.sector_id) == ends[e], "existing links keep their sectors")
        if l.tx_sector is not None:
            for q, s in ((l.tx_sector, e[0]), (l.rx_sector, e[1])):
                c.check(top.sectors.get(q.sector_id) is q, "sectors of links are part of the topology")
                mine = [x for x in top.sectors.values() if x.site is S[s]]
                bm = l.tx_beam_azimuth if s == e[0] else l.rx_beam_azimuth
                dv = circ(c, bm, q.ant_azimuth)
                c.check(dv < S[s].device.sector_params.horizontal_scan_range / 2 + 2 * TOL, "links lie within the scan range of their sectors")
                for x in mine:
                    c.le(dv, circ(c, bm, x.ant_azimuth) + TOL, "nearest sector")
            if l._want in T.ACTIVE:
                c.check(l.tx_sector.channel == l.rx_sector.channel == 0, "channel of the link")
    for q in top.sectors.values():
        if q.site.status_type in T.ACTIVE and q.site.site_id not in kept:
            used = any(l._want in T.ACTIVE and x is not None and x.site is q.site and x.node_id == q.node_id for l in links.values() for x in (l.tx_sector, l.rx_sector))
            had = any(l._want in T.ACTIVE and q.site in (l.tx_site, l.rx_site) for l in links.values())
            if had:
                c.check((q.status_type == T.PRO) == used, "sectors of nodes with active links are active, others are not")
        if q.site.site_type == T.CN:
            c.check(sum(x.site is q.site for x in top.sectors.values()) == 1, "one sector per CN")


def same_node(c):
    from terragraph_planner.optimization.topology_operations import _set_sector_status_in_same_node
    A, B = T.site("A", T.DN, 0, 0, T.EXI, T.dn_device("D", sectors=2, nodes=2)), T.site("B", T.DN, 10, 0, c.choice("status_B", T.ALL5), T.dn_device("D", sectors=2, nodes=2))
    secs = [T.sector(A, n, k, 0.0, c.choice(f"A{n}{k}", (T.CAN, T.PRO, T.EXI))) for n in (0, 1) for k in (0, 1)]
    secs += [T.sector(B, 0, k, 0.0, c.choice(f"B{k}", (T.CAN, T.PRO)) if B.status_type in T.ACTIVE else B.status_type) for k in (0, 1)]
    old = [q.status_type for q in secs]
    _set_sector_status_in_same_node(T.Topology([A, B], [], secs, []))
    for q, o in zip(secs, old):
        up = o == T.CAN and any(p.site is q.site and p.node_id == q.node_id and s == T.PRO for p, s in zip(secs, old))
        c.check(q.status_type == (T.PRO if up else o), "candidate sectors of a proposed node become proposed, others stay")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for a, b, cn in ((1, 1, True), (2, 1, True), (2, 2, False), (0, 1, True), (1, 0, False)) + (((3, 2, False), (3, 3, False)) if BIG else ()):
        out.append(Case(f"assign/{a}x{b}{'/CN' if cn else ''}", lambda c, a=a, b=b, cn=cn: assign(c, a, b, cn)))
    for n in (1, 2, 3) + ((4,) if BIG else ()):
        out.append(Case(f"node/{n}", lambda c, n=n: node(c, n)))
    O = [(1, 1, 1, 70.0, "best", 30), (1, 2, 1, 70.0, "best", 30), (1, 1, 2, 70.0, "best", 30), (2, 1, 1, 90.0, "best", 45), (2, 2, 1, 90.0, "best", 60),
         (1, 1, 1, 120.0, "equidistant", 15), (1, 4, 1, 70.0, "equidistant", 15), (1, 2, 2, 60.0, "equidistant", 30)]
    if BIG:
        O += [(1, 1, 1, 70.0, "best", 3), (2, 1, 1, 90.0, "best", 30), (2, 2, 1, 90.0, "best", 45), (2, 1, 2, 60.0, "best", 45), (2, 2, 1, 90.0, "equidistant", 30)]
    for o in O:
        out.append(Case("orient/" + "/".join(map(str, o)), lambda c, o=o: orient(c, *o)))
    out += [Case("create", create), Case("capacities", capacities), *[Case(f"readjust/{a.name}", lambda c, a=a: readjust(c, a)) for a in (T.CAN, T.PRO, T.EXI)], Case("same node", same_node)]
    return out
