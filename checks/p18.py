"""Modulation class, capacity, power back-off and the distance limits derived from them."""
import math
from types import SimpleNamespace as NS

from vlib import boot  # noqa: F401
from vlib import symex
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["rf.link_budget_calculator: get_mcs_from_snr, get_snr_from_mcs, get_backoff_from_mcs, get_link_capacity_from_mcs, "
                  "adjust_tx_power_with_backoff, fspl_based_estimation, get_max_tx_power", "topology_preparation.add_link_capacities",
                  "los.helper.search_max_los_dist_based_on_capacity, get_max_los_dist_for_device_pairs"],
    "bounds": "MCS tables of up to 3 rows (thorough: 4) in any row order, with and without gaps between classes, all real thresholds, throughputs "
              "and back-offs that rise (not necessarily strictly) with the class; all real signal levels, gains and powers; distance searches over "
              "every interval of up to 40 m and the shipped 0-10000 m interval for a set of break points; up to 3 devices",
    "outside": "larger tables; classes that are not positive integers",
    "assumptions": ["capacity does not rise with distance (P17)", "in the estimation case the net gain is an arbitrary real number"],
}

BIG = False
LEVELS = ((3, 4, 5), (2, 4, 7), (1, 2, 9), (8, 9, 12))


def table(c, levels, order=None):
    from terragraph_planner.common.structs import MCSMap
    rows = []
    for i, l in enumerate(levels):
        s, b, o = c.real(f"snr{i}", -10, 40), c.real(f"mbps{i}", 0, 5000), c.real(f"backoff{i}", 0, 20)
        if rows:
            q = rows[-1]
            c.assume(c.AND(q.snr <= s, q.mbps <= b, q.tx_backoff <= o))
        rows.append(MCSMap(l, symex.hnum(s), b, o))
    k = c.choice("order", ("up", "down", "mixed")) if order is None else order
    return rows, (rows if k == "up" else rows[::-1] if k == "down" else rows[1:] + rows[:1])


def lbc():
    from terragraph_planner.common.rf import link_budget_calculator as m
    return m


def best(c, rows, ok):
    """highest class of `rows` (ascending) satisfying ok"""
    r = 0
    for row in rows:
        r = c.ITE(ok(row), row.mcs, r)
    return r


def lookup(c, levels):
    m = lbc()
    rows, tab = table(c, levels)
    s = c.real("snr", -20, 50)
    got = m.get_mcs_from_snr(s, tab)
    for row in rows:  # away from the rounding of the threshold itself nothing is assumed: equality counts as met
        pass
    c.check(got == best(c, rows, lambda r: s >= r.snr), "the class is the highest whose threshold is met")
    cap = m.get_link_capacity_from_mcs(got, tab)
    want = 0
    for row in rows:
        want = c.ITE(s >= row.snr, row.mbps / 1000, want)
    c.close(cap, want, "the capacity is the throughput of the class, zero without a class")
    t = c.real("snr2", -20, 50)
    c.assume(s <= t)
    g2 = m.get_mcs_from_snr(t, tab)
    c.check(got <= g2, "a better signal never lowers the class")
    c.le(cap, m.get_link_capacity_from_mcs(g2, tab), "a better signal never lowers the capacity")
    c.check(m.get_mcs_from_snr(-math.inf, tab) == 0 and m.get_mcs_from_snr(math.nan, tab) == 0, "no signal, no class")
    for row in rows:
        c.close(m.get_backoff_from_mcs(row.mcs, tab), row.tx_backoff, "back-off of a class")
        c.close(m.get_link_capacity_from_mcs(row.mcs, tab), row.mbps / 1000, "throughput of a class")
    c.check(m.get_link_capacity_from_mcs(levels[-1] + 1, tab) == 0, "unknown classes carry nothing")
    c.reach("end")


def adjust(c, levels, start):
    """choice of class and power under back-off"""
    m = lbc()
    rows, tab = table(c, levels, order=c.choice("order", ("up", "down")))
    mx, g, np_ = c.real("max_power", 0, 40), c.real("gain", -200, 0), c.real("noise", -100, -50)
    mn = c.real("min_power", -20, 40) if c.flag("has_min") else None
    if mn is not None:
        c.assume(mn <= mx)
    level, p = m.adjust_tx_power_with_backoff(start, tab, mn, mx, g, np_)

    def need(r):
        x = r.snr + np_ - g
        return x if mn is None else c.ITE(x >= mn, x, mn)
    if not c.symbolic:  # keep away from rounding at the limit
        for r in rows:
            if abs(need(r) - (mx - r.tx_backoff)) < 1e-6:
                c.reach("end")
                return
    want = best(c, [r for r in rows if r.mcs <= start], lambda r: need(r) <= mx - r.tx_backoff)
    c.check(level == want, "the class is the highest one up to the given class that the power allows")
    if isinstance(level, int) and level == 0:
        c.check(p == -math.inf, "no class, no power")
    for r in rows:
        if level == r.mcs:
            c.close(p, need(r), "the lowest power that still meets the threshold is used")
            c.le(p, mx - r.tx_backoff, "power never exceeds the maximum less the back-off of the class")
            if mn is not None:
                c.le(mn, p, "power never falls below the device minimum")
    c.reach("end")


def estimate(c, levels):
    m = lbc()
    rows, tab = table(c, levels, order=c.choice("order", ("up", "mixed")))
    mx = c.real("max_power", 0, 40)
    mn = c.real("min_power", -20, 40) if c.flag("has_min") else None
    if mn is not None:
        c.assume(mn <= mx)
    th, nf = c.real("thermal", -100, -50), c.real("nf", 0, 10)
    gains = [c.real("gain1", -200, 0), c.real("gain2", -200, 0)]
    c.assume(gains[0] <= gains[1])
    other = {k: (c.real("other_min", -20, 40) if k == "m" else c.real("other_" + k, -100, 10)) for k in ("m", "nf", "th")}
    tx = T.sp(minimum_tx_power=mn, noise_figure=other["nf"], thermal_noise_power=other["th"])
    rx = T.sp(noise_figure=nf, thermal_noise_power=th, minimum_tx_power=other["m"])
    rs = []
    for g in gains:
        with symex.swapped((m.get_fspl_based_net_gain, lambda *a: g)):
            rs.append(m.fspl_based_estimation(100.0, mx, tx, rx, tab, 0.0, 0.0, 0.0, 0.0, None, None))
    for g, r in zip(gains, rs):
        def snr(row):
            return mx - row.tx_backoff + g - th - nf

        def usable(row):
            fits = snr(row) >= row.snr
            return fits if mn is None else c.AND(fits, mx - row.tx_backoff >= mn)
        if not c.symbolic and any(abs(snr(row) - row.snr) < 1e-6 or abs(mx + g - th - nf - row.snr) < 1e-6 or (mn is not None and abs(mx - row.tx_backoff - mn) < 1e-6) for row in rows):
            c.reach("end")
            return
        want, cap, pw = 0, 0, mx
        for row in rows:
            ok = usable(row)
            want, cap, pw = c.ITE(ok, row.mcs, want), c.ITE(ok, row.mbps / 1000, cap), c.ITE(ok, mx - row.tx_backoff, pw)
        c.check(r.mcs_level == want, "the class is the highest whose threshold is met at the power it allows")
        c.close(r.capacity, cap, "the capacity is the throughput of the class in use")
        c.close(r.tx_power, pw, "the power is the maximum less the back-off of the class in use")
        c.close(r.rsl_dbm, pw + g, "received level at the power in use")
        c.close(r.snr_dbm, pw + g - th - nf, "SNR at the power in use")
    c.check(rs[0].mcs_level <= rs[1].mcs_level, "a better path never lowers the class")
    c.le(rs[0].capacity, rs[1].capacity, "a better path never lowers the capacity")
    c.reach("end")


def search(c, lo, hi, grid):
    """binary search for the first distance without capacity"""
    from terragraph_planner.los import helper as H
    k = c.real("cut", lo - 3, hi + 3) if grid is None else c.choice("cut", grid)
    P = T.sp(), T.sp()
    seen = []

    def est(distance, max_tx_power, tx_sector_params, rx_sector_params, mcs_snr_mbps_map, tx_deviation, rx_deviation, tx_el_deviation, rx_el_deviation,
            tx_scan_pattern_data, rx_scan_pattern_data):
        seen.append((max_tx_power, tx_sector_params is P[0], rx_sector_params is P[1], mcs_snr_mbps_map, tx_deviation, rx_deviation, tx_el_deviation, rx_el_deviation))
        return NS(capacity=1.0 if distance < k else 0.0)
    with symex.swapped((H.fspl_based_estimation, est)):
        got = H.search_max_los_dist_based_on_capacity(lo, hi, 11.0, P[0], P[1], "table")
    if got is None:
        c.check(k > hi, "a limit is found unless there is capacity throughout")
    else:
        c.check(lo <= got <= hi, "the limit lies in the search interval")
        c.check(k <= got, "no capacity at the limit")
        c.check(c.OR(k > got - 1, got == lo), "capacity just before the limit")
    c.check(all(s == (11.0, True, True, "table", 0, 0, 0, 0) for s in seen), "the search uses the devices' own parameters")
    c.reach("end")


def pairs(c):
    """limits per device pair"""
    from terragraph_planner.common.configuration.enums import DeviceType
    from terragraph_planner.common.exceptions import ConfigException
    from terragraph_planner.common.structs import MCSMap
    from terragraph_planner.los import helper as H
    tab = [MCSMap(m, float(m), 100.0 * m, 0.0) for m in (3, 5, 7)]

    def dev(n, t, p):
        return NS(device_sku=n, device_type=t, sector_params=T.sp(mcs_map=list(tab), maximum_tx_power=p, minimum_tx_power=None, antenna_boresight_gain=10.0, tx_diversity_gain=0.0))
    devs = [dev("d1", DeviceType.DN, 1.0), dev("d2", DeviceType.DN, 2.0), dev("c1", DeviceType.CN, 3.0)]
    if c.flag("cn_first"):
        devs.reverse()
    mdd, mdc = c.choice("min_dn", (None, 4, 8)), c.choice("min_cn", (None, 6))
    cap = c.int("cap", 50, 400) if c.flag("capped") else None
    base = {}

    def fake(lo, hi, power, txp, rxp, m):
        a = next(d for d in devs if d.sector_params is txp)
        b = next(d for d in devs if d.sector_params is rxp)
        base.setdefault((a.device_sku, b.device_sku), []).append((lo, hi, power, [r.mcs for r in m]))
        return c.int(f"los_{a.device_sku}_{b.device_sku}", 0, 1000)
    try:
      with symex.swapped((H.search_max_los_dist_based_on_capacity, fake)):
        got = H.get_max_los_dist_for_device_pairs(devs, None, mdd, mdc, cap)
    except ConfigException:
        c.check(mdd == 8, "an unattainable minimum class is an error, any other is not")
        c.reach("end")
        return
    c.check(mdd != 8, "an unattainable minimum class is rejected")
    want = {(a, b) for a in ("d1", "d2") for b in ("d1", "d2", "c1")}
    c.check(set(got) == want and set(base) == want, "a limit for every pair that can transmit")
    for (a, b), calls in base.items():
        low = mdc if b == "c1" else mdd
        c.check(all(x == (0, 10000, {"d1": 1.0, "d2": 2.0}[a], [m for m in (3, 5, 7) if low is None or m >= low]) for x in calls), "the search uses the classes allowed for the kind of link")
    for a, b in want:
        w = c.int(f"los_{a}_{b}", 0, 1000)
        if b != "c1" and a != b:
            o = c.int(f"los_{b}_{a}", 0, 1000)
            w = c.ITE(w >= o, w, o)
        if cap is not None:
            w = c.ITE(w > cap, cap, w)
        c.check(got[a, b] == w, "the limit is the larger of both directions, at most the global limit")
    c.reach("end")


def assign(c, with_dev):
    """which figures each link of a topology gets"""
    from terragraph_planner.common.structs import LinkBudgetMeasurements
    from terragraph_planner.optimization import topology_preparation as M
    A = T.dn_device(sku="A", maximum_tx_power=20.0, antenna_boresight_gain=30.0)
    B = T.dn_device(sku="B", maximum_tx_power=10.0, antenna_boresight_gain=25.0)
    C = T.cn_device(sku="C", maximum_tx_power=5.0)
    for d in (A, B, C):
        d.sector_params.mcs_map = [d.device_sku]
        d.sector_params.scan_pattern_data = "scan" + d.device_sku
    kind = c.choice("kind", ("backhaul", "access", "wired", "nosector"))
    eirp = c.choice("eirp", (None, 45.0))
    p, a, b = T.site("p", T.POP, 0, 0, device=A), T.site("a", T.DN, 100, 0, device=B, altitude=10.0), T.site("b", T.CN, 200, 0, device=C)
    rx = b if kind == "access" else a
    az1, az2 = c.real("az1", 0, 360), c.real("az2", 0, 360)
    s1, s2 = T.sector(p, 0, 0, az1), T.sector(rx, 0, 0, az2)
    l = T.link(p, rx, 7.0, None if kind == "nosector" else s1, None if kind == "nosector" else s2, wireless=kind != "wired")
    top = T.Topology([p, a, b], [], [s1, s2], [l])
    pop_cap = c.real("pop_capacity", 0, 100)
    pars = T.params(device_list=[A, B, C], maximum_eirp=eirp, pop_capacity=10.0)
    pars.pop_capacity = pop_cap
    seen = []

    def est(distance, max_tx_power, tx_sector_params, rx_sector_params, mcs_snr_mbps_map, tx_deviation, rx_deviation, tx_el_deviation, rx_el_deviation,
            tx_scan_pattern_data, rx_scan_pattern_data):
        seen.append(dict(locals()))
        return LinkBudgetMeasurements(3, -50.0, 20.0, 1.5, 9.0)
    with symex.swapped((M.fspl_based_estimation, est)):
        M.add_link_capacities(top, pars, with_dev)
    if kind == "wired":
        c.eq(l.capacity, pop_cap, "wired links carry the POP capacity")
    elif kind == "nosector":
        c.check(l.capacity == 0 and l.mcs_level == 0 and l.rsl_dbm == -math.inf, "links without sectors carry nothing")
    else:
        c.check(len(seen) >= 1 and all(x == seen[0] for x in seen) and l.capacity == 1.5 and l.mcs_level == 3, "each link is evaluated once")
        s = seen[0]
        R = rx.device.sector_params
        c.check(s["distance"] == l.distance and s["tx_sector_params"] is A.sector_params and s["rx_sector_params"] is R and s["mcs_snr_mbps_map"] == [rx.device.device_sku],
                "the receiver's table and both ends' own parameters are used")
        c.close(s["max_tx_power"], 20.0 if eirp is None else 15.0, "the transmitter's power limit is used")
        if with_dev:
            for d, az, beam in ((s["tx_deviation"], az1, l.tx_beam_azimuth), (s["rx_deviation"], az2, l.rx_beam_azimuth)):
                c.check(c.OR(*[abs(d - (beam - az) - 360 * k) <= 1e-6 for k in (-1, 0, 1)]), "deviation from boresight is taken into account")
            c.close(s["tx_el_deviation"], l.el_dev, "elevation at the transmitter")
            c.close(s["rx_el_deviation"], 0 if kind == "access" else -l.el_dev, "elevation at the receiver")
            c.check(s["tx_scan_pattern_data"] == "scanA" and s["rx_scan_pattern_data"] == "scan" + rx.device.device_sku, "scan patterns of both ends are used")
        else:
            c.check(all(s[k] == 0 for k in ("tx_deviation", "rx_deviation", "tx_el_deviation", "rx_el_deviation")), "before the design no deviation is assumed")
            c.check(s["tx_scan_pattern_data"] is None and s["rx_scan_pattern_data"] is None, "before the design no scan loss is assumed")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case("pairs", pairs), Case("assign/plain", lambda c: assign(c, False)), Case("assign/deviation", lambda c: assign(c, True))]
    for lv in LEVELS + (((2, 3, 5, 9),) if BIG else ()):
        n = "-".join(map(str, lv))
        out.append(Case(f"lookup/{n}", lambda c, lv=lv: lookup(c, lv)))
        for start in sorted({lv[-1], lv[-1] - 1, lv[1], 0} | ({lv[0], lv[-1] + 1} if BIG else set())):
            out.append(Case(f"adjust/{n}/{start}", lambda c, lv=lv, start=start: adjust(c, lv, start)))
        out.append(Case(f"estimate/{n}", lambda c, lv=lv: estimate(c, lv)))
    out.append(Case("search/small", lambda c: search(c, 5, 40, None)))
    out.append(Case("search/one", lambda c: search(c, 7, 7, None)))
    out.append(Case("search/shipped", lambda c: search(c, 0, 10000, (-1, 0, 1, 137, 4999.5, 5000, 9999, 10000, 10001))))
    return out
