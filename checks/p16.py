"""Interference and SINR, and the link budget update that follows from them."""
import math

from vlib import boot  # noqa: F401
from vlib import symex
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["topology_interference: analyze_interference, compute_link_rsl_map, compute_link_net_gain_map, compute_link_interference",
                  "topology_operations.update_link_caps_with_sinr", "topology_models.topology: sector_connectivity",
                  "rf.link_budget_calculator: get_fspl_based_rsl, get_noise_power, get_max_tx_power, get_mcs_from_snr, adjust_tx_power_with_backoff"],
    "bounds": "networks of 5 sites and up to 12 links; statuses of sites, sectors and links, redundancy, polarities and channels varied in groups; all "
              "real transmit powers, path gains, signal levels and noise; power iteration with 1 to 3 rounds",
    "outside": "the antenna gain of a path as a function of its angles (P17: here an arbitrary real number per path and pair of directions)",
    "assumptions": ["10^(x/10) and log10 are uninterpreted strictly monotone mutually inverse functions"],
}

BIG = False


def wrap(x):
    x = x % 360.0
    return round(x - 360.0 if x > 180.0 else x, 5) + 0.0


class World:
    """five sites; the receiving sector x0 hears a0 and z0, which also serve others"""
    def __init__(self, c, cn=False, st=None, sec=None, wired=False):
        from terragraph_planner.common.configuration.enums import PolarityType
        self.c = c
        st, sec = st or {}, sec or {}
        pos = {"A": (0, 0, 12), "X": (150, 20, 3), "Z": (40, 160, 30), "Y": (160, 130, 7), "V": (-60, 90, 18)}
        self.s = {}
        for n, (x, y, h) in pos.items():
            cnx = n == "Y" and cn
            dev = (T.cn_device if cnx else T.dn_device)("DEV_" + n)
            dev.sector_params = T.sp(thermal_noise_power=-80.0, noise_figure=c.real("nf_" + n, 0, 10))
            self.s[n] = T.site(n, T.CN if cnx else T.DN, x, y, st.get(n, T.PRO), dev, altitude=h)
            self.s[n].polarity = PolarityType.EVEN if n in "XYV" else PolarityType.ODD
        az = {"A": 30.0, "X": 300.0, "Z": 150.0, "Y": 260.0, "V": 60.0}
        self.sec = {n: T.sector(self.s[n], 0, 0, az[n], sec.get(n, st.get(n, T.PRO)), 0) for n in pos}
        self.L = {}
        self.gains = {}

    def link(self, a, b, status=T.PRO, sectors=True, wireless=True):
        l = T.link(self.s[a], self.s[b], 1.0, self.sec[a] if sectors else None, self.sec[b] if sectors else None, status, wireless)
        if sectors:
            l.link_budget.tx_power = self.c.real(f"pow_{a}{b}", -20, 40)
            l.link_budget.rsl_dbm = symex.hnum(self.c.real(f"rsl_{a}{b}", -100, 0))
        self.L[a + b] = l
        return l

    def top(self):
        self.t = T.Topology(self.s.values(), [], self.sec.values(), self.L.values())
        return self.t

    def gain(self, dist, txp, rxp, txd, rxd, txe, rxe):
        names = {id(s.device.sector_params): n for n, s in self.s.items()}
        k = (names[id(txp)], names[id(rxp)], round(dist, 4), wrap(txd), wrap(rxd), wrap(txe), wrap(rxe))
        if k not in self.gains:
            self.gains[k] = self.c.real("gain_" + "_".join(str(v) for v in k), -200, 0)
        return self.gains[k]

    def stub(self):
        from terragraph_planner.common.rf import link_budget_calculator as m

        def f(dist_m, txp, txpat, rxp, rxpat, txd, rxd, txe, rxe, *more):
            self.c.check(txpat is txp.antenna_pattern_data and rxpat is rxp.antenna_pattern_data, "each end's own antenna pattern is used")
            return self.gain(dist_m, txp, rxp, txd, rxd, txe, rxe)
        import inspect
        want = ["dist_m", "tx_sector_params", "tx_radio_pattern_data", "rx_sector_params", "rx_radio_pattern_data", "tx_deviation", "rx_deviation",
                "tx_el_deviation", "rx_el_deviation"]
        got = list(inspect.signature(m.get_fspl_based_net_gain).parameters)
        order = [got.index(w) for w in want]
        return symex.swapped((m.get_fspl_based_net_gain, lambda *a: f(*[a[i] for i in order])))

    def interference(self, l, power=None):
        """mW put into the receiving sector of active link l by other transmitting sectors"""
        c, tot = self.c, 0
        from terragraph_planner.common.configuration.enums import PolarityType as P
        act = T.ACTIVE

        def pol(s):
            if s.site_type != T.CN:
                return s.polarity
            inc = [k.tx_site.polarity for k in self.L.values() if k.rx_site is s and k.status_type in act]
            if len(set(inc)) != 1 or inc[0] not in (P.ODD, P.EVEN):
                return P.UNASSIGNED
            return P.ODD if inc[0] == P.EVEN else P.EVEN
        for path in self.L.values():
            ts, rs = path.tx_sector, path.rx_sector
            if not path.is_wireless or rs is None or rs is not l.rx_sector or ts is l.tx_sector:
                continue
            if any(q.status_type not in act for q in (ts, rs, path.tx_site, path.rx_site)):
                continue
            a, b = pol(path.tx_site), pol(path.rx_site)
            if a == b and a in (P.ODD, P.EVEN):
                continue
            chan = c.OR(ts.channel == rs.channel, ts.channel == -1, rs.channel == -1)
            n, part = 0, 0
            for k in self.L.values():
                if k.tx_sector is not ts or k.tx_sector is None or not k.is_wireless or k.status_type not in act:
                    continue
                if k.rx_sector is rs or k.rx_sector is l.tx_sector:
                    continue
                g = self.gain(path.distance, path.tx_site.device.sector_params, path.rx_site.device.sector_params,
                              path.tx_dev - k.tx_dev, path.rx_dev - l.rx_dev, path.el_dev - k.el_dev, -(path.el_dev - l.el_dev))
                red = k.is_redundant
                e = 10 ** ((self.power(k) + g) / 10)
                part = part + c.ITE(red, 0, e)
                n = n + c.ITE(red, 0, 1)
            # one interfering sector counts the average over what it serves
            for m in range(1, 4):
                tot = tot + c.ITE(c.AND(chan, n == m), part / m, 0)
        return tot

    def power(self, k):
        return k.tx_power


def mw_to_db(c, x):
    return 10 * symex.log10_(x)


def check(c, w, only=None):
    from terragraph_planner.optimization import topology_interference as ti
    top = w.top()
    before = {k: l.sinr_dbm for k, l in w.L.items()}
    with w.stub():
        ti.analyze_interference(top)
    for k, l in w.L.items():
        if not l.is_wireless or l.status_type not in T.ACTIVE:
            c.check(l.sinr_dbm is before[k] or l.sinr_dbm == before[k], f"SINR of {k} is left alone")
            continue
        if l.tx_sector is None:
            continue
        sp = l.rx_site.device.sector_params
        noise = 10 ** ((sp.thermal_noise_power + sp.noise_figure) / 10)
        c.close(l.sinr_dbm, l.rsl_dbm - mw_to_db(c, noise + w.interference(l)), f"SINR of {k} is the signal over noise and interference")
    c.reach("end")


def statuses(c, which):
    """who interferes: statuses of links, sectors and sites, redundancy"""
    st, sec, ls = {}, {}, {}
    three = (T.PRO, T.EXI, T.CAN)
    if which == "links":
        ls = {k: c.choice("status_" + k, (T.PRO, T.CAN, T.UNA)) for k in ("ZX", "ZY")}
        ls["ZV"] = c.choice("status_ZV", (T.PRO, T.CAN))
    elif which == "sectors":
        sec = {"Z": c.choice("sector_Z", three), "X": c.choice("sector_X", (T.PRO, T.CAN))}
        ls = {"ZX": T.CAN}
    else:
        st = {"Z": c.choice("site_Z", (T.EXI, T.CAN, T.UNA)), "V": c.choice("site_V", (T.PRO, T.UNR))}
    w = World(c, st=st, sec=sec)
    act = lambda a, b: all(st.get(n, T.PRO) in T.ACTIVE for n in (a, b)) and all(sec.get(n, T.PRO) in T.ACTIVE for n in (a, b))
    for a, b in (("A", "X"), ("A", "Y"), ("Z", "X"), ("Z", "Y"), ("Z", "V")):
        s = ls.get(a + b, T.PRO)
        ss = {st.get(n, T.PRO) for n in (a, b)}
        if not act(a, b):
            s = T.CAN if s in T.ACTIVE else s
        s = T.UNA if T.UNA in ss else T.UNR if T.UNR in ss else s
        w.link(a, b, s)
        w.link(b, a, s)
    for k in ("ZX", "ZY", "ZV", "AY") if which == "links" else ("ZY",):
        w.L[k].is_redundant = c.bool("redundant_" + k)
    check(c, w)


def polarity(c, cn):
    from terragraph_planner.common.configuration.enums import PolarityType as P
    w = World(c, cn=cn)
    three = (P.ODD, P.EVEN, P.UNASSIGNED)
    w.s["Z"].polarity = c.choice("pol_Z", three)
    if cn:
        w.s["Y"].polarity = P.UNASSIGNED
        w.s["A"].polarity = c.choice("pol_A", three)
        w.link("A", "Y", c.choice("status_AY", (T.PRO, T.CAN)))
        w.link("Z", "Y", c.choice("status_ZY", (T.CAN, T.PRO)))
        w.link("V", "Y", T.CAN)
        pairs = (("A", "X"), ("Z", "X"), ("Z", "V"))
    else:
        w.s["X"].polarity = c.choice("pol_X", three)
        pairs = (("A", "X"), ("Z", "X"), ("Z", "Y"), ("A", "Y"))
    for a, b in pairs:
        w.link(a, b)
        w.link(b, a)
    check(c, w)


def channel(c):
    w = World(c)
    for n in ("Z", "X") + (("A", "Y") if BIG else ()):
        w.sec[n].channel = c.int("channel_" + n, -1, 3)
    for a, b in (("A", "X"), ("Z", "X"), ("Z", "Y"), ("A", "Y")):
        w.link(a, b)
        w.link(b, a)
    check(c, w)


def others(c):
    """wired links, links without sectors, links without signal"""
    w = World(c)
    for a, b in (("A", "X"), ("Z", "X"), ("Z", "Y"), ("A", "Y")):
        for p, q in ((a, b), (b, a)):
            w.link(p, q)
    kind = c.choice("kind", ("wired", "sectorless", "silent", "one", "talk"))
    if kind == "silent":
        w.L["ZX"].link_budget.rsl_dbm = -math.inf
        w.L["AX"].link_budget.rsl_dbm = -math.inf
    for a, b in (("V", "X"), ("Z", "V")):
        for p, q in ((a, b), (b, a)):
            if kind == "wired":
                w.link(p, q, c.choice("wstatus", (T.PRO, T.CAN)) if (p, q) == ("V", "X") else T.PRO, False, False)
            elif kind == "sectorless":
                w.link(p, q, T.CAN, False)
            elif kind == "one":
                w.link(p, q, T.PRO)
    if kind == "talk":
        # the interferer also serves the transmitter it would disturb
        from terragraph_planner.common.configuration.enums import PolarityType
        w.s["Z"].polarity = PolarityType.UNASSIGNED
        w.link("Z", "A", c.choice("status_ZA", (T.PRO, T.CAN)))
    if kind == "silent":
        from terragraph_planner.optimization import topology_interference as ti
        with w.stub():
            ti.analyze_interference(w.top())
        c.check(w.L["ZX"].sinr_dbm == -math.inf and w.L["AX"].sinr_dbm == -math.inf, "no signal, no SINR")
        c.reach("end")
        return
    check(c, w)


def lone(c):
    """SINR never exceeds SNR, and equals it when nothing interferes"""
    w = World(c)
    two = c.flag("interferer")
    for a, b in (("A", "X"),) + ((("Z", "X"), ("Z", "Y")) if two else ()):
        w.link(a, b)
    from terragraph_planner.optimization import topology_interference as ti
    with w.stub():
        ti.analyze_interference(w.top())
    l = w.L["AX"]
    snr = l.rsl_dbm - (-80.0) - w.s["X"].device.sector_params.noise_figure
    if two:
        c.le(l.sinr_dbm, snr, "SINR never exceeds SNR")
    else:
        c.close(l.sinr_dbm, snr, "SINR without interferers is the SNR")
    c.reach("end")


def candidate(c):
    """interference that any candidate link could cause, for the interference model (full power, beams along the sectors)"""
    from terragraph_planner.optimization import topology_interference as ti
    w = World(c)
    for n, s in w.s.items():
        s.device.sector_params.maximum_tx_power = c.real("maxp_" + n, 0, 40)
        s.device.sector_params.antenna_boresight_gain = c.real("bore_" + n, 0, 40)
        s.device.sector_params.tx_diversity_gain = c.real("tdiv_" + n, 0, 5)
        s.device.sector_params.tx_miscellaneous_loss = 0.0
    eirp = c.real("eirp", 10, 80) if c.flag("limited") else None
    for a, b in (("A", "X"), ("X", "A"), ("Z", "X"), ("Y", "Z")):
        w.link(a, b, c.choice("status_" + a + b, (T.CAN, T.PRO, T.UNR)) if a == "A" else T.CAN)
    w.link("V", "X", T.CAN, False, False)
    w.link("Z", "V", T.UNR, False)
    with w.stub():
        got = ti.compute_link_interference(w.top(), eirp)
    for k, l in w.L.items():
        r = got[(l.tx_site.site_id, l.rx_site.site_id)]
        if l.tx_sector is None or not l.is_wireless:
            c.check(r == -math.inf, "a link without sectors or by wire interferes with nothing")
            continue
        sp = l.tx_site.device.sector_params
        p = sp.maximum_tx_power
        if eirp is not None:
            q = eirp - sp.antenna_boresight_gain - sp.tx_diversity_gain
            p = c.ITE(q <= p, q, p)
        g = w.gain(l.distance, sp, l.rx_site.device.sector_params, l.tx_dev, l.rx_dev, l.el_dev, -l.el_dev)
        c.close(r, p + g, f"{k} interferes with its full-power signal off boresight")
    c.reach("end")


# ------------------------------------------------------------ link budgets after optimization
def budget(c, rounds):
    """classes, capacities and powers of the active links follow from the final SINR"""
    from terragraph_planner.common.structs import MCSMap
    from terragraph_planner.optimization import topology_interference as ti
    from terragraph_planner.optimization import topology_operations as to
    from terragraph_planner.optimization import topology_preparation as tp
    w = World(c)
    rows = [MCSMap(3, 2.0, 300.0, 0.0), MCSMap(8, 9.0, 1200.0, c.choice("backoff", (1.0, 4.0)))]
    maxp, minp = 16.0, c.real("minp", -10, 16)
    for s in w.s.values():
        sp = s.device.sector_params
        sp.mcs_map, sp.maximum_tx_power, sp.minimum_tx_power = rows, maxp, minp if c.symbolic or True else None
    pairs = (("A", "X"),) if rounds > 1 else (("A", "X"), ("Z", "X"))
    for a, b in pairs:
        w.link(a, b)
    w.link("Z", "Y", T.CAN)
    w.link("V", "X", T.PRO, False, False)
    p = T.params(device_list=[s.device for s in w.s.values()])
    p.maximum_eirp = None
    top = w.top()
    net = {k: c.real("net_" + k, -150, -50) for k in w.L}
    ni, first = {}, {}
    calls = [0]

    def caps(topology, params, with_deviation, *more):
        for k, l in w.L.items():
            if not l.is_wireless:
                continue
            l.tx_power = c.ITE(c.bool("hot_" + k), maxp, maxp - 2.0)
            l.rsl_dbm = symex.hnum(l.tx_power + net[k])
            l.mcs_level, l.capacity, l.snr_dbm, l.sinr_dbm = 3, 0.3, 5.0, symex.hnum(c.real("sinr0_" + k, -20, 40))

    def analyze(topology, gains=None, *more):
        calls[0] += 1
        for k, l in w.L.items():
            if not l.is_wireless or l.status_type not in T.ACTIVE:
                continue
            # interference may change from round to round
            n = min(calls[0], 2 if rounds > 1 else 3)
            ni[k] = c.real(f"ni_{k}_{n}", -90, -40)
            dead = l.rsl_dbm == -math.inf
            l.sinr_dbm = -math.inf if dead else symex.hnum(l.rsl_dbm - ni[k])
            first.setdefault(k, (ni[k], l.sinr_dbm))
    cand = w.L["ZY"]
    with symex.swapped((tp.add_link_capacities, caps), (ti.analyze_interference, analyze), (ti.compute_link_net_gain_map, lambda t: {})):
        to.update_link_caps_with_sinr(top, p, rounds)
    for a, b in pairs:
        k, l = a + b, w.L[a + b]
        sinr = l.sinr_dbm
        if rounds == 1:
            # the first SINR sets the class, the least power that keeps it is used if its back-off allows it
            n1, s1 = first[k]
            fits = {r.mcs: c.AND(s1 >= r.snr, c.ITE(r.snr + n1 - net[k] >= minp, r.snr + n1 - net[k], minp) <= maxp - r.tx_backoff) for r in rows}
            if l.tx_power == -math.inf:
                c.check(c.NOT(c.OR(*fits.values())), "a link is switched off only if no class is possible")
            else:
                want = c.ITE(fits[8], 9.0, 2.0) + n1 - net[k]
                c.check(c.OR(*fits.values()), "a link without possible class is switched off")
                c.close(l.tx_power, c.ITE(want >= minp, want, minp), "least power that keeps the class")
        if l.tx_power == -math.inf:
            c.check(l.mcs_level == 0 and l.capacity == 0, "a link that is switched off carries nothing")
            continue
        c.close(sinr, l.rsl_dbm - ni[k], f"SINR of {k} belongs to its final power")
        c.close(l.rsl_dbm, l.tx_power + net[k], f"signal level of {k} belongs to its final power")
        c.le(l.tx_power, maxp, "power within the device's maximum")
        c.le(minp, l.tx_power, "power not below the device's minimum")
        sp = l.rx_site.device.sector_params
        c.close(l.snr_dbm, l.rsl_dbm - sp.thermal_noise_power - sp.noise_figure, f"SNR of {k} belongs to its final power")
        c.check(l.mcs_level == c.ITE(sinr >= 9.0, 8, c.ITE(sinr >= 2.0, 3, 0)), f"class of {k} is that of its SINR")
        c.close(l.capacity, c.ITE(sinr >= 9.0, 1.2, c.ITE(sinr >= 2.0, 0.3, 0.0)), f"capacity of {k} is that of its class")
    c.check(w.L["VX"].capacity == 1.0, "wired links keep their capacity")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case(f"interferers/{k}", lambda c, k=k: statuses(c, k)) for k in ("links", "sectors", "sites")]
    out += [Case("interferers/polarity", lambda c: polarity(c, False)), Case("interferers/CN polarity", lambda c: polarity(c, True)),
            Case("interferers/channel", channel), Case("interferers/other links", others), Case("bounds", lone), Case("candidates", candidate)]
    out += [Case(f"budget/{n} round", lambda c, n=n: budget(c, n)) for n in ((1, 2, 3) if BIG else (1, 2))]
    return out
