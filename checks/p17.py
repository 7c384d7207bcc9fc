"""Link budget: path loss, rain, oxygen, antenna gains, transmit power, received signal."""
import math


from vlib import boot  # noqa: F401
from vlib import symex
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["rf.link_budget_calculator: fspl, get_net_gain, get_rsl, get_fspl_based_net_gain, extract_gain_from_radio_pattern, "
                  "is_scan_pattern_data, get_max_boresight_gain_from_pattern_file, compute_rain_loss, compute_oxygen_loss, get_max_tx_power, "
                  "get_fspl_based_rsl, get_noise_power, get_snr, fspl_based_estimation, log_to_linear, linear_to_log"],
    "bounds": "all real distances (1 m .. 10 km), powers, gains, losses; carrier frequencies 24.1, 52.5, 60.48 and 70 GHz (all real frequencies for "
              "oxygen loss); antenna patterns read at all real deviations in windows of a few degrees around 0, 180 and -180; scan patterns with "
              "3x3 entries, unevenly spaced, at all real deviations",
    "outside": "floating point rounding; combinations of symbolic frequency and distance",
    "assumptions": ["logarithm and power are uninterpreted strictly monotone functions with exact values at powers of ten",
                    "np.interp is modelled by its documented piecewise linear definition"],
}

BIG = False
FREQ = (60480.0, 24100.0, 52500.0, 70000.0)


def lbc():
    from terragraph_planner.common.rf import link_budget_calculator as m
    return m


def sector(c, n, freq=60480.0, rain=30.0, sym=True, min_power=None):
    r = (lambda k, lo, hi: c.real(f"{n}_{k}", lo, hi)) if sym else (lambda k, lo, hi: (lo + hi) / 2)
    return T.sp(antenna_boresight_gain=r("gain", 0, 40), tx_diversity_gain=r("tdiv", 0, 5), rx_diversity_gain=r("rdiv", 0, 5),
              tx_miscellaneous_loss=r("tloss", 0, 5), rx_miscellaneous_loss=r("rloss", 0, 5), carrier_frequency=freq, rain_rate=rain,
              link_availability_percentage=99.9, thermal_noise_power=r("thermal", -100, -50), noise_figure=r("nf", 0, 10),
              maximum_tx_power=r("maxp", 0, 40), minimum_tx_power=min_power)


def path_loss(c):
    m = lbc()
    f = c.choice("f", (60.48, 24.1, 1.0, 100.0))
    d1, d2 = c.real("d1", 0.001, 10), c.real("d2", 0.001, 10)
    a, b = m.fspl(d1, f), m.fspl(d2, f)
    want = 20 * math.log10(d1) + 20 * math.log10(f) + 92.45
    c.close(a, want, "free-space loss is 20 log d + 20 log f + 92.45")
    if d1 < d2 - 1e-6:
        c.check(a < b, "free-space loss rises with distance")
    c.check(a > 0, "free-space loss is positive beyond a metre")
    z = c.real("near", 0, 1e-9)
    c.check(m.fspl(z, f) == 0, "no free-space loss within the reference distance")
    c.reach("end")


def net_gain(c):
    """every term enters once with the right sign"""
    m = lbc()
    sym = c.flag("same_hardware")
    f = c.choice("f", FREQ)
    rain = c.choice("rain", (30.0, 0.0))
    tx, rx = sector(c, "tx", f, rain), sector(c, "rx", f, 10.0)
    dist = c.real("dist", 1, 10000)
    p = c.real("power", -20, 40)
    with symex.plain_casts(m):
        g = m.get_fspl_based_net_gain(dist, tx, None, None if sym else rx, None, 0.0, 0.0, 0.0, 0.0)
        km = dist / 1000
        el = m.compute_rain_loss(km, rain, 99.9, f) + m.compute_oxygen_loss(km, f)
        fs = m.fspl(km, f / 1000)
        o = tx if sym else rx
        want = tx.antenna_boresight_gain + tx.tx_diversity_gain + o.antenna_boresight_gain + o.rx_diversity_gain - tx.tx_miscellaneous_loss - o.rx_miscellaneous_loss - fs - el
        c.close(g, want, "net gain is both antenna gains less losses at both ends, free-space, rain and oxygen loss")
        c.close(m.get_fspl_based_rsl(p, g), p + g, "received level is power plus net gain")
        c.close(m.get_rsl(p, 1.0, 2.0, km, f / 1000, None, None, el), p + 2 * 1.0 - 2 * 2.0 - fs - el, "symmetric link counts the same hardware at both ends")
        c.close(m.get_rsl(p, 1.0, 2.0, km, f / 1000, 0.0, 0.0, el), p + 1.0 - 2.0 - fs - el, "a receiver without gain and loss adds none")
        c.close(m.get_noise_power(rx), rx.thermal_noise_power + rx.noise_figure, "noise power is thermal noise plus noise figure")
        c.close(m.get_snr(p, m.get_noise_power(rx)), p - rx.thermal_noise_power - rx.noise_figure, "signal-to-noise ratio is the received level less noise")
    c.reach("end")


def rain(c):
    m = lbc()
    d = c.real("d", -1, 10)
    R = c.choice("rain", (0.5, 10.0, 30.0, 90.0)) if c.flag("fixed_rain") else c.real("rain_rate", 0.5, 150)
    avail = c.choice("avail", (99.9, 99.0, 99.99))
    f = c.choice("f", (60480.0, 24100.0))
    c.assume(c.OR(d <= 0, d >= 0.001))
    got = m.compute_rain_loss(d, R, avail, f)
    if d <= 0:
        c.check(got == 0, "no rain loss without distance")
        c.reach("end")
        return
    g = f / 1000
    den = 0.477 * math.pow(d, 0.633) * math.pow(R, 0.073 * 0.7486) * math.pow(g, 0.123) - 10.579 * (1 - math.exp(-0.024 * d))
    r = 1 / den
    r = c.ITE(r < 2.5, r, 2.5)
    c0 = 0.12 + 0.4 * math.log10((g / 10) ** 0.8)
    c1 = 0.07 ** c0 * 0.12 ** (1 - c0)
    c2, c3 = 0.855 * c0 + 0.546 * (1 - c0), 0.139 * c0 + 0.043 * (1 - c0)
    p = 100 - avail
    want = 0.8515 * math.pow(R, 0.7486) * d * r * c1 * p ** (-(c2 + c3 * math.log10(p)))
    c.check(got >= 0, "rain loss is never negative")
    # same functions of the same arguments: equal up to rounding of the constant factors
    tol = 1e-9 * (abs(want) + 1)
    w = c.ITE(want > 0, want, 0)
    c.check(c.AND(got - w <= tol, w - got <= tol), "rain loss follows the ITU model")
    c.reach("end")


TAB = {52: 0, 53: 1, 54: 2.2, 55: 4, 56: 6.6, 57: 9.7, 58: 12.6, 59: 14.6, 60: 15, 61: 14.6, 62: 14.3, 63: 10.5, 64: 6.8, 65: 3.9, 66: 1.9, 67: 1, 68: 0}


def oxygen(c):
    m = lbc()
    f = c.real("f_mhz", 10000, 100000)
    d = c.choice("d", (0.25, 1.0, 3.0))
    with symex.plain_casts(m):
        got = m.compute_oxygen_loss(d, f)
    g = f / 1000
    k = min(68, max(51, math.floor(g))) if not c.symbolic else None
    if c.symbolic:
        for lo in range(52, 68):
            if c.AND(g >= lo, g < lo + 1):
                want = TAB[lo] + (g - lo) * (TAB[lo + 1] - TAB[lo])
                break
        else:
            want = 0
        e = got - d * want
        c.check(c.AND(e <= 1e-6, e >= -1e-6), "oxygen loss is interpolated between the tabulated frequencies")
        if c.OR(g < 52, g > 68):
            c.check(got == 0, "no oxygen loss outside the table")
    else:
        want = 0 if k == 51 or g > 68 else TAB[k] if k == 68 else TAB[k] + (g - k) * (TAB[k + 1] - TAB[k])
        c.close(got, d * want, "oxygen loss is interpolated between the tabulated frequencies")
    c.reach("end")


def antenna(c, win):
    """pattern in planet format: one value per degree"""
    m = lbc()
    lo, hi = win
    az, el = c.real("az", lo, hi), c.real("el", -2, 2)
    if c.flag("swap"):
        az, el = el, az
    c.assume(c.AND(az > -180, el > -180))
    base, div = c.real("base", 0, 40), c.real("div", 0, 5)
    pa, pe = [float(-(k * 7 % 361)) for k in range(360)], [float(-(k * 11 % 367)) - 0.5 for k in range(360)]
    with symex.plain_casts(m):
        got = m.extract_gain_from_radio_pattern(base, div, {"main": [pa, pe], "other": [pe, pa]}, az, el)
    ok = []
    for x, tab in ((az, pa), (el, pe)):
        cand = []
        for k in sorted({*range(lo - 1, hi + 2), *range(-3, 4)}):
            near = c.AND(x - k <= 0.5, k - x <= 0.5) if c.symbolic else abs(x - k) <= 0.5 + 1e-9
            cand.append((near, tab[k % 360]))
        ok.append(cand)
    g = got - base - div
    c.check(c.OR(*[c.AND(n1, n2, (g == v1 + v2) if c.symbolic else abs(g - v1 - v2) < 1e-6) for n1, v1 in ok[0] for n2, v2 in ok[1]]),
            "the pattern is read at the nearest degree, horizontal and vertical")
    c.reach("end")


def scan(c):
    m = lbc()
    keys_a, keys_e = (-30.0, 0.0, 45.0), (-10.0, 0.0, 20.0)
    az, el = c.real("az", -180, 180), c.real("el", -90, 90)
    fixed = {}
    val = {}
    free = [(0, 0), (1, 1), (2, 2)]
    for i, a in enumerate(keys_a):
        for j, e in enumerate(keys_e):
            val[a, e] = c.real(f"v{i}{j}", -10, 10) if (i, j) in free else float(3 * i - 2 * j)
    base, div = c.real("base", 0, 40), c.real("div", 0, 5)
    D = symex.SymDict
    data = D({a: D({e: val[a, e] for e in keys_e}) for a in keys_a})
    with symex.plain_casts(m):
        got = m.extract_gain_from_radio_pattern(base, div, data, az, el)
        c.close(m.extract_gain_from_radio_pattern(base, div, None, az, el), base + div, "without a pattern the gain is boresight plus diversity")
    top = None
    for v in val.values():
        top = v if top is None else c.ITE(v > top, v, top)

    def near(x, ks, k):
        t = 0 if c.symbolic else 1e-9
        return c.AND(*[abs(x - k) <= abs(x - o) + t for o in ks])
    alts = []
    for a in keys_a:
        for e in keys_e:
            w = base + div + val[a, e] - top
            alts.append(c.AND(near(az, keys_a, a), near(el, keys_e, e), (got == w) if c.symbolic else abs(got - w) < 1e-6))
    c.check(c.OR(*alts), "the scan pattern is read at the nearest tabulated angles, relative to its maximum")
    c.reach("end")


def power(c):
    m = lbc()
    minp = c.real("minp", -20, 40) if c.flag("has_min") else None
    tx = sector(c, "tx", min_power=minp)
    eirp = c.real("eirp", 0, 80) if c.flag("has_eirp") else None
    with symex.plain_casts(m):
        p = m.get_max_tx_power(tx, eirp)
    gain = tx.antenna_boresight_gain + tx.tx_diversity_gain
    if minp is not None:
        c.le(minp, p, "transmit power never falls below the device minimum")
    lim = [tx.maximum_tx_power] + ([eirp - gain] if eirp is not None else [])
    alts = [c.AND(*([p <= x + (0 if c.symbolic else 1e-9) for x in lim]))]
    if minp is not None:
        alts.append((p == minp) if c.symbolic else abs(p - minp) < 1e-9)
    c.check(c.OR(*alts), "transmit power never exceeds the device maximum or the EIRP limit less the gain")
    tight = [(p == x) if c.symbolic else abs(p - x) < 1e-9 for x in lim + ([minp] if minp is not None else [])]
    c.check(c.OR(*tight), "the highest allowed transmit power is used")
    c.reach("end")


def estimate(c):
    """signal figures of a link are consistent with its power"""
    m = lbc()
    from terragraph_planner.common.structs import MCSMap
    f = 60480.0
    tx, rx = sector(c, "tx", f), sector(c, "rx", f)
    dist, p = c.real("dist", 1, 10000), c.real("power", 0, 40)
    table = [MCSMap(3, 3.0, 100.0, 0.0), MCSMap(5, 6.0, 500.0, 2.0)]
    with symex.plain_casts(m):
        r = m.fspl_based_estimation(dist, p, tx, rx, table, 0.0, 0.0, 0.0, 0.0, None, None)
        g = m.get_fspl_based_net_gain(dist, tx, None, rx, None, 0.0, 0.0, 0.0, 0.0)
    c.close(r.rsl_dbm, r.tx_power + g, "received level is transmit power plus net gain")
    c.close(r.snr_dbm, r.rsl_dbm - rx.thermal_noise_power - rx.noise_figure, "SNR is the received level less the receiver's noise")
    c.close(r.sinr_dbm, r.snr_dbm, "without interference SINR is SNR")
    c.le(r.tx_power, p, "power in use never exceeds the maximum")
    c.reach("end")


def farther(c):
    """signal falls with distance and rises one dB per dB"""
    m = lbc()
    f = c.choice("f", (60480.0, 24100.0))
    tx, rx = sector(c, "tx", f, 0.0, sym=False), sector(c, "rx", f, 0.0, sym=False)
    d1, d2 = c.real("d1", 1, 10000), c.real("d2", 1, 10000)
    c.assume(d1 + 0.001 <= d2)
    p, q = c.real("p", 0, 40), c.real("q", 0, 40)
    g = [None, None]
    k1, k2 = c.real("rain1", 0, 100), c.real("rain2", 0, 100)
    c.assume(k1 <= k2)
    with symex.swapped((m.compute_rain_loss, lambda *a: k1 if g[0] is None else k2)), symex.plain_casts(m):
        g[0] = m.get_fspl_based_net_gain(d1, tx, None, rx, None, 0.0, 0.0, 0.0, 0.0)
        g[1] = m.get_fspl_based_net_gain(d2, tx, None, rx, None, 0.0, 0.0, 0.0, 0.0)
    c.lt(g[1], g[0], "the received level falls with distance")
    c.close(m.get_fspl_based_rsl(p, g[0]) - m.get_fspl_based_rsl(q, g[0]), p - q, "the received level rises one dB per dB of power")
    c.reach("end")


def decibel(c):
    m = lbc()
    x, y = c.real("x", -100, 50), c.real("y", 1e-6, 1e6)
    w = m.log_to_linear(x)
    c.check(w > 0, "power in mW is positive")
    c.close(m.linear_to_log(w) if c.symbolic else m.linear_to_log(w), x, "dB conversion round trip")
    c.close(m.log_to_linear(m.linear_to_log(y)), y, "linear conversion round trip")
    c.close(m.log_to_linear(0), 1, "0 dB is factor 1")
    c.close(m.linear_to_log(10.0), 10, "factor 10 is 10 dB")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = [Case("fspl", path_loss), Case("net_gain", net_gain), Case("rain", rain), Case("oxygen", oxygen), Case("scan", scan),
           Case("max_power", power), Case("estimate", estimate), Case("farther", farther), Case("decibel", decibel)]
    w = [(-3, 3), (176, 180), (-180, -176)] + ([(20, 40), (-100, -80)] if BIG else [])
    return out + [Case(f"antenna/{a}..{b}", lambda c, w=(a, b): antenna(c, w)) for a, b in w]
