"""Interference model: link / sector / channel / airtime / polarity / interference rules, connectable demand, extraction."""
import z3

import xpress as xp
from checks import p10
from vlib import siteopt
from vlib import topo as T
from vlib.ilp import SUPER, Net, entails, problem_terms, satisfiable, term, zmax, zmin
from vlib.runner import Case
from vlib.siteopt import one, zsum
from vlib.symex import CheckFailed, Violation

META = {
    "functions": ["MinInterferenceNetwork.*", "NetworkOptimization.create_*", "OptimizationSetup.*", "prune_loops",
                  "get_sectors_with_active_links", "get_sites_with_active_links", "_extract_cost"],
    "bounds": "fixed networks of 4-6 sites with one or two channels, multi-sector nodes, wired, existing, unusable, unselected and co-located variants, given "
              "angle-violating pairs and received powers (powers of two); every solver vector (links, sectors, channels, airtime, classes, flows)",
    "outside": "larger networks; dB conversion (P17), choice of violating pairs (P15) and computation of the received powers (P16); optimality of the solver",
    "assumptions": ["the solver returns a vector satisfying the constraints it was given (binaries within 1e-6)", "arithmetic is exact (reals)"],
}

BIG = False


def lin(x):
    """stand-in for the dB-to-linear conversion with exactly representable values"""
    return 0.0 if x == float("-inf") else 2.0 ** round(x / 3.0)


ROWS = [(3, 300), (12, 1000), (21, 1800)]
ROWS0 = [(-3, 0), (3, 300), (18, 1800)]


def dev(sku, rows=ROWS, sectors=1, nodes=4, scan=70.0, cn=False):
    from terragraph_planner.common.structs import MCSMap
    d = T.cn_device(sku, horizontal_scan_range=scan) if cn else T.dn_device(sku, sectors=sectors, nodes=nodes, scan=scan, capex=100.0)
    d.sector_params.thermal_noise_power, d.sector_params.noise_figure = -90.0, 6.0
    d.sector_params.mcs_map = [MCSMap(k + 1, snr, mbps, 0) for k, (snr, mbps) in enumerate(rows)]
    return d


DN1, DN2, DNZ, CN1, CNW = dev("DN1"), dev("DN2", sectors=2, nodes=2), dev("DNZ", ROWS0), dev("CN1", cn=True), dev("CNW", cn=True, scan=360.0)
DEVS = [DN1, DN2, DNZ, CN1, CNW]


def setrsl(top, rsl):
    for l in top.links.values():
        l.link_budget.rsl_dbm = rsl.get((l.tx_site.site_id, l.rx_site.site_id), -54.0)


def net_ring(c):
    """interference between A, B and C on shared sectors; two-sector node at P; X (not in the plan) with wired links"""
    sx = c.choice("X", (T.CAN, T.PRO))
    sb = c.choice("B", (T.PRO, T.EXI)) if BIG else T.PRO
    sites = {"P": (T.POP, 0, 0, T.PRO, DN2), "A": (T.DN, 100, 0, T.PRO, DN1), "B": (T.DN, 0, 100, sb, DNZ), "C": (T.CN, 100, 100, T.PRO, CN1),
             "X": (T.DN, -100, 0, sx, DN1), "Q": (T.POP, -200, 0, T.CAN, DN1)}
    # POP Q is not in the plan but has demand of its own
    top = siteopt.build(c, sites, [("P", "A", {"cap": 1.5, "sec": {"P": (0, 0)}, "extra": [("P", (1, 0)), ("P", (1, 1))]}), ("P", "B", {"cap": 1.5, "sec": {"P": (0, 1)}}), ("A", "B", {"cap": 1.0}),
                                   ("A", "C", {"cap": 1.0}), ("B", "C", {"cap": 1.0}), ("P", "X", {"wired": 1, "cap": 2.0}), ("X", "B", {"wired": 1, "cap": 2.0})],
                        [("d1", ["C"], 1), ("d2", ["Q"], 1)], dem=1.0)
    setrsl(top, {("A", "B"): -57.0})
    strong = c.choice("strength", (-51.0, -69.0))
    return top, {e: strong for e in [("B", "A"), ("A", "B"), ("P", "B"), ("P", "A")]} | {("B", "C"): -66.0, ("A", "C"): strong}, [("P", "A", "B"), ("A", "B", "C")]


def net_cn(c):
    """two CN devices hear several senders; the angle at the CN decides for the narrow one"""
    s = c.choice("C", (T.PRO, T.EXI))
    sites = {"P": (T.POP, 0, 0, T.PRO, DN1), "A": (T.DN, 300, 40, T.PRO, DNZ), "C": (T.CN, 100, 20, s, c.choice("cn_device", (CN1, CNW))), "D": (T.CN, 150, 200, T.PRO, CN1)}
    top = siteopt.build(c, sites, [("P", "A", {"cap": 1.5, "sec": {"A": (1, 0)}}), ("P", "C", {"cap": 1.0}), ("A", "C", {"cap": 1.0}), ("P", "D", {"cap": 1.0}), ("A", "D", {"cap": 1.0})],
                        [("d1", ["C"], 2), ("d2", ["D"], 1)], dem=1.0)
    setrsl(top, {("P", "D"): -60.0})
    return top, {("P", "C"): -54.0, ("A", "C"): -51.0, ("P", "D"): -66.0, ("A", "D"): -60.0}, [("P", "C", "D"), ("P", "A", "C")]


def net_limit(c):
    """more links per sector than the point-to-multipoint limits allow"""
    e = c.choice("PA", (T.CAN, T.UNA) if not BIG else (T.CAN, T.UNA, T.PRO))
    sites = {"P": (T.POP, 0, 0, T.PRO, DN1), "A": (T.DN, 100, 0, T.PRO, DN1), "B": (T.DN, 0, 100, T.PRO, DN1), "C": (T.CN, -100, 0, T.PRO, CN1),
             "D": (T.CN, 0, -100, T.PRO, CN1)}
    top = siteopt.build(c, sites, [("P", "A", {"cap": 1.0, "status": e}), ("P", "B", {"cap": 1.0}), ("P", "C", {"cap": 1.0}), ("P", "D", {"cap": 1.0}), ("A", "D", {"cap": 0.0}),
                                   ("B", "D", {"cap": 1.0, "nosec": 1})],
                        [("d1", ["A"], 1), ("d2", ["B"], 1), ("d3", ["C"], 1), ("d4", ["D"], 1)], dem=1.0)
    setrsl(top, {})
    return top, {}, []


def net_exist(c):
    """existing links (one wired), an upgraded CN at X's spot, a forced angle violation"""
    lw = c.choice("AB", (T.EXI, T.CAN))
    la = c.choice("PA", (T.EXI, T.CAN, T.UNA))
    sites = {"P": (T.POP, 0, 0, T.EXI, DN2), "A": (T.DN, 100, 0, T.EXI, DN2), "B": (T.DN, 200, 0, T.EXI, DN1), "X": (T.CN, 100, 100, T.EXI, CN1), "Y": (T.DN, 100, 100, T.PRO, DN1)}
    top = siteopt.build(c, sites, [("P", "A", {"cap": 1.0, "status": la, "sec": {"P": (0, 0), "A": (0, 1)}, "extra": [("A", (0, 0))]}), ("P", "B", {"cap": 1.0, "status": T.EXI, "sec": {"P": (0, 1)}}),
                                   ("A", "B", {"cap": 1.5, "wired": 1, "status": lw}), ("P", "X", {"cap": 1.0, "status": T.EXI, "sec": {"P": (1, 0)}}), ("P", "Y", {"cap": 1.0, "sec": {"P": (1, 0)}})],
                        [("d1", ["B"], 1), ("d2", ["X", "Y"], 1)], dem=1.0)
    setrsl(top, {})
    return top, {("P", "A"): -60.0, ("P", "B"): -60.0, ("P", "Y"): -60.0}, [("P", "A", "B"), ("P", "B", "Y"), ("P", "A", "Z")]


def net_x1(c):
    """extraction: POP node with two sectors, CN with two senders, wired link to an unselected site, sectorless link"""
    sx = c.choice("X", (T.CAN, T.PRO))
    sites = {"P": (T.POP, 0, 0, T.PRO, DN2), "A": (T.DN, 100, 0, T.PRO, DN1), "C": (T.CN, 100, 100, T.PRO, CN1), "X": (T.DN, -100, 0, sx, DN1)}
    top = siteopt.build(c, sites, [*down("P", "A", sec={"P": (0, 0)}), ("P", "C", {"cap": 1.5, "sec": {"P": (0, 1)}}), ("A", "C", {"cap": 1.0}),
                                   *down("P", "X", wired=1), ("X", "C", {"cap": 0.0})],
                        [("d1", ["C"], 1)], dem=1.0)
    setrsl(top, {})
    return top, {("A", "C"): -60.0}, []


def net_x2(c):
    """extraction: existing wired link, co-located upgrade, demand at the POP, a site that may stay without links"""
    lw = c.choice("PA", (T.EXI, T.CAN))
    sites = {"P": (T.POP, 0, 0, T.EXI, DN1), "A": (T.DN, 100, 0, T.EXI, DN2), "X": (T.CN, 100, 100, T.EXI, CN1), "Y": (T.DN, 100, 100, T.PRO, DN1),
             "Z": (T.DN, 200, 0, T.UNA, DN1)}
    top = siteopt.build(c, sites, [*down("P", "A", wired=1, status=lw), *down("A", "Y", sec={"A": (1, 0)}, extra=[("A", (1, 1)), ("A", (0, 0))]), ("P", "X", {"cap": 1.0}),
                                   *down("A", "Z", status=T.UNA, sec={"A": (0, 0)})],
                        [("d1", ["Y", "X"], 1), ("d2", ["P"], 1)], dem=1.0)
    setrsl(top, {})
    return top, {("P", "X"): -60.0}, []


def down(a, b, **o):
    return [(a, b, dict(o, cap=1.5, oneway=1)), (b, a, dict(o, cap=0.0, oneway=1))]


XNETS = {"x1": net_x1, "x2": net_x2}
NETS = {"ring": net_ring, "cn": net_cn, "limit": net_limit, "exist": net_exist}
PRM = {"limit": dict(dn_dn_sector_limit=1, dn_total_sector_limit=2), "ring": dict(dn_dn_sector_limit=1, dn_total_sector_limit=15)}


def sites_on(net):
    order = {T.CN: 0, T.DN: 1, T.POP: 2}
    on = set()
    for g in net.groups():
        a = [s for s in g if net.sites[s].status_type in T.ACTIVE]
        if a:
            top = max(order[net.sites[s].site_type] for s in a)
            on |= {s for s in a if order[net.sites[s].site_type] == top}
    return on


class Model:
    """what the specification talks about"""

    def __init__(self, net, opt, pairs, irsl):
        self.net, self.opt, self.pairs = net, opt, pairs
        p = self.p = net.p
        self.C = C = range(p.number_of_channels)
        self.on = sites_on(net)
        self.al = [e for e, l in net.links.items() if l.is_wireless and l.tx_sector is not None and l.rx_sector is not None and l.capacity > 0]
        self.AL = {e: opt.active_link[e].b for e in self.al}
        self.wl = [e for e, l in net.links.items() if l.is_wireless]
        self.SEC = {}
        for q in net.top.sectors.values():
            s = q.site.site_id
            for ch in (C if net.dist(s) else (0,)):
                self.SEC[(s, q.sector_id, ch)] = opt.sector_vars[(s, q.sector_id, ch)].b
        self.O = {} if p.ignore_polarities else {s: opt.odd[s].b for s in net.sites if net.dist(s)}
        self.I = irsl
        self.ex = {e for e, l in net.links.items() if l.status_type == T.EXI}

    def sec(self, q):
        """sector on"""
        s = q.site.site_id
        return z3.Or([b for (a, x, _), b in self.SEC.items() if (a, x) == (s, q.sector_id)])

    def links_rules(self):
        net, p, C, AL = self.net, self.p, self.C, self.AL
        out = []
        for q in net.top.sectors.values():
            s = q.site.site_id
            mine = [b for (a, x, _), b in self.SEC.items() if (a, x) == (s, q.sector_id)]
            if len(mine) > 1:
                out.append((f"a sector uses at most one channel @{q.sector_id}", z3.PbLe([(b, 1) for b in mine], 1)))
            if s not in self.on:
                out.append((f"no sector on at a site outside the plan @{q.sector_id}", z3.Not(self.sec(q))))
            for r in net.top.sectors.values():
                if r is not q and r.site is q.site and r.node_id == q.node_id:
                    out.append((f"all sectors of a node are on or off together @{q.sector_id}", self.sec(q) == self.sec(r)))
        for e in self.al:
            i, j = e
            l = net.links[e]
            out.append((f"an active link has both sectors on @{e}", z3.Implies(AL[e], z3.And(self.sec(l.tx_sector), self.sec(l.rx_sector)))))
            if net.dist(i) and net.dist(j):
                for ch in C:
                    out.append((f"an active link uses one channel at both ends @{e}",
                                z3.Implies(AL[e], self.SEC[(i, l.tx_sector.sector_id, ch)] == self.SEC[(j, l.rx_sector.sector_id, ch)])))
                if not p.ignore_polarities and e not in self.ex:
                    out.append((f"active links join opposite polarities @{e}", z3.Implies(AL[e], self.O[i] != self.O[j])))
            if (j, i) in AL:
                out.append((f"both directions together @{e}", AL[e] == AL[(j, i)]))
            if l.status_type in (T.UNA, T.UNR):
                out.append((f"unusable link is not active @{e}", z3.Not(AL[e])))
            if e in self.ex and i in self.on and j in self.on:
                out.append((f"existing link stays active @{e}", AL[e]))
        if not p.ignore_polarities:
            for i, j in self.ex:
                if net.dist(i) and net.dist(j):
                    out.append((f"existing link keeps opposite polarities @{(i, j)}", self.O[i] != self.O[j]))
        for e in self.ex:
            l = net.links[e]
            if e[0] in self.on and e[1] in self.on and l.tx_sector is not None:
                out.append((f"existing link keeps its sectors @{e}", z3.And(self.sec(l.tx_sector), self.sec(l.rx_sector))))
        for s, x in net.sites.items():
            if x.site_type == T.CN:
                inc = [(AL[e], 1) for e in self.al if e[1] == s]
                if inc:
                    out.append((f"a CN has at most one incoming link @{s}", z3.PbLe(inc, 1)))
        for q in net.top.sectors.values():
            mine = [e for e in self.al if net.links[e].tx_sector is q and net.dist(e[0])]
            dd = [e for e in mine if net.dist(e[1])]
            if dd:
                out.append((f"links to DNs per sector @{q.sector_id}", z3.PbLe([(AL[e], 1) for e in dd], p.dn_dn_sector_limit)))
            if mine:
                out.append((f"links per sector @{q.sector_id}", z3.PbLe([(AL[e], 1) for e in mine], p.dn_total_sector_limit)))
        for i, j, k in self.pairs:
            a, b = (i, j), (i, k)
            if a in AL and b in AL and not (a in self.ex and b in self.ex):
                qa, qb = net.links[a].tx_sector, net.links[b].tx_sector
                for ch in C:
                    out.append((f"angle-violating links not both active on one channel @{(i, j, k)}",
                                z3.Not(z3.And(AL[a], AL[b], self.SEC[(i, qa.sector_id, ch)], self.SEC[(i, qb.sector_id, ch)]))))
        return out

    def interferers(self, e):
        """[(k, l)]: links whose sender's beam towards e's receiver lands in e's receiving sector"""
        net = self.net
        i, j = e
        out = []
        rx = net.links[e].rx_sector
        for k, j2 in self.al:
            if j2 != j or k == i or k not in self.on:
                continue
            path = net.links[(k, j)]
            if net.sites[j].site_type == T.CN:
                scan = net.sites[j].device.sector_params.horizontal_scan_range
                if scan < 360:
                    d = abs(path.rx_beam_azimuth - net.links[e].rx_beam_azimuth) % 360
                    if min(d, 360 - d) >= scan / 2 + 1e-5:
                        continue
            elif path.rx_sector is not rx:
                continue
            out += [(k, l) for k2, l in self.al if k2 == k and l != j and l in self.on and net.links[(k, l)].tx_sector is path.tx_sector]
        return out

    def sinr_inv(self, e, ch):
        net, opt = self.net, self.opt
        i, j = e
        t = term(noise(net.sites[j].device))
        for k, l in self.interferers(e):
            x = term(opt.tdm[(k, l, ch)])
            if self.O:
                x = z3.If(self.O[k] == self.O[i], x, z3.RealVal(0))
            t = t + term(lin(self.I.get((k, j), float("-inf")))) * x
        return t / term(lin(net.links[e].rsl_dbm))

    def classes(self, e):
        """[(1/snr, gbps)] of the receiver's table rows that carry data"""
        return [(1 / lin(r.snr), r.mbps / 1000) for r in self.net.sites[e[1]].device.sector_params.mcs_map if r.mbps > 0]

    def traffic_rules(self):
        net, p, C, AL, opt = self.net, self.p, self.C, self.AL, self.opt
        E = net.edges()
        F = {e: term(opt.flow[e]) for e in E}
        SH = self.SH = {d: term(opt.shortage[d]) for d in net.demand}
        TD = {(e, ch): term(opt.tdm[(*e, ch)]) for e in self.wl for ch in C}
        tot = self.tot = net.total_demand()
        out = [(f"flow non-negative @{e}", F[e] >= 0) for e in E]
        inn, outg = {}, {}
        for (i, j) in E:
            outg.setdefault(i, []).append(F[(i, j)])
            inn.setdefault(j, []).append(F[(i, j)])
        for s in net.sites:
            if s in inn or s in outg:
                a, b = zsum(inn.get(s, [])), zsum(outg.get(s, []))
                out.append((f"traffic in equals traffic out @{s}", a == b))
                out.append((f"no traffic through a site outside the plan @{s}", z3.And(a <= tot, b <= tot) if s in self.on else z3.And(a == 0, b == 0)))
        for d in net.demand:
            dv = net.demand_value(d)
            out.append((f"shortage between 0 and demand @{d}", z3.And(SH[d] >= 0, SH[d] <= dv)))
            out.append((f"demand receives demand minus shortage @{d}", zsum(inn.get(d, [])) == dv - SH[d]))
        out.append(("supersource sends all delivered traffic", zsum(outg.get(SUPER, [])) == tot - zsum(SH.values())))
        for q in net.pops:
            out.append((f"POP capacity @{q}", zsum(outg.get(q, [])) <= term(p.pop_capacity)))
        maxcap = zmax([term(l.capacity) for l in net.links.values()])
        for d, (ds, _) in net.demand.items():
            for s in ds.connected_sites:
                out.append((f"hand-off limit @{d}", F[(s.site_id, d)] <= maxcap))
        for e, l in net.links.items():
            cap = term(l.capacity)
            if not l.is_wireless:
                out.append((f"traffic within wired capacity @{e}", F[e] <= cap))
            else:
                air = zsum([TD[(e, ch)] for ch in C])
                out.append((f"traffic within capacity times airtime @{e}", F[e] <= cap * air))
                for ch in C:
                    out.append((f"airtime share in [0,1] @{e}", z3.And(TD[(e, ch)] >= 0, TD[(e, ch)] <= 1)))
                if e not in AL:
                    out.append((f"no airtime on links that cannot be active @{e}", air <= 0))
                if e in AL:
                    out.append((f"airtime only on active links @{e}", air <= one(AL[e])))
                    out.append((f"traffic only on active links @{e}", z3.Implies(z3.Not(AL[e]), F[e] == 0)))
            if not net.usable(e):
                out.append((f"unusable link carries nothing @{e}", F[e] == 0))
        for q in net.top.sectors.values():
            s = q.site.site_id
            for nm, es in (("transmit", [e for e in self.wl if net.links[e].tx_sector is q]), ("receive", [e for e in self.wl if net.links[e].rx_sector is q])):
                for ch in (C if net.dist(s) else (0,)):
                    if es:
                        out.append((f"{nm} airtime of a sector, on its channel only @{q.sector_id}", zsum([TD[(e, ch)] for e in es]) <= one(self.SEC[(s, q.sector_id, ch)])))
        for e in self.al:
            if e[0] not in self.on or e[1] not in self.on:
                continue
            alt = []
            for ch in C:
                inv = self.sinr_inv(e, ch)
                ok = z3.Or([z3.And(inv <= term(v), F[e] <= term(g)) for v, g in self.classes(e)])
                alt.append(z3.And([ok] + [TD[(e, k)] == 0 for k in C if k != ch]))
            none = [F[e] == 0] + [TD[(e, k)] == 0 for k in C if len(C) > 1]
            out.append((f"throughput within the class the SINR supports @{e}", z3.Or(alt + [z3.And(none)])))
        self.F, self.TD = F, TD
        return out

    def definitions(self):
        """values of the model's auxiliary variables for a plan that obeys the rules"""
        net, opt, C = self.net, self.opt, self.C
        out = []
        for (i, k, l, ch), v in (opt.tdm_compatible_polarity or {}).items():
            out.append(v.t == z3.If(self.O[i] == self.O[k], term(opt.tdm[(k, l, ch)]), z3.RealVal(0)))
        for (i, j, ch), v in (opt.deployment_link or {}).items():
            l = net.links[(i, j)]
            r = self.SEC.get((j, l.rx_sector.sector_id, ch), self.SEC.get((j, l.rx_sector.sector_id, 0)))
            out.append(v.b == z3.And(self.AL[(i, j)], self.SEC[(i, l.tx_sector.sector_id, ch)], r))
        for (i, j, ch), vs in opt.link_capacity_vars.items():
            e = (i, j)
            rows = [r.mbps for r in net.sites[j].device.sector_params.mcs_map]
            zero = rows.index(0) if 0 in rows else len(rows)
            inv = self.sinr_inv(e, ch)
            used = z3.And([term(opt.tdm[(i, j, k)]) == 0 for k in C if k != ch])
            # one channel only: the first that is the only one with airtime
            for k in C:
                if k < ch:
                    used = z3.And(used, z3.Or([term(opt.tdm[(i, j, q)]) != 0 for q in C if q != k] + [z3.Not(z3.Or([self.sinr_inv(e, k) <= term(v) for v, _ in self.classes(e)]))]))
            best = z3.BoolVal(False)  # a better class fits
            for m in sorted((m for m in range(len(rows)) if rows[m] > 0), key=lambda m: -rows[m]):
                fit = z3.And(used, inv <= term(1 / lin(net.sites[j].device.sector_params.mcs_map[m].snr)))
                out.append(vs[m].b == z3.And(fit, z3.Not(best)))
                best = z3.Or(best, fit)
            out.append(vs[zero].b == z3.Not(best))
            out += [z3.Not(v.b) for m, v in vs.items() if m != zero and (m >= len(rows) or rows[m] == 0)]
        return out


def noise(device):
    return lin(device.sector_params.thermal_noise_power + device.sector_params.noise_figure)


def setup(c, name, channels, ignore, common=False):
    import terragraph_planner.optimization.ilp_models.interference_optimization as io
    io.log_to_linear = lin
    top, irsl, pairs = {**NETS, **XNETS}[name](c)
    p = siteopt.mk_params(c, pop_capacity=2.0, oversubscription=1.0, ignore_polarities=ignore, number_of_channels=channels, device_list=DEVS, cn_site_capex=10.0, dn_site_capex=300.0,
                          pop_site_capex=2000.0, maximize_common_bandwidth=common, **PRM.get(name, {}))
    net = Net(top, p)
    return top, p, net, pairs, irsl, lambda: siteopt.construct(c, io.MinInterferenceNetwork, top, p, pairs, irsl)


def equivalent(c, m, prob, tag, extra=()):
    ms = [t for _, t in problem_terms(prob)]
    sp = m.links_rules() + m.traffic_rules() + list(extra)
    if satisfiable(c, [t for _, t in sp] + [z3.Or([m.SH[d] < m.net.demand_value(d) for d in m.SH])], "some demand served"):
        c.reach("served")
    entails(c, ms, sp, f"{tag} allows: ")
    entails(c, [t for _, t in sp] + m.definitions(), [(f"{siteopt.kind(lab, t)} rule of the model not in the specification @{lab}", t) for lab, t in problem_terms(prob)], f"{tag} too strict: ")


def objective(c, m, prob, coverage, tag):
    opt, net = m.opt, m.net
    w = {e: opt.link_weights[e] for e in m.al}
    want = m.tot * coverage - zsum([one(m.AL[e]) * term(w[e]) for e in m.al])
    entails(c, [], [("objective", term(prob.objective) == want)], tag)
    c.check(prob.sense == xp.minimize, "objective is minimised")
    for a in m.al:
        c.check(w[a] > 0, "every active link is rewarded")
        for b in m.al:
            c.check(w[a] >= w[b] if net.links[a].distance < net.links[b].distance else True, "shorter links are rewarded at least as much")


def build(c, name, channels, ignore):
    top, p, net, pairs, irsl, mk = setup(c, name, channels, ignore)
    opt = mk()
    prob, _ = siteopt.capture(opt, opt.solve)
    c.check(prob is not None, "the plan is optimised")
    m = Model(net, opt, pairs, irsl)
    equivalent(c, m, prob, "model")
    objective(c, m, prob, zsum(m.SH.values()), "model: ")
    c.reach("end")


def best(terms, obj):
    o = z3.Optimize()
    o.set("timeout", 60000)
    o.add(terms)
    h = o.maximize(obj)
    r = o.check()
    return str(o.upper(h)) if r == z3.sat else str(r)


def common(c, name, channels, ignore):
    """common bandwidth: connectable demand, objective, and the second attempt when there is none"""
    top, p, net, pairs, irsl, mk = setup(c, name, channels, ignore, True)
    box = {}

    def on_connect(prob):
        o = siteopt.optimizer_in_flight()
        m = Model(net, o, pairs, irsl)
        rules = [t for _, t in m.links_rules()]
        net.site_ok = lambda s: s in m.on
        R = siteopt.reach_terms(net, lambda e: False if not net.usable(e) or net.links[e].capacity <= 0 else m.AL.get(e, z3.BoolVal(True)))
        want = {d: z3.Or([R[s.site_id] for s in ds.connected_sites]) for d, (ds, _) in net.demand.items()}
        D = {d: o.demand_vars[d].b for d in net.demand}
        ms = [t for _, t in problem_terms(prob)]
        entails(c, ms, [(f"demand counted as connectable is reachable @{d}", z3.Implies(D[d], want[d])) for d in D], "connectable: ")
        entails(c, ms, m.links_rules(), "connectable demand allows: ")
        entails(c, [], [("objective counts the connectable demand points", term(prob.objective) == zsum(one(b) for b in D.values()))], "connectable: ")
        c.check(prob.sense == xp.maximize, "number of connectable demand points is maximised")
        c.stats.queries += 2
        a, b = best(ms, zsum(one(b) for b in D.values())), best(rules, zsum(one(b) for b in want.values()))
        c.check(a == b, "connectable demand points can all be counted")
        prob.solution = [0.0] * len(prob.vars)
        box["set"] = set()
        for d in net.demand:
            if c.flag("connectable_" + d):
                prob.solution[prob.getIndex(o.demand_vars[d])] = 1.0
                box["set"].add(d)
    xp.ON_SOLVE = on_connect
    try:
        opt = mk()
    finally:
        xp.ON_SOLVE = None
    c.check(opt.connected_demand_sites == box["set"], "connectable demand points are the solver's")
    n = [0]
    zero = c.flag("no_common_bandwidth")

    class Stop(Exception):
        pass

    def on_solve(prob):
        n[0] += 1
        m = Model(net, opt, pairs, irsl)
        if n[0] == 1 and box["set"]:
            cb = term(opt.common_bandwidth)
            dem = {d: net.demand_value(d) for d in net.demand}
            extra = [("common bandwidth is what every connectable demand point gets", z3.And([cb >= 0] + [z3.And(cb <= dem[d] - term(opt.shortage[d]), cb <= dem[d]) for d in box["set"]]))]
            equivalent(c, m, prob, "common bandwidth model", extra)
            objective(c, m, prob, -cb * len(net.demand), "common bandwidth: ")
            if not zero:
                raise Stop
            prob.solution = [0.0] * len(prob.vars)
            c.reach("first")
        else:
            c.check(n[0] == 2 or not box["set"], "second attempt only without common bandwidth")
            equivalent(c, m, prob, "second model")
            objective(c, m, prob, zsum(m.SH.values()) if box["set"] else 0, "second model: ")
            raise Stop
    xp.ON_SOLVE = on_solve
    try:
        opt.solve()
        c.check(False, "solver was asked again")
    except Stop:
        pass
    finally:
        xp.ON_SOLVE = None
    c.reach("end")


_cache = {}


def extract(c, name, channels, ignore):
    from terragraph_planner.optimization.constants import EPSILON
    top, p, net, pairs, irsl, mk = setup(c, name, channels, ignore)
    eps = c.real("solver_tolerance", 0, 1e-6)
    box = {}
    key = (name, channels, ignore, str([x.status_type for x in (*top.sites.values(), *top.links.values())]), str(irsl), str([x.device.device_sku for x in top.sites.values()]))

    def on_solve(prob):
        box["prob"] = prob
        box["vec"], box["bits"], box["terms"] = p10.deliver(c, prob, eps)
    if c.symbolic and key in _cache:
        top, opt, net, prob, terms, sv = _cache[key]
        opt.site_vars = dict(sv)
        box["vec"], box["bits"], _ = p10.deliver(c, prob, eps, terms)
        sol = opt.extract_solution()
    else:
        opt = mk()
        xp.ON_SOLVE = on_solve
        try:
            sv = None
            old = opt.extract_solution

            def ex():
                nonlocal sv
                sv = dict(opt.site_vars)
                return old()
            opt.extract_solution = ex
            sol = opt.solve()
        finally:
            xp.ON_SOLVE = None
            opt.extract_solution = old
            if c.symbolic and "prob" in box:
                _cache[key] = (top, opt, net, box["prob"], box["terms"], sv)
    vec, bits = box["vec"], box["bits"]
    val = lambda v: vec[v.name]
    m = Model(net, opt, pairs, irsl)
    F0 = {e: val(opt.flow[e]) for e in net.edges()}
    if sol is None:
        c.reach("dropped")
        return
    D, L, Q, H = sol.site_decisions, sol.link_decisions, sol.sector_decisions, sol.channel_decisions
    AL = {e: bits[opt.active_link[e].name] for e in m.al}
    dserv = {s.site_id for d in net.top.demand_sites.values() for s in d.connected_sites}
    pos = {e: c.OR(*([sol.flow_decisions[e] > EPSILON])) for e in net.links}
    for e, l in net.links.items():
        i, j = e
        if e in AL:
            c.check((L[e] == 1) == AL[e], "wireless link decision is the solver's")
        elif not l.is_wireless and i in m.on and j in m.on:
            c.check(L[e] == 1, "wired link between sites of the plan is active")
        else:
            c.check(c.OR(L[e] == 0, sol.flow_decisions[e] > EPSILON / 2), "other links carry no traffic and are not active")
        if not (i in m.on and j in m.on):
            c.check(c.OR(L[e] == 0, False), "no active link at a site outside the plan")
        c.check(c.OR(L[e] == 0, c.AND(D[i] == 1, D[j] == 1)), "active link has both sites in the plan")
        if e in AL:
            qa, qb = l.tx_sector.sector_id, l.rx_sector.sector_id
            c.check(c.OR(L[e] == 0, c.AND(Q[(i, qa)] == 1, Q[(j, qb)] == 1)), "active link has both sectors active")
            if l.status_type not in (T.UNA, T.UNR):
                c.check(c.OR(L[e] == 0, c.AND(H[(i, qa)] == H[(j, qb)], H[(i, qa)] >= 0)), "active link has one channel at both ends")
        if l.is_wireless:
            t = 0
            for ch in m.C:
                t = t + val(opt.tdm[(*e, ch)])
            c.eq(sol.tdm_decisions[e], t, "airtime is the solver's")
        c.le(sol.flow_decisions[e], F0[e], "flow is at most the solver's")
    cost = 0
    for s, x in net.sites.items():
        linked = [L[e] == 1 for e in net.links if s in e]
        want = c.OR(*linked) if linked else False
        want = s in m.on and (s in dserv or want)
        c.check((D[s] == 1) == want, "site in the plan iff selected and it has an active link or demand")
        if x.status_type != T.EXI:
            cost = cost + c.ITE(D[s] == 1, {T.CN: p.cn_site_capex, T.DN: p.dn_site_capex, T.POP: p.pop_site_capex}[x.site_type], 0)
        if net.dist(s) and not ignore:
            o, ev = sol.odd_site_decisions[s], sol.even_site_decisions[s]
            c.check(o + ev == D[s], "exactly one polarity for sites of the plan, none otherwise")
            c.check(c.OR(D[s] == 0, (o == 1) == bits[opt.odd[s].name]), "polarity is the solver's")
        nodes = {}
        for q in net.top.sectors.values():
            if q.site is x:
                nodes.setdefault(q.node_id, []).append(q)
        for qs in nodes.values():
            act = [L[e] == 1 for e, l in net.links.items() if l.tx_sector in qs or l.rx_sector in qs]
            act = c.OR(*act) if act else False
            for q in qs:
                k = (s, q.sector_id)
                c.check((Q[k] == 1) == act, "sectors of a node are active iff the node has an active link")
                c.check((H[k] >= 0) == (Q[k] == 1), "exactly the active sectors have a channel")
                if net.dist(s):
                    for ch in m.C:
                        c.check(c.OR(H[k] != ch, bits[opt.sector_vars[(*k, ch)].name]), "channel is the solver's")
            if x.status_type != T.EXI:
                cost = cost + c.ITE(act, x.device.node_capex, 0)
    c.eq(sol.cost, cost, "reported cost is the price of the plan's new sites and nodes")
    for d in net.demand:
        c.eq(sol.shortage_decisions[d], val(opt.shortage[d]), "shortage is the solver's")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    out = []
    for n in NETS:
        for ch in (1, 2) if not BIG else (1, 2, 3):
            for ig in (False, True):
                if ig and not BIG and n in ("limit", "exist"):
                    continue
                t = f"{n}/{ch}{'/nopolarity' if ig else ''}"
                out.append(Case("model/" + t, lambda c, n=n, ch=ch, ig=ig: build(c, n, ch, ig), must_reach=("end", "served")))
        out.append(Case(f"common/{n}", lambda c, n=n: common(c, n, 2 if n == "cn" else 1, False)))
    for n in XNETS:
        for ch in (1, 2):
            for ig in (False, True):
                if ch == 2 and not ig and not BIG:
                    continue
                out.append(Case(f"extract/{n}/{ch}{'/nopolarity' if ig else ''}", lambda c, n=n, ch=ch, ig=ig: extract(c, n, ch, ig)))
    return out
