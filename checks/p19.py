"""Counts and statistics of the report against counts made here."""
from vlib import boot  # noqa: F401
from vlib import topo as T
from vlib.runner import Case

META = {
    "functions": ["topology_component_counter.count_topology_components", "topology_report: get_topology_metrics, build_sites_df, build_sectors_df, "
                  "site_flow_statistics", "topology_operations.hops_from_pops (as used there)"],
    "bounds": "networks of up to 6 sites, 9 sectors and 10 links; statuses, types, node numbers, channels, classes and co-location varied in groups; "
              "all real distances, utilisations, flows and demands",
    "outside": "larger networks; formatting of the csv and yaml files; availability percentiles",
    "assumptions": ["the sectors of an active link are active and on the same channel (validated by the planner)"],
}

BIG = False
AC = T.ACTIVE


def count(it):
    return len(set(it))


def fields(c, r, want):
    for k, v in want.items():
        c.check(getattr(r, k) == v, f"{k}")


def want_counts(top, sites=True):
    S, C, L = top.sites.values(), top.sectors.values(), top.links.values()
    w = {}
    act = lambda x: x.status_type in AC
    place = lambda s: (s.longitude, s.latitude, s.altitude)
    for n, ty in (("pop", T.POP), ("dn", T.DN), ("cn", T.CN)):
        w[f"active_{n}_sites"] = sum(1 for s in S if s.site_type == ty and act(s))
        # devices of a type that are alternatives for one spot count once
        w[f"total_{n}_sites"] = count(place(s) for s in S if s.site_type == ty)
        w[f"active_demand_connected_{n}_sites"] = count(s.site_id for d in top.demand_sites.values() for s in d.connected_sites if s.site_type == ty and act(s))
    w["active_sites"] = sum(1 for s in S if act(s))
    w["total_sites"] = sum(w[f"total_{n}_sites"] for n in ("pop", "dn", "cn"))
    from terragraph_planner.common.configuration.enums import SectorType as ST
    for n, ty in (("dn", ST.DN), ("cn", ST.CN)):
        w[f"active_{n}_nodes"] = count((q.site.site_id, q.node_id) for q in C if q.sector_type == ty and act(q))
        w[f"total_{n}_nodes"] = count((q.site.site_id, q.node_id) for q in C if q.sector_type == ty)
    for k in ("active", "total"):
        w[k + "_nodes"] = w[k + "_dn_nodes"] + w[k + "_cn_nodes"]
    w["active_sectors"] = sum(1 for q in C if act(q))
    w["total_sectors"] = len(top.sectors)
    w["active_dn_sectors_on_pops"] = sum(1 for q in C if act(q) and q.site.site_type == T.POP)
    w["active_dn_sectors_on_dns"] = sum(1 for q in C if act(q) and q.site.site_type == T.DN)
    w["active_cn_sectors"] = sum(1 for q in C if act(q) and q.site.site_type == T.CN)
    from terragraph_planner.common.configuration.enums import LinkType as LT
    for n, ty in (("backhaul", LT.WIRELESS_BACKHAUL), ("access", LT.WIRELESS_ACCESS), ("wired", LT.ETHERNET)):
        # heights do not tell links apart
        pair = lambda l: frozenset(((place(l.tx_site)[:2], l.tx_site.site_type), (place(l.rx_site)[:2], l.rx_site.site_type)))
        w[f"active_{n}_links"] = count(pair(l) for l in L if l.link_type == ty and act(l))
        w[f"total_{n}_links"] = count(pair(l) for l in L if l.link_type == ty)
    from terragraph_planner.common.configuration.enums import StatusType
    ok = StatusType.reachable_status()
    seen = {s.site_id for s in S if s.site_type == T.POP and s.status_type in ok}
    for _ in S:
        seen |= {l.rx_site.site_id for l in L if l.tx_site.site_id in seen and l.status_type in ok and l.rx_site.status_type in ok}
    for n, ty in (("dn", T.DN), ("cn", T.CN)):
        w[f"connectable_{n}_sites"] = count(place(s) for s in S if s.site_type == ty and s.site_id in seen)
    w["active_cns_with_backup_dns"] = sum(
        1 for s in S if s.site_type == T.CN and act(s)
        and count(l.tx_site.site_id for l in L if l.rx_site is s and l.tx_sector is not None and act(l.tx_sector)) > 1)
    return w


class Net:
    def __init__(self):
        self.S, self.C, self.L = {}, [], []

    def site(self, n, ty, x, status, sku=None, y=0.0):
        dev = None if sku is None else (T.cn_device if ty == T.CN else T.dn_device)(sku)
        self.S[n] = T.site(n, ty, x, y, status, dev)
        return self.S[n]

    def sec(self, n, node, pos, status=None, channel=0):
        q = T.sector(self.S[n], node, pos, 90.0 * node + 30 * pos, status or self.S[n].status_type, channel)
        self.C.append(q)
        return q

    def link(self, a, b, p=None, q=None, status=None, wireless=True):
        A, B = self.S[a], self.S[b]
        ss = {A.status_type, B.status_type}
        if status is None:
            status = T.UNA if T.UNA in ss else T.UNR if T.UNR in ss else T.PRO if ss <= AC else T.CAN
        for x, y, f, g in ((A, B, p, q), (B, A, q, p)):
            if x.site_type != T.CN:
                self.L.append(T.link(x, y, 1.0, f, g, status, wireless))

    def top(self, demands=()):
        D = [T.demand(d, [self.S[s] for s in ss], v, num, x=7.0 * i) for i, (d, ss, v, num) in enumerate(demands)]
        return T.Topology(self.S.values(), D, self.C, self.L)


def check_counts(c, top):
    from terragraph_planner.optimization.topology_component_counter import count_topology_components
    r, sku, chan = count_topology_components(top)
    w = want_counts(top)
    fields(c, r, w)
    c.check(set(r._fields) == set(w), "every reported count is known here")
    act = [s for s in top.sites.values() if s.status_type in AC]
    c.check({k: v for k, v in sku.items() if v} == {k: sum(1 for s in act if s.device.device_sku == k) for k in {s.device.device_sku for s in act}},
            "active sites per device")
    pairs = {}
    for l in top.links.values():
        if l.status_type in AC and l.is_wireless:
            pairs[frozenset((l.tx_site.site_id, l.rx_site.site_id))] = l.tx_sector.channel if l.tx_sector is not None and l.rx_sector is not None else -1
    c.check({k: v for k, v in chan.items() if v} == {k: list(pairs.values()).count(k) for k in set(pairs.values())}, "active wireless links per channel")
    c.reach("end")


def sites(c):
    n = Net()
    ty = {"P": T.POP, "A": T.DN, "B": c.choice("type_B", (T.POP, T.DN)), "C": T.CN}
    for i, (k, t) in enumerate(ty.items()):
        n.site(k, t, 100.0 * i, c.choice("site_" + k, (T.CAN, T.PRO, T.EXI) + ((T.UNA, T.UNR) if k in "AC" else ())), "SKU" + ("1" if k in "PB" else "2" + k))
    s = {k: n.sec(k, 0, 0) for k in ty}
    n.link("P", "A", s["P"], s["A"])
    n.link("A", "C", s["A"], s["C"])
    n.link("B", "C", s["B"], s["C"], T.CAN if not {n.S["B"].status_type, n.S["C"].status_type} & {T.UNA, T.UNR} else None)
    check_counts(c, n.top([("d1", ["C", "A"], 1.0, 1), ("d2", ["A", "P"], 1.0, 1), ("d3", ["C"], 1.0, 2)]))


def colocated(c):
    """alternatives for one spot: equal or different type, position and height"""
    n = Net()
    n.site("P", T.POP, 0, T.PRO)
    alt = {}
    for k, x in (("A", 100.0), ("B", 100.0), ("C", c.choice("spot", (100.0, 200.0)))):
        t = c.choice("type_" + k, (T.DN, T.CN, T.POP) if k != "C" else (T.DN, T.CN))
        st = T.PRO if k == "A" else c.choice("status_" + k, (T.CAN, T.UNR, T.UNA))
        n.site(k, t, x, st, "SKU" + k)
        alt[k] = n.S[k]
    if c.flag("other_height"):
        alt["B"]._location._altitude = 7.0
    s = {k: n.sec(k, 0, 0) for k in n.S}
    for k in "ABC":
        if k == "C" and c.flag("unconnected"):
            continue
        n.link("P", k, s["P"], s[k])
    check_counts(c, n.top([("d1", ["A", "B"], 1.0, 1)]))


def sectors(c):
    """nodes with several sectors in any numbering, a node counts once"""
    n = Net()
    n.site("P", T.POP, 0, T.EXI)
    n.site("A", T.DN, 100, T.PRO)
    n.site("C", T.CN, 200, T.PRO)
    n.site("B", T.DN, 300, T.CAN)
    for k, ss in (("P", (T.EXI, T.CAN) if not BIG else (T.EXI, T.PRO, T.CAN)), ("A", (T.PRO, T.CAN)), ("B", (T.CAN,))):
        for i in range(3 if k == "A" and BIG else 2):
            n.sec(k, c.choice(f"node_{k}{i}", (0, 1)), i, c.choice(f"sector_{k}{i}", ss))
    n.sec("C", 0, 0, T.PRO)
    check_counts(c, n.top())


def links(c):
    n = Net()
    for i, (k, t) in enumerate({"P": T.POP, "A": T.DN, "B": T.DN, "C": T.CN}.items()):
        n.site(k, t, 100.0 * i, T.PRO)
    cb = c.choice("channel", (0, 1, 2, -1))
    s = {k: n.sec(k, 0, 0, T.PRO, 0) for k in "PABC"}
    s2 = {k: n.sec(k, 1, 0, T.PRO, cb) for k in "PAB"}
    cc = n.sec("C", 1, 0, T.PRO, cb) if c.flag("C_second") else None
    three = (T.PRO, T.CAN, T.UNA)
    n.link("P", "A", s["P"], s["A"], c.choice("link_PA", three))
    n.link("P", "B", s2["P"], s2["B"], c.choice("link_PB", (T.PRO, T.CAN)))
    w = c.flag("AB_wired")
    n.link("A", "B", *((None, None) if w else (s2["A"], s2["B"])), c.choice("link_AB", (T.PRO, T.CAN)), not w)
    n.link("A", "C", s["A"], s["C"], c.choice("link_AC", (T.PRO, T.CAN)))
    n.link("B", "C", *((s2["B"], cc) if cc is not None else (s["B"], s["C"])), c.choice("link_BC", (T.PRO, T.CAN)))
    check_counts(c, n.top())


def backup(c):
    """CNs that could change their DN"""
    n = Net()
    st = {"A": c.choice("site_A", (T.PRO, T.CAN)), "B": c.choice("site_B", (T.EXI, T.CAN)), "C": c.choice("site_C", (T.PRO, T.EXI, T.CAN)), "P": T.PRO}
    for i, (k, t) in enumerate({"P": T.POP, "A": T.DN, "B": T.DN, "C": T.CN}.items()):
        n.site(k, t, 100.0 * i, st[k])
    qa = n.sec("A", 0, 0, c.choice("sector_A", (T.PRO, T.CAN)) if st["A"] == T.PRO else None)
    qb, qc, qp = n.sec("B", 0, 0), n.sec("C", 0, 0), n.sec("P", 0, 0)
    n.link("A", "C", *((None, None) if c.flag("A_sectorless") else (qa, qc)), T.CAN)
    n.link("B", "C", qb, qc, T.CAN)
    if c.flag("P_too"):
        n.link("P", "C", qp, qc, T.CAN)
    check_counts(c, n.top())


# ---------------------------------------------------------------- statistics
def mean(xs):
    return sum(xs) / len(xs)


def lo(c, xs):
    r = xs[0]
    for x in xs[1:]:
        r = c.ITE(x < r, x, r)
    return r


def hi(c, xs):
    r = xs[0]
    for x in xs[1:]:
        r = c.ITE(x > r, x, r)
    return r


def stat(c, got, xs, what):
    if not xs:
        c.check(got.avg == 0 and got.max == 0 and got.min == 0, f"{what}: nothing counts as zero")
        return
    c.close(got.avg, mean(xs), f"{what}: average")
    c.close(got.max, hi(c, xs), f"{what}: maximum")
    c.close(got.min, lo(c, xs), f"{what}: minimum")


def stat_net(c, full=True):
    n = Net()
    free = (lambda name, opts: c.choice(name, opts)) if full else (lambda name, opts: opts[0])
    flag = c.flag if full else (lambda name: False)
    sa = c.choice("site_A", (T.PRO, T.CAN))
    n.site("P", T.POP, 0, T.PRO)
    n.site("A", T.DN, 100, sa)
    n.site("B", T.DN, 200, T.EXI)
    n.site("C", T.CN, 300, T.PRO)
    n.site("E", T.CN, 400, T.PRO)
    s = {k: n.sec(k, 0, 0, T.CAN if k == "A" and sa == T.CAN else T.EXI if k == "B" else T.PRO) for k in "PABCE"}
    s["B1"] = n.sec("B", 1, 0, free("sector_B1", (T.PRO, T.CAN)))
    n.link("P", "A", s["P"], s["A"])
    wired = flag("PB_wired")
    n.link("P", "B", *((None, None) if wired else (s["P"], s["B"])), free("link_PB", (T.PRO, T.CAN)), not wired)
    b = "B1" if s["B1"].status_type in AC and flag("over_B1") else "B"
    n.link("B", "C", s[b], s["C"], free("link_BC", (T.PRO, T.CAN)))
    n.link("B", "E", s["B"], s["E"], free("link_BE", (T.PRO, T.CAN)))
    return n


def metrics(c, part):
    from terragraph_planner.common.configuration.enums import LinkType as LT
    from terragraph_planner.optimization import structs as st
    from terragraph_planner.optimization import topology_report as tr
    L, F, D = part == "links", part == "failures", part == "demand"
    n = stat_net(c, L)
    dem = c.real("demand", 0, 5)
    top = n.top([("d1", ["C"], dem, 2), ("d2", ["B", "P"], 1.0, 1), ("d3", ["E"], None, 3)])
    for k, l in enumerate(top.links.values()):
        pair = "".join(sorted(l.tx_site.site_id + l.rx_site.site_id))
        l._distance = c.real("dist_" + pair, 1, 300)
        l.mcs_level = c.choice("mcs_" + pair, (9, 12)) if L and pair in ("BC", "BE") and l.status_type in AC else 9
    p = T.params()
    p.oversubscription = c.real("over", 1, 10)
    util = {k: c.real("util_%s" % i, 0, 100) for i, k in enumerate([("P", "A"), ("P", "B"), ("B", "C")][:c.choice("used", (0, 3)) if D else 3])}
    buf = c.real("buffer", 0, 2)
    connected = ["d1", "d1_1", "d2"]
    sol = None
    if not D or c.flag("solved"):
        fs = st.FlowSolution(connected_demand_sites=connected, flow_decisions={}, time_division_decisions={}, buffer_decision=buf) \
            if set(st.FlowSolution._fields) == {"connected_demand_sites", "flow_decisions", "time_division_decisions", "buffer_decision"} else \
            st.FlowSolution(**{f: {"connected_demand_sites": connected, "buffer_decision": buf}.get(f, {}) for f in st.FlowSolution._fields})
        sol = st.RoutingSolution(flow_solution=fs, active_link_utilization=util)
    dj = st.DisjointPath(demand_with_disjoint_paths={"d1"}, disconnected_demand_locations={"d3"} if D and c.flag("cut_off") else set(),
                         demand_connected_to_pop=c.choice("at_pop", (set(), {"d2"}, {"d1", "d2", "d3"})) if D else {"d2"})
    ef = {("A", "P"): {"d1", "d2"}, ("B", "P"): set()} if F and c.flag("edge_failures") else {}
    pf = c.choice("pop_failures", ({}, {"P": {"d1", "d3"}})) if F else {}
    df = c.choice("dn_failures", ({}, {"B": {"d1"}}, {"B": {"d1"}, "A": {"d1", "d2"}} if n.S["A"].status_type in AC else {})) if F else {}
    viol = st.AngleViolatingLinkPairs(diff_sector_list=[1, 2], near_far_list=[1])
    m = tr.get_topology_metrics(topology=top, params=p, routing_solution=sol, disjoint_paths=dj, edge_failure_disruptions=ef,
                                pop_failure_disruptions=pf, dn_failure_disruptions=df, availability={}, violating_links=viol, violating_sectors={"x": ["y"]})
    w = want_counts(top)
    fields(c, m.counts, w)
    act = [l for l in top.links.values() if l.status_type in AC]
    dn = [q for q in n.C if q.status_type in AC and q.site.site_type != T.CN]
    for got, ty in ((m.backhaul_link, LT.WIRELESS_BACKHAUL), (m.access_link, LT.WIRELESS_ACCESS)):
        ls = [l for l in act if l.link_type == ty]
        c.check(got.active_count == count(l.sorted_site_ids for l in ls), "links per type")
        per = [count(l.sorted_site_ids for l in ls if q in (l.tx_sector, l.rx_sector)) for q in dn]
        stat(c, got.links_per_sector, per, f"links per sector {ty.name}")
        stat(c, got.link_dist, list({l.sorted_site_ids: l.distance for l in ls}.values()), f"link length {ty.name}")
        mcs = {l.sorted_site_ids: l.mcs_level for l in ls}
        hist = m.backhaul_mcs if ty == LT.WIRELESS_BACKHAUL else m.access_mcs
        c.check(dict(hist) == {k: list(mcs.values()).count(k) for k in set(mcs.values())}, "links per modulation class")
    d = m.demand_metrics
    at = len(dj.demand_connected_to_pop)
    c.check((d.number_of_demands, d.number_of_disconnected_demands, d.number_of_demands_connected_to_pops, d.number_of_demands_with_disjoint_path)
            == (3, len(dj.disconnected_demand_locations), at, 1), "demand counts")
    c.close(d.percentage_of_demand_with_disjoint_path, 0 if at == 3 else 100 / (3 - at), "share of demand with disjoint paths")
    c.close(d.total_demand, 2 * dem + 1, "total demand")
    c.close(d.total_demand_oversubscribed * p.oversubscription, 2 * dem + 1, "oversubscribed demand")
    if sol is None:
        c.check(m.flow_metrics is None, "no flow without solution")
    else:
        c.close(m.flow_metrics.total_bandwidth, 3 * buf, "total bandwidth")
        c.close(m.flow_metrics.minimum_bandwdith_for_connected_demand, buf, "guaranteed bandwidth")
        stat(c, m.flow_metrics.link_capacity_utilization, list(util.values()), "utilisation")
    f = m.failure_disruption
    stat(c, f.edge_fail_effect, [len(v) for v in ef.values()], "link failures")
    for got, r, ty in ((f.pop_fail_effect, pf, T.POP), (f.dn_fail_effect, df, T.DN)):
        stat(c, got, [len(r.get(s, ())) for s, x in n.S.items() if x.site_type == ty and x.status_type in AC], f"{ty.name} failures")
    c.check((m.diff_sector_link_violations, m.near_far_link_violations, m.sector_link_limit_violations) == (2, 1, 1), "violations")
    c.reach("end")


def tables(c):
    """site and sector tables"""
    from terragraph_planner.common.data_io.data_key import SectorKey as QK
    from terragraph_planner.common.data_io.data_key import SiteKey as K
    from terragraph_planner.optimization import topology_report as tr
    n = stat_net(c)
    top = n.top()
    for k, l in enumerate(top.links.values()):
        l.proposed_flow = float(2 ** k) / 8
    prices = {T.POP: 1000.0, T.DN: 500.0, T.CN: 70.0}
    df = tr.build_sites_df(top, prices)
    rows = {s: df.iloc[i] for i, s in enumerate(top.sites)}
    act = [l for l in top.links.values() if l.status_type in AC]
    hops = {s: 0 for s, x in n.S.items() if x.site_type == T.POP and x.status_type in AC}
    for h in range(1, 5):
        for l in act:
            if hops.get(l.tx_site.site_id) == h - 1:
                hops.setdefault(l.rx_site.site_id, h)
    col = lambda r, key: r[key.value.output_name]
    for s, x in n.S.items():
        r = rows[s]
        mine = [q for q in n.C if q.site is x and q.status_type in AC]
        c.check(col(r, K.ACTIVE_NODES) == count(q.node_id for q in mine), "active nodes of a site")
        c.check(col(r, K.ACTIVE_SECTORS) == len(mine), "active sectors of a site")
        c.check(col(r, K.ACTIVE_LINKS) == count(l.sorted_site_ids for l in act if x in (l.tx_site, l.rx_site) and l.is_wireless), "active links of a site")
        c.check(col(r, K.HOPS_TO_NEAREST_POP) == hops.get(s, "disconnected"), "hops of a site")
        c.check(col(r, K.SITE_CAPEX) == prices[x.site_type], "price of a site")
        c.check(abs(col(r, K.OUTGOING_FLOW) - sum(l.proposed_flow for l in act if l.tx_site is x)) < 1e-9, "traffic out of a site")
        c.check(abs(col(r, K.INCOMING_FLOW) - sum(l.proposed_flow for l in act if l.rx_site is x)) < 1e-9, "traffic into a site")
    qd = tr.build_sectors_df(top, {})
    from terragraph_planner.common.configuration.enums import LinkType as LT
    c.check(list(qd.index) == [q.sector_id for q in top.sectors.values() if q.status_type in AC], "the active sectors are listed")
    for q in top.sectors.values():
        if q.status_type in AC:
            r = qd.loc[q.sector_id]
            for key, ty in ((QK.ACTIVE_BACKHAUL_LINKS, LT.WIRELESS_BACKHAUL), (QK.ACTIVE_ACCESS_LINKS, LT.WIRELESS_ACCESS)):
                c.check(col(r, key) == count(l.sorted_site_ids for l in act if l.link_type == ty and q in (l.tx_sector, l.rx_sector)), "active links of a sector")
    c.reach("end")


def cases(tier):
    global BIG
    BIG = tier == "thorough"
    return [Case("counts/sites", sites), Case("counts/co-located", colocated), Case("counts/nodes and sectors", sectors), Case("counts/links", links),
            Case("counts/backup", backup), *[Case("statistics/" + k, lambda c, k=k: metrics(c, k)) for k in ("links", "demand", "failures")], Case("tables", tables)]
