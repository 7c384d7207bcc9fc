"""Small topologies made of the real model classes (short readable ids)."""
from copy import deepcopy  # noqa

import terragraph_planner  # noqa: F401  (imports the whole package through the stub)
from terragraph_planner.common.configuration.configs import (
    DeviceData, OptimizerParams, SectorParams)
from terragraph_planner.common.configuration.enums import (
    DeviceType, LinkType, LocationType, PolarityType, SectorType, SiteType, StatusType)
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

CN, DN, POP = SiteType.CN, SiteType.DN, SiteType.POP
PRO, EXI, CAN, UNA, UNR = (StatusType.PROPOSED, StatusType.EXISTING, StatusType.CANDIDATE,
                           StatusType.UNAVAILABLE, StatusType.UNREACHABLE)
ACTIVE = {PRO, EXI}
ALL5 = [CAN, PRO, EXI, UNA, UNR]


class NSite(Site):
    """Site with a readable id (the id is otherwise a hash of position and SKU)"""
    _nid = None

    @property
    def site_id(self):
        return self._nid if self._nid is not None else super().site_id


class NDemand(DemandSite):
    _nid = None

    @property
    def demand_id(self):
        return self._nid if self._nid is not None else super().demand_id


def dn_device(sku="DN_DEV", sectors=1, nodes=4, capex=250.0, scan=70.0, **kw):
    return DeviceData(device_sku=sku, sector_params=SectorParams(
        number_sectors_per_node=sectors, horizontal_scan_range=scan, **kw),
        node_capex=capex, number_of_nodes_per_site=nodes, device_type=DeviceType.DN)


def cn_device(sku="CN_DEV", capex=150.0, **kw):
    return DeviceData(device_sku=sku, sector_params=SectorParams(**kw), node_capex=capex,
                      number_of_nodes_per_site=1, device_type=DeviceType.CN)


_dn = _cn = None


def site(sid, stype, x, y, status=CAN, device=None, altitude=0.0, loc_type=LocationType.UNKNOWN,
         building_id=None, name="", subs=None, epsg=32631):
    global _dn, _cn
    if device is None:
        if stype == CN:
            _cn = _cn or cn_device()
            device = _cn
        else:
            _dn = _dn or dn_device()
            device = _dn
    s = NSite(stype, GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg, altitude=altitude), device, status,
              loc_type, building_id, name, subs)
    s._nid = sid
    return s


def demand(did, sites, value, num=1, x=0.0, y=0.0):
    d = NDemand(GeoLocation(utm_x=x, utm_y=y, utm_epsg=32631, altitude=0.0), num, value, sites)
    d._nid = did
    return d


def sector(s, node=0, pos=0, azimuth=0.0, status=None, channel=-1):
    st = status
    if st is None:
        st = s.status_type
    return Sector(s, node, pos, azimuth, st, channel)


def link(a, b, cap=None, sa=None, sb=None, status=None, wireless=True, conf=None):
    if status is None:
        ss = {a.status_type, b.status_type}
        if UNA in ss:
            status = UNA
        elif UNR in ss:
            status = UNR
        else:
            status = CAN
    l = Link(a, b, sa, sb, status, wireless, conf)
    if cap is not None:
        l.link_budget.capacity = cap
    return l


def params(**kw):
    kw.setdefault("device_list", [dn_device(), cn_device()])
    return OptimizerParams(**kw)


def vary(c, links=(), but=()):
    """attributes that ought not to matter take any value (the engine only splits on those the code looks at)"""
    for l in links:
        k = f"{l.tx_site.site_id}{l.rx_site.site_id}"
        if "wireless" not in but:
            l.is_wireless = c.bool("wireless_" + k)
        if "capacity" not in but:
            l.link_budget.capacity = c.real("capacity_" + k)
        if "mcs" not in but:
            l.link_budget.mcs_level = c.int("mcs_" + k)
        if "redundant" not in but:
            l.is_redundant = c.bool("redundant_" + k)
        if "confidence" not in but:
            l.confidence_level = c.real("confidence_" + k)
        if "flow" not in but:
            l.proposed_flow = c.real("flow_" + k)


def sp(**kw):
    """real sector parameters with the given (possibly symbolic) attributes"""
    r = SectorParams()
    for k, v in kw.items():
        assert hasattr(r, k), k
        setattr(r, k, v)
    return r
