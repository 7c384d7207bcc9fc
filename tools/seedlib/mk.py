"""Helpers of the demo programs: small topologies from the real classes."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import logging

logging.disable(logging.CRITICAL)
from terragraph_planner.common.configuration.configs import DeviceData, OptimizerParams, SectorParams
from terragraph_planner.common.configuration.enums import *  # noqa
from terragraph_planner.common.configuration.enums import (DeviceType, LinkType, LocationType, PolarityType, SectorType, SiteType,
                                                           StatusType)
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

CN, DN, POP = SiteType.CN, SiteType.DN, SiteType.POP
CAN, PRO, EXI, UNA, UNR = (StatusType.CANDIDATE, StatusType.PROPOSED, StatusType.EXISTING, StatusType.UNAVAILABLE,
                           StatusType.UNREACHABLE)
DNDEV = DeviceData(device_sku="DN_DEV", sector_params=SectorParams(number_sectors_per_node=1, horizontal_scan_range=70.0),
                   node_capex=250.0, number_of_nodes_per_site=4, device_type=DeviceType.DN)
CNDEV = DeviceData(device_sku="CN_DEV", sector_params=SectorParams(), node_capex=150.0, number_of_nodes_per_site=1,
                   device_type=DeviceType.CN)


def site(stype, x, y, status=CAN, dev=None, alt=0.0, name="", loc=LocationType.UNKNOWN, subs=None):
    return Site(stype, GeoLocation(utm_x=x, utm_y=y, utm_epsg=32631, altitude=alt),
                dev or (CNDEV if stype == CN else DNDEV), status, loc, None, name, subs)


def sector(s, node=0, pos=0, az=0.0, status=None, channel=0):
    return Sector(s, node, pos, az, status or s.status_type, channel)


def link(a, b, cap=1.0, sa=None, sb=None, status=CAN, wireless=True, conf=None):
    l = Link(a, b, sa, sb, status, wireless, conf)
    l.link_budget.capacity = cap
    return l


def both(a, b, cap=1.0, sa=None, sb=None, **k):
    return [link(a, b, cap, sa, sb, **k), link(b, a, cap, sb, sa, **k)]


def demand(sites, value=0.1, n=1, x=0.0, y=0.0):
    return DemandSite(GeoLocation(utm_x=x, utm_y=y, utm_epsg=32631, altitude=0.0), n, value, sites)


def params(**kw):
    kw.setdefault("device_list", [DNDEV, CNDEV])
    return OptimizerParams(**kw)


def expect(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
