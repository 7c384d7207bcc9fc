From da16a00bfb0ebd388285d7eb123979eb454c9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 01/52] fix: find connectable demand without changing immutable
 link or site statuses

Zero-capacity or adversarial links that are existing or unavailable made
_get_reachable_demand_sites_without_constraints raise, because it marked the
ignored components unreachable in the topology.
---
 .../ilp_models/network_optimization.py        | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..22a3809 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -32,8 +31,9 @@ from terragraph_planner.optimization.constants import (
 from terragraph_planner.optimization.ilp_models.optimization_setup import (
     OptimizationSetup,
 )
-from terragraph_planner.optimization.topology_operations import (
-    get_reachable_demand_sites,
+from terragraph_planner.optimization.topology_networkx import (
+    build_digraph,
+    find_connected_demands,
 )
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -157,29 +157,14 @@ class NetworkOptimization(OptimizationSetup):
             status_filter = StatusType.reachable_status()
         ignore_links = self._get_ignore_links()
         ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
-        reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+        # Search on a graph without the ignored components rather than changing
+        # their status in the topology, since some statuses are immutable
+        graph = build_digraph(self.topology, status_filter)
+        graph.remove_edges_from(ignore_links)
+        graph.remove_nodes_from(ignore_sites)
+        reachable_demand_sites = (
+            find_connected_demands(graph) if SUPERSOURCE in graph else set()
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
-- 
2.43.0


From 1d2677349bbd77a87a39ce9723c0a512b9455ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 02/52] fix: count demand served directly by a POP in the
 maximum POP capacity

The cost optimization gave up early (or blamed the POPs) although a plan
existed when demand sites are connected directly to a POP, since only the
capacity of the outgoing links of the POP was counted.
---
 .../optimization/topology_operations.py            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..e2db71c 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -165,11 +165,18 @@ def compute_max_pop_capacity_of_topology(
     Given a single POP, this is done by first finding the max capacity outgoing
     link from each individual sector, adding them together along with the
     capacity of all the outgoing wired links. The smaller of this and the POP
-    capacity is the max outgoing capacity. This is summed across all of the
-    POPs in the topology.
+    capacity is the max outgoing capacity. POPs that are directly connected to
+    a demand site can use all of their capacity. This is summed across all of
+    the POPs in the topology.
     """
     site_sector_capacities = {}
     site_wired_capacities = {}
+    demand_connected_sites = {
+        site.site_id
+        for demand in topology.demand_sites.values()
+        for site in demand.connected_sites
+        if site.status_type in status_filter
+    }
     for link_data in topology.links.values():
         if link_data.status_type not in status_filter:
             continue
@@ -203,6 +210,9 @@ def compute_max_pop_capacity_of_topology(
 
     max_capacity = 0.0
     for pop_id in topology.get_site_ids(site_type_filter={SiteType.POP}):
+        if pop_id in demand_connected_sites:
+            max_capacity += pop_capacity
+            continue
         pop_outgoing_capacity = 0
         if pop_id in site_sector_capacities:
             # Sum outgoing capacity of each POP sector
-- 
2.43.0


From a4e0f56f5e02c31abdea8b134006d7a8625f0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 03/52] fix: do not skip cost optimization when a common
 bandwidth plan fits the POPs

In common bandwidth mode a coverage target only requires a share of the
smallest connectable demand at every connectable demand site, but the early
exit compared the POP capacity with the share of the total demand.
---
 .../optimization/ilp_models/cost_optimization.py     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/cost_optimization.py b/terragraph_planner/optimization/ilp_models/cost_optimization.py
index 8defa95..b1f143a 100644
--- a/terragraph_planner/optimization/ilp_models/cost_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/cost_optimization.py
@@ -73,7 +73,17 @@ class MinCostNetwork(SiteOptimization):
             pop_capacity=self.params.pop_capacity,
             status_filter=StatusType.reachable_status(),
         )
-        if max_capacity < self.max_throughput * self.params.coverage_percentage:
+        required_throughput = self.max_throughput
+        if self.params.maximize_common_bandwidth:
+            # Coverage is relative to the smallest connectable demand
+            connected_demands = [
+                self.demand_at_location[loc]
+                for loc in self.connected_demand_sites
+            ]
+            required_throughput = len(connected_demands) * min(
+                connected_demands, default=0
+            )
+        if max_capacity < required_throughput * self.params.coverage_percentage:
             # The maximum capacity that the POPs can support is less than the
             # total demand in the area. Flow balance constraints can not be
             # satisfied.
-- 
2.43.0


From c8995883fb42e52294f749585aeb0aec47bee29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 04/52] fix: no crash in common bandwidth mode without
 connectable demand

create_coverage_constraint took the minimum over an empty list when no
demand site can be reached from a POP.
---
 .../optimization/ilp_models/network_optimization.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 22a3809..c61ac01 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -748,6 +748,9 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            # Without any connectable demand there is nothing to cover
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From aafaa7afe8fac5465aaa41e0c1df92f767562ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 05/52] fix: never select unavailable or unreachable POPs when
 POPs are always active

With always_active_pops the check for active POPs swallowed inactive POPs, so
nothing prevented the optimizer from selecting them.
---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index c61ac01..9d8a7df 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -836,11 +836,11 @@ class NetworkOptimization(OptimizationSetup):
             if (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
+                and loc not in self.inactive_sites
             ):
                 if (
-                    loc not in self.inactive_sites
                     # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
-- 
2.43.0


From 142c4fefc085bc16f7f26e56aafc665f15c6fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 06/52] fix: deactivate disconnected sites that have no sectors
 when applying a plan

---
 terragraph_planner/optimization/topology_optimization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..b2b2d0f 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -637,15 +637,18 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
-        if site.site_id not in hop_counts:
+    # Sites without any sectors (e.g., with only wired links) can be
+    # disconnected too
+    for site_id, site in topology.sites.items():
+        if site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
-- 
2.43.0


From 64b3b86edc997b6a78deb045cf3903aafbeeb84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 07/52] fix: keep unavailable links unavailable when marking
 unreachable components

---
 terragraph_planner/optimization/topology_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index e2db71c..eb2021d 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -143,13 +143,16 @@ def mark_unreachable_components(
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                # Unavailable links always stay unavailable
+                if link.status_type != StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type != StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From 75df48b01f7bc786122005132b06c57647278250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 08/52] fix: look up the incoming link to find wireless
 predecessor sites

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..8f28a09 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -310,7 +310,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From ae0b354c9755a1c68f0c6c6c29612e0e27bda44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 09/52] fix: forget the sectors of a removed site

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 8f28a09..301531d 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From 43b6ff3ca4adb01da62dd16ecbb8f49f36d52b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:49 +0000
Subject: [PATCH 10/52] fix: allow links between unavailable and unreachable
 sites

---
 terragraph_planner/common/topology_models/link.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..b1a27f1 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -376,10 +376,13 @@ class Link:
                 raise TopologyException(
                     "A link from/to an unavailable sites must be unavailable."
                 )
-        if (
+        elif (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in {
+            StatusType.UNREACHABLE,
+            StatusType.UNAVAILABLE,
+        }:
             raise TopologyException(
                 "The status of the link with an unreachable tx or rx site must be unreachable."
             )
-- 
2.43.0


From 2a5404a2a053d2f20fb477f08c26bf8b0cd6c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 11/52] fix: do not require sectors for active wired links
 before optimizing

---
 .../optimization/topology_preparation.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..8418825 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1020,7 +1020,8 @@ def validate_topology_status(topology: Topology) -> None:
             TopologyException,
         )
 
-        # Existing link must be connected to existing sites/sectors.
+        # Existing link must be connected to existing sites/sectors (wired
+        # links do not have sectors).
         if link.status_type == StatusType.EXISTING:
             planner_assert(
                 link.tx_site.status_type == StatusType.EXISTING
@@ -1029,7 +1030,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 == StatusType.EXISTING
                 and link.rx_sector is not None
@@ -1038,7 +1040,8 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Existing link {link.link_id} must be connected to existing sectors.",
                 TopologyException,
             )
-        # Proposed link must be connected to active sites/sectors.
+        # Proposed link must be connected to active sites/sectors (wired links
+        # do not have sectors).
         elif link.status_type == StatusType.PROPOSED:
             planner_assert(
                 link.tx_site.status_type in StatusType.active_status()
@@ -1047,7 +1050,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 in StatusType.active_status()
                 and link.rx_sector is not None
-- 
2.43.0


From 330c94b240605684034604a79305b23cb414123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 12/52] fix: switch all sectors of a node on or off together in
 interference plans

---
 .../optimization/ilp_models/network_optimization.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 9d8a7df..bc8a89b 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -390,7 +390,8 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                # All sectors have a decision for at least the first channel
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
@@ -405,7 +406,7 @@ class NetworkOptimization(OptimizationSetup):
                     == xp.Sum(
                         self.sector_vars[loc2, sec2, channel]
                         for channel in range(self.number_of_channels)
-                        if (loc1, sec1, channel) in self.sector_vars
+                        if (loc2, sec2, channel) in self.sector_vars
                     )
                 )
 
-- 
2.43.0


From a7615fc17bed76972f9a935d1c1c05469eba9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 13/52] fix: do not require sectors for existing wired links in
 interference plans

---
 .../optimization/ilp_models/interference_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..0ddef99 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -367,6 +367,10 @@ class MinInterferenceNetwork(NetworkOptimization):
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 1)
 
+            # Wired links have no sectors
+            if (i, j) in self.wired_links:
+                continue
+
             # Ensure one of the sectors are active if the link is active
             (sector1, sector2) = self.link_to_sectors.get((i, j), (None, None))
             planner_assert(
-- 
2.43.0


From 30bba345c16d834a562041e0adcb0f6a5bfaf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 14/52] fix: no traffic through unselected sites in
 interference plans

---
 .../optimization/ilp_models/interference_optimization.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 0ddef99..e2aca5e 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -177,6 +177,7 @@ class MinInterferenceNetwork(NetworkOptimization):
         # Constraints
         self.create_tdm_flow_relationship()
         self.create_tdm_link_relationship()
+        self.create_flow_site_relationship()
         self.create_flow_balance_with_shortage()
         self.create_pop_load_constraints()
         self.create_flow_link_relationship()
-- 
2.43.0


From 1a79a67eaabffaf2c1186e3b96df1c2923bd31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 15/52] fix: no airtime on links that can not be active in
 interference plans

---
 .../optimization/ilp_models/interference_optimization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e2aca5e..a0dec6f 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -564,6 +564,15 @@ class MinInterferenceNetwork(NetworkOptimization):
                         )
                         <= self.active_link[(i, j)]
                     )
+                else:
+                    # Links that can not be active do not use any airtime
+                    self.problem.addConstraint(
+                        xp.Sum(
+                            self.tdm[(i, j, c)]
+                            for c in range(self.number_of_channels)
+                        )
+                        <= 0
+                    )
 
     def create_polarity_link_relationship(self) -> None:
         """
-- 
2.43.0


From c6d6ecf282d4770e4cb91c844db28f8d955fd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 16/52] fix: use existing sectors when computing the throughput
 of a design

---
 .../optimization/ilp_models/flow_optimization.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..25639c0 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,10 +181,11 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
-            (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
-            else 0
+            (loc, sec, 0): 1 if sec in active_sectors.get(loc, set()) else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
             if self.sector_to_type[sec] not in IMAGINARY_SECTOR_TYPES
-- 
2.43.0


From 7d279279ab2a889767f7eb629e5a6ca674768848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 17/52] fix: keep existing sectors and links when readjusting
 sector orientations

---
 .../optimization/topology_operations.py              | 12 +++++++++++-
 .../optimization/topology_preparation.py             |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index eb2021d..c6b9279 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -390,6 +390,13 @@ def readjust_sectors_post_opt(
         sector_params = site.device.sector_params
         neighbor_site_list = neighbor_sites[site_id]
 
+        # Existing sectors are already installed, so leave such a site as it was
+        if any(
+            sector.status_type == StatusType.EXISTING
+            for sector in sectors_for_sites[site_id]
+        ):
+            continue
+
         sector_channel_list: List[Tuple[str, int]] = []
         for neighbor_site in neighbor_site_list:
             link = topology.get_link_by_site_ids(
@@ -475,7 +482,10 @@ def _set_sector_status_in_same_node(topology: Topology) -> None:
         if sector.status_type == StatusType.PROPOSED:
             proposed_nodes.add((sector.site.site_id, sector.node_id))
     for sector in topology.sectors.values():
-        if (sector.site.site_id, sector.node_id) in proposed_nodes:
+        if (
+            sector.status_type == StatusType.CANDIDATE
+            and (sector.site.site_id, sector.node_id) in proposed_nodes
+        ):
             sector.status_type = StatusType.PROPOSED
 
 
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 8418825..35db78c 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -364,7 +364,10 @@ def add_sectors_to_links(
             tx_sector.channel = rx_sector.channel = link_channel_map[
                 link.link_id
             ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+            for sector in (tx_sector, rx_sector):
+                # Existing sectors stay existing
+                if sector.status_type != StatusType.EXISTING:
+                    sector.status_type = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 01f59c5f7bb9641c967fcce792f7ddcf6e849a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 18/52] fix: wrap angle differences when orienting the sectors
 of CN sites

---
 terragraph_planner/optimization/topology_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 35db78c..ef88e6a 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -570,6 +570,10 @@ def find_best_equidistant_sectors(
         np.round((link_angles - rotation_angles) / arc_length) % num_nodes
     )
     delta_angles = link_angles - node_ids * arc_length - rotation_angles
+    # Change delta into [-180, 180)
+    delta_angles = (
+        delta_angles + FULL_ROTATION_ANGLE / 2
+    ) % FULL_ROTATION_ANGLE - FULL_ROTATION_ANGLE / 2
     delta_angles[abs(delta_angles) > inter_node_angle / 2] = FULL_ROTATION_ANGLE
     mets = np.sum(delta_angles**2, axis=1)
     best_met_idx = mets.argmin()
-- 
2.43.0


From fe67852ab28360b26c7a9f89bbe0d053ca05275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 19/52] fix: allow for the different bearings of a link's
 directions when validating its sectors

---
 .../optimization/topology_preparation.py          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index ef88e6a..ba8cb1f 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -496,12 +496,23 @@ def validate_link_sectors(
 ) -> None:
     if link.tx_sector is None and link.rx_sector is None:
         return
+    # The bearings of the two directions of a link do not differ by exactly 180
+    # degrees, and the sectors might have been chosen using the other direction
+    reverse_bearing = bearing_in_degrees(
+        link.rx_site.longitude,
+        link.rx_site.latitude,
+        link.tx_site.longitude,
+        link.tx_site.latitude,
+    )
+    tolerance = SECTOR_LINK_ANGLE_TOLERANCE + abs(
+        angle_delta(reverse_bearing, link.rx_beam_azimuth)
+    )
     tx_horizontal_scan_range = (
         link.tx_site.device.sector_params.horizontal_scan_range
     )
     planner_assert(
         abs(none_throws(link.tx_dev))
-        < tx_horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE,
+        < tx_horizontal_scan_range / 2 + tolerance,
         "Link is not within the horizontal scan range of the connected tx sector",
         OptimizerException,
     )
@@ -515,7 +526,7 @@ def validate_link_sectors(
     )
     planner_assert(
         abs(none_throws(link.rx_dev))
-        < rx_horizontal_scan_range / 2 + SECTOR_LINK_ANGLE_TOLERANCE,
+        < rx_horizontal_scan_range / 2 + tolerance,
         "Link is not within the horizontal scan range of the connected rx sector",
         OptimizerException,
     )
-- 
2.43.0


From bc78e7823d7ee2f565a14d14f6987084fa545c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 20/52] fix: back-off search only considers MCS classes of the
 table

---
 terragraph_planner/common/rf/link_budget_calculator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..85275bc 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -413,7 +413,11 @@ def adjust_tx_power_with_backoff(
     until that is no longer the case. This function returns the adjusted MCS
     level and Tx power.
     """
-    while mcs_level > 0:
+    # Only the MCS levels in the map can be used
+    mcs_levels = {
+        row.mcs for row in mcs_snr_mbps_map if 0 < row.mcs <= mcs_level
+    }
+    for mcs_level in sorted(mcs_levels, reverse=True):
         snr_dbm = get_snr_from_mcs(mcs_level, mcs_snr_mbps_map)
         rsl_dbm = get_snr_based_rsl(snr_dbm, np_dbm)
         tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
@@ -422,7 +426,6 @@ def adjust_tx_power_with_backoff(
         tx_backoff = get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map)
         if tx_power <= max_tx_power - tx_backoff:
             return mcs_level, tx_power
-        mcs_level -= 1
     return 0, -math.inf
 
 
-- 
2.43.0


From 13e97d150db2e1e371c1218493aceb4c76928b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 21/52] fix: SNR of MCS classes sharing a threshold

---
 terragraph_planner/common/rf/link_budget_calculator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 85275bc..fbaca32 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -482,12 +482,12 @@ def get_snr_from_mcs(mcs: int, mcs_snr_mbps_map: List[MCSMap]) -> float:
     if MCS >= 12, then the link corresponds to snr_dbm = 18 and so on.
     snr_dbm = max{snr: MCS >= MCS[snr]}
     """
-    snr_mcs_mapping = {row.snr: row.mcs for row in mcs_snr_mbps_map}
-    if mcs < min(snr_mcs_mapping.values()):
+    # MCS levels may share the same SNR, so the map cannot be keyed by SNR
+    snr_values = [row.snr for row in mcs_snr_mbps_map if mcs >= row.mcs]
+    if len(snr_values) == 0:
         return 0
 
-    snr_dbm = max(t for t, m in snr_mcs_mapping.items() if mcs >= m)
-    return snr_dbm
+    return max(snr_values)
 
 
 def get_snr_based_rsl(snr_dbm: float, noise_power_dbm: float) -> float:
-- 
2.43.0


From 05cf09e8bfcdc58375d991a94a7d9c8b8bed7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 22/52] fix: interference analysis with an active CN that no
 active link serves

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..1aa1640 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # An existing CN may be left without any active incoming link
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From b010e0d087839f79c7d9056730ff95c561260a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 23/52] fix: adversarial links when a direction of a link has
 no capacity

---
 .../optimization/topology_networkx.py         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..ea320f4 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -257,14 +257,19 @@ def find_most_disruptive_links(
         elif (u, v) in disruptive_edges:
             continue
 
-        has_rev = candidate_graph.has_edge(v, u)
+        has_rev = proposed_graph.has_edge(v, u)
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
-        # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        # demands in the candidate graph, do not add this to disruptive_edges.
+        # Either direction can be missing in the candidate graph (for example,
+        # if it has no capacity).
+        candidate_edges = [
+            edge
+            for edge in [(u, v), (v, u)]
+            if candidate_graph.has_edge(*edge)
+        ]
+        candidate_graph_copy.remove_edges_from(candidate_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
@@ -274,9 +279,7 @@ def find_most_disruptive_links(
             if has_rev:
                 disruptive_edges.add((v, u))
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(candidate_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 4a79e5e06be08e383f8b91307d6062d9cea9f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 24/52] fix: looking for disjoint paths dropped the attributes
 of the edges on the shortest paths

---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index ea320f4..6bb0aa1 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -425,26 +425,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.edges[edge]))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From 1b466e4b452d9d0f26f6573b679179dcf3c13bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 25/52] fix: outages caused by a link were reported for one of
 its directions only

---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..e38cc09 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # Both directions of a link are one entry
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From f41cc10317176cb7864807f903ef5b2e38c5ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 26/52] fix: report of a plan without active links

---
 terragraph_planner/optimization/topology_report.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index e38cc09..fa2f4eb 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -382,9 +382,11 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization, default=0),
+                min=min(active_link_utilization, default=0),
             ),
         )
     else:
-- 
2.43.0


From bc7bbb48c506464c88b7e380affe6db498aff413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 27/52] fix: report of a plan with active wired links

---
 terragraph_planner/optimization/topology_report.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index fa2f4eb..15bd4e1 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -419,7 +419,11 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        # Wired links have no sectors
+        if (
+            link.status_type in StatusType.active_status()
+            and link.link_type != LinkType.ETHERNET
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From 2a13a6d703fa6a7f16aefcf335bc5d19aa12f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 28/52] fix: availability simulation of links that are never
 available

---
 .../optimization/topology_availability.py           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..7c8799d 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,9 +83,11 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are processed in the order they are generated
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
+    num_events = 1
 
     # Generate failure and repair events for each backhaul edge; add to heap
     processed_edges = set()
@@ -107,11 +109,12 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, num_events, key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, num_events + 1, key, _REPAIRED))
+            num_events += 2
 
         processed_edges.add(key)
 
@@ -129,7 +132,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From 4cab70e4a73e1e3644f2a3e9daf3c82da1b65549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 29/52] fix: uniform demand next to the antimeridian

A site within one spacing of the antimeridian made the grid loop wrap around
forever (or fail with a longitude beyond -180).
---
 .../optimization/topology_demand.py           | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..f9f1fce 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -147,22 +147,36 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    # Without wraparound, the eastern boundary is never west of the western one
+    if antimeridian:
+        right += 360
+
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude,
+                        longitude=_normalize_longitude(longitude),
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
+
+
+def _normalize_longitude(longitude: float) -> float:
+    """
+    Wrap a longitude that is beyond the antimeridian by at most one revolution.
+    """
+    if longitude > 180:
+        return longitude - 360
+    if longitude < -180:
+        return longitude + 360
+    return longitude
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 2050c619797bf34106e4d5270219938cae99884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 30/52] fix: line of sight between input rooftop sites

All sites that users place on rooftops have the unknown building id, so they
were taken to be on the same building and never had a line of sight.
---
 terragraph_planner/los/base_los_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..c95f459 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -7,9 +7,13 @@ import math
 from abc import ABC, abstractmethod
 from typing import List, Optional, Tuple
 
+from pyre_extensions import none_throws
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -109,6 +113,8 @@ class BaseLOSValidator(ABC):
             == site2.location_type
             == LocationType.ROOFTOP.value
             and site1.building_id == site2.building_id
+            # Input sites on rooftops have an unknown building
+            and none_throws(site1.building_id) > UNKNOWN_BUILDING_ID
         )
 
     def _los_out_of_distance_range(self, distance: float) -> bool:
-- 
2.43.0


From 839d381f203558e5ef16f479f57954b9daeb9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 31/52] fix: memoized line of sight ignores the building

Two pairs of sites at the same coordinates, only one of which is on one
building, got the result of whichever came first.
---
 terragraph_planner/los/helper.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..6e26366 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,14 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        # The building matters, too, so the whole sites are the keys
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 89d1826314ad89423739d18624c9121a7d248e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 32/52] fix: candidate links to sites of the base topology

Lines of sight between new sites and sites of the base topology were computed,
but then dropped, because only new sites were mapped to the topology.
---
 terragraph_planner/los/helper.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 6e26366..ad56883 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -895,7 +895,8 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
-                site_map[site_idx] = [site]
+            # Sites of the base topology are already in the topology
+            site_map[site_idx] = [topology.sites[site.site_id]]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
@@ -936,12 +937,20 @@ def add_links_to_topology(
                 continue
             for tx_site in site_map[tx_site_idx]:
                 for rx_site in site_map[rx_site_idx]:
+                    # Links of the base topology are kept
+                    if (
+                        topology.get_link_by_site_ids(
+                            tx_site.site_id, rx_site.site_id
+                        )
+                        is not None
+                    ):
+                        continue
                     link = Link(
                         tx_site=tx_site,
                         rx_site=rx_site,
                         tx_sector=None,
                         rx_sector=None,
-                        status_type=StatusType.CANDIDATE,
+                        status_type=_get_los_link_status(tx_site, rx_site),
                         is_wireless=True,
                         confidence_level=confidence_dict[
                             (tx_site_idx, rx_site_idx)
@@ -961,6 +970,17 @@ def add_links_to_topology(
                         topology.add_link(link)
 
 
+def _get_los_link_status(tx_site: Site, rx_site: Site) -> StatusType:
+    """
+    New links are candidates unless one of their sites cannot be used.
+    """
+    site_status = {tx_site.status_type, rx_site.status_type}
+    for status_type in (StatusType.UNAVAILABLE, StatusType.UNREACHABLE):
+        if status_type in site_status:
+            return status_type
+    return StatusType.CANDIDATE
+
+
 def upsample_to_same_resolution(
     elevation1: Elevation, elevation2: Elevation
 ) -> None:
-- 
2.43.0


From 6a31ad08582d066f278268e5878cfe2f823b911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 33/52] fix: exclusion zones were never converted to UTM

The zones are read in latitude and longitude, but lines of sight are checked
against them in UTM, so no line of sight was ever excluded.
---
 terragraph_planner/los/helper.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index ad56883..1f40fe5 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -13,7 +13,7 @@ import numpy as np
 import numpy.typing as npt
 from osgeo import osr
 from pyre_extensions import none_throws
-from shapely import wkt
+from shapely import ops, wkt
 from shapely.geometry import Polygon
 from shapely.prepared import prep
 
@@ -30,6 +30,7 @@ from terragraph_planner.common.configuration.enums import (
     StatusType,
 )
 from terragraph_planner.common.constants import (
+    LAT_LON_EPSG,
     LOWER_BOUND_FOR_LOS_DISTANCE,
     UPPER_BOUND_FOR_LOS_DISTANCE,
 )
@@ -43,7 +44,11 @@ from terragraph_planner.common.exceptions import (
     LOSException,
     planner_assert,
 )
-from terragraph_planner.common.geos import GeoLocation
+from terragraph_planner.common.geos import (
+    GeoLocation,
+    TransformerLib,
+    lat_lon_to_utm_epsg,
+)
 from terragraph_planner.common.rf.link_budget_calculator import (
     fspl_based_estimation,
     get_max_tx_power,
@@ -200,7 +205,7 @@ def get_exclusion_zones(
     user_input_file_path: Optional[str], ll_boundary: Polygon
 ) -> List[Polygon]:
     """
-    Get a list of Polygon, representing the exclusion zones. boundary polygon
+    Get a list of Polygon in UTM, representing the exclusion zones. boundary polygon
     is used to filter out zones not fully contained in the boundary.
     """
     if user_input_file_path is not None and len(user_input_file_path) > 0:
@@ -209,7 +214,18 @@ def get_exclusion_zones(
         if ext == "kmz" or ext == "kml":
             exclusion_polygons = extract_polygons(user_input_file_path)
             prepared_boundary = prep(ll_boundary)
-            return list(filter(prepared_boundary.contains, exclusion_polygons))
+            # Line-of-sight is computed in UTM
+            transformer = TransformerLib.get_tranformer(
+                LAT_LON_EPSG,
+                lat_lon_to_utm_epsg(
+                    ll_boundary.centroid.y, ll_boundary.centroid.x
+                ),
+            )
+            return [
+                ops.transform(transformer.transform, polygon)
+                for polygon in exclusion_polygons
+                if prepared_boundary.contains(polygon)
+            ]
     return []
 
 
-- 
2.43.0


From 005419b7a10e6de713761517ba186a5dd97a7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 34/52] fix: elevation window reaching beyond the raster

Negative indices made get_value_matrix_within_bound return cells from the
other end of the raster, or none.
---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..1f86055 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -261,8 +261,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # Negative indices would count from the other end of the matrix
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From b4c5fe440f810f8d13d57e3826c876cd593f6c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 35/52] fix: sum and difference of elevations without data

Where one of the elevations has no data, the sum and the difference were
bogus elevations instead of no data.
---
 terragraph_planner/los/elevation.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 1f86055..c005e31 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -283,10 +283,27 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _keep_missing_data(
+        self,
+        result_matrix: npt.NDArray[np.float32],
+        other_geogrids: "Elevation",
+    ) -> npt.NDArray[np.float32]:
+        """
+        Where either elevation has no data, the result has no data.
+        """
+        result_matrix[
+            (self.data_matrix == NO_DATA_VALUE)
+            | (other_geogrids.data_matrix == NO_DATA_VALUE)
+        ] = NO_DATA_VALUE
+        return result_matrix
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                self._keep_missing_data(
+                    self.data_matrix + other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -304,7 +321,10 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                self._keep_missing_data(
+                    self.data_matrix - other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From 2c48ffe860e2609f5c76d6404f18e0b636ec003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 36/52] fix: GeoTIFF files with a date could not be loaded

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From 8d1244a9f201631e478ff4afb7fb69bfe59f0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 37/52] fix: elevations of different resolution could not be
 combined

After upsampling, the grids of two GeoTIFF files still differ in size and
origin, so that adding the DHM to the DTM always raised an exception (and the
DHM was subtracted from the DSM without upsampling).
---
 terragraph_planner/los/core.py      |  4 ++++
 terragraph_planner/los/elevation.py | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/terragraph_planner/los/core.py b/terragraph_planner/los/core.py
index 1bc3af6..246dbd5 100644
--- a/terragraph_planner/los/core.py
+++ b/terragraph_planner/los/core.py
@@ -231,8 +231,12 @@ def load_gis_data(
     )
     if dsm is None and dtm is not None and dhm is not None:
         upsample_to_same_resolution(dtm, dhm)
+        # The grids of different files may be offset from each other
+        dhm.resample_to_grid_of(dtm)
         dsm = dtm + dhm
     elif dsm is not None and dtm is None and dhm is not None:
+        upsample_to_same_resolution(dsm, dhm)
+        dhm.resample_to_grid_of(dsm)
         dtm = dsm - dhm
 
     errors = building_group_loader.errors + elevation_loader.errors
diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index c005e31..0e0681b 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -189,6 +189,26 @@ class Elevation(GISData):
         self.x_resolution = x_resolution
         self.y_resolution = y_resolution
 
+    def resample_to_grid_of(self, other: "Elevation") -> None:
+        """
+        Re-sample data_matrix by nearest neighbor to the grid of another elevation
+        """
+        if self._has_same_metadata(other):
+            return
+        data_matrix = np.zeros(
+            (other.y_size, other.x_size), dtype=self.data_matrix.dtype
+        )
+        for idx_y in range(other.y_size):
+            for idx_x in range(other.x_size):
+                data_matrix[idx_y][idx_x] = self.get_value(
+                    *other.idx_to_utm(idx_x, idx_y)
+                )
+        self.data_matrix = data_matrix
+        self.x_resolution = other.x_resolution
+        self.y_resolution = other.y_resolution
+        self.left_top_x = other.left_top_x
+        self.left_top_y = other.left_top_y
+
     def get_data_as_list(self) -> List[Tuple[float, float, float]]:
         """
         Get data in the format of List[Tuple[utm_x, utm_y, elevation]]
-- 
2.43.0


From c7db723b839a2f44806dd6e5edaff9d675e30adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 38/52] fix: site names made unique could equal another site's
 name

---
 terragraph_planner/common/data_io/input_sites.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/input_sites.py b/terragraph_planner/common/data_io/input_sites.py
index dbd9162..dece11f 100644
--- a/terragraph_planner/common/data_io/input_sites.py
+++ b/terragraph_planner/common/data_io/input_sites.py
@@ -7,7 +7,7 @@ from collections import abc, defaultdict
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 
 from terragraph_planner.common.configuration.enums import LocationType, SiteType
-from terragraph_planner.common.exceptions import DataException
+from terragraph_planner.common.exceptions import DataException, planner_assert
 from terragraph_planner.common.geos import lat_lon_to_utm_epsg
 from terragraph_planner.common.topology_models.site import Site
 
@@ -99,10 +99,19 @@ class InputSites(abc.Sized, abc.Iterable):
         if len(self._site_name_to_device_skus[site.name]) > 1:
             self._append_device_sku_to_site_name(site)
         else:  # That's the first site with this site name. Then no need to append device_sku
-            self._site_name_to_site[site.name] = site
+            self._register_site_name(site)
 
     def _append_device_sku_to_site_name(self, site: Site) -> None:
         if site.name in self._site_name_to_site:
             del self._site_name_to_site[site.name]
         site.name = f"{site.name}_{site.device.device_sku.casefold()}"
+        self._register_site_name(site)
+
+    def _register_site_name(self, site: Site) -> None:
+        # A name with an appended sku might be the input name of another site
+        planner_assert(
+            site.name not in self._site_name_to_site,
+            f"Duplicate site name {site.name}",
+            DataException,
+        )
         self._site_name_to_site[site.name] = site
-- 
2.43.0


From fb6a986e6b88a4c9aed5a48300fb277098d3c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 39/52] fix: rooftop sites without building id could not be
 loaded for optimization

---
 terragraph_planner/common/data_io/input_sites_loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..d69412a 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,11 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            # Only rooftop sites have a building id, which might not be given
+            if location_type != LocationType.ROOFTOP:
+                building_id = None
+            elif building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From 7efc5fd1088975b74a6c27724d4e4a546818dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 40/52] fix: blank cells and location type of site csv files

---
 .../common/data_io/csv_library.py             | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..8890e22 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -6,7 +6,7 @@
 import csv
 import re
 from itertools import combinations
-from typing import TYPE_CHECKING, List, Optional, Tuple
+from typing import TYPE_CHECKING, List, Optional, Tuple, Union
 
 import pandas as pd
 from pyre_extensions import none_throws
@@ -157,6 +157,18 @@ def load_csv_and_validate(
     return df
 
 
+def _parse_optional_number(value: Union[str, float, None]) -> Optional[float]:
+    """
+    Get the number in a cell of the csv file, or None if the cell is blank.
+    """
+    if value is None or (isinstance(value, str) and len(value.strip()) == 0):
+        return None
+    try:
+        return float(value)
+    except ValueError:
+        raise DataException(f"Invalid number {value} in site csv file.")
+
+
 def load_input_sites_from_csv_file(
     csv_file_path: str, is_user_input: bool
 ) -> List[RawSite]:
@@ -194,17 +206,28 @@ def load_input_sites_from_csv_file(
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
             continue
+        location_type_str = site_row.get(SiteKey.LOCATION_TYPE, "").upper()
+        location_type = (
+            LocationType[location_type_str]
+            if location_type_str in LocationType.__members__
+            else LocationType.UNKNOWN
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-            altitude=site_row.get(SiteKey.ALTITUDE, None),
-            height=site_row.get(SiteKey.HEIGHT, None),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            altitude=_parse_optional_number(
+                site_row.get(SiteKey.ALTITUDE, None)
+            ),
+            height=_parse_optional_number(site_row.get(SiteKey.HEIGHT, None)),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From e6529e2ed62ad67251ecf02ac7ba24ce34519148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 41/52] fix: links without link type field ignored the type of
 their folder

---
 terragraph_planner/common/data_io/kml_library.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..5017356 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -133,17 +133,18 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
+        # The folder decides the type of the links without a link type field
+        feature_link_type = (
             LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+            else link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=feature_link_type,
             confidence_level=float(confidence_level)
             if confidence_level.isdecimal()
             else None,
-- 
2.43.0


From 9744b13639ee219dc7ecacd80f8cf20dddf272ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 42/52] fix: fractional confidence levels of links were dropped

---
 terragraph_planner/common/data_io/kml_library.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 5017356..aca8ee5 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -121,6 +121,16 @@ def extract_sites(
         raw_sites.append(site)
 
 
+def _parse_confidence_level(confidence_level: str) -> Optional[float]:
+    """
+    Get the confidence level as a number, or None if it's not available.
+    """
+    try:
+        return float(confidence_level)
+    except ValueError:
+        return None
+
+
 def extract_links(
     raw_links: List[RawLink],
     layer: ogr.Layer,
@@ -145,9 +155,7 @@ def extract_links(
         link = RawLink(
             status_type=status_type,
             link_type=feature_link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=_parse_confidence_level(confidence_level),
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From 36e78fd8f61989fd8411bfd271408063ee2be0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 43/52] fix: links without site names were not matched by
 location

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index aca8ee5..cdf54d5 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -156,10 +156,10 @@ def extract_links(
             status_type=status_type,
             link_type=feature_link_type,
             confidence_level=_parse_confidence_level(confidence_level),
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
-- 
2.43.0


From 2bc67e94d297bea3bdc1ef3f377b5fe8c50ff5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 44/52] fix: unknown altitudes corrupted the link coordinates
 in kml files

---
 terragraph_planner/common/data_io/topology_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..972e899 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -287,7 +287,7 @@ def _site_markup(
         </ExtendedData>
         <Point>
             <altitudeMode>{altitude_mode}</altitudeMode>
-            <coordinates>{site.longitude},{site.latitude},{site.altitude}</coordinates>
+            <coordinates>{site.longitude},{site.latitude},{site.altitude or 0}</coordinates>
         </Point>
     </Placemark>
     """
@@ -370,8 +370,8 @@ def _link_markup(
         </ExtendedData>
         <LineString>
             <altitudeMode>{tx_altitude_mode}</altitudeMode>
-            <coordinates> {tx_site.longitude},{tx_site.latitude},{tx_site.altitude}
-            {rx_site.longitude},{rx_site.latitude},{rx_site.altitude}
+            <coordinates> {tx_site.longitude},{tx_site.latitude},{tx_site.altitude or 0}
+            {rx_site.longitude},{rx_site.latitude},{rx_site.altitude or 0}
             </coordinates>
         </LineString>
     </Placemark>
-- 
2.43.0


From e932413e4bca32ee58627a99273f3954e8d822ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 45/52] fix: non-positive maximum coverage time was accepted

---
 terragraph_planner/common/configuration/configs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..813e3e3 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -681,6 +681,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             min_cost_max_time > 0
             and redundancy_max_time > 0
+            and max_coverage_max_time > 0
             and interference_max_time > 0
             and pop_proposal_max_time > 0
             and demand_site_max_time > 0,
@@ -690,6 +691,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             availability_max_time > 0,
             "Maximum availability solver time must be positive",
+            ConfigException,
         )
         if candidate_topology_file_path is not None:
             assert_file_extension(
-- 
2.43.0


From 1b312c061eec24f554f59fa67b8645a6e1e4b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 46/52] fix: MCS tables without back-off column were rejected
 unless in ascending order

---
 terragraph_planner/common/data_io/csv_library.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 8890e22..ea7573d 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -477,7 +477,13 @@ def read_mcs_snr_mbps_map_data(
         The ordering of MCS, SNR, MBPS and TX_BACKOFF must match. For increasing MCS, SNR
         threshold, Mbps and Tx power backoff should be also increasing.
         """
-        return [i[0] for i in sorted(enumerate(lst), key=lambda x: x[1])]
+        # Rows of equal value are ordered by MCS
+        return [
+            i[0]
+            for i in sorted(
+                enumerate(lst), key=lambda x: (x[1], mapping[MCS][x[0]])
+            )
+        ]
 
     mcs_ordering = _get_ordering(mapping[MCS])
     snr_ordering = _get_ordering(mapping[SNR])
-- 
2.43.0


From 24c9b23643e8621221594a00eb84c72ffb59041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 47/52] fix: links to proposed POPs got type and confidence of
 another link

---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..04d2f18 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -124,8 +124,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 95da5c09b88064026a85d02d167d6bf5cfb5a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 48/52] fix: POPs could not be proposed for networks with
 existing POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 04d2f18..5070aa6 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -267,9 +267,10 @@ class POPProposalNetwork(SiteOptimization):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                if site.status_type not in StatusType.immutable_status():
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 2358262add682fe032a24694b699d19c8f692e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 49/52] fix: number of proposed POPs was wrong or impossible
 with co-located or active sites

---
 .../ilp_models/pop_proposal_optimization.py   | 55 ++++++++-----------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 5070aa6..d78d0f4 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -56,6 +56,8 @@ def add_duplicate_pop_to_dn_site(
         if (
             solution.site_decisions.get(site_id, 0) == 1
             and site.site_type == SiteType.DN
+            # The type of active sites cannot be changed
+            and site.status_type not in StatusType.active_status()
         ):
             # Create POP at same location as DN
             new_pop = Site(
@@ -209,40 +211,29 @@ class POPProposalNetwork(SiteOptimization):
         params.maximize_common_bandwidth = maximize_common_bandwidth
 
     def create_pop_constraint(self) -> None:
-        num_input_pops = len(
-            [
-                site.site_id
-                for site in self.input_topology.sites.values()
-                if site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
-            ]
-        )
-        num_access_pops = len(
-            [
-                site.site_id
-                for site in self.topology.sites.values()
-                if site.site_type == SiteType.POP
+        # Co-located sites count once because only one of them can be selected.
+        # DNs that are already active are always selected, so they do not count
+        # as additional POPs.
+        active_locations = {
+            self.location_to_geoloc[site.site_id]
+            for site in self.input_topology.sites.values()
+            if (
+                site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
-            ]
-        )
-
-        # Number of POPs to be proposed should equal to the number of extra
-        # POPs plus the input POPs. That number should not exceed the number of
-        # POPs in the access topology.
-        num_pops = min(
-            self.params.number_of_extra_pops + num_input_pops, num_access_pops
-        )
-        if num_pops == 0:
-            return None
-
-        self.problem.addConstraint(
-            xp.Sum(
-                self.site_vars[loc]
-                for loc in self.locations
-                if loc in self.type_sets[SiteType.POP]
             )
-            == num_pops
-        )
+            or (
+                site.site_type == SiteType.DN
+                and site.status_type in StatusType.active_status()
+            )
+        }
+        num_pops = self.params.number_of_extra_pops + len(active_locations)
+        pops = [
+            self.site_vars[loc]
+            for loc in self.locations
+            if loc in self.type_sets[SiteType.POP]
+        ]
+        if len(pops) > 0:
+            self.problem.addConstraint(xp.Sum(pops) <= num_pops)
 
     def add_pop_constraint_coverage_objective(self) -> None:
         # Ensure total number of POPs is less than prescribed limit
-- 
2.43.0


From aec7634e143ca64ccd70c76add4d5ceee5b9b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 50/52] fix: wired links were not available to proposed POPs

---
 .../ilp_models/pop_proposal_optimization.py   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index d78d0f4..fa73ba0 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -96,12 +96,18 @@ def add_duplicate_pop_to_dn_site(
             tx_link = none_throws(
                 topology.get_link_by_site_ids(dn_id, neighbor_site.site_id)
             )
-            if tx_link.tx_sector is None or tx_link.rx_sector is None:
+            if tx_link.is_wireless and (
+                tx_link.tx_sector is None or tx_link.rx_sector is None
+            ):
                 continue
             new_tx_link = Link(
                 tx_site=pop_site,
                 rx_site=neighbor_site,
-                tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id],
+                tx_sector=(
+                    duplicated_sectors[tx_link.tx_sector.sector_id]
+                    if tx_link.tx_sector is not None
+                    else None
+                ),
                 rx_sector=tx_link.rx_sector,
                 status_type=StatusType.CANDIDATE,
                 is_wireless=tx_link.is_wireless,
@@ -118,13 +124,19 @@ def add_duplicate_pop_to_dn_site(
             rx_link = none_throws(
                 topology.get_link_by_site_ids(neighbor_site.site_id, dn_id)
             )
-            if rx_link.tx_sector is None or rx_link.rx_sector is None:
+            if rx_link.is_wireless and (
+                rx_link.tx_sector is None or rx_link.rx_sector is None
+            ):
                 continue
             new_rx_link = Link(
                 tx_site=neighbor_site,
                 rx_site=pop_site,
                 tx_sector=rx_link.tx_sector,
-                rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
+                rx_sector=(
+                    duplicated_sectors[rx_link.rx_sector.sector_id]
+                    if rx_link.rx_sector is not None
+                    else None
+                ),
                 status_type=StatusType.CANDIDATE,
                 is_wireless=rx_link.is_wireless,
                 confidence_level=rx_link.confidence_level,
-- 
2.43.0


From ce62b410a7a57094e2a3540c4df870dfd8cfb0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 51/52] fix: detect corners of outlines with repeated vertices

With MAX_CORNER_ANGLE, an outline that repeats a vertex stopped the detection
with an AssertionError as there is no angle at a wall of length 0; without it,
the repeated vertex took two of the three corners of the building.
---
 terragraph_planner/los/building.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building.py b/terragraph_planner/los/building.py
index 9b16e19..0bc6d80 100644
--- a/terragraph_planner/los/building.py
+++ b/terragraph_planner/los/building.py
@@ -147,7 +147,13 @@ class Building:
         ]
 
         corners = []
-        polygon_vertices = list(self.polygon.exterior.coords)
+        exterior_coords = list(self.polygon.exterior.coords)
+        # Outlines may repeat a vertex, which has no angle on its own
+        polygon_vertices = exterior_coords[:1] + [
+            current
+            for previous, current in zip(exterior_coords, exterior_coords[1:])
+            if current != previous
+        ]
         if len(polygon_vertices) < POLYGON_MINIMUM_VERTICES:
             return corners
 
-- 
2.43.0


From c87feb332f40d8c590a021ffe05785de3d652fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 52/52] fix: use building centers for DETECT_HIGHEST without
 surface elevation

As documented, the center is used when there is no surface elevation data.
No candidate was detected at all.
---
 terragraph_planner/los/building_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..287123a 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -176,7 +176,9 @@ class BuildingGroup(GISData):
         )
 
         for building_id, building in enumerate(self.building_list):
-            if detect_center:
+            # The highest point is unknown without surface elevation data, in
+            # which case the center is used instead
+            if detect_center or (detect_highest and surface_elevation is None):
                 site_candidates.append(
                     _convert_point_3d_to_site(
                         none_throws(building.detect_center(surface_elevation)),
-- 
2.43.0

