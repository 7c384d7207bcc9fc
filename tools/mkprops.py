#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
O = "terragraph_planner/optimization/"
I = O + "ilp_models/"
C = "terragraph_planner/common/"
L = "terragraph_planner/los/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("P01", "Planned traffic is physically deliverable",
  "Whatever solution the solver returns for the cost-minimising or coverage-maximising step, traffic in equals traffic out at every POP, DN and CN, each demand point receives exactly its demand minus its reported shortage and no site hands it more than the largest link capacity, no wireless link carries more than its capacity times its airtime share, no POP sends more than the POP capacity, nothing passes an unselected site, and unavailable, unreachable or sectorless links (and links excluded as adversarial) carry nothing. Each demand point counts once per site it stands for, with its demand divided by the oversubscription ratio. Every plan obeying these rules and those on airtime, polarity and site selection is accepted by the model.",
  ["inputs", "configurations"],
  "every candidate network, every capacity, demand and POP-capacity value, and every solution vector the solver may return (not just optimal ones)",
  "The optimisation tests need a commercial solver and compare one optimum on one hand-built network; they say nothing about the other feasible points or other capacities.",
  [I+"network_optimization.py", I+"site_optimization.py", I+"optimization_setup.py"],
  [("flow balance, flow<=capacity*tdm, POP load, flow-site coupling", I+"network_optimization.py"), ("skeleton shared by cost and coverage models", I+"site_optimization.py:set_up_problem_skeleton")],
  ["constraint set handed to the solver", "extracted flow decisions"],
  [("flow/tdm/site decisions", "solver variables of the plan", I+"network_optimization.py")])

p("P02", "Airtime and polarity rules hold in every plan",
  "In every cost or coverage plan the transmit airtime of a sector over all its links sums to at most one, so does its receive airtime, and both are zero when the sector's site is not selected. Unless polarity is ignored, a wireless DN/POP-to-DN/POP link that carries traffic joins sites of opposite polarity, and a DN/POP link, wireless or wired, that the user marked active forces its two sites to opposite polarities even when idle; other wired links and CN links impose no polarity. Nothing more restrictive is imposed.",
  ["inputs", "configurations"],
  "every candidate network with several links per sector and sectors per site, and every feasible solution vector",
  "Existing tests inspect one optimal solution of a few fixed networks and cannot run here without the solver.",
  [I+"network_optimization.py", I+"site_optimization.py"],
  [("tdm-sector coupling", I+"network_optimization.py:create_tdm_sector_relationship"), ("tdm-polarity coupling", I+"network_optimization.py:create_tdm_polarity_relationship"), ("active link polarity", I+"network_optimization.py:create_active_link_polarity_constraints")],
  ["constraint set handed to the solver"])

p("P03", "Plan cost counts each new site and node exactly once",
  "The cost that is minimised, the cost compared with the budget and the cost reported for a plan are the same quantity: for every selected site that is not already existing, its site price by type plus the price of each radio node the plan activates, counted once per node however many sectors it has. No plan returned by a budget-limited step costs more than the budget. The capital expense of a finished topology follows the same rule, totalling active components and separately those newly proposed.",
  ["inputs", "configurations"],
  "all prices, all selections of sites, all numbers of nodes per site and sectors per node",
  "Tests check a handful of sums with fixed prices; double counting needs multi-sector nodes, mixed existing/proposed sites and particular prices.",
  [I+"network_optimization.py", I+"optimization_setup.py", O+"topology_operations.py", O+"topology_report.py"],
  [("cost expression", I+"network_optimization.py:_extract_cost"), ("first sector of a node carries the node price", I+"optimization_setup.py"), ("capex", O+"topology_operations.py")],
  ["objective / budget constraint handed to the solver", "solution cost", "capex metrics"])

p("P04", "Existing sites stay, unusable sites never get selected",
  "In every cost or coverage plan, sites that are existing or already proposed (and all usable POPs when always-active POPs are requested) are selected, and unavailable or unreachable sites are not. At each location at most one of the co-located devices is selected; where one of them is already active exactly one is, and it is either an already-active device of the highest active type or, only when that type is CN, an upgrade to a DN or POP. No other restriction is placed on site selection.",
  ["inputs", "configurations"],
  "every assignment of types and statuses to up to three co-located and isolated sites, with and without always-active POPs, and every feasible solution vector",
  "The combinations of co-located types, statuses and options are far more than the sampled ones.",
  [I+"network_optimization.py", I+"site_optimization.py"],
  [("decided sites", I+"network_optimization.py:create_decided_site_constraints"), ("co-located sites", I+"network_optimization.py:create_colocated_site_relationship")],
  ["constraint set handed to the solver"])

p("P05", "Coverage targets and objectives mean what they say",
  "A minimum-cost plan for coverage p leaves a total shortage of at most (1-p) of total demand, or, in common-bandwidth mode, gives every connectable demand point at least p times the smallest connectable demand; a maximum-coverage plan minimises total shortage, or maximises one bandwidth that every connectable demand point receives. Connectable demand points are those reachable from a POP over usable positive-capacity links that the plan could activate. If no plan is found at full coverage the target is lowered in 10% steps, never below 50%, and the first target with a plan is used.",
  ["inputs", "configurations"],
  "all demands, shortages, coverage fractions and reachability patterns, and every solver outcome sequence",
  "Depends on solver outcomes and on all solution vectors; tests fix one.",
  [I+"network_optimization.py", I+"cost_optimization.py", I+"coverage_optimization.py", O+"topology_optimization.py"],
  [("coverage constraint / objective", I+"network_optimization.py"), ("coverage stepping", O+"topology_optimization.py")],
  ["constraint set and objective handed to the solver", "sequence of solver calls"])

p("P06", "Redundant designs survive single failures as configured",
  "A redundancy plan with no shortage lets every redundancy-eligible DN independently send its required number of unit flows to the POPs over selected sites and the usable links offered to it, with each POP, each intermediate DN and the DN itself carrying no more unit flows than the limits of the configured redundancy level, wired links demanding no polarity, so that required flows are site-disjoint where the limit is one. The second, cost-minimising phase never allows a DN more shortage than the first phase achieved, never removes the sites and links already in the plan, and minimises the cost of the newly selected sites.",
  ["inputs", "configurations", "fault_sequences"],
  "all small candidate networks, redundancy levels and feasible solution vectors",
  "Tests check one optimum on fixed graphs and cannot run without the solver.",
  [I+"redundancy_optimization.py", O+"topology_optimization.py"],
  [("unit-flow problems per DN and their node capacities", I+"redundancy_optimization.py")],
  ["constraint set handed to the solver", "extracted redundancy solution"])

p("P07", "Interference plan: channel, link and airtime consistency",
  "In every interference-minimising plan each active DN sector uses exactly one channel, a link is active in a direction and channel only if both its sectors are active (the DN sectors on that channel) and its reverse is active too, airtime and flow are used only on active links, each CN has at most one incoming link, and a sector's active link count respects its point-to-multipoint limits. Two links that violate the sector-angle deployment rules are never both active on the same channel, and all sectors of a node are switched on or off together. Existing links stay active, traffic passes only sites of the plan, links that cannot be active use no airtime, and the throughput allowed on a link never exceeds that of the MCS class supported by its signal level against the interference of the other active links of the plan.",
  ["inputs", "configurations"],
  "small candidate networks with one or two channels, all link budgets and feasible solution vectors",
  "Requires reasoning over all feasible solution vectors, not one optimum; the tests cannot run without the solver.",
  [I+"interference_optimization.py", I+"network_optimization.py"],
  [("link decisions, P2MP, interference classes", I+"interference_optimization.py")],
  ["constraint set handed to the solver", "extracted link/sector/channel decisions"])

p("P08", "Post-design throughput uses only the active network, fairly",
  "When the throughput of a finished design is computed, every connectable demand point receives the same bandwidth, other demand points receive none, and that bandwidth is what is maximised. Traffic uses only active sites, active non-redundant links and active sectors, within link capacity times airtime and POP capacity.",
  ["inputs", "configurations"],
  "all assignments of statuses and redundancy flags, all capacities and all feasible solution vectors",
  "Needs every feasible flow for every status combination; unavailable to the tests without a solver.",
  [I+"flow_optimization.py", I+"network_optimization.py"],
  [("MaxFlowNetwork", I+"flow_optimization.py")],
  ["constraint set and objective handed to the solver", "flow solution"])

p("P09", "Removing flow loops preserves delivery",
  "Cleaning up a solution's flows yields a loop-free flow in which every link carries at most what it carried before and never a negative amount, and every location keeps the same net inflow. Loop-free flows are left unchanged.",
  ["inputs"],
  "every flow assignment on every directed graph of up to 4 (thorough: 5) locations",
  "The recursion depends on flow magnitudes and the order of nested loops; tests run a few flows.",
  [I+"network_optimization.py"],
  [("prune_loops", I+"network_optimization.py:prune_loops")],
  ["returned flow decisions"])

p("P10", "Extracted plans are self-consistent",
  "For any solver solution, the plan handed back selects a site only if the solver selected it and it is used, activates a link exactly if both its sites and both its sectors are active, the link is usable with positive capacity and (unless wired, to a CN or user-active) the polarities differ, and marks every selected DN/POP as exactly one of odd and even. Unselected sites have no active sectors, links or polarity, sites carrying traffic stay selected, and all sectors of an active node are active while nodes without active links are not.",
  ["inputs"],
  "every binary and continuous solution vector allowed by the model on small networks",
  "Tests only see one optimal vector; degenerate and idle selections are what the clean-up exists for.",
  [I+"site_optimization.py", I+"network_optimization.py"],
  [("extract_solution", I+"site_optimization.py"), ("link decisions from sectors and polarity", I+"site_optimization.py")],
  ["the returned optimisation solution"])

p("P11", "Applying a plan updates the topology faithfully",
  "After a plan is applied, sites, sectors and links chosen by the plan are proposed, those not chosen are candidates, and existing, unavailable and unreachable ones are unchanged; apart from existing ones, sites with no connection to an active POP are not left active, nor are their sectors and links. Polarities and sector channels in the topology are the plan's.",
  ["inputs", "histories"],
  "every status assignment and every decision vector on small networks",
  "Interactions of status immutability with decisions are combinatorial; tests sample a few.",
  [O+"topology_operations.py", O+"topology_optimization.py"],
  [("update of topology from a solution", O+"topology_operations.py")],
  ["site/sector/link status, polarity, channel and airtime of the topology"])

p("P12", "Hop counts and reachability are exact",
  "A site's hop count from the POPs is the number of links on the shortest path of links and sites with the requested statuses from any such POP. Exactly the candidate sites that no POP can reach, or only beyond the hop limit, through usable components are marked unreachable, together with their sectors and the links attached to them that may change; nothing else changes, and existing and unavailable components never change status.",
  ["inputs", "histories"],
  "every small directed network, every status assignment",
  "Graph shape times status combinations are exponential; tests use a few graphs.",
  [O+"topology_operations.py", O+"topology_networkx.py"],
  [("hops_from_pops / mark_unreachable_components", O+"topology_operations.py")],
  ["statuses after marking", "returned hop counts"])

p("P13", "Component statuses can never contradict each other",
  "No sequence of construction and status changes leaves a topology in which a link is active although one of its sites or sectors is not, a link is existing although a site is not, a link attached to a newly built unavailable site is usable, or a component has changed to or from existing or unavailable. CN sites never transmit, identifiers depend only on the key attributes, and adding or removing components keeps the neighbour, sector and link lookups consistent with the components present, links of a removed sector having no sectors.",
  ["histories", "inputs"],
  "all sequences of up to 3 status updates, additions and removals on small networks",
  "Histories are not enumerated by tests; each checks a single transition.",
  [C+"topology_models/topology.py", C+"topology_models/site.py", C+"topology_models/sector.py", C+"topology_models/link.py"],
  [("status setters and compatibility checks", C+"topology_models/link.py")],
  ["raised errors", "statuses and lookups after the call"])

p("P14", "Antenna sectors are assigned to links correctly",
  "When sectors are laid out, a wireless link is assigned, at each end, the sector whose boresight is nearest to the link direction, provided that at both ends the link lies within half the horizontal scan range (CNs before optimization: the full range) of it, up to the angle tolerance; a link with an uncovered end gets no sectors on either side and zero capacity. Sectors and links of the input that already exist stay as they are. A site's nodes and sectors are those of its device, sectors of one node spaced by the scan range; CN sites get at most one sector, pointed at a serving DN; wired links carry the POP capacity.",
  ["inputs", "configurations"],
  "all link bearings (real valued) for up to 3 links per site, devices with 1-4 sectors and scan ranges",
  "Azimuth arithmetic wraps at 0/360 and has real-valued boundary cases sampled tests miss.",
  [O+"topology_preparation.py"],
  [("add_sectors_to_links and helpers", O+"topology_preparation.py")],
  ["tx/rx sector of every link", "sectors on the topology"])

p("P15", "Deployment-rule violations are reported exactly",
  "Two wireless links leaving a site from different sectors are reported as an angle violation exactly when the angle between them (wrapping at 360 degrees) is at most the configured limit, and otherwise as a near-far violation exactly when that angle is at most the configured near-far angle and the longer link is at least the configured multiple of the shorter. Sectors whose number of active links exceeds the point-to-multipoint limits are reported exactly. Each offending pair is counted once; when only active links are asked for, inactive components and pairs on different channels are ignored.",
  ["inputs", "configurations"],
  "all real-valued azimuths, distances and limits for up to 3 links at a site",
  "Boundary and wrap-around angles are a continuum.",
  [O+"deployment_rules.py", C+"geos.py"],
  [("find_angle_violating_link_pairs etc.", O+"deployment_rules.py")],
  ["reported violations and counts"])

p("P16", "Interference and SINR are computed from real interferers only",
  "A link's interference is the power sum of the signals that active links of other transmitters, on the same channel and with polarity that lets them transmit at the same time, put into its receiving sector; inactive, redundant and own links add nothing (redundant links still suffer interference), and several links of one interfering sector are averaged, not summed. SINR equals the signal level less the sum of noise and interference, so it never exceeds SNR, and equals it without interferers, and adding an interferer never raises it. The MCS, capacity and power of active links follow from the final SINR as they would from an equal SNR, and a link without any possible class is switched off.",
  ["inputs", "configurations"],
  "small networks, all channels/polarities/statuses, all received powers",
  "Combinatorics of status, channel and polarity; tests check a few fixed layouts and part cannot run.",
  [O+"topology_interference.py", C+"rf/link_budget_calculator.py"],
  [("compute interfering rsl / sinr", O+"topology_interference.py")],
  ["sinr, mcs and capacity of links"])

p("P17", "Received signal follows the link budget",
  "The received signal level is transmit power plus both antenna gains minus free-space, rain, oxygen and miscellaneous losses at both ends; it strictly falls with distance, never rises with rain, and rises one dB per dB of power. Signal-to-noise ratio is the received level minus thermal noise and noise figure, transmit power never exceeds the device maximum or the EIRP limit less the antenna gain, except that it never falls below the device minimum, and antenna patterns are read at the nearest tabulated angle and oxygen loss is interpolated between its tabulated frequencies.",
  ["inputs", "configurations"],
  "all real distances, powers, gains, losses, frequencies within stated ranges",
  "Continuous inputs; tests compare a few numbers.",
  [C+"rf/link_budget_calculator.py"],
  [("link budget functions", C+"rf/link_budget_calculator.py")],
  ["rsl, snr, tx power, gains"])

p("P18", "MCS choice is the best one the signal supports",
  "The chosen modulation class is the highest whose signal threshold is met and its capacity is the table's throughput for it; with no class met the capacity is zero. Power back-off never leaves transmit power above the maximum minus the back-off of the class used nor below the device minimum, and the class used is one whose threshold is still met at the power actually used. A better signal never yields a lower class or capacity, and the maximum line-of-sight distance derived for devices is the first whole distance without capacity in either direction of a DN pair, capped by the configured limit.",
  ["inputs", "configurations"],
  "all MCS tables of up to 4 rows (any thresholds, throughputs, back-offs), all signal values and power limits",
  "Tables and signals are continuous; boundary equalities matter.",
  [C+"rf/link_budget_calculator.py", O+"topology_preparation.py"],
  [("get_mcs_from_snr / power adaptation", C+"rf/link_budget_calculator.py")],
  ["mcs level, capacity, tx power"])

p("P19", "Component counts in the report are exact",
  "Reported counts of sites, nodes, sectors and links by type, SKU and channel equal the number of such components with the requested statuses: every component is counted exactly once (a node once however many sectors, a bidirectional link once), active counts never exceed totals, and type subtotals add up to the totals; co-located alternatives of one type count once in site and link totals. Links per sector, link lengths, class histograms, failure statistics, hops and the rows of the site, sector and link tables agree with the network.",
  ["inputs"],
  "all status/type assignments on small networks",
  "Combinatorial; tests count one fixed topology and the report tests cannot run without the solver.",
  [O+"topology_component_counter.py", O+"topology_report.py"],
  [("component counter", O+"topology_component_counter.py")],
  ["count metrics"])

p("P20", "Failure analysis reports the true disruption",
  "The demand reported as disrupted by the failure of a link (both directions), of a DN or of a POP is exactly the connected demand that no longer has a path from an active POP through active components once it is removed. Demand reported as having link-disjoint paths really has two paths sharing at most the access link of its CN, and analysing failures leaves the analysed network as it was. Reported routes contain a best one for every connected demand. Links chosen as adversarial never, removed together, cut off demand that was connectable, and come in both directions.",
  ["inputs", "fault_sequences"],
  "all small networks, all single failures",
  "Graph shapes are exponential; tests use one or two fixed graphs.",
  [O+"topology_networkx.py", O+"topology_report.py"],
  [("single_edge_failures, single_site_failures, disjoint_paths, find_most_disruptive_links", O+"topology_networkx.py")],
  ["failure metrics", "disruptive links"])

p("P21", "Availability is the simulated connected-time fraction",
  "For every failure and repair history, a demand point's availability is the fraction of the time simulated (also when stopped early) during which some active POP reaches it over links that are up, so it lies between zero and one, is one when no link fails, and never decreases when an outage is removed. Wired links never fail and both directions of a link fail together.",
  ["histories", "fault_sequences"],
  "all failure/repair histories of up to 3 links and 2 outages each in a window of arbitrary length",
  "The random event stream is sampled once with a fixed seed by tests.",
  [O+"topology_availability.py"],
  [("compute_availability event loop", O+"topology_availability.py")],
  ["availability per demand point"])

p("P22", "Demand points attach to the right sites",
  "CN demand creates one demand point per CN position with its CN's subscribers; manual demand keeps its points and subscribers, even unconnected; uniform demand puts exactly one point in every spacing-sized cell that starts in the bounding box of the sites, and drops points without a site in reach. Every point gets the configured demand and connects to exactly the sites at its position or within (at most) the connection radius; alternatives at the same spot or on the same building as an attached CN are attached once.",
  ["inputs", "configurations"],
  "all placements of up to 3 sites and demand points, all radii and spacings",
  "Position coincidence and distance boundaries are continuous.",
  [O+"topology_demand.py"],
  [("demand model builders", O+"topology_demand.py")],
  ["demand sites and their connected sites"])

p("P23", "Line of sight is blocked exactly by obstructions in the beam",
  "A line-of-sight check reports confidence between 0 and 1, equal in both directions, which is 1 when no obstruction (or no elevation data) is in the required clearance zone, falls as obstructions intrude, and is 0 when the direct line is blocked or the confidence is below the threshold; raising an obstruction never raises the confidence. Pairs at the same spot, both on the roof of the same known building, outside the distance limits, outside the elevation-scan limit or crossing an exclusion zone are rejected; every raster cell whose obstruction can reach the zone is examined.",
  ["inputs", "configurations"],
  "all site positions/heights and obstruction heights on a raster of stated size",
  "Geometry over reals; tests sample a few scenes.",
  [L+"base_los_validator.py", L+"cylindrical_los_validator.py", L+"ellipsoidal_los_validator.py", L+"fresnel_zone.py"],
  [("validators", L)],
  ["returned confidence"])

p("P24", "Candidate graph contains exactly the valid links",
  "The candidate links added to a topology are exactly those line-of-sight pairs that satisfy the distance and elevation limits of their devices and the confidence threshold, cross no exclusion zone, and have an end that is not only in the base topology: in both directions between sites that can transmit, only towards the CN for access links, never between POPs; none is repeated, base topology links stay unchanged, and links to unusable base sites are unusable. Among rooftop spots none with a dominated line of sight is picked; sites that no POP can be connected to are left out, and every CN that one more DN can connect is connected.",
  ["inputs", "configurations"],
  "all small site sets with arbitrary types, positions and line-of-sight outcomes",
  "Combinatorial; tests use a few layouts.",
  [L+"helper.py", L+"core.py"],
  [("candidate graph construction", L+"helper.py")],
  ["links and sites of the resulting topology"])

p("P25", "Elevation lookups address the right raster cell",
  "Reading the elevation at a position returns the value of the nearest grid point, also outside the raster; missing data is filled from the nearest cell with data within the search radius, or else by the average. Windows contain exactly the grid cells they should, clipped to the raster or continued by edge values as documented. The sum and difference of two rasters are taken cell by cell on a common grid with missing cells staying missing, and resampling keeps the nearest value.",
  ["inputs"],
  "all positions and windows on rasters of up to 4x4 cells with arbitrary resolution and origin",
  "Off-by-one and rounding behaviour at continuous cell edges.",
  [L+"elevation.py"],
  [("utm/index conversion and window reads", L+"elevation.py")],
  ["returned values"])

p("P26", "Angles, bearings and locations are normalised and exact",
  "The difference of two angles lies in (-180,180] and is congruent to their difference modulo 360; bearings lie in [0,360), the reverse beam of a link differs from the forward one by exactly 180 degrees modulo 360; distances are non-negative and symmetric; and identifiers of places depend only on the coordinates at the documented precision.",
  ["inputs"],
  "all real angles and coordinates within stated ranges",
  "Continuous inputs with wrap-around boundaries.",
  [C+"geos.py", C+"topology_models/link.py"],
  [("angle_delta, bearing, geo hash", C+"geos.py")],
  ["returned values"])

p("P27", "Input data is accepted or rejected as documented",
  "Input sites and links become topology components with unchanged attributes: sites outside the boundary are dropped, identical ones merged, sites sharing a name told apart by their SKU or rejected, sites without SKU offered with every device of their type; links join the named sites, or those at their ends, in both directions (except from CNs) and are rejected if a site is missing or statuses disagree. Blank fields count as missing, locations and altitudes are inferred from the surface as documented. MCS tables are accepted only when thresholds, classes, throughputs and back-offs increase together, and unknown, missing or out-of-range configuration values are rejected while documented defaults fill the gaps.",
  ["inputs", "configurations"],
  "all small site/link lists with arbitrary attributes, MCS tables up to 3 rows, all parameter values",
  "Value ranges and coincidences are continuous / combinatorial.",
  [C+"data_io/input_sites.py", C+"data_io/utils.py", C+"data_io/csv_library.py", C+"configuration/configs.py"],
  [("validation and construction", C)],
  ["raised errors", "constructed topology and parameters"])

p("P28", "Written topologies read back the same",
  "Writing a topology to KML and reading it again yields the same sites, links and demand with the same types, statuses, positions, names and confidence levels, whatever characters names contain.",
  ["inputs"],
  "all names, statuses and attribute values",
  "The space of names and values is unbounded.",
  [C+"data_io/topology_serializer.py", C+"data_io/kml_library.py"],
  [("KML output and extraction", C+"data_io/")],
  ["re-read raw sites and links"])

p("P29", "Extra POPs are placed only at free DN spots, at most as many as asked",
  "When extra POPs are requested, the input POPs stay in the proposal (one device per spot) and at most the requested number of further spots is chosen among DN locations without a POP, active DNs never becoming POPs nor using up the number; any such choice is allowed that lets every demand point be served over a single hop within link, airtime and POP capacity, and total shortage is minimised. Every chosen DN gets a new candidate POP at its spot with equal device, sectors, demand and links (except links with POPs) of equal kind, capacity, confidence and signal, and nothing else in the network changes. Without an answer planning goes on without extra POPs; without any POP to use or propose, or without any source of demand, planning is refused.",
  ["inputs"],
  "all statuses, co-located devices, capacities and solver vectors on bounded networks; all sets of chosen DNs",
  "Which spots are chosen depends on the solver, which no test runs.",
  [O+"ilp_models/pop_proposal_optimization.py", O+"topology_optimization.py"],
  [("POP placement and duplication", O+"ilp_models/pop_proposal_optimization.py")],
  ["captured model", "resulting topology"])

p("P30", "Rooftop detection proposes the documented locations at roof altitude",
  "Every building gets the candidate sites the configuration asks for: its center (on the roof also if the outline is concave), its highest point (no grid point of the surface data on the roof is higher; the center without surface data), and its corners: the vertices whose angle is between 30 degrees and the limit (all without a limit, the first if none), three different ones if there are more. A corner's altitude is that of a cell within 1 m that is more than 2 m higher than an adjacent one in that window, else of the corner itself; sites are candidates on the rooftop of that building, the mounting height above the roof, and without altitude if there is no surface data.",
  ["inputs", "configurations"],
  "all elevations of rasters up to 4x4 cells, all corner angles and limits, all mounting heights and flags, on a list of outlines",
  "Roofs differ cell by cell; tests use three rasters.",
  [L+"building.py", L+"building_group.py"],
  [("detection of centers, corners and highest points", L+"building.py"), ("candidate sites of all buildings", L+"building_group.py")],
  ["detected sites"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
