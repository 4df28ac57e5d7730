#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("P01","Routing returns a cheapest route exactly when one exists",
 "For every graph, every non-negative weighting of its metrics and every pair of nodes, a plain shortest-path query returns a route if and only if the destination is reachable from the source; from a node to itself the route is empty. The returned route is a connected sequence of existing edges from the source to the destination, its reported cost is the per-metric sum over its edges, and no other route has a lower weighted cost (up to the documented float accuracy of 1e-6 per compared value).",
 ["inputs","configurations"],
 "all directed multigraphs (self loops, parallel edges, dead ends, disconnected parts, 1..n nodes), all metric vectors, all non-negative alphas, all (src,dst) pairs",
 "Tests query a handful of hand-drawn graphs (<=8 nodes, integer-like metrics, strongly connected) and compare against stored costs; bidirectional search errors depend on the interplay of both search fronts on particular weightings.",
 ["src/routing/dijkstra.rs","src/routing/paths.rs","src/helpers/mod.rs","src/approximating.rs"],
 [("bidirectional Dijkstra with best meeting node","src/routing/dijkstra.rs Dijkstra::compute_best_path"),("cost summation","src/routing/paths.rs Path::calc_costs")],
 ["Option<Path> of compute_best_path","Path::costs"])
p("P02","Routing on contracted maps agrees with routing on the original map",
 "For every map, every weighting of its metrics and every valid contraction of it (node levels plus shortcuts), a contraction-hierarchy query finds a route exactly when the plain query does, and with the same weighted cost; the same holds when the contraction-hierarchy algorithm runs on an uncontracted map. Plain queries on the contracted map also agree.",
 ["inputs","configurations"],
 "all graphs, all node orders and all sets of shortcuts that preserve shortest paths for the routed weighting; all (src,dst) pairs",
 "Tests have two stored contracted maps and check only a few fixed routes; early-stopping or level-filter errors show only for particular level/weight constellations.",
 ["src/routing/dijkstra.rs","src/network/graph/building.rs","src/io/parsing/network/graph/fmi.rs"],
 [("upward search with level break","src/routing/dijkstra.rs Dijkstra::compute_best_path"),("edges sorted by descending level of the far end","src/network/graph/building.rs GraphBuilder::finalize")],
 ["Option<Path> for CHDijkstra vs Dijkstra"])
p("P03","Expanding shortcuts preserves the route and its cost",
 "For every map with (arbitrarily nested) shortcuts, expanding a route replaces each shortcut by the edges it stands for, in order, so the expanded route has no shortcut left, connects the same two nodes without a gap, and reports the per-metric sum over its edges as cost. A map whose shortcuts refer to each other in a circle leads to an error, never to an endless loop.",
 ["inputs"],
 "all shortcut forests of any nesting depth, all cyclic shortcut references, all paths over them (plain, mixed, empty)",
 "Tests expand one stored contracted map; nesting order and cycles are not sampled.",
 ["src/routing/paths.rs","src/network/graph/building.rs"],
 [("iterative expansion with a stack","src/routing/paths.rs Path::try_flatten"),("remapping of shortcut references after sorting and merging","src/network/graph/building.rs GraphBuilder::finalize")],
 ["Path::try_flatten result"])
p("P04","Query answers do not depend on earlier queries",
 "For every history of queries sent to one router object (different graphs of different sizes, different weightings, plain and contraction-hierarchy queries, reachable and unreachable pairs), each answer equals the answer a fresh router object gives to the same query.",
 ["histories","inputs","configurations"],
 "all sequences of (graph, algorithm, weighting, src, dst) on one reused router",
 "Tests reuse one router on one graph with one configuration; stale labels only matter for particular predecessor queries.",
 ["src/routing/dijkstra.rs"],
 [("resetting touched labels","src/routing/dijkstra.rs Dijkstra::init_query")],
 ["answers of a long-lived Dijkstra object"])
p("P05","A built graph contains exactly the nodes and edges of the map",
 "For every map, the graph has one node per id used by an edge (ascending by id, with the declared coordinates and level) and exactly the declared edges with their endpoints, edge ids, metric values and shortcut references, independent of the order in which the map lists them. Only edges that agree in id and endpoints and (within accuracy) in all metrics may be merged into one; metric values of 0 become the smallest positive value 1e-6.",
 ["inputs"],
 "all node and edge lists, in all orders, with negative/huge/sparse ids, parallel edges, duplicates, self loops, levels, shortcuts; maps big enough to be processed in several chunks",
 "Tests compare fixed small maps whose nodes and edges come in one order; remapping after sort and merge depends on permutations.",
 ["src/network/graph/building.rs","src/network/graph/mod.rs","src/io/parsing/network/graph/fmi.rs"],
 [("sort, remap, merge, chunked storing","src/network/graph/building.rs GraphBuilder::finalize")],
 ["Graph accessors"])
p("P06","Forward view, backward view and lookups of a graph agree",
 "For every graph, each edge appears exactly once among the leaving edges of its source in the forward view and exactly once among the leaving edges of its destination in the backward view, and nowhere else; both views report the same endpoints, metrics, ids and shortcuts for an edge. Looking up a node or edge by its id, or an edge by its endpoints, finds precisely the matching element, and ids or endpoints that do not exist are reported as absent; this holds for every node, including those without any leaving or entering edge.",
 ["inputs"],
 "all graphs and all node/edge/id arguments",
 "Tests walk a few strongly connected maps; dead ends, isolated ends and absent ids are not sampled.",
 ["src/network/graph/mod.rs","src/network/graph/building.rs","src/network/routes.rs"],
 [("offset arrays and backward-to-forward mapping","src/network/graph/building.rs GraphBuilder::finalize"),("accessors","src/network/graph/mod.rs EdgeAccessor, NodeAccessor")],
 ["fwd_edges()/bwd_edges()/nodes() accessors"])
p("P07","Malformed input is reported as an error and never crashes",
 "For every text map, route-pair file, merge csv-file and configuration, however malformed (missing, short or extra columns, non-numeric, non-finite or negative values, unknown or dangling ids and references, duplicated ids, missing files, invalid text), loading returns either an error or a graph (list of pairs, setting) that satisfies the declared content; it never panics, hangs or yields a graph with non-finite or non-positive metrics read from the map.",
 ["inputs","configurations"],
 "all byte-level and token-level mutations of valid maps, csv-files, route-pair files and configurations",
 "Tests feed well-formed resources plus a few hand-written bad configurations; the space of malformed files is unbounded.",
 ["src/io/parsing/network/graph/fmi.rs","src/io/parsing/network/graph/mod.rs","src/io/parsing/network/edges.rs","src/io/parsing/routing/routes.rs","src/network/graph/building.rs","src/configs/parsing/mod.rs"],
 [("per-token parsing with error results","src/io/parsing/network/graph/fmi.rs"),("final checks","src/network/graph/building.rs GraphBuilder::finalize")],
 ["Result of Parser::parse_and_finalize, route Parser::parse, Config::try_from_*"])
p("P08","Text maps are interpreted by the configured columns",
 "For every text map and every configured order of node and edge columns, each value ends up in exactly the attribute configured for its column; ignored columns, surplus header counts, comment lines (starting with #) and empty lines have no influence. Edge ids may carry a 'ch' prefix, and a -1 in the shortcut columns means no shortcut.",
 ["inputs","configurations"],
 "all permutations of node/edge columns with ignored columns in any position, any number of metrics, comments and blank lines at any place",
 "Tests use two or three fixed column layouts.",
 ["src/io/parsing/network/graph/fmi.rs","src/configs/parsing/edges/mod.rs","src/configs/parsing/nodes/mod.rs"],
 [("column-wise parsing","src/io/parsing/network/graph/fmi.rs ProtoShortcut::try_from_str, ProtoNode::from_str")],
 ["Graph accessors after parsing"])
p("P09","A written graph reads back as the same graph",
 "For every graph and every selection of columns that covers ids, coordinates, levels, endpoints, shortcuts and metrics, writing the graph to a map file and parsing it again with the corresponding configuration yields the same nodes, edges, metrics and shortcuts, bit for bit (parallel edges that are equal within accuracy may be merged); the file declares the right number of metrics, nodes and edges. With shortcuts excluded, exactly the non-shortcut edges are written.",
 ["inputs","configurations"],
 "all graphs, column orders, ignored columns, with/without shortcuts",
 "There is no round-trip test on generated graphs; only one stored map is written.",
 ["src/io/writing/network/graph/fmi.rs","src/io/writing/network/mod.rs","src/io/parsing/network/graph/fmi.rs","src/configs/writing/network/graph/mod.rs"],
 [("fmi writer","src/io/writing/network/graph/fmi.rs"),("edge column writer","src/io/writing/network/mod.rs")],
 ["written file and re-parsed Graph"])
p("P10","Derived metrics follow their declared formula and unit",
 "For every graph and every list of generated edge metrics, each edge gets the value its declaration defines from its own attributes: great-circle distance of its endpoints, a copy or conversion of a metric between units, a duration from length and speed or a speed from length and duration, or the declared constant. The steps are applied in the declared order, and combinations of units without a defined formula, as well as names that already exist, are reported as errors.",
 ["inputs","configurations"],
 "all sequences of generating steps over all unit pairs, all metric values and coordinates",
 "Tests use one or two generating sections with fixed units and maps.",
 ["src/network/graph/building.rs","src/configs/parsing/generating/edges/metrics.rs","src/configs/parsing/generating/edges/mod.rs"],
 [("generating loop","src/network/graph/building.rs GraphBuilder::finalize"),("unit conversion and calculation","src/configs/parsing/generating/edges/metrics.rs UnitInfo::try_convert, try_calc")],
 ["Graph::metrics, Graph::cfg"])
p("P11","Normalisation divides by the mean and is undone when writing raw values",
 "For every graph, normalising divides each metric of each edge by that metric's mean over all edges (values that would vanish become 1e-6), so the weighting of a metric is independent of its unit, and the means are available. Writing with denormalisation multiplies by the same means and hence reproduces the original values up to float rounding, whereas writing without it gives the normalised values; a graph without edges is reported as an error.",
 ["inputs","configurations"],
 "all graphs and metric values, with/without generated metrics, with/without denormalisation, for map and csv output",
 "Tests have one stored normalised map; rounding and per-metric indexing are not sampled.",
 ["src/network/graph/building.rs","src/io/writing/network/mod.rs","src/io/writing/network/graph/fmi.rs"],
 [("normalisation","src/network/graph/building.rs GraphBuilder::finalize (end)"),("denormalisation","src/io/writing/network/mod.rs")],
 ["Graph::metrics, written files"])
p("P12","OSM import turns ways into the right directed edges",
 "For every OSM file, every vehicle type and both driver attitudes, the graph has an edge between consecutive nodes of each street the vehicle may use, in driving direction only for streets whose oneway tag says so (against it for reversed ones) and in both directions otherwise, and no other edges. Streets unsuitable for the vehicle contribute nothing, nodes outside of streets do not appear, and a picky driver's graph is contained in a non-picky driver's graph. A file with a part that cannot be read (an unsupported compression, a damaged block) is reported as an error instead of yielding a partial graph.",
 ["inputs","configurations"],
 "all generated osm.pbf files: ways with any tags (highway categories, oneway variants, junctions), dense/plain encodings, several blocks; 3 vehicles x 2 attitudes",
 "Tests parse two stored regions and compare component counts.",
 ["src/io/parsing/network/graph/pbf.rs","src/io/parsing/network/graph/mod.rs","src/defaults.rs"],
 [("way to proto-edges","src/io/parsing/network/graph/pbf.rs"),("street category and suitability","src/defaults.rs, src/network/mod.rs")],
 ["Graph accessors after parsing a pbf file"])
p("P13","OSM import assigns the tagged or default street attributes to every edge",
 "For every OSM street, each of its edges carries, as configured speed metric, the speed limit given by the maxspeed tag (a plain number in km/h, but at least 5, or one of the known notations such as '30 mph' or 'walk', translated to km/h) or else the default of its street category, and, as configured lane metric, the lane count of its street category. Coordinates are those of the file, up to its precision.",
 ["inputs","configurations"],
 "all tag combinations of highway x maxspeed x further tags, all coordinates",
 "Tests compare counts for two regions, not attributes.",
 ["src/defaults.rs","src/io/parsing/network/graph/pbf.rs"],
 [("tag parsing","src/defaults.rs")],
 ["Graph::metrics after parsing a pbf file"])
p("P14","Exported and merged edge tables match edges by id",
 "For every graph and column selection, the exported edge table has one row per (selected) edge with precisely this edge's id, endpoint ids, endpoint indices, endpoint coordinates and metric values in the configured columns. Merging a table into a graph changes exactly the named metrics of exactly the edges whose ids are listed, in whatever row order, and leaves all other values untouched, so that exporting and merging back restores the values. A table whose rows name unknown edges, lack a column or hold no number, and a column list naming no metric of the graph or not naming the edge id, are reported as an error.",
 ["inputs","configurations"],
 "all graphs, column orders, header on/off, row permutations, partial tables, unknown ids",
 "Tests export and merge one stored map with identical row order.",
 ["src/io/writing/network/edges.rs","src/io/writing/network/mod.rs","src/io/parsing/network/edges.rs","src/network/graph/building.rs"],
 [("csv writer","src/io/writing/network/edges.rs"),("merge step","src/network/graph/building.rs GraphBuilder::finalize (Merge)")],
 ["csv file content, Graph::metrics"])
p("P15","Generated route pairs are valid, distinct and reproducible",
 "For every graph, limit and seed, the generated route-pair file lists only pairs of two different existing nodes between which a route exists, no pair twice, and never more than the limit, and declares how many pairs it lists; when the limit is at least the squared number of nodes, every connected pair is listed. The same seed gives the same file.",
 ["inputs","configurations"],
 "all graphs (including sparsely connected ones), seeds, limits",
 "Tests write one file for one map and check little about its content.",
 ["src/io/writing/routing/random_or_all.rs","src/configs/writing/routing.rs"],
 [("random/all generation with reachability check","src/io/writing/routing/random_or_all.rs")],
 ["written route-pair file"])
p("P16","Route-pair files are read as written",
 "For every route-pair file, the parser yields exactly the declared number of listed pairs with their repetition counts, in file order, ignoring comment lines and empty lines; malformed lines (not exactly source, destination and count, or not integers), a missing number of pairs and unsupported file names are reported as errors. Files produced by the route-pair generator read back as the generated pairs.",
 ["inputs"],
 "all files of pairs with counts, comments, whitespace; any node ids",
 "Tests read one stored file.",
 ["src/io/parsing/routing/routes.rs","src/io/parsing/routing/mod.rs","src/io/writing/routing/random_or_all.rs"],
 [("line parsing","src/io/parsing/routing/routes.rs")],
 ["Vec of (RoutePair, count)"])
p("P17","Configurations attach every setting to the named column or metric",
 "For every configuration, weights and tolerances apply to the metric they name regardless of listing order: a named metric without explicit weight gets 1, an unnamed one 0, and a metric without tolerance is unconstrained. Unknown metric names, duplicated edge-column names, unknown or missing fields of a section, wrong types of values, unknown units or algorithms, and unsupported file types are rejected with an error; columns, paths and flags come out as written, with documented defaults where omitted, and the sections of one file are read independently of each other.",
 ["configurations","inputs"],
 "all configurations generated from the grammar of the blueprint, plus single defects injected into valid ones",
 "Tests parse a few dozen hand-written yaml snippets.",
 ["src/configs/parsing/mod.rs","src/configs/parsing/edges/mod.rs","src/configs/parsing/nodes/mod.rs","src/configs/routing.rs","src/configs/writing/network/edges.rs","src/configs/writing/network/graph/mod.rs","src/configs/writing/routing.rs"],
 [("deserialisation with checks","src/configs/**")],
 ["parsed Config values or error"])
p("P18","Output files are complete or an error is reported, and never overwritten",
 "For every output (map, edge table, route pairs, vehicle routes) and every write fault (disk full at any byte, unwritable or missing directory), the operation reports success only if the file is complete; an incomplete file is always accompanied by an error. An already existing target file is never modified: the operation fails and leaves it as it was.",
 ["fault_sequences","crash_points","inputs"],
 "all output kinds, all file-size limits from 0 to the complete size, existing targets, bad directories",
 "Tests write to a healthy disk only.",
 ["src/io/writing/network/graph/fmi.rs","src/io/writing/network/edges.rs","src/io/writing/routing/random_or_all.rs","src/io/writing/smarts.rs","src/io/writing/network/graph/mod.rs","src/io/writing/routing/mod.rs"],
 [("create_new, buffered writing","src/io/writing/**"),("pre-checks","src/io/writing/**/mod.rs check")],
 ["Result of writers, file bytes"])
p("P19","Explored alternative routes are valid, distinct and within tolerance",
 "For every graph, weighting with at least one positive weight (the metrics with positive weight are the considered ones) and tolerance, exploring alternatives between two nodes returns only connected routes from source to destination with correct costs, no route twice, each within the configured tolerances (per considered metric: the factor times the best possible cost in that metric), and each optimal for some non-negative weighting of the considered metrics. If the destination is unreachable it returns none; without tolerances it returns at least one route whenever the destination is reachable, and for each considered metric a route that is best in it. A route that is the only best one for some equally weighted subset of the considered metrics is returned unless it exceeds a tolerance; and with exactly two considered metrics whose best routes, together with the best route for their sum, have costs that span a triangle, every tolerated route that is the only best one for some weighting is returned. All of this also holds when one explorator answers several queries in a row, and on contracted maps.",
 ["inputs","configurations","histories"],
 "all graphs, alphas, tolerances, pairs; the convex-hull library (a foreign C++ dependency that cannot be linked here) replaced by a reference implementation",
 "The feature cannot be linked in the test environment, so no test runs it.",
 ["src/routing/explorating.rs","src/helpers/algebra.rs"],
 [("convex-hull based exploration","src/routing/explorating.rs")],
 ["Vec<Path> of the explorator"])
p("P20","Workloads count how often each edge is used, for any number of threads",
 "For every map, list of route pairs and best-route algorithm, the reported workload of an edge is the number of driven routes that use it (each pair as often as its repetition count, over original edges, not shortcuts), and unreachable pairs count nowhere. The result is the same for any positive number of worker threads and any scheduling. With exploration, each repetition of a pair drives one of the explored routes, so workloads conserve the flow between the pairs and lie on explored routes only. Exported vehicle routes are those counted by the workloads. If a pair cannot be driven because a node is unknown, the run fails instead of reporting incomplete workloads.",
 ["schedules","inputs","configurations"],
 "all maps, route-pair files with counts, 1..n threads, repeated runs",
 "No test runs the evaluation; results depend on thread interleaving and chunking.",
 ["src/bin/osmgraphing/balancing/multithreading.rs","src/bin/osmgraphing/balancing/mod.rs","src/bin/osmgraphing/mod.rs","src/io/writing/evaluating_balance.rs"],
 [("master/worker work distribution","src/bin/osmgraphing/balancing/multithreading.rs")],
 ["abs_workloads.csv, smarts.xml"])
p("P22","Vehicle-route export lists each route's nodes in driving order",
 "For every list of routes, the SMARTS export is a well-formed document with one vehicle per route in the given order, named after the route's end points, listing precisely the ids of the passed nodes from source to destination.",
 ["inputs"],
 "all lists of paths (empty, single-edge, long, with loops)",
 "No test writes this export.",
 ["src/io/writing/smarts.rs"],
 [("xml writer","src/io/writing/smarts.rs")],
 ["xml file"])
p("P23","The command-line tool does what its configuration says and reports failure",
 "For every configuration, the command-line tool produces the same files and the same routes as the library does for that configuration, runs exactly the requested steps, and exits with a non-zero status and a message whenever a step fails (invalid configuration, missing or malformed map, existing output file); on success it exits with status 0 and all requested output files exist.",
 ["configurations","inputs","fault_sequences"],
 "all combinations of requested steps with valid and defective configurations and inputs",
 "Tests call library functions only; no test runs the binary.",
 ["src/bin/osmgraphing/mod.rs"],
 [("argument handling and step dispatch","src/bin/osmgraphing/mod.rs")],
 ["exit status, output files, log"])
p("P21","The constructor tool passes its configuration on and reports failure",
 "For every configuration, the constructor tool configures and builds the external multi-ch-constructor with the configured dimension and cost accuracy, and then runs it on the configured input and output files with the configured thread count (default 4), contraction ratio (default 99.8) and flags for node ids and external edge ids. A step runs only if the previous one succeeded; the tool exits with status 0 exactly if all of them succeed, and with a message otherwise. With an invalid configuration (missing or unknown keys, wrong types) no external program is run.",
 ["configurations","fault_sequences"],
 "all valid and defective configurations; failure, death or absence of any of the external programs",
 "No test runs the tool; the external programs are not part of the repository.",
 ["src/bin/multi-ch-constructor.rs","src/multi_ch_constructor/mod.rs","src/multi_ch_constructor/configs.rs"],
 [("build and construct_ch_graph","src/multi_ch_constructor/mod.rs"),("configuration","src/multi_ch_constructor/configs.rs")],
 ["calls of the external programs, exit status, log"])
p("P24","A balancing update blends the normalised workload into the chosen metric only",
 "For every graph (normalised or not, with or without shortcuts), history of workloads and balancing configuration, an update sets the chosen metric of every edge to the configured blend of its old value and its workload divided by the mean workload over all edges (averaging: (iteration * old + new) / (iteration + 1); explicit Euler: old + (new - old) * correction), lifted to the configured minimum, if any, and divided by the mean of the result, so that its mean is 1 afterwards; if the graph keeps means, that mean becomes the metric's mean. Other metrics, their means and the edges themselves stay untouched. If all workloads are zero, or, without a minimum, values of zero or below arise (unless the configuration allows them), or the mean would not be positive, the update is refused with an error and changes nothing.",
 ["histories","inputs","configurations"],
 "all histories of workload vectors over all graphs, methods, minima and metrics",
 "Tests do not call the update at all.",
 ["src/defaults.rs","src/configs/balancing.rs"],
 [("update_new_metric","src/defaults.rs"),("means","src/network/graph/mod.rs")],
 ["metrics and means of the graph after each update"])
p("P25","A balancing run iterates write, contract, route and update consistently",
 "For every map, list of route pairs and balancing configuration, a balancing run with k metric updates performs k+1 iterations, each in its own numbered directory: the map handed to the external constructor and the edge table beside it carry exactly the edges and metrics of the state so far; the routes driven are cheapest (or explored) routes of the contracted map read back, by the configured weights and, in the first iteration, without the new metric; the stored workloads count them over original edges, each pair as often as its count; the next state differs only in the new metric, updated from these workloads; the edge statistics show the state after the update. The final map is the state before the last iteration, and the configuration and route pairs are copied beside it. A failure in any step (constructor, files, configuration, unknown nodes, refused update) ends the run with a non-zero status and a message, and no further iteration begins.",
 ["configurations","inputs","histories","schedules","fault_sequences"],
 "all maps, route-pair lists, algorithms, configurations, thread counts and failing steps",
 "No test runs balancing; it needs an external program.",
 ["src/bin/osmgraphing/balancing/mod.rs","src/bin/osmgraphing/balancing/multithreading.rs","src/configs/balancing.rs","src/io/writing/evaluating_balance.rs","src/multi_ch_constructor/mod.rs"],
 [("simulation_pipeline","src/bin/osmgraphing/balancing/mod.rs"),("master and workers","src/bin/osmgraphing/balancing/multithreading.rs")],
 ["exit status, result directory with all files, calls of the external programs"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
