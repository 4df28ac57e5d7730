#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties implemented by the harness."""
import json, os, subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"P01":("exploration","random graphs, Bellman-Ford reference oracle, shrinking","Every reachable and unreachable pair of generated graphs (up to ~24 nodes, a share of larger ones, dims 1-5, self loops, parallel edges, dead ends) is compared with an independent Bellman-Ford. Exploration: no claim beyond the generated graphs."),
"P02":("exploration","random contractions, differential plain vs. contraction-hierarchy routing","The harness contracts generated maps itself (random node orders, witness search on or off) and compares both algorithms with an independent Bellman-Ford for all pairs. Trusts the harness's own contraction, which the reference distances double-check."),
"P03":("exploration","random shortcut forests and walks, recursive expansion model","Generated nested and cyclic shortcuts; oracle is a recursive expansion of the declared references. Termination is decided by a CPU-time limit that is 1000 times the usual case."),
"P04":("exploration","stateful query histories, differential against a fresh router","Histories over several graphs, weightings and algorithms; every answer is compared with that of a fresh router object, edge by edge."),
"P05":("exploration","random maps, content comparison with the declared map, permutation metamorphic","Generated edge and node lists are compared with the built graph; includes one graph with several internal chunks per run."),
"P06":("exploration","random graphs, invariants over both views and all lookups","All nodes, edges, ids, pairs of nodes and absent ids of each generated graph are checked against the declared edge list."),
"P07":("exploration","structure-aware mutation fuzzing of maps, route pairs, tables and configurations","Valid inputs are mutated at token, line and byte level. Panics, hangs, aborts and non-finite/non-positive metrics are violations. Accepted graphs are checked for internal consistency."),
"P08":("exploration","random column layouts, independent text-map model","Generated layouts and files with decoys in the ignored places; the graph is compared with the generating model."),
"P09":("exploration","write/parse round trip over random graphs and column selections","Bit-exact comparison of both graphs, plus comparison of the written lines with the model."),
"P10":("exploration","random generating-sections, independent formula oracle","Sequences of generated metrics on random graphs are compared with an independent evaluation (own haversine and unit tables); unit combinations without formula must be errors."),
"P11":("exploration","random graphs, mean oracle, write round trip","Means and normalised values are recomputed independently; denormalised and raw exports are compared with the model."),
"P12":("exploration","random OSM files by an own PBF encoder, frozen tag-table oracle","Generated ways and tags (all street categories, modifiers, oneway notations, vehicles) with an independent table of the documented behaviour."),
"P13":("exploration","random OSM files by an own PBF encoder, frozen speed/lane-table oracle","Generated maxspeed notations and categories against an independent table; coordinates compared up to file precision."),
"P14":("exploration","random tables, row-by-row model, export/merge round trip","Exported tables are parsed by the harness and compared with the model; merged tables change exactly the listed edges."),
"P15":("exploration","random graphs, limits and seeds; reachability oracle","The written file is parsed by the harness; reachability is decided independently; runs are repeated for reproducibility."),
"P16":("exploration","random and mutated route-pair files, independent parser model","Generated files with comments, blank lines and malformed lines against a line-level model."),
"P17":("exploration","random and mutated configurations, model of settings","Configurations are generated from a model, permuted and mutated by single errors that must be rejected."),
"P18":("fault_enumeration","fault injection at every write of generated outputs","A write limit (RLIMIT_FSIZE, /dev/full) is placed at generated byte positions of every output; success with an incomplete file is a violation."),
"P19":("exploration","random graphs, enumeration of simple routes, exact optimality test","All simple routes of small graphs are enumerated; every returned route is checked for validity, distinctness, tolerance and for optimality under some weighting (a matrix game solved by the simplex method), and routes that must be found (only best for a subset of the metrics, corners of the front of two metrics) are looked for. The convex-hull library is replaced by a shim because the real one (CGAL) cannot be built here."),
"P20":("exploration","random maps and route lists through the real tool, thread counts and repetitions, counting oracle","The tool runs as a process with 1-16 threads; counted workloads are compared with an independent count on graphs with unique optimal routes."),
"P21":("exploration","random configurations and failing steps through the real tool, recorded calls of stand-in programs as oracle","cmake and the external constructor are replaced by stand-ins which log their calls and fail where the case says so."),
"P22":("exploration","random routes, XML parse and node-sequence oracle","The document is parsed by the harness and compared with the given routes."),
"P24":("exploration","model-based histories of updates on random graphs, reference model of the update","Values within 3e-6 of a threshold may fall on either side."),
"P25":("exploration","random end-to-end balancing runs of the real tool with injected failures, stepwise reference model","A stand-in replaces the external constructor (another repository); every iteration's files are checked against the model's state."),
"P23":("exploration","random configurations through the real tool, differential against the library","Exit codes, files and logged routes of the process are compared with those of the library for the same configuration."),
}
impl=[l.split()[0] for l in subprocess.check_output([R+"/target/debug/vcase","list"],text=True).splitlines()]
props=[json.loads(l)["id"] for l in open(R+"/properties.jsonl")]
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[]}
for i in props:
    if i in impl:
        l,t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
m["notes"]="Property-based testing with a choice-sequence engine (harness/src/engine.rs). No hooks in /repo; only fix commits."
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1); open(R+"/MANIFEST.json","a").write("\n")
