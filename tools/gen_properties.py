#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CDE="jagua-rs/src/collision_detection/cd_engine.rs"; QT="jagua-rs/src/collision_detection/quadtree/qt_node.rs"
QTH="jagua-rs/src/collision_detection/quadtree/qt_hazard.rs"; QTV="jagua-rs/src/collision_detection/quadtree/qt_hazard_vec.rs"
QTP="jagua-rs/src/collision_detection/quadtree/qt_partial_hazard.rs"
HPG="jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs"; HPC="jagua-rs/src/collision_detection/hpg/hpg_cell.rs"
BF="jagua-rs/src/collision_detection/hpg/boundary_fill.rs"; GRID="jagua-rs/src/collision_detection/hpg/grid.rs"
LAY="jagua-rs/src/entities/layout.rs"; BP="jagua-rs/src/entities/problems/bin_packing.rs"; SP="jagua-rs/src/entities/problems/strip_packing.rs"
PG="jagua-rs/src/entities/problems/problem_generic.rs"; PARSER="jagua-rs/src/io/parser.rs"; SOL="jagua-rs/src/entities/solution.rs"
OPT="lbf/src/lbf_optimizer.rs"; MAIN="lbf/src/main.rs"; LIO="lbf/src/io/mod.rs"

T="The 11 existing tests run one fixed optimisation history per instance file with one seed and assert nothing beyond 'did not panic'"

p("C01","Collision verdicts match true geometry after any edit history",
 "In every state a layout can reach through placements, immediate or deferred removals, snapshots, restores, container changes and clones, asking whether a shape collides answers yes exactly when the shape truly overlaps a placed item, a hole, an applicable inferior-quality zone, or leaves the container (up to floating-point contact tolerance). This holds for any set of hazards the caller asks to ignore and for any engine tuning (tree depth, surrogate and grid sizes). The quick surrogate test never reports a collision for a placement that is truly collision-free, nor do the 'definitely collides' answers contradict the geometry.",
 ["histories","inputs","configurations"],"all reachable layout states x query shapes x ignore sets x engine tunings",
 T+"; no verdict is ever compared with geometry, and quadtree states after deferred removal/restore are barely visited.",
 [CDE,QT,QTH,QTV,QTP,"jagua-rs/src/geometry/primitives/edge.rs","jagua-rs/src/geometry/primitives/simple_polygon.rs","jagua-rs/src/geometry/primitives/aa_rectangle.rs"],
 [("poly_collides / surrogate_or_poly_collides",CDE),("quadtree hazard registration and constriction",QTH),("active/inactive ordering",QTV),("hazard filters","jagua-rs/src/collision_detection/hazard_filter.rs")],
 "CDEngine query results on Layout::cde() after every simulated step",
 [("quadtree","spatial index of active and deactivated hazards"),("uncommitted deregisters","hazards logically removed but physically present")])

p("C02","Engine state depends only on layout content, not on its history",
 "Two layouts with the same container and the same placed items answer every query identically, no matter through which sequence of placements, removals (immediate or deferred), flushes, snapshots, restores, container changes or clones they were reached: each answers like a layout built from scratch. In particular deferring the commit of removals never changes an answer, and removed items never influence an answer again.",
 ["histories","configurations"],"all pairs of edit histories with equal final content",
 T+"; debug assertions compare the tree to a fresh one only in the few states the fixed history visits, and only in test builds.",
 [CDE,QT,QTV,HPG,LAY],[("deregister/activate/deactivate",QT),("CDEngine::restore",CDE),("Layout::change_bin",LAY)],
 "query results of the history-laden layout vs. a freshly rebuilt one",
 [("quadtree children","generated and dropped lazily along the history"),("dynamic_hazards","registered hazards")])

p("C03","Collision collection reports exactly the colliding hazards",
 "After any edit history, collecting the collisions of a shape (polygon, or hazards within a circle, edge or rectangle) yields every hazard the shape truly collides with and no other, each once, never one the caller asked to ignore; entries already in the caller's buffer stay. The collected set is empty exactly when the yes/no query says there is no collision. Each reported item leads back to the placed item it stands for.",
 ["histories","inputs","configurations"],"all reachable layout states x query entities x ignore sets x pre-filled buffers",
 T+"; no test calls the collection queries except through an error-logging path.",
 [CDE,QT],[("collect_poly_collisions",CDE),("hazards_within",CDE),("QTNode::collect_collisions",QT)],
 "contents of the caller's buffer after each collection query")

p("C04","Hazard-proximity grid is right whenever readable, refused while stale",
 "Whenever the proximity grid can be read, each cell's distance to the nearest hazard equals the true minimum over the container boundary, holes, relevant quality zones and the (pole-approximated) items now placed, after any edit history. While it does not yet reflect a pending removal the grid is refused, and after a flush, snapshot or restore it is readable again. A cell that contains a feasible reference position for an item is never ruled out for that item.",
 ["histories","configurations"],"all edit histories x cells x grid sizes x items",
 T+"; the grid's content is only checked by a debug assertion after registration, never after deferred removal, flush and restore sequences.",
 [HPG,HPC,BF,GRID,"jagua-rs/src/collision_detection/hpg/grid_generator.rs"],
 [("boundary fill update",BF),("deregister/flush",HPG),("could_accommodate_item",HPC)],
 "cells of haz_prox_grid() after each simulated step",
 [("uncommitted_deregisters","removals pending in the grid")])

p("C05","Layout snapshots are immutable and restoring one is exact",
 "A layout snapshot never changes after it was taken, whatever happens to the layout, to other layouts or to other snapshots. Restoring a layout to one of its snapshots from any later state, or building a new layout from it, gives exactly the snapshotted container, items (with their keys), usage and query answers, and continued editing after the restore behaves as if the undone history had never happened.",
 ["histories"],"all interleavings of edits, snapshots, restores, container changes, clones and drops on several layouts",
 T+"; restore is never exercised by the tests at all.",
 [LAY,CDE],[("create_snapshot / restore / from_snapshot",LAY),("CDEngine::restore",CDE)],
 "Layout and LayoutSnapshot content and engine answers before/after",
 [("cde snapshot","hazards and grid captured by the snapshot")])

p("C06","Restoring a problem to a solution reproduces that solution exactly",
 "From any current state, restoring a problem (bin or strip packing) to any solution taken earlier from it, from a clone of it, or rebuilt from a saved file yields exactly the solution's layouts (container, items, transformations, number of layouts), quantities, remaining stock and usage, and every engine answer that goes with them. A solution taken (also incrementally, relative to an earlier one) equals the problem state at that moment and never changes afterwards.",
 ["histories","schedules"],"all histories of edits, solutions, incremental solutions, restores and clones over several workers",
 T+"; none of them restores a solution.",
 [BP,SP,SOL,LAY],[("create_solution incremental path",BP),("restore_to_solution incremental and full path",BP),("restore_to_solution",SP)],
 "ProblemGeneric accessors and Solution content",
 [("unmodified layout ids / reference solution","decides whether restore may be incremental"),("uncommitted_removed_layouts","pool of removed layouts that may be revived")])

p("C07","Item, stock and usage accounting is conserved in every state",
 "At every point of any history, for each item: placed plus missing equals the demand, and placed equals the number of copies actually present in the layouts; for each bin type: remaining stock plus layouts in use equals the initial stock. Bins appear exactly when their first item is placed and disappear exactly when they become empty or are removed, and reported usage, density and bin cost match the layouts' actual content; removing an item hands back exactly the option that would place it again.",
 ["histories"],"all histories of placements, removals, bin removals, strip changes, solutions and restores",
 T+"; quantities are never asserted.",
 [BP,SP,PG,LAY],[("register/deregister item and bin",BP),("layout lifecycle",BP),("modify_strip",SP),("usage",PG)],
 "missing/placed/bin quantities, layouts, usage after every step",
 [("missing_item_qtys","demand not yet placed"),("bin_qtys","remaining stock")])

p("C08","Strip resizing keeps exactly the items that fit and loses nothing else",
 "Changing a strip's width at the back, at the front, centred, or to an explicit rectangle gives a strip of exactly the requested extent and keeps, at unchanged positions, exactly the items that lie inside the new strip; dropped items become missing again. Fitting the strip shrinks it to the occupied width without losing or moving any item, and afterwards all queries and further edits behave as on a fresh strip of that size.",
 ["histories","inputs"],"all histories interleaving resizes with placements, removals, solutions and restores",
 T+"; only back extension and one final fit of a feasible layout occur, with nothing asserted.",
 [SP,"jagua-rs/src/entities/bin.rs"],[("modify_strip*",SP),("fit_strip",SP)],
 "strip bbox, placed items, missing quantities after each resize")

p("C09","Cloned problems evolve independently, also across threads",
 "A clone of a problem, layout, solution or optimiser state is fully independent of its origin: whatever interleaving of operations threads perform on their own clones, each observes exactly what it would observe running alone, including after the others are dropped. No panic, no shared-state leakage and no dependence on the thread schedule.",
 ["schedules","histories"],"all interleavings of operations of several workers holding clones that share immutable data",
 T+"; they are single-threaded and never clone a problem.",
 [LAY,BP,SP,QTP],[("Clone of Problem/Layout/CDEngine",LAY),("weak shape references in the tree",QTP),("Arc-shared shapes and base engines","jagua-rs/src/entities/bin.rs")],
 "per-worker observation log under interleaving vs. solo",
 [("Arc<SimplePolygon> / Weak","geometry shared between clones")])

p("C10","Parallel parsing is schedule-independent and faithful to the input",
 "Parsing an instance yields the same result under every thread schedule and thread count, and that result mirrors the input: items and bins in input order with ids equal to their position, demands, stocks (absent stock = unlimited), allowed rotations, qualities, values, bin costs, holes and quality zones as given, and shapes equal to the input shapes up to the recorded pre-transformation and the configured simplification.",
 ["schedules","inputs","configurations"],"all schedules of the parallel parse x instances x parser configurations",
 T+"; parsing runs on whatever schedule the OS picks and the result is never inspected.",
 [PARSER],[("par_iter item/bin parsing",PARSER),("pretransform",PARSER)],
 "Instance returned by the parser")

p("C11","Seeded runs are reproducible under any schedule, clock and environment",
 "With a fixed seed in the configuration, the program writes byte-identical solution and drawing files on every run, except for the reported run time: thread scheduling, clock readings, entropy, log level and file-system timing have no influence. The same holds for the optimiser called as a library.",
 ["schedules","fault_sequences","configurations"],"all thread schedules, clock behaviours (jumps, skew), entropy streams, log levels, benign I/O segmentations",
 T+"; no test runs twice and compares.",
 [MAIN,OPT,PARSER,"lbf/src/lib.rs"],[("seeded SmallRng",MAIN),("parallel parse",PARSER),("solve loop",OPT)],
 "output files of the process / Solution of the optimiser")

p("C12","Every produced solution is feasible for the original input",
 "Every solution the optimiser returns or writes is feasible with respect to the instance as given: no two items overlap, every item lies inside its container, off the holes and off every zone whose quality is below what the item requires, each rotation is an allowed one, no item is placed more often than demanded and no bin type is used more often than stocked (up to floating-point contact tolerance). This holds for every random stream, engine tuning and simplification setting, also when optimisation resumes after removals.",
 ["inputs","configurations","histories"],"all instances x random streams (incl. adversarial) x tunings x resume histories",
 T+"; feasibility of the result is not asserted.",
 [OPT,"lbf/src/samplers/hpg_sampler.rs","lbf/src/samplers/ls_sampler.rs","lbf/src/samplers/rotation_distr.rs",CDE,PARSER,"jagua-rs/src/util/polygon_simplification.rs"],
 [("sample_layout",OPT),("samplers","lbf/src/samplers"),("simplification modes",PARSER)],
 "placements re-evaluated against the raw JSON shapes")

p("C13","Success is reported only when every output file is complete",
 "If the program exits successfully, then for that run the solution file and one drawing per layout exist in the requested folder and hold their complete content, whatever short writes, interrupted calls, full disks, I/O errors or failing folder creation occurred while writing. A write failure is never silently swallowed.",
 ["fault_sequences","crash_points"],"all sequences of I/O faults on the output path",
 T+"; no test writes output files or sees an I/O error.",
 [LIO,MAIN],[("write_json_output",LIO),("write_svg",LIO),("solution folder creation",MAIN)],
 "exit status vs. content of the output folder under an injected fault plan")

p("C14","Faulty input reading never changes the result of a successful run",
 "Whatever short reads, interrupted calls, read errors or truncation occur while the instance or configuration file is read, the program either fails with a non-zero status and writes no result, or produces exactly the result of an undisturbed run. An unreadable, malformed or truncated configuration or instance is never silently replaced by defaults or by a part of the data.",
 ["fault_sequences","inputs"],"all sequences of read faults and truncations on both input files",
 T+"; they read intact files only.",
 [LIO,MAIN],[("read_json_instance",LIO),("config parsing",MAIN)],
 "exit status and output files under an injected fault plan")

p("C15","A saved solution read back after a restart is the same solution",
 "Writing a solution in the file format and rebuilding it in a new process (same instance and settings) gives the same layouts: same containers and sizes, the same items at the same absolute positions (up to floating-point rounding), the same quantities, stock and usage, and a problem restored from it is collision-free whenever the original was. Positions in the file are relative to the original input shapes, so they hold regardless of any internal centring.",
 ["histories","crash_points","configurations"],"all solutions reachable by any history x restart points x parser configurations",
 T+"; nothing is ever read back.",
 [PARSER,"jagua-rs/src/io/json_solution.rs","jagua-rs/src/io/json_instance.rs"],
 [("compose_json_solution",PARSER),("build_*_solution",PARSER),("absolute/internal transforms",PARSER)],
 "rebuilt Solution vs. original; file positions vs. raw input shapes")

p("C16","Reported run time is true elapsed time, immune to clock jumps",
 "The run time written with a solution is the whole number of seconds that passed on the monotonic clock between program start and completion of the solution; wall-clock jumps, time zones and the chosen log level have no influence on it, and log timestamps never run backwards.",
 ["fault_sequences","schedules","configurations"],"all monotonic-clock advance patterns, wall-clock jumps and log levels",
 T+"; run time is never inspected and clocks are not controlled.",
 ["lbf/src/lib.rs",LIO,MAIN,PARSER,SOL],[("EPOCH","lbf/src/lib.rs"),("time_stamp",SOL),("duration_since",PARSER)],
 "RunTimeSec of the written solution and log prefixes under a simulated clock")

p("C17","The optimiser makes progress and terminates for every random stream",
 "For every instance whose items fit, and every random stream including adversarial ones, the optimiser never panics, spends at most its configured sample budget per item and layout, and terminates; for strip packing it places the entire demand and reports the strip's true occupied width, for bin packing an item is left out only when no open bin and no bin in stock yielded a valid sample.",
 ["inputs","schedules","configurations"],"all random streams x instances x tunings x resume histories, within a step budget",
 T+" on well-behaved PRNG streams.",
 [OPT,"lbf/src/samplers/hpg_sampler.rs","lbf/src/samplers/ls_sampler.rs","lbf/src/lbf_cost.rs",SP],
 [("sample_layout",OPT),("HPGSampler::tighten/sample","lbf/src/samplers/hpg_sampler.rs"),("strip extension loop",OPT)],
 "return of solve()/find_lbf_placement within the step budget")

p("C18","Crash and rerun converge to the outputs of an undisturbed run",
 "If the program is killed at any point and run again with the same inputs and folder, with whatever partial files the killed run left behind, the rerun succeeds and leaves exactly the output files of an undisturbed run. Input files are never modified, and nothing outside the solution folder is written.",
 ["crash_points","fault_sequences"],"all crash points (any system call, any byte of any write) x leftover states x number of crashes",
 T+"; no crash or leftover file is ever simulated.",
 [MAIN,LIO],[("File::create truncation",LIO),("solution folder creation",MAIN)],
 "output folder after rerun vs. clean run; input bytes; paths opened for writing")

# pure-function properties: listed, not claimed (see MANIFEST not_applicable)
p("C19","Shape simplification only errs on the safe side within its tolerance",
 "Simplifying an item, hole or zone never removes area from it and simplifying a container never adds area to it, and the area changes by at most the configured fraction.",
 ["inputs","configurations"],"all simple polygons x tolerances",
 T+"; the simplified shapes are not inspected.",
 ["jagua-rs/src/util/polygon_simplification.rs"],[("simplify_shape","jagua-rs/src/util/polygon_simplification.rs")],"output polygon vs. input polygon")
p("C20","Surrogates lie inside their shape",
 "The poles (circles) and piers (segments) used for fail-fast tests and grid updates lie inside the shape they stand for.",
 ["inputs","configurations"],"all simple polygons x surrogate settings",
 T+"; surrogate geometry is only checked for piers by a debug assertion.",
 ["jagua-rs/src/geometry/fail_fast/sp_surrogate.rs","jagua-rs/src/geometry/fail_fast/poi.rs","jagua-rs/src/geometry/fail_fast/piers.rs"],[("SPSurrogate::new","jagua-rs/src/geometry/fail_fast/sp_surrogate.rs")],"surrogate vs. polygon")
p("C21","Rigid transformations compose, invert and decompose consistently",
 "Composing, inverting and decomposing transformations agree with each other and with applying them to points: applying the inverse undoes a transformation, and recomposing a decomposition gives the same mapping.",
 ["inputs"],"all rotations and translations",
 T+"; transformation algebra has no unit tests.",
 ["jagua-rs/src/geometry/transformation.rs","jagua-rs/src/geometry/d_transformation.rs"],[("inverse/compose/decompose","jagua-rs/src/geometry/transformation.rs")],"points mapped by equivalent transformations")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
