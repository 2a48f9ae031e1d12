#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
I = "include/common_robotics_utilities/"
S = "src/common_robotics_utilities/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parallel loops do every index exactly once, and finish before returning",
 "For every range (including empty ranges and ranges that do not start at zero), every degree of parallelism, every scheduling (static or dynamic) and every backend, a parallel loop gives each index of the half-open range to the work function exactly once and gives it no other index. The call returns only after all of that work has finished, with all its effects visible to the caller. This holds wherever the loop is called from, including from inside another parallel loop or with fewer threads available than asked for. A range that ends before it starts, or a degree of parallelism below one, is refused with an exception and nothing runs.",
 ["schedules", "inputs", "configurations"], "all ranges x degrees of parallelism x {range-wise, index-wise} x {static, dynamic} x {OpenMP, async, best available} x nesting/thread limits x completion orders of the work items",
 "The parallelism test runs a few ranges starting at zero, and sees only the schedules the machine happens to produce; wrong hand-out depends on which worker finishes first.",
 [I+"parallelism.hpp", I+"openmp_helpers.hpp"],
 [("CalcStaticThreadRangeStartAndEnd / CalcStaticThreadRanges", I+"parallelism.hpp"), ("StaticParallelForRangeLoop", I+"parallelism.hpp"), ("DynamicParallelForRangeLoop", I+"parallelism.hpp")],
 ["calls made to the work function, return of the loop call"],
 [("pending/live work", "which indices have been handed out and which work items are still running", I+"parallelism.hpp")])
prop("C02", "A thread number is never shared by two work items running at once",
 "The thread number passed to a work function is always at least zero and less than the degree of parallelism requested. Two work items of the same loop that run at the same time never get the same thread number, so per-thread storage indexed by it is never shared. No more work items run at once than the requested degree, and a degree of one runs the work serially.",
 ["schedules", "configurations"], "all interleavings of work item start and finish, for each backend, scheduling, degree and nesting context",
 "The tests record thread numbers of one schedule per run and never run loops nested or under a thread limit.",
 [I+"parallelism.hpp", I+"openmp_helpers.hpp"],
 [("ThreadWorkRange thread numbers", I+"parallelism.hpp"), ("OpenMP num_threads and DegreeOfParallelism", I+"openmp_helpers.hpp")],
 ["thread number passed to the work function, overlapping executions"],
 [("thread number ownership", "which running work item holds which number", I+"parallelism.hpp")])
prop("C03", "An exception thrown by parallel work reaches the caller, nothing left running",
 "If any work item of a parallel loop throws, the loop call itself ends by throwing an exception that some work item threw, instead of terminating the program, hanging, or returning normally. When it does so no work item of the loop is still running and none starts later. A loop whose work does not throw does not throw.",
 ["schedules", "fault_sequences"], "all subsets of work items that throw x completion orders x backends x schedulings",
 "No test throws from a work item; the outcome depends on which work items are running when the first one throws.",
 [I+"parallelism.hpp"],
 [("exception capture in OpenMP loops, future::get in async loops", I+"parallelism.hpp")],
 ["exceptions leaving the loop call, work started or running after it ends"])
prop("C04", "K-nearest-neighbour queries return the true K nearest, serial or parallel",
 "A K-nearest query over any part of a collection returns exactly min(K, number of items in that part) results, each a distinct index in that part paired with the distance the caller's function gives for it, and no item left out is closer than one returned. Parallel and serial queries return the same distances in every context, including when called from inside parallel work or with fewer threads than asked for. Queries with invalid parameters are refused with an exception.",
 ["inputs", "configurations", "schedules"], "all item collections, distance functions with ties, K, sub-ranges, degrees of parallelism and calling contexts",
 "Tests use a few random collections at top level, where every thread number is distinct; lost neighbours show up only when thread numbers repeat or ties straddle the ranges.",
 [I+"simple_knearest_neighbors.hpp", I+"parallelism.hpp"],
 [("GetKNearestNeighborsInRangeSerial/Parallel", I+"simple_knearest_neighbors.hpp")],
 ["returned index/distance pairs, exceptions"])
prop("C05", "A* search is complete, optimal, and its answer is self-consistent",
 "On every finite search problem the generic A* search (from one or several starts, with start costs) ends, and it reports a solution exactly when some goal is reachable through valid edges. The returned path starts at a given start, follows valid offered edges, ends at a goal, and its real cost, that start's cost plus its edges' costs, is no more than the reported cost, and equal to it with a heuristic that never overestimates. With a heuristic that never overestimates no cheaper solution exists (a start that is itself a goal is answered at once, the cheapest such start alone), whether or not duplicates in the queue are limited.",
 ["inputs", "configurations"], "all finite weighted directed graphs, start sets and costs, goal sets, edge validities, heuristics, limiting of queue duplicates",
 "Existing tests only reach it through a few planning examples; optimality is a statement about all paths.",
 [I+"simple_astar_search.hpp"],
 [("PerformAstarSearch, ExtractAstarResult", I+"simple_astar_search.hpp")],
 ["returned path, cost and statistics"],
 [("open queue and explored map", "best known cost and predecessor of each state", I+"simple_astar_search.hpp")])
prop("C06", "All graph searches agree on optimal paths of directed weighted graphs",
 "For every graph with non-negative edge weights, one-way and parallel edges included, the single-source shortest-path search gives each node the true minimum distance and a predecessor that realises it, or infinity and no predecessor where unreachable. The A* and lazy A* searches between any starts and goals report a path of the same minimum cost under the edge validity and distance functions given, and report failure exactly when no valid path exists. The graph searched is left unchanged, and a search over a pruned view equals the same search over a graph without the pruned nodes. A search result whose parts do not match in size, given or read from damaged data, is refused with an exception.",
 ["inputs", "configurations"], "all directed multigraphs with integer weights, start/goal sets, edge validity functions, lazy and eager evaluation, pruning sets",
 "The planning test checks one fixed graph; optimality and agreement quantify over all graphs.",
 [I+"simple_graph_search.hpp", I+"simple_graph.hpp"],
 [("PerformDijkstrasAlgorithm", I+"simple_graph_search.hpp"), ("PerformAStarSearch, PerformLazyAStarSearch", I+"simple_graph_search.hpp")],
 ["returned paths, costs, distances and predecessors"])
prop("C07", "A graph keeps its two-way edge bookkeeping consistent through every edit",
 "After any sequence of adding nodes, adding one-way or two-way edges, changing values and weights, pruning nodes, copying, and saving and loading, each node's outgoing edges and the matching nodes' incoming edges describe the same set of edges with the same weights, and that set is the one the operations imply. Pruning a set of nodes keeps exactly the other nodes, their values and the edges among them, with indices renumbered in order, whether done serially or in parallel. Operations naming a node that does not exist are refused with an exception and leave the graph as it was. Saved data that is cut short or not consistently linked is refused with an exception.",
 ["histories", "configurations"], "all sequences of graph operations, including invalid ones, and all pruning sets",
 "Tests edit one small graph once; consistency is an invariant over all histories.",
 [I+"simple_graph.hpp"],
 [("AddEdgeBetweenNodes, MakePrunedGraph, CheckGraphLinkage", I+"simple_graph.hpp")],
 ["node values, in/out edges, linkage check result, serialized form"],
 [("out_edges_/in_edges_", "edges stored at both ends", I+"simple_graph.hpp")])
prop("C08", "A graph overlay acts like a private copy and never changes its base graph",
 "A sequence of edits and reads applied to an overlay over a base graph gives the same results as the same sequence applied to a full copy of that graph. The base graph is unchanged by anything done through the overlay. Nodes and edges of base and overlay alike are visible through it, and node numbering continues from the base.",
 ["histories"], "all base graphs and sequences of overlay operations, including copying and pruning the overlay",
 "Tests use overlays only inside one roadmap example.",
 [I+"simple_graph.hpp", I+"simple_prm_planner.hpp"],
 [("NonOwningGraphOverlay", I+"simple_graph.hpp")],
 ["reads through the overlay, reads of the base graph"])
prop("C09", "Roadmaps hold only valid edges with the right weight in each direction",
 "After building, growing, updating or adding states to a roadmap, in serial or parallel, each edge joins two distinct existing nodes, was reported valid in its direction, and carries the distance the caller's function gives in that direction; when the functions are asymmetric each direction is judged on its own. Each added state is linked to the nearest states asked for wherever the edge is valid, and updating a roadmap re-evaluates every edge, so an edge whose connection became invalid is no longer usable and no other edge disappears or appears. Growing adds only states that passed validity checking, stops as its termination condition says, and never adds the same state twice when duplicate checking is on.",
 ["inputs", "histories", "configurations"], "all state sets, asymmetric distance and validity functions, K, connection directions, growth batch sizes, serial and parallel execution",
 "The planning test uses symmetric functions on one grid, where swapping directions cannot be noticed.",
 [I+"simple_prm_planner.hpp"],
 [("AddNodeToRoadmap, GrowRoadMap, UpdateRoadMapEdges, BuildRoadMap", I+"simple_prm_planner.hpp")],
 ["roadmap nodes and edges after each call, growth statistics"])
prop("C10", "Roadmap queries give a best valid path and leave the roadmap unchanged",
 "A query from any starts to any goals returns a path that runs from one of the starts through roadmap states to one of the goals using only valid connections, with cost equal to the sum of the connections' costs, and no cheaper path exists in the roadmap joined with the queried states. If none exists it reports failure. Eager and lazy queries agree, and querying never changes the roadmap it was given, unless the caller chose the variant that adds the queried states to it.",
 ["inputs", "configurations"], "all roadmaps, start/goal sets, asymmetric validity and distance functions, K, eager/lazy/add-to-roadmap query variants",
 "One example query per test; correctness quantifies over all roadmaps and asymmetric functions.",
 [I+"simple_prm_planner.hpp", I+"simple_graph_search.hpp"],
 [("QueryPath, LazyQueryPath, QueryPathAndAddNodes", I+"simple_prm_planner.hpp")],
 ["returned path and cost, roadmap before and after"])
prop("C11", "Single-tree planning returns only connected start-to-goal paths",
 "Each path returned by the single-tree planner begins at a root of the given tree and follows parent-to-child links to a state the goal test accepted. The tree only grows, every state added came from the forward propagation of the state chosen as nearest, in the parent structure the propagation reported, and the reported statistics match the calls made. The planner stops when its termination condition says so, and optional callbacks may be left out.",
 ["histories", "inputs"], "all sequences of sampling, nearest-neighbour, propagation, goal and termination outcomes, over all initial trees",
 "Tests run the planner on one fixed random environment; the guarantee is over all outcome sequences of the user callbacks.",
 [I+"simple_rrt_planner.hpp"],
 [("RRTPlanMultiPath, RRTPlanSinglePath, ExtractSolutionPath", I+"simple_rrt_planner.hpp")],
 ["callback arguments, final tree, returned paths, statistics"],
 [("planner tree", "states with parent/child indices", I+"simple_rrt_planner.hpp")])
prop("C12", "Two-tree planning joins the trees only where the connection was accepted",
 "Each path returned by the bidirectional planner starts at a root of the start tree, ends at a root of the goal tree, and is made of one tree branch each, joined at a pair of states whose connection was accepted. Only the tree that is active grows, swapping follows the policy and random choices given, and every state added is in the parent structure its propagation reported, with statistics that match the calls made. The planner stops when its termination condition says so, and optional callbacks may be left out.",
 ["histories", "inputs", "configurations"], "all sequences of callback outcomes, swap/sampling probabilities and initial trees",
 "One fixed environment in the tests; the guarantee is over all outcome sequences.",
 [I+"simple_rrt_planner.hpp"],
 [("BiRRTPlanMultiPath, BiRRTPlanSinglePath, ExtractSolution", I+"simple_rrt_planner.hpp")],
 ["callback arguments, final trees, returned paths, statistics"])
prop("C13", "Planner trees keep parent and child links consistent, and the check says so",
 "After any sequence of adding, connecting, replacing and clearing nodes, copying, and saving and loading, each node is listed as a child by exactly its parent, roots have no parent, and following parents always ends at a root, along which solution paths are read. A node that names a parent not in the tree is refused and changes nothing. The linkage check, and loading or replacing nodes, accept exactly the node lists for which this holds with every parent before its children.",
 ["histories", "inputs"], "all sequences of tree operations and all (also inconsistent) small node arrays given to the linkage check",
 "Tests exercise one tree; the invariant is over all histories and the check over all arrays.",
 [I+"simple_rrt_planner.hpp"],
 [("SimpleRRTPlannerState, SimpleRRTPlannerTree, CheckTreeLinkage", I+"simple_rrt_planner.hpp")],
 ["node parent/child links, linkage check result, serialized form"])
prop("C14", "Task sequencing plans optimally and runs only what the plan allows",
 "For any finite task whose primitives have deterministic or branching outcomes, planning finds an action sequence exactly when one exists, of least total cost. During execution a primitive runs only from a state for which it is a candidate, the highest-ranked outcome chosen becomes the current state, and each unexpected outcome is followed by a new plan from where the system really is. Execution ends in success only in a state that meets the task, and the executed outcomes it reports are the ones that occurred, in order.",
 ["histories", "fault_sequences", "inputs"], "all finite task models, outcome sequences including unexpected outcomes, and step limits",
 "The test drives one scripted task; correctness quantifies over all outcome sequences.",
 [I+"simple_task_planner.hpp", I+"simple_astar_search.hpp"],
 [("PlanTaskStateSequence, PerformSingleTaskExecution", I+"simple_task_planner.hpp")],
 ["primitive executions, returned outcome sequence, plan cost"])
prop("C15", "A voxel grid is a faithful map from cells to values under every access path",
 "After any sequence of sets, fills, resets and mutable accesses through any way of naming a cell (index triple, grid index, data index or location), a read of any cell through any of those ways gives the value last stored there or the default, and a read or write outside the grid reports that it is out of bounds and changes nothing. Access hooks see exactly the cell being accessed and a refused access changes nothing and reports so. Copies, and saved then loaded grids, equal the original and are independent of it. Saved data damaged in a byte is refused with an exception or loads as a grid whose sizes and contents agree.",
 ["histories", "configurations"], "all grid sizes, operation histories, access forms and permission policies",
 "The tests fill one grid by one access form and always allow mutable access.",
 [I+"voxel_grid.hpp"],
 [("VoxelGridBase Get/SetIndex/Location, OnMutableAccess", I+"voxel_grid.hpp")],
 ["query results, hook arguments, serialized form"],
 [("data_", "cell values in index order", I+"voxel_grid.hpp")])
prop("C16", "Voxel grid locations and cell indices convert consistently",
 "In a grid of any dimensions, cell size and pose, every cell's centre location converts back to that cell, every location inside a cell's half-open box converts to that cell and one outside the grid converts to no cell. Triple indices and data indices are a bijection onto zero up to the number of cells. Grid dimensions are never smaller than asked for, and inconsistent dimensions, or dimensions with more cells than can be numbered, are refused.",
 ["inputs"], "all grid sizes, cell sizes, grid poses and query locations (exactly representable values)",
 "Tests sample cell centres of one grid with uniform cells.",
 [I+"voxel_grid.hpp"],
 [("VoxelGridSizes, LocationToGridIndex, GridIndexToLocation, GridIndexToDataIndex", I+"voxel_grid.hpp")],
 ["conversion results, size queries, exceptions"])
prop("C17", "A chunked voxel grid is an unbounded map that allocates only where written",
 "After any sequence of cell writes, chunk writes, mutable accesses and resets, reading any location gives the cell value last written there, else the value of the whole-chunk write covering it, else the default, and says truthfully which of these it was. Chunks come into being only by writes, and reading or refusing an access never creates one. Copies, and saved then loaded grids, equal the original and are independent of it. Saved data damaged in a byte is refused with an exception or loads as a grid whose sizes and contents agree.",
 ["histories", "inputs"], "all histories of reads and writes at locations including negative coordinates and chunk borders, chunk/cell initialisation modes and permission policies",
 "Tests write a few locations in one order.",
 [I+"dynamic_spatial_hashed_voxel_grid.hpp", I+"voxel_grid.hpp"],
 [("DynamicSpatialHashedVoxelGridBase, chunk keys, cell/chunk access modes", I+"dynamic_spatial_hashed_voxel_grid.hpp")],
 ["query status and value, set of chunks"])
prop("C18", "What is saved loads back equal, and damaged input is refused",
 "Every supported value, nested containers included, that is written to a byte buffer reads back equal from any offset, and both report that same number of bytes, so values written one after another read back in order. A buffer that ends too early makes reading fail with an exception rather than read outside it or give a value. The network-order forms give the same bytes on every machine.",
 ["inputs", "fault_sequences"], "all values of the supported types (nested), all offsets, all truncation points of each buffer",
 "No test covers the serialization primitives directly; truncation points and nesting are unbounded.",
 [I+"serialization.hpp", S+"serialization.cpp"],
 [("Serialize*/Deserialize* pairs", I+"serialization.hpp")],
 ["buffer bytes, bytes reported read and written, exceptions"])
prop("C19", "Optional values and tagged unions own exactly the value they say they hold",
 "After any sequence of construction, copy, move, assignment (to itself too), reset, destruction, and failures of the contained type's own copying, an optional or tagged value reports holding exactly what the operations imply, reading the wrong alternative or an empty one fails with an exception, and each contained object is destroyed exactly once. A referring optional refers to the very object it was given and copies of it refer to that same object.",
 ["histories", "fault_sequences"], "all operation histories over several optional/tagged objects, with a copy/move of the contained type failing at any point",
 "The test does a few assignments with no failing copies.",
 [I+"maybe.hpp"],
 [("TaggedUnion, OwningMaybe, ReferencingMaybe", I+"maybe.hpp")],
 ["live-object counts, held value, exceptions"])
prop("C20", "Scoped clean-up runs exactly once at scope end, whatever happens inside",
 "An action registered for scope end runs exactly once when the scope ends, normally or by exception, unless it was disabled, in which case it does not run. The scoped setting of the number of parallel threads restores the setting found on entry, also when nested and when left by exception. Nothing runs or is restored before the scope ends; until then the setting asked for is in force, and the questions about the number of threads answer accordingly.",
 ["histories", "fault_sequences"], "all nestings and disable sequences of scopes, left normally or by exception at any point",
 "No test leaves such a scope by exception or nests several.",
 [I+"utility.hpp", I+"openmp_helpers.hpp"],
 [("OnScopeExit", I+"utility.hpp"), ("ChangeOmpNumThreadsWrapper", I+"openmp_helpers.hpp")],
 ["calls of the clean-up function, thread count setting"])
prop("C21", "Path shortening and resampling keep paths connected and valid",
 "Shortened paths keep the original first and last states, never get longer, and consist only of states of the input or resampled states, joined by original connections or connections found valid; when no shortcut is valid the path is unchanged. Resampled paths keep the original first and last states, contain points only on the original segments in order, and no two consecutive states are further apart than the resolution. Iteration limits are respected.",
 ["inputs", "histories"], "all paths, edge validity functions and random index choices; all segment lengths and resolutions",
 "Tests shorten one path in one environment; validity must hold for every random choice and validity function.",
 [I+"path_processing.hpp"],
 [("ShortcutSmoothPath, ResamplePath", I+"path_processing.hpp")],
 ["returned path, edge-check calls"])
prop("C22", "Hierarchical clustering gives the clusters the distance limit defines",
 "Clustering puts every item in exactly one non-empty cluster. With single linkage the clusters are exactly the groups joined by chains of steps within the distance limit; with complete linkage no two items of a cluster are further apart than the limit and no two clusters could still be merged within it. Parallel and serial runs, and runs from values or from a precomputed distance matrix, give the same spacing guarantees and clusters.",
 ["inputs", "configurations"], "all item sets and symmetric distances with ties, distance limits, linkage strategies, serial/parallel",
 "No test covers it; the guarantee is over all distance matrices.",
 [I+"simple_hierarchical_clustering.hpp"],
 [("IndexCluster, Cluster", I+"simple_hierarchical_clustering.hpp")],
 ["returned clusters and merge distance"])
prop("C23", "K-means labels every item with a valid cluster and stops at a fixed point",
 "K-means gives each item exactly one label from zero up to the number of clusters asked for. When it stops, every item has the label of a cluster centre no farther than any other, where the centres are the averages of the items so labelled. Requests that cannot be met (no clusters, no data, more clusters than items) are refused or answered trivially, never by running forever, and parallel and serial runs with the same random choices give the same labels.",
 ["inputs", "configurations"], "all data sets, weights, initial choices and cluster counts, serial/parallel",
 "No test covers it.",
 [I+"simple_kmeans_clustering.hpp"],
 [("Cluster, ClusterWeighted", I+"simple_kmeans_clustering.hpp")],
 ["returned labels, averaging and distance calls"])
prop("C24", "Sequence and set distances equal their mathematical definition",
 "The dynamic time warping distance of two sequences is the least total pairwise distance over all monotone alignments of all of both. The Hausdorff distance from a first set to a second is the largest distance from an item of the first to its nearest item of the second. Every way of calling (serial, parallel, precomputed distances, reused evaluator) gives the same value.",
 ["inputs", "configurations"], "all pairs of sequences/sets and pairwise distances, with ties; serial/parallel",
 "Tests check Hausdorff on one random set against itself in parallel, and warping not at all.",
 [I+"simple_dtw.hpp", I+"simple_hausdorff_distance.hpp"],
 [("SimpleDTW::EvaluateWarpingDistance", I+"simple_dtw.hpp"), ("ComputeDistance*", I+"simple_hausdorff_distance.hpp")],
 ["returned distance"])
prop("C25", "Random generators are reproducible, and skipping equals drawing",
 "Each generator's output sequence depends only on its seed: re-seeding a generator at any moment gives the same sequence as a fresh generator with that seed, copies continue identically and independently, and skipping n values equals drawing and ignoring n values. The outputs follow the published algorithm of the generator. Every value is within the limits the generator states.",
 ["histories"], "all seeds and sequences of draw, skip, re-seed and copy operations",
 "No test covers the generators' state handling.",
 [I+"simple_prngs.hpp"],
 [("SplitMix64PRNG, XorShift128PlusPRNG, XorShift1024StarPRNG", I+"simple_prngs.hpp")],
 ["generated values"],
 [("state_, p_", "generator state words and position", I+"simple_prngs.hpp")])
prop("C26", "Text encoding and compression give back exactly the bytes put in",
 "Encoding any byte string as base64 gives standard padded base64 text, and decoding that text, with or without its padding, gives the original bytes. Compressing any byte string of any size and decompressing gives the original bytes, in memory and through files. Corrupt or cut-off compressed data, and files that cannot be read or written, cause an exception and never a wrong result.",
 ["inputs", "fault_sequences"], "all byte strings and sizes including empty and buffer-size multiples; all truncations; read and write failures",
 "No test covers these functions.",
 [S+"base64_helpers.cpp", S+"zlib_helpers.cpp"],
 [("base64 Encode/Decode", S+"base64_helpers.cpp"), ("CompressBytes, DecompressBytes, file variants", S+"zlib_helpers.cpp")],
 ["returned bytes, file contents, exceptions"])
prop("C27", "Trajectory queries depend only on the time asked, and copies are independent",
 "The state a time-parametrised trajectory gives for a time depends only on that time, not on which times were asked before, in any order. A copy or clone answers the same queries with the same answers, also after the original was destroyed or queried elsewhere. The first and last states are those of the path's ends.",
 ["histories"], "all orders of time queries interleaved with copying, cloning and destroying trajectories",
 "No test covers trajectories; the answer could depend on hidden cached position.",
 [S+"time_optimal_trajectory_parametrization.cpp", I+"time_optimal_trajectory_parametrization.hpp"],
 [("Trajectory::GetTrajectorySegment cached segment", S+"time_optimal_trajectory_parametrization.cpp")],
 ["positions and velocities returned"],
 [("cached_trajectory_segment_/cached_time_", "last queried segment", S+"time_optimal_trajectory_parametrization.cpp")])
prop("C28", "The copyable atomic is linearizable and copying it copies its value",
 "Every concurrent history of loads, stores, fetch-and-add and fetch-and-subtract operations on a copyable atomic is explained by some order of those operations that respects real time. Copying or moving one yields an independent atomic holding a value the source had during the copy. Single-threaded, each operation does and returns what the standard atomic operation of that name does. Operations order other memory as the memory order in effect promises.",
 ["schedules", "histories"], "all interleavings of a few threads' operations; all single-threaded histories",
 "The tests do not run it concurrently.",
 [I+"utility.hpp"],
 [("CopyableMoveableAtomic", I+"utility.hpp")],
 ["operation results, final value"])
prop("C29", "Collection, value and bit helpers answer exactly as described",
 "Subset and equality tests compare collections as multisets, whatever containers hold them. Key and value extraction, lookup with a default and map building return exactly the elements stored, a later pair replacing an earlier one with the same key. Clamping and spreading give the described value and report a change exactly when there is one; bits are set and read at any position without touching others. Random indices and range values are inside the range for every integer type and range, and split the unit interval evenly. Combining hash values in one call or several gives the same result. A future is reported ready exactly when its result can be taken without waiting. Contradictory requests are refused with an exception.",
 ["inputs", "histories"], "all small collections, maps, limits, bit positions, ranges up to a type's whole range, and histories of a future",
 "The utility test checks a few examples of some of them.",
 [I+"utility.hpp"],
 [("IsSubset, CollectionsEqual, GetKeys*, MakeFromKeysAndValues, RetrieveOrDefault", I+"utility.hpp"), ("ClampValue*, SpreadValue*, SetBit, GetBit", I+"utility.hpp"), ("GetUniformRandomIndex, GetUniformRandomInRange, hash_combine, IsFutureReady", I+"utility.hpp")],
 ["returned values, exceptions, log calls"])
prop("C30", "Angles of joints that turn without end behave as points on a circle",
 "Wrapping an angle gives the angle in [-pi, pi) that differs from it by whole turns. The signed distance is the shorter way round (either way for opposite angles), adding it to the first angle leads to the second, and the unsigned distance is its size, the same in both directions. Whether an angle lies in a range is decided by walking upwards from the range's start, whatever turn the angles are written on; a range's two ends, written within [-pi, pi), belong to it. Interpolation moves along the shorter way, never beyond either end; the weighted average of angles less than half a turn apart is the weighted point of the arc they span. Results are in [-pi, pi).",
 ["inputs"], "all finite angles (any number of turns), ranges, interpolation ratios, weights",
 "Tests sample a handful of angles; the errors live where angles straddle the wrap, are opposite, or are given on another turn.",
 [S+"math.cpp", I+"math.hpp"], [("EnforceContinuousRevoluteBounds and ContinuousRevolute* functions", S+"math.cpp"), ("InterpolateContinuousRevolute, AverageContinuousRevolute", S+"math.cpp")], ["returned angles, distances, containment answers"])
prop("C31", "Vector, average, interpolation and plane results follow their definitions",
 "Element-wise arithmetic, norms, distances, weighted products and angles, means, deviations, projections and plane queries give the value their definition assigns, up to rounding. Interpolation gives the ends at ratios 0 and 1 and never leaves them; interpolation in a cell gives each corner its own value. A weighted average uses the sizes of the weights and ignores items of zero weight. An orthogonal vector is not zero and is orthogonal; the plane fitted to points passes through their mean and no other plane does with less squared distance. Mismatched sizes, empty inputs and all-zero weights are refused with an exception.",
 ["inputs"], "all vectors of any size, weights, ratios, cells, planes and point sets",
 "No test covers these functions; what breaks them is a particular position of a zero weight, axis, corner or near-parallel vector.",
 [S+"math.cpp", I+"math.hpp"], [("Add/Sub/Multiply/Divide, Interpolate*, Average*, Weighted*", S+"math.cpp"), ("Linear/Bilinear/TrilinearInterpolate, AverageEigenVector, VectorProjection/Rejection, Hyperplane", I+"math.hpp"), ("FitPlaneToPoints", S+"math.cpp")], ["returned values, exceptions"])
prop("C32", "A pairwise distance table holds every pair's distance, serial or parallel",
 "The table built for one collection holds at row i and column j the distance the caller's function gives for items i and j, mirrored and with zeros on the diagonal; the table for two collections holds the distance of item i of the first to item j of the second. This is so for every degree of parallelism, backend and calling context, also for empty collections and when called from inside parallel work.",
 ["inputs", "schedules", "configurations"], "all collections x container kinds x degrees of parallelism x nesting and thread limits",
 "No test builds a table; a missed or misplaced cell depends on the sizes of the collections and on how rows are handed out.",
 [I+"math.hpp", I+"parallelism.hpp"], [("BuildPairwiseDistanceMatrix", I+"math.hpp")], ["returned matrix"],
 [("distance matrix", "cells filled so far by each row's work item", I+"math.hpp")])
prop("C33", "Rigid transforms, rotations and twists obey the geometry of rigid motion",
 "The twist taking one pose to another (not half a turn away) does so when followed for unit time, in any number of equal parts, and undoes it when followed backwards; the adjoint carries twists between frames as conjugation does. The distance between rotations is the angle between them, whichever sign of quaternion represents them. Interpolated rotations are rotations at the given share of that angle from each end along the shorter way, averaged rotations are unit quaternions that agree best with the given ones, and ratios and blend factors outside [0, 1] act as the nearer end. Roll-pitch-yaw conversions apply the turns in the documented order and convert back to the same pose; arguments of wrong size are refused.",
 ["inputs"], "all poses, twists, rotations of either quaternion sign, ratios, weights and angle triples",
 "No test covers these functions; an error in an order of multiplication or a sign shows only for particular orientations.",
 [S+"math.cpp", S+"conversions.cpp"], [("Skew/TwistHat, AdjointFromTransform, TwistBetweenTransforms, ExpTwist", S+"math.cpp"), ("Interpolate, Distance, AverageEigenQuaterniond/Isometry3d", S+"math.cpp"), ("QuaternionFromRPY, TransformFromUrdfRPY, EulerAngles*, StdVectorDouble*", S+"conversions.cpp")], ["returned transforms, quaternions, angles, exceptions"])
prop("C34", "Colours stay in range, and byte and float channel values convert faithfully",
 "Every channel of a floating-point colour is within [0, 1] however it was set: values beyond are taken to the nearer end. Setting one channel leaves the others alone. Byte channels converted to floats and back are unchanged, and hex values convert to the proportional float and back. The hot-to-cold scale runs continuously from blue (lowest) through cyan, green and yellow to red (highest), values outside the range taking the end colours. The palette gives pairwise different colours for its codes and one fallback colour for every other code. Equality within a tolerance is decided channel by channel, alpha included.",
 ["inputs"], "all channel values (any float, any byte), palette codes, scale positions and ranges",
 "No test covers it; a swapped or unclamped channel shows only for particular values.",
 [I+"color_builder.hpp"], [("RGBAColor, MakeFromFloatColors, MakeFromHexColors, MakeFromMixedColors", I+"color_builder.hpp"), ("InterpolateHotToCold, LookupUniqueColor, ConvertColor, ColorsEqual", I+"color_builder.hpp")], ["channel values"])
prop("C35", "Printing a nested value shows every item in order at every level",
 "The text of a collection is the texts of its items in iteration order joined by the given separator, and nothing for an empty one; with delimiters each level is enclosed by its kind: brackets for sequences, parentheses for sets, braces for maps and angle brackets for pairs, whose parts are joined by a colon and a space. Separator and delimiter choice reach every level. Bytes print as numbers, truth values as words, other scalars as their stream output; fixed-size vectors, matrices, quaternions and poses print their type name and every component with up to 12 significant digits. All standard collections, nested in any way, can be printed.",
 ["inputs"], "all values of all nested types x separators x delimiter choices",
 "The print test only checks that two calls compile.",
 [I+"print.hpp"], [("Print overloads and specialisations", I+"print.hpp")], ["the text"])
prop("C36", "Random rotations and normal samples follow the distributions they are named for",
 "Random quaternions are unit and uniform on the sphere, random Euler angles give uniformly distributed orientations with roll and yaw anywhere on the circle; the raw forms give the same numbers in the documented order. Samples of a truncated normal distribution are inside its bounds, also one-sided, far from the mean or with all of the distribution at one value, and their shares everywhere in the range are the distribution's. Multivariate samples have the given mean and covariance, also a singular one, and normal marginals. Evaluated and integrated densities agree with the distribution. Contradictory bounds, limits, deviations and sizes are refused with an exception.",
 ["inputs", "histories"], "all parameters and bounds, all generator seeds, any number of draws",
 "No test includes these headers; a wrong distribution shows only over many draws and for particular bounds.",
 [I+"random_rotation_generator.hpp", I+"gaussian_distributions.hpp"], [("GenerateUniformRandomQuaternion, GenerateUniformRandomEulerAngles, GetRaw*", I+"random_rotation_generator.hpp"), ("TruncatedGaussianDistribution, MultivariteGaussianDistribution, Evaluate*, Integrate*", I+"gaussian_distributions.hpp")], ["samples, evaluated values, exceptions"])
prop("C37", "Time-optimal trajectories keep the limits and the path, and waste no time",
 "Along a time-parametrised trajectory no joint exceeds its velocity or acceleration limit by more than the integration's tolerance, and the position is the integral of the velocity. It starts and ends at rest exactly at the first and last waypoint and passes the segments between the waypoints in order, never further from them than the allowed deviation. Apart from brief transitions around corners some joint uses a limit in full at every moment; without deviation, or on a straight path, the duration is the shortest possible. Repeated waypoints change nothing. Every path with two different waypoints has a trajectory; fewer, and non-finite limits, deviations or steps, are refused with an exception.",
 ["inputs"], "all waypoint lists, limits and deviations", "The tests query a few fixed paths and compare interpolated states among themselves; none looks at limits, the path or the duration.",
 [S+"time_optimal_trajectory_parametrization.cpp"], [("ParametrizePathTOTP; Path, CircularPathSegment, Trajectory integration, GetPositionVelocityTimePoint", S+"time_optimal_trajectory_parametrization.cpp")], ["positions, velocities and duration of sampled trajectories, exceptions"])

prop("C38", "ROS messages and values convert without loss, and stamping marks every message",
 "A point, vector, quaternion, pose or transform turned into its message and back, through any chain of the offered conversions and for either supported ROS version, is the same value: every coordinate is carried exactly, and a rotation stays the same rotation. A point made homogeneous gets a fourth coordinate of one, a direction zero. Lists keep their number and order of items, stamped messages carry the frame names given, and setting time stamps gives every message of a collection the stamp and changes nothing else.",
 ["inputs", "programs"], "all values, lists of any length, chains of conversions, frame names and stamps",
 "The only test that includes these headers sets one stamp on five markers and needs ROS; the conversions are not tested at all.",
 [I+"ros_conversions.hpp", S+"ros_conversions.cpp", I+"ros_helpers.hpp"], [("Geometry*ToEigen*, Eigen*ToGeometry*, Vector*", S+"ros_conversions.cpp"), ("SetMessageTimestamps", I+"ros_helpers.hpp")], ["message fields, returned vectors, transforms and lists"])

prop("C39", "A robot model's derived distances are those its own functions define",
 "Whatever distances a robot model defines between two configurations, the distances derived from them follow: the per-joint distance is the absolute value of the model's signed per-joint distance in the same direction, and every distance to a configuration is measured from the position last set, never the other way round. This holds for every model, configuration type and number of joints, whatever was done to copies of the model.",
 ["inputs", "histories"], "all models (also with distances that depend on the direction), configurations and histories of setting, cloning and asking",
 "No test includes the interface.",
 [I+"simple_robot_model_interface.hpp"], [("ComputePerDimensionConfigurationDistance, Compute*DistanceTo", I+"simple_robot_model_interface.hpp")], ["returned distances"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
