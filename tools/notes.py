BOUND = " Exhaustive only within the stated small constants of the specification; the code is judged on the executed histories (seeded by VERIF_SEED)."
NOTE.update({
 "C01": ("ParallelLoop, AsyncDispatcher", "Every interleaving of start/finish/dispatch for small ranges is checked on the design; the real loops are driven through every generated completion order that the harness can steer and through nested/limited contexts, each run judged as a behaviour of the design." + BOUND),
 "C02": ("ParallelLoop, AsyncDispatcher", "Overlap of work items is observed from start/end events taken inside the work function." + BOUND),
 "C03": ("ParallelLoop, AsyncDispatcher", "Which items throw and in which order they finish is enumerated from the specification." + BOUND),
 "C04": ("KNearest", "All small distance tables with ties are generated from the specification; larger random collections in nine calling contexts." + BOUND),
 "C05": ("AStar, Shortest, SearchAnswer", "Completeness/optimality relation evaluated by TLC on every answer; the algorithm's design is model-checked on small graphs." + BOUND),
 "C06": ("DijkstraModel, Shortest, SearchAnswer", "Optimal costs recomputed by TLC for every answer." + BOUND),
 "C07": ("GraphStore", "All short edit histories plus long random ones; full projected state compared after every operation." + BOUND),
 "C08": ("GraphStore", "As C07, with overlay slots and the base graph compared after every operation." + BOUND),
 "C09": ("Roadmap, GraphStore", "Distances are integers; neighbour ties are accepted in any choice." + BOUND),
 "C10": ("Roadmap, Shortest", "Optimality is judged when the heuristic does not overestimate and the neighbours are not tied." + BOUND),
 "C11": ("RRTPlan, PlannerTree, PlannerHelpers", "Every answer of the caller's functions is explored for short runs on the design; every call the real planner makes (arguments, tree snapshots, answers) is judged against the same machine." + BOUND),
 "C12": ("BiRRTPlan, PlannerTree, PlannerHelpers", "As C11, for two trees, tree choice, sample kind and bridges." + BOUND),
 "C13": ("PlannerTree", "The linkage check is judged on every array of two nodes and on random damaged arrays; all three-node arrays are explored on the specification." + BOUND),
 "C14": ("TaskPlan, Shortest", "Execution of every three-state task with two primitives is explored on the design; plans, choices, executions and traces of the real planner are judged against recomputed least costs." + BOUND),
 "C15": ("VoxelMap, Grid", "Every history of length three over two two-cell grids is run through the real grids; every event is judged together with the whole contents of both grids as read through raw data, indices and locations." + BOUND),
 "C16": ("Grid", "Geometry laws are explored on small grids in all 48 axis orientations; sizes, index bijections and location conversions of real grids are judged for exactly representable lengths; on cell borders with sizes that are no power of two either neighbour is accepted." + BOUND),
 "C17": ("DynGrid, Grid", "The map is explored for all short histories against each location's own history; every event is judged together with all chunks and cells of both grids. Border locations with arbitrary cell sizes are judged for read-back only." + BOUND),
 "C18": ("Codec", "Round trip and refusal of every cut buffer are explored for small values of all type shapes; for the real code, fifty-odd instantiated types (host and network forms) are written, read back, cut at every byte and damaged, every byte judged." + BOUND),
 "C19": ("Maybe", "The storage protocol with failing copies is model-checked; every history of length three over two slots plus random longer ones over three is run on the real templates with copies and moves that fail on demand, under AddressSanitizer." + BOUND),
 "C20": ("ScopeExit", "Every program of up to five scope operations is explored on the design; all of length four and random ones up to forty run on the real helpers (also under a thread limit with dynamic adjustment), every callback and setting judged in order." + BOUND),
 "C21": ("PathShort", "Repeated shortening is explored for all paths of four states on a line and all relations of valid connections; the real functions are judged exactly without resampling (window choice from the given draws included) and, with resampling, by ends, connections, spacing and length within rounding of interpolated coordinates." + BOUND),
 "C22": ("Linkage", "Every symmetric table of four items with three distances (and five items with two, thorough) is explored on the specification and run through the real code with every limit, serial and parallel; larger tables are random, with ties, infinities and thin chains; where ties are few enough the real result must be one the procedure can end with." + BOUND),
 "C23": ("KMeans", "Distances are |dx|+|dy| and averages weighted medians, so every answer is exact and the procedure provably stops; termination, fixed point and progress are model-checked for all small item sets; the real code is judged on random small and clustered sets, every entry point, serial against parallel." + BOUND),
 "C24": ("Warp", "Filling the cost table is explored against all alignments for all small tables; all tables up to 3x3 and random larger ones run through every entry point and a reused evaluator." + BOUND),
 "C25": ("Prng", "The three algorithms are specified on 64-bit words; histories of two generators are explored against fresh generators; every short history and random long ones of the real generators are compared word by word." + BOUND),
 "C26": ("Bytes64, MCStream", "The text form is specified character by character; the loops around the streaming compressor are explored for every amount of output per call; the real functions run on sizes around their 1 MB buffer, every cut and random damage of small streams, another implementation's streams, and histories of files with failing reads and writes." + BOUND),
 "C27": ("Cursor", "The cached step is explored as a cursor shared, copied and dropped by up to three trajectories; histories of queries, clones and drops of real trajectories (random waypoints, limits and steps) are compared bit by bit with what the same lineage and freshly built trajectories answered." + BOUND),
 "C28": ("Atomics", "The wrapper, access by access, is explored together with an observer that keeps the set of worlds explaining what it saw; the real wrapper runs every order of accesses of small two- and three-thread programs (over an instrumented std::atomic), all short one-thread histories over several types, and real threads under the thread sanitizer, each history judged by the same observer." + BOUND),
 "C29": ("Helpers", "The definitions are checked against each other for all small arguments and the counting comparison is explored; thousands of real calls over container kinds, integer types up to their whole range, bit positions and future histories are judged one by one." + BOUND),
 "C30": ("Circle", "All pairs of angles on circles of up to 18 units are walked on the specification; the real functions are judged on 1024 units per turn (every special pair, random ones up to thousands of turns away, last-bit neighbours of the wrap), compared in whole units modulo a turn; containment is asked off the borders except for the exact ends." + BOUND),
 "C31": ("Vectors", "The library's procedures (running average, one axis after another, projecting in turn) are explored step by step in exact fractions against the definitions; the real functions run on whole numbers, where every result is a fraction with a known denominator and is compared exactly after rounding. Rounding error on general reals is not judged." + BOUND),
 "C32": ("MCPairTable, Vectors", "Every schedule of the rows over up to three workers is explored on the design; the real function runs for all small pairs of sizes, random ones up to 24 items, both backends, nested and under a thread limit, and every cell is compared." + BOUND),
 "C33": ("Rigid", "All 24 axis-aligned orientations with small translations are reached on the specification and the laws tying the definitions together checked at each; the real functions run on poses with whole-number quaternions and translations (dense in all orientations), where results are fractions with known denominators, compared after rounding. Weights of rotation averages may act directly or squared (the cited method's form)." + BOUND),
 "C34": ("Color", "Histories of setters on a small channel scale are explored on the specification; the real class runs on all bytes and on random setter histories with values inside, at and outside the range, channels recorded in exact units of 1/16320 and compared with the specification step by step; the scale and the palette are compared at all listed positions." + BOUND),
 "C35": ("Printing", "On the specification, texts with delimiters determine the value, level by level; the real templates print values of 62 nested types (all supported collections and Eigen types) for all separators and delimiter choices, described in iteration order, and the text is compared with the specification character by character. Numbers are eighths, so their decimal texts are exact; poses have the identity orientation." + BOUND),
 "C36": ("Sampling, Rigid", "On the specification, propose-and-accept samplers are explored on a lattice (inside the bounds, acceptance at most one, product of proposal and acceptance proportional to the density), and uniform rotations are shown to have the moments of the 24 axis-aligned ones, unchanged by further turns. The real generators are judged over 20000 or 40000 draws per case: shares at up to 41 cuts and between them, moments up to third order, angle distribution, all within seven standard deviations of the specification, whose tables are exact to 10^-8. Truncated distributions holding at least 0.2% of the mass are drawn from." + BOUND),
 "C37": ("PhasePlane", "On the specification, the greatest profile below a limit curve with bounded change is shown feasible, fastest, saturated everywhere and reached by the sweep from any order of relaxation (all limit curves of 6 or 7 positions with values to 5 or 6). Trajectories of the real code for 268 (quick) or 2770 (thorough) paths in one to three dimensions, at three scales and three step sizes, are sampled every 0.02 s and followed by the specification sample by sample: velocity within 0.1 %, change of velocity within 10 % of the acceleration limit (the integrator's own error is about 5 %), position the integral of velocity, a nondeterministic place on the path with progress and distance, exact shortest duration of straight pieces, at most 8 samples around each corner in which no limit is in use. Sampling can miss excesses shorter than a fraction of 0.02 s. Three inputs on which the algorithm itself fails are listed as known findings." + BOUND),
 "C38": ("Messages, Rigid", "Chains of up to 5 (7) conversions of every kind of value, written field by field, are explored on the specification; all chains run through the real code for both ROS versions, every form met compared exactly (rotations as matrices). The message headers ROS generates are not installed: stand-ins with the same fields are used." + BOUND),
 "C39": ("RobotModel", "All histories of three operations on two models are explored and run on a model with direction-dependent distances, plus random longer ones over up to seven joints and two configuration types." + BOUND),
})
