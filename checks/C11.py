from checks.rrt_common import *
def body(c):
    exe = c.build("rrt")
    MC = "SPECIFICATION MSpec\nCONSTANTS Trees = {%s} MaxIter = %d Props = {%s} Samples = {9} Emitting = %s\nCONSTANT Edits = {%s}\n%s"
    inv = "INVARIANT TreeAlwaysLinked OnlyConnectedPaths CountsAddUp SingleStopsAtFirst\nPROPERTY OnlyGrows\n"
    c.model_check("MCRRTPlan", MC % ("1,2,3", c.pick(2, 3), "0,1,2,4,5" if not c.thorough else "0,1,3,4,5,6", "FALSE", "0", inv), "all answers of the planner's functions")
    c.model_check("MCRRTPlan", MC % ("1" if not c.thorough else "1,2", 1, "0,1,2" if not c.thorough else "0,1,2,4", "FALSE", "0,1,2,3", inv), "callbacks that change the tree")
    beh = c.behaviours("MCRRTPlan", MC % ("2,3" if not c.thorough else "1,2,3", 1, "0,1,2,4,5,6", "TRUE", "0", "INVARIANT Emit\n"), "all short planner runs")
    r = c.rng; L = []
    for k, h in enumerate(beh):
        T = TREES[h["tree"]]
        # goal answers are given by value: number the values so each test can be answered apart
        vals, goals, v = [], [], 10
        P = None; near = None
        for x in h["it"]:
            if len(x) == 1 and not isinstance(x[0], list): near = x[0]
            else: P = x
        T2 = [(20 + i, p) for i, (_, p) in enumerate(T)]
        P2 = [] if not P else [(30 + i, p[1]) for i, p in enumerate(P)]
        order = [20 + i for i in range(len(T))] + [30 + i for i in range(len(P2))]
        for i, g in enumerate(h["goal"]):
            if g: goals.append(order[i])
        its = ""
        if near is None: its = "0"
        else: its = "1 7 %d %s" % (-1 if near == -1 else (-2 if near == len(T) else near), prop(P2))
        L.append("s%d rrt %d %d %d 1000 %s %s %s" % (k, h["single"], h["hasA"], h["hasG"], tree(T2), lst(goals), its + " 0"))
    for k in range(c.pick(3000, 40000)):
        T = rand_tree(r, r.choice([0, 1, 1, 2, 4, 8] if r.random() < 0.1 else [1, 1, 2, 4, 8]))
        goals = r.sample(range(1, 21), r.choice([0, 1, 2, 5, 10]))
        if r.random() < 0.6: goals = [g for g in goals if g > 9]
        I = []
        for _ in range(r.choice([0, 1, 3, 6, 12])):
            z = r.random()
            I.append("%d %d %s" % (r.randint(1, 50), -1 if z < 0.01 else -2 if z < 0.02 else r.randint(0, 40), prop(rand_prop(r))))
        L.append("r%d rrt %d %d %d %d %s %s %d %s" % (k, r.randint(0, 1), r.randint(0, 1), r.randint(0, 1), r.choice([1000, 1000, 5, 12, 1]), tree(T), lst(goals), len(I), " ".join(I) + " " + edits(r)))
    lines = c.run_driver(exe, L, "rrt")
    c.validate(lines, "T_RRTPlan", "SPECIFICATION TSpec\nINVARIANT TreeAlwaysLinked OnlyConnectedPaths\n", "single-tree planning", cases=L)
    H = helper_cases(c, ["goals", "near", "prop", "time"])
    c.validate(c.run_driver(exe, H, "rrth"), "T_PlannerHelpers", HELP, "ready-made planner functions", cases=H)
