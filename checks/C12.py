from checks.rrt_common import *
def body(c):
    exe = c.build("rrt")
    MC = "SPECIFICATION MSpec\nCONSTANTS Trees = {%s} MaxIter = %d Props = {%s} Emitting = %s\nCONSTANT Edits = {%s}\n%s"
    inv = "INVARIANT TreesAlwaysLinked BridgesAccepted BranchesAlwaysOK CountsAddUp SingleStopsAtFirst\nPROPERTY OnlyActiveTreeGrows\n"
    c.model_check("MCBiRRTPlan", MC % ("1,2" if not c.thorough else "1,2,3", 1, "0,1,2,3,4", "FALSE", "0", inv), "all answers of the planner's functions, one step")
    c.model_check("MCBiRRTPlan", MC % ("1", 2, "0,1,2" if not c.thorough else "0,1,2,3,4", "FALSE", "0", inv), "all answers of the planner's functions, two steps")
    c.model_check("MCBiRRTPlan", MC % ("1" if not c.thorough else "1,2", 1, "0,1,2,4", "FALSE", "0,1,2,3", inv), "callbacks that change the trees")
    beh = c.behaviours("MCBiRRTPlan", MC % ("1" if not c.thorough else "1,2", 1, "0,1,2,4", "TRUE", "0", "INVARIANT Emit\n"), "all short planner runs")
    r = c.rng; L = []
    PR = {0: [], 1: [-1], 2: [-1, 0], 3: [-1, -1], 4: [0]}
    for k, h in enumerate(beh):
        A = [(20 + i, p) for i, (_, p) in enumerate(TREES[h["ta"]])]; B = [(60 + i, p) for i, (_, p) in enumerate(TREES[h["tb"]])]
        its = [x[0] for x in h["it"]]
        link = []; q = list(h["conn"])
        for i in range(len(A)):
            for j in range(len(B)):
                if q and q.pop(0): link.append((20 + i, 60 + j))
        tok = "0"
        if its:
            st = its.pop(0); ts = its.pop(0) if st else 0; badts = st and ts == len(B)
            near = its.pop(0) if its else 0; pr = its.pop(0) if its else 0; sw = its.pop(0) if its else 0
            P = [(30 + i, x) for i, x in enumerate(PR[pr])]
            for i in range(len(P)):
                if q and q.pop(0): link.append((30 + i, 60 + ts))
            tok = "1 7 %d %d %d %d %s" % (-1 if near == -1 else -2 if near == len(A) else near, st, -2 if badts else ts, sw, prop(P))
        L.append("s%d bi %d %d %d 1000 %s %s %d %s %s" % (k, h["single"], h["hasA"], h["hasB"], tree(A), tree(B), len(link), " ".join("%d %d" % x for x in link), tok + " 0"))
    for k in range(c.pick(2500, 40000)):
        sizes = [1, 1, 2, 3, 5] if r.random() < 0.95 else [0, 1]
        A, B = rand_tree(r, r.choice(sizes)), rand_tree(r, r.choice(sizes), 21)
        pc = r.choice([0.0, 0.02, 0.1, 0.3])
        link = [(a, b) for a in range(1, 50) for b in range(1, 50) if r.random() < pc]
        I = []
        for _ in range(r.choice([0, 1, 3, 6, 12])):
            z = r.random(); y = r.random()
            I.append("%d %d %d %d %d %s" % (r.randint(1, 50), -1 if z < 0.01 else -2 if z < 0.02 else r.randint(0, 40), r.randint(0, 1),
                                            -2 if y < 0.01 else r.randint(0, 40), 1 if r.random() < 0.4 else 0, prop(rand_prop(r, r.choice([1, 21])))))
        L.append("r%d bi %d %d %d %d %s %s %d %s %d %s" % (k, 1 if r.random() < 0.35 else 0, r.randint(0, 1), r.randint(0, 1), r.choice([1000, 1000, 8, 16]),
                                                          tree(A), tree(B), len(link), " ".join("%d %d" % x for x in link), len(I), " ".join(I) + " " + edits(r)))
    lines = c.run_driver(exe, L, "bi")
    c.validate(lines, "T_BiRRTPlan", "SPECIFICATION TSpec\nINVARIANT TreesAlwaysLinked BranchesAlwaysOK\n", "two-tree planning", cases=L)
    H = helper_cases(c, ["stype", "sact", "tsamp", "near", "prop", "time"])
    c.validate(c.run_driver(exe, H, "bih"), "T_PlannerHelpers", HELP, "ready-made planner functions", cases=H)
