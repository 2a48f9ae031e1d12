from checks.prm_common import *
def body(c):
    exe = c.build("prm")
    c.model_check("MCRoadmap", MC % (3, c.pick(3, 4), "1,2", "FALSE", "some", "INVARIANT EdgesAlwaysRight OptimumIsOptimum\n"), "optimum over simple paths")
    beh = c.behaviours("MCRoadmap", MC % (3, 2, "1,2", "TRUE", "some", "INVARIANT Emit\n"), "all short roadmap histories")
    import checks.C09 as p
    r = c.rng
    D3 = [[0 if a == b else (b - a if a < b else 2 * (a - b)) for b in range(3)] for a in range(3)]
    L = []
    def op_Q(m, sym, dup=None):
        S = [r.randrange(m) for _ in range(r.choice([1, 1, 2, 3]))]; G = [r.randrange(m) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.02: S = []
        elif r.random() < 0.02: G = []
        return "Q %s %d %d %d %d %s %s" % (common(r, sym, dup), r.randint(0, 1), 1 if r.random() < 0.3 else 0, r.randint(0, 1), r.randint(0, 1), lst(S), lst(G))
    for k, h in enumerate(beh):
        ops = []
        for o in h:
            if o[0] == "A": ops.append("A 1 1 0 %d %d %d %d -1" % (int(o[4]), o[3], o[1], int(o[2])))
            else: ops.append("V %s" % flat(o[1])); ops.append("U 1 1 0 0 1")
        for z in range(2):
            ops.append("Q %d 1 0 %d %d %d 0 %d %d 1 %d 1 %d" % (1 + k % 2, k % 2, 1 + (k + z) % 3, z, k % 2, (k // 2) % 2, (k + z) % 3, (k // 3 + 2 * z + 1) % 3))
        L.append("s%d %s %s" % (k, head(3, D3, p.FULL[k % 4], [1] * 3), " ".join(ops)))
    for k in range(c.pick(1500, 15000)):
        m = r.choice([4, 6, 10, 14]); sym = r.random() < 0.3
        D, V, SV = tables(r, m, sym)
        ops = []
        if r.random() < 0.5: ops.append("B %s %d 30 0 %s" % (common(r, sym, 0, r.choice([1, 2, 3])), m // 2, lst([r.randrange(m) for _ in range(30 * m)])))
        else: ops += [op_A(r, m, sym, 0) for _ in range(r.randint(1, 6))]
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.3:
                ops.append("V %s" % flat(valid(r, m, sym, r.choice([1.0, 0.8, 0.5]))))
                if r.random() < 0.7: ops.append("U %s" % common(r, sym))
            ops.append(op_Q(m, sym, 0 if r.random() < 0.7 else None))
        L.append("r%d %s %s" % (k, head(m, D, V, SV), " ".join(ops)))
    lines = c.run_driver(exe, L, "prmq", env={"OMP_NUM_THREADS": "4"})
    c.validate(lines, "T_Roadmap", TRACE, "roadmap queries", cases=L)
    c.assumptions += ["optimality is judged when the heuristic (the distance function) does not overestimate and the choice of nearest states is not tied"]
