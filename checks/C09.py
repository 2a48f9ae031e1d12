from checks.prm_common import *
FULL = [[[1] * 3] * 3, [[1 if a <= b else 0 for b in range(3)] for a in range(3)],
        [[1 if a >= b else 0 for b in range(3)] for a in range(3)], [[1 if (a + b) % 2 == 0 else 0 for b in range(3)] for a in range(3)]]
def body(c):
    exe = c.build("prm")
    inv = "INVARIANT EdgesAlwaysRight BothEndsAgree TestIsEnumeration\n"
    c.model_check("MCRoadmap", MC % (3, c.pick(3, 4), "1,2", "FALSE", "some", inv), "additions and re-evaluations")
    if c.thorough:
        c.model_check("MCRoadmap", MC % (3, 3, "1", "FALSE", "all", inv), "all validity tables")
    beh = c.behaviours("MCRoadmap", MC % (3, c.pick(2, 3), "1,2", "TRUE", "some", "INVARIANT Emit\n"), "all histories")
    r = c.rng
    D = [[0 if a == b else (b - a if a < b else 2 * (a - b)) for b in range(3)] for a in range(3)]
    L = []
    for k, h in enumerate(beh):
        ops = []
        for o in h:
            if o[0] == "A": ops.append("A %d %d 0 %d %d %d %d -1" % (1 + k % 3, 1, int(o[4]), o[3], o[1], int(o[2])))
            else: ops.append("V %s" % flat(o[1])); ops.append("U %d 1 0 0 1" % (1 + k % 3))
        L.append("s%d %s %s" % (k, head(3, D, FULL[k % 4], [1] * 3), " ".join(ops)))
    for k in range(c.pick(1200, 12000)):
        m = r.choice([3, 6, 10, 16]); sym = r.random() < 0.3
        D, V, SV = tables(r, m, sym)
        ops = []
        if r.random() < 0.4: ops.append(op_B(r, m, sym))
        for _ in range(r.randint(1, 6)):
            z = r.random()
            if z < 0.35: ops.append(op_A(r, m, sym))
            elif z < 0.45: ops.append("N %s %d %d %s" % (common(r, sym), r.randrange(m), r.randint(0, 1), lst([r.choice([0, 0, 1, 1, 2, 3, -1, 9, 40]) if r.random() < 0.4 else 0 for _ in range(r.choice([0, 1, 1]))])))
            elif z < 0.65: ops.append("g %s %d %d %s" % (common(r, sym), r.choice([3, 5, 8, 100]), r.choice([0, 2, 5, 12]), lst([r.randrange(m) for _ in range(12)])))
            elif z < 0.75: ops.append(op_B(r, m, sym))
            else:
                ops.append("V %s" % flat(valid(r, m, sym, r.choice([1.0, 0.7, 0.4])))); ops.append("U %s" % common(r, sym))
        L.append("r%d %s %s" % (k, head(m, D, V, SV), " ".join(ops)))
    for k in range(c.pick(25, 250)):
        m = 40; sym = r.random() < 0.3
        D, V, SV = tables(r, m, sym)
        ops = ["B %s 30 20 %d %s" % (common(r, sym, 1, r.choice([3, 5])), 1, lst([r.randrange(m) for _ in range(620)])),
               "V %s" % flat(valid(r, m, sym, 0.6)), "U %s" % common(r, sym)]
        L.append("b%d %s %s" % (k, head(m, D, V, SV), " ".join(ops)))
    lines = c.run_driver(exe, L, "prm", env={"OMP_NUM_THREADS": "4"})
    c.validate(lines, "T_Roadmap", TRACE, "roadmap construction", cases=L)
    c.assumptions += ["distances are non-negative integers; the symmetric flag is only passed when both tables are symmetric"]
