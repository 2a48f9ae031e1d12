import itertools
def body(c):
    exe = c.build("warp", lib=("math",))
    mc = lambda n, m, v, h="6g": c.model_check("MCWarp", "SPECIFICATION Spec\nCONSTANTS N = %d M = %d Vals = {%s}\nINVARIANTS CellsRight RowsRight NoShorter\nCHECK_DEADLOCK FALSE\n" % (n, m, v), "alignments of %d by %d items" % (n, m), heap=h)
    mc(2, 3, "0,1,2"); mc(3, 3, "0,1")
    if c.thorough: mc(3, 2, "0,1,2,5"); mc(4, 3, "0,1", "12g")
    r = c.rng; L = []
    def tab(op, T, n, m, tail): return "%s %d %d %s %s" % (op, n, m, " ".join(str(x) for q in T for x in q), tail)
    # all small tables
    for n, m in itertools.product((1, 2, 3), repeat=2):
        vals = (0, 1, 2) if n * m <= 6 else (0, 1)
        allv = list(itertools.product(vals, repeat=n * m))
        for i in range(0, len(allv), 8):
            ops = []
            for v in allv[i:i + 8]:
                T = [v[x * m:(x + 1) * m] for x in range(n)]
                ops += [tab("warp", T, n, m, "%d" % k) for k in (0, 1)] + [tab("haus", T, n, m, "%d %d %d %d 0" % (r.randint(0, 3), n, m, k)) for k in (1, r.choice([2, 3]))]
            L.append("a%d.%d.%d " % (n, m, i) + " ".join(ops))
    for k in range(c.pick(1500, 25000)):
        ops = []
        for _ in range(5):
            n, m = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 14]), r.choice([0, 1, 1, 2, 3, 4, 5, 8, 12])
            z = r.randint(0, 3)
            if z == 0: T = [[r.choice([0, 1, 1, 2, 9]) for _ in range(m)] for _ in range(n)]
            elif z == 1: T = [[r.randint(0, 10 ** 6) for _ in range(m)] for _ in range(n)]
            elif z == 2:
                x, y = [r.randint(0, 9) for _ in range(n)], [r.randint(0, 9) for _ in range(m)]; T = [[abs(p - q) for q in y] for p in x]
            else: T = [[4] * m for _ in range(n)]
            if r.random() < 0.5:
                mode = r.randint(0, 3)
                ops.append(tab("warp", T, n, m, "%d" % mode + (" %d %d" % (r.randint(0, 15), r.randint(0, 15)) if mode == 2 else "")))
            else:
                rows, cols = (n, m) if r.random() < 0.85 else (r.randint(0, 6), r.randint(0, 6))
                ops.append(tab("haus", T, n, m, "%d %d %d %d %d" % (r.randint(0, 3), rows, cols, r.choice([1, 1, 2, 3, 4, 8]), r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]))))
        L.append("r%d %s" % (k, " ".join(ops)))
    for k in range(c.pick(24, 300)):  # long sequences
        n, m = r.choice([(40, 40), (70, 20), (9, 90), (1, 150), (150, 1)]); T = [[r.randint(0, 10 ** 4) for _ in range(m)] for _ in range(n)]
        L.append("b%d %s %s" % (k, tab("warp", T, n, m, "%d" % r.choice([0, 1])), tab("haus", T, n, m, "%d %d %d %d 0" % (r.randint(0, 3), n, m, r.choice([1, 2, 8, 40])))))
    lines = c.run_driver(exe, L, "warp")
    c.validate(lines, "T_Warp", "SPECIFICATION TSpec\n", "warping costs and Hausdorff distances", cases=L)
