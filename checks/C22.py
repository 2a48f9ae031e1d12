import itertools
def body(c):
    exe = c.build("linkage", lib=("math",))
    mc = lambda n, v, w, h: c.model_check("MCLinkage", "SPECIFICATION Spec\nCONSTANTS N = %d Vals = {%s}\nINVARIANTS AlwaysPartition EndsRight UniqueWithoutTies\nPROPERTY Rising\nCHECK_DEADLOCK FALSE\n" % (n, v), w, heap=h)
    mc(4, "1,2,3", "merging, all tables of four items with three distances", "6g")
    if c.thorough: mc(4, "1,2,3,4,5", "five distances", "12g"); mc(5, "1,2", "five items, two distances", "12g")
    r = c.rng; L = []; INF = 10 ** 9
    def sym(n, f):
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i): D[i][j] = D[j][i] = f(i, j)
        return D
    tab = lambda D, cols: "%d %d %s" % (len(D), cols, " ".join(str(x) for q in D for x in q))
    def ev(D, mx, single, th=1, ctx=0, mode=0, n=None):
        return "cluster %s %d %d %d %d %d %d" % (tab(D, len(D)), len(D) if n is None else n, mode, mx, single, th, ctx)
    # every table of four items with three values, every limit, both strategies, serial and parallel
    for vals in itertools.product((1, 2, 3), repeat=6):
        it = iter(vals); D = sym(4, lambda i, j: next(it))
        L.append("a%s " % "".join(map(str, vals)) + " ".join(ev(D, mx, s, th, 0, m) for mx in (0, 1, 2, 3) for s in (0, 1) for th, m in ((1, 0), (r.choice([2, 3, 4]), r.randint(0, 3)))))
    for k in range(c.pick(1200, 20000)):
        n = r.choice([1, 2, 3, 5, 5, 6, 6, 8, 12, 20, r.randint(1, 30)]); kind = r.randint(0, 4)
        if kind == 0: D = sym(n, lambda i, j: r.randint(0, 5))
        elif kind == 1:
            u = r.sample(range(1, 10 * n * n + 10), n * n); D = sym(n, lambda i, j: u[i * n + j])
        elif kind == 2:
            p = [(r.randint(0, 12), r.randint(0, 12)) for _ in range(n)]; D = sym(n, lambda i, j: abs(p[i][0] - p[j][0]) + abs(p[i][1] - p[j][1]))
        elif kind == 3:
            x = list(itertools.accumulate(r.choice([0, 1, 1, 2, 3, 7, 7, 30]) for _ in range(n))); r.shuffle(x); D = sym(n, lambda i, j: abs(x[i] - x[j]))
        else: D = sym(n, lambda i, j: r.choice([0, 1, 2, 9, INF]))
        vs = sorted({x for q in D for x in q}) + [INF]
        ops = []
        for _ in range(3):
            mx = r.choice([r.choice(vs), r.choice(vs) - 1, r.choice(vs[:max(1, len(vs) // 2)])])
            for th in (1, r.choice([2, 3, 4, 8])): ops.append(ev(D, min(mx, INF), r.randint(0, 1), th, r.choice([0, 0, 0, 1, 2, 3, 4, 5, 7, 8]), r.randint(0, 3)))
        L.append("r%d %s" % (k, " ".join(ops)))
    for k in range(c.pick(6, 60)):  # many items
        n = r.choice([34, 40, 48]); u = r.sample(range(1, 20 * n * n), n * n)
        x = list(itertools.accumulate(r.choice([1, 2, 3, 7, 9, 40]) for _ in range(n))); r.shuffle(x)
        D = sym(n, lambda i, j: u[i * n + j]) if k % 3 == 0 else sym(n, lambda i, j: abs(x[i] - x[j]))
        mx = sorted(q for row in D for q in row)[r.randint(n, n * n // 2)] if k % 3 == 0 else r.choice([3, 7, 20])
        L.append("b%d %s" % (k, ev(D, mx, k % 2, r.choice([1, 4, 8]), 0, r.randint(0, 3))))
    for k in range(200): # refused requests, tables of distances
        n = r.randint(0, 4); rows, cols = r.randint(0, 4), r.randint(0, 4)
        D = [[1 + abs(i - j) for j in range(cols)] for i in range(rows)]
        ops = ["cluster %s %d %d 2 %d %d 0" % (tab(D, cols), rows if m == 0 else n, m, r.randint(0, 1), r.choice([1, 3])) for m in (0, 1)]
        ops.append("cluster 0 0 0 %d 2 0 1 0" % r.randint(2, 3))
        rows, cols = r.randint(0, 9), r.randint(0, 9)
        D = [[r.randint(0, 99) for j in range(cols)] for i in range(rows)]
        ops.append("table %s 0 %d %d" % (tab(D, cols), r.choice([1, 2, 4, 7]), r.randint(0, 8)))
        ops.append("table %s 1 %d %d" % ((lambda S: tab(S, len(S)))(sym(rows, lambda i, j: r.randint(0, 99))), r.choice([1, 2, 4, 7]), r.randint(0, 8)))
        L.append("t%d %s" % (k, " ".join(ops)))
    lines = c.run_driver(exe, L, "linkage")
    c.validate(lines, "T_Linkage", "SPECIFICATION TSpec\n", "clusterings", cases=L)
