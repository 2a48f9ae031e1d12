def body(c):
    exe = c.build("kmeans", lib=("math",))
    mc = lambda n, k, p, w, h: c.model_check("MCKMeans", "SPECIFICATION Spec\nCONSTANTS N = %d K = %d Pos = {%s} Wts = {%s}\nINVARIANT EndsFixed\nPROPERTY Stops Progress\nCHECK_DEADLOCK FALSE\n" % (n, k, p, w), "labelling in turn with averaging, %d items, %d clusters" % (n, k), heap=h)
    mc(4, 2, "0,1,3,4", "1,2", "4g"); mc(5, 3, "0,1,4", "1", "4g")
    if c.thorough: mc(6, 2, "0,1,3,4,7", "1", "12g"); mc(5, 3, "0,1,3,5", "1,3", "12g")
    r = c.rng; L = []
    pts = lambda p: "%d %s" % (len(p), " ".join("%d %d" % q for q in p))
    ints = lambda x: "%d %s" % (len(x), " ".join(map(str, x)))
    def items(n):
        z = r.randint(0, 4)
        if z == 0: return [(r.randint(0, 3), 0) for _ in range(n)]
        if z == 1: return [(r.randint(-20, 20), r.randint(-20, 20)) for _ in range(n)]
        if z == 2: return [(r.choice([0, 50, 100]) + r.randint(-3, 3), r.choice([0, 40])) for _ in range(n)]
        if z == 3: return [(5, 5)] * n
        return [(r.randint(0, 5), r.randint(0, 5)) for _ in range(n)]
    for k in range(c.pick(2000, 30000)):
        ops = []
        for _ in range(3):
            big = r.random() < 0.08
            n = r.randint(73, 130) if big else r.choice([0, 1, 2, 3, 4, 5, 6, 9, 14, 25])
            it = items(n)
            w = [r.choice([1, 1, 2, 3, 7]) for _ in range(n)]
            kk = r.choice([2, 2, 3]) if big else r.choice([2, 2, 3, 4, n, n, n + 1, n + 7, 1, 0, -1, -5, 2])
            ops.append("kmeans %s %s %d %d %d %d %d %d %d" % (pts(it), ints(w), kk, r.random() < 0.2, r.random() < 0.6, r.random() < 0.3, r.choice([0, 1, 42, r.randint(0, 10 ** 9)]), r.choice([1, 2, 3, 4, 8]), r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 7, 8])))
        n = r.choice([0, 1, 3, 8, 20]); it = items(n)
        ops.append("round %s %s %d" % (pts(it), pts(items(r.choice([0, 1, 2, 3, 5]))), r.choice([1, 2, 4])))
        kk = r.randint(1, 5); m = n if r.random() < 0.8 else r.randint(0, 6)
        ops.append("centers %s %s %d %s %d" % (pts(it), ints([r.choice([1, 2, 3, 7]) for _ in range(n)]), kk, ints([r.randrange(kk) for _ in range(m)]), r.choice([1, 2, 4])))
        a = [r.randint(0, 2) for _ in range(r.choice([0, 1, 1, 2, 5]))]; b = list(a)
        if r.random() < 0.6 and b: b[r.choice([0, -1, r.randrange(len(b))])] += 1
        if r.random() < 0.3: b.append(0)
        ops.append("conv %s %s" % (ints(a), ints(b)))
        L.append("k%d %s" % (k, " ".join(ops)))
    for k in range(c.pick(16, 200)):  # many items, many clusters
        n = r.choice([257, 300, 700]); it = items(n); w = [r.choice([1, 1, 2, 3, 7]) for _ in range(n)]
        kk = r.choice([2, 3, 12]); two = [(r.choice([0, 900]) + r.randint(-3, 3), r.randint(0, 9)) for _ in range(n)]
        L.append("b%d kmeans %s %s %d %d %d %d %d %d 0 round %s %s %d centers %s %s %d %s %d" % (k, pts(two), ints(w), 2, r.random() < 0.2, r.random() < 0.6, r.random() < 0.3, r.randint(0, 10 ** 9), r.choice([1, 2, 4, 8]),
            pts(it), pts(items(kk) or [(0, 0)]), r.choice([1, 4, 40]), pts(it), ints(w), kk, ints([r.randrange(kk) for _ in range(n)]), r.choice([1, 4, 40])))
    lines = c.run_driver(exe, L, "kmeans")
    c.validate(lines, "T_KMeans", "SPECIFICATION TSpec\n", "clusterings", cases=L)
