import itertools
def body(c):
    exe = c.build("path", lib=("math",))
    c.model_check("MCPathShort", "SPECIFICATION Spec\nCONSTANTS N = %d Pos = {0,1,2} MaxIter = %d MaxBt = 2\nINVARIANTS StaysGood NoMoreStates\nCHECK_DEADLOCK FALSE\n" % (4, 2), "shortening of short paths, all valid relations", heap="6g")
    if c.thorough: c.model_check("MCPathShort", "SPECIFICATION Spec\nCONSTANTS N = 5 Pos = {0,1,2} MaxIter = 3 MaxBt = 2\nINVARIANTS StaysGood NoMoreStates\nCHECK_DEADLOCK FALSE\n", "longer", heap="12g")
    r = c.rng; L = []
    pt = lambda p: "%d %d" % p
    path = lambda p: "%d %s" % (len(p), " ".join(map(pt, p)))
    # every relation of forward connections of a path of four (five, sampled) states
    n = 4; P = [(i * 1000, (i * i % 3) * 1000) for i in range(5)]
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(pairs)):
        V = [pairs[i] for i in range(len(pairs)) if mask >> i & 1]
        ops = ["world 1 %d %s" % (len(V), " ".join(path([P[a], P[b]]) for a, b in V))]
        for s in range(n):
            for e in range(n):
                for bt in range(3): ops.append("att %s %d 0 0 %d %d" % (path(P[:n]), bt, s, e))
        ops.append("free %s" % path(P[:n]))
        L.append("a%d %s" % (mask, " ".join(ops)))
    pairs = list(itertools.combinations(range(5), 2))
    for mask in (range(1 << len(pairs)) if c.thorough else r.sample(range(1 << len(pairs)), 250)):
        V = [pairs[i] for i in range(len(pairs)) if mask >> i & 1]
        ops = ["world 1 %d %s" % (len(V), " ".join(path([P[a], P[b]]) for a, b in V))]
        for bt in range(4):
            for s, e in pairs: ops.append("att %s %d 0 0 %d %d" % (path(P), bt, s, e))
        L.append("b%d %s" % (mask, " ".join(ops)))
    def rpath(lo=0, hi=14, step=1000):
        n = r.randint(lo, hi); p = []
        for _ in range(n):
            if p and r.random() < 0.1: p.append(r.choice(p))
            elif p and r.random() < 0.4: p.append((p[-1][0] + step * r.randint(-2, 2), p[-1][1] + step * r.randint(-2, 2)))
            else: p.append((step * r.randint(0, 8), step * r.randint(0, 8)))
        return p
    for k in range(c.pick(2500, 40000)):
        ops = ["world 0 %d %d" % (r.choice([0, 20, 50, 50, 80, 100]), r.randint(1, 10 ** 9))]
        for _ in range(r.randint(1, 4)):
            z = r.random(); p = rpath(); bt = r.choice([0, 0, 1, 2, 3]); rs = r.choice([0, 0, 0, 700, 1000, 2500, 6000]); mg = r.randint(0, 1)
            if z < 0.5: ops.append("smooth %s %d %d %d %d %d %d %s" % (path(p), bt, rs, mg, r.choice([0, 1, 2, 5, 20]), r.choice([0, 1, 2, 10]), r.choice([4, 8, 16, 16, 12]), (lambda u: "%d %s" % (len(u), " ".join(map(str, u))))([r.choice([0, 1023, r.randrange(1024)]) for _ in range(r.choice([7, 13, 40]))])))
            elif z < 0.7:
                p = rpath(2)
                s, e = r.randrange(len(p)), r.randrange(len(p))
                ops.append("att %s %d %d %d %d %d" % (path(p), bt, rs, mg, s, e))
            elif z < 0.9: ops.append("resample %s %d" % (path(rpath(0, 8)), r.choice([0, -1, 1000, 500, 333, 1500, 2000, 10 ** 6, 999, 1001])))
            else: ops.append("free %s" % path(p))
        L.append("r%d %s" % (k, " ".join(ops)))
    # paths of very many states, and shortcuts tested in very many pieces
    for k in range(c.pick(24, 200)):
        rs = r.choice([1, 7, 10, 16]); x = [r.randint(-50, 50)]
        for _ in range(r.randint(1, 4)): x.append(x[-1] + r.choice([-1, 1]) * r.choice([0, 1, 300, 40000, 65535, 65536, 65537, 70000]))
        if max(x) - min(x) > 120000: x = x[:2]
        L.append("g%d long %s %d" % (k, path([(rs * a, 0) for a in x]), rs))
    for k in range(c.pick(60, 600)):
        a = (r.randint(-999, 999), r.randint(-999, 999)); b = (a[0] + r.randint(300, 3000), a[1] + r.randint(0, 3000))
        ops = ["world 0 %d %d" % (r.choice([100, 99, 98]), r.randint(1, 10 ** 9)) if k % 2 else "world 2 " + path([a, b])]
        ops.append("att %s 0 %d 1 0 2" % (path([a, (r.randint(-999, 999), 0), b]), r.choice([10, 15, 25, 40])))
        L.append("m%d %s" % (k, " ".join(ops)))
    lines = c.run_driver(exe, L, "path")
    c.validate(lines, "T_PathShort", "SPECIFICATION TSpec\n", "shortening and resampling", cases=L)
