from checks.grid_common import perm, j
def body(c):
    exe = c.build("grid", lib=("serialization",))
    MC = "SPECIFICATION Spec\nCONSTANTS MaxN = %d Sizes = {%s} R = %d\nINVARIANT PoseInverts CellIsBox CentreInCell SomeCell\n"
    c.model_check("MCGrid", MC % (2, c.pick("1,3", "1,2,3,4"), c.pick(4, 6)), "geometry laws on small grids")
    r = c.rng; L = []
    # every small request: sizes by counts and by lengths, bad ones included
    vals = ["1", "2", "3", "0", "-1", "nan", "inf"]
    reqs = ["size %s %s %s %s %s %s %d 0 %s" % (a, b, d, x, y, z, cnt, u)
            for cnt in (0, 1) for u in ("1", "0.25") for a in vals for b in ("1", "2", "0") for d in ("2", "-1") for x in vals for y in ("1", "5") for z in ("3", "0")]
    if not c.thorough: reqs = [q for k, q in enumerate(reqs) if k % 3 == c.seed % 3]
    for k in range(0, len(reqs), 20): L.append("q%d geo default %s" % (k, " ".join(reqs[k:k + 20])))
    for k in range(c.pick(600, 8000)):
        ops = []
        for _ in range(12):
            uni = r.randint(0, 1); cnt = r.randint(0, 1); u = r.choice(["1", "0.5", "0.0625", "16", "1000", "0.001", "0.1"])
            # lengths that are not multiples of the cell with units that are no power of two keep the count unambiguous
            cs = [r.randint(1, 40) for _ in range(3)]
            if uni: cs = [cs[0]] * 3
            if cnt: ask = [r.randint(1, 500) for _ in range(3)]
            else:
                ask = []
                for x in cs:
                    a = r.randint(1, 1100)
                    if u in ("0.001", "0.1"):
                        while a % x == 0 and x != 1: a += 1
                        if x == 1: a = 1
                    ask.append(a)
            if r.random() < 0.06: (cs if r.random() < 0.5 else ask)[r.randrange(3)] = r.choice([0, -3])
            if uni: cs = [cs[0]] * 3
            ops.append("size %s %s %d %d %s" % (j(cs), j(ask), cnt, uni, u))
        L.append("z%d geo %s" % (k, " ".join(ops)))
    for k in range(c.pick(700, 10000)):
        n = [r.choice([1, 1, 2, 3, 4, 5, 7]) for _ in range(3)]
        while n[0] * n[1] * n[2] > 120: n[r.randrange(3)] = 1
        p2 = r.random() < 0.6
        cs = [r.choice([1, 2, 4, 8, 16, 32]) if p2 else r.choice([1, 2, 3, 5, 6, 7, 10, 12, 16, 24, 100]) for _ in range(3)]
        if r.random() < 0.3: cs = [cs[0]] * 3
        pose = perm(r, r.random() < 0.3); t = [r.choice([0, r.randint(-50, 50), r.randint(-5000, 5000)]) for _ in range(3)]
        head = "%s %s %s %s %d" % (j(n), j(cs), pose, j(t), r.randint(0, 1))
        ops = ["cells " + head, "pose0 %s %s" % (j(n), j([2 * x for x in cs]))]
        P = list(map(int, pose.split()))
        for _ in range(25):
            p = [r.choice([0, x, -1, r.randint(-2, x + 1), r.randrange(x), r.randrange(x)]) * cs[q] + r.choice([0, 0, -1, 1, r.randrange(cs[q])]) for q, x in enumerate(n)]
            w = [P[2 * q + 1] * p[P[2 * q]] + t[q] for q in range(3)]
            ops.append("loc %s %s" % (head, j(w)))
        ops.append("far %s %d %s" % (head, r.randrange(3), r.choice(["1e9", "-1e9", "1e12", "-1e15", "4.5e14", "1e7", "-1e7"])))
        for _ in range(3):
            a = [r.randint(-3, 3) for _ in range(3)]; b = list(a)
            if r.random() < 0.7: b[r.randrange(3)] = r.randint(-3, 3)
            if r.random() < 0.3: r.shuffle(b)
            ops.append("eq %s %s" % (j(a), j(b)))
        L.append("g%d geo %s" % (k, " ".join(ops)))
    for k in range(c.pick(60, 600)):
        ops = []
        for _ in range(12):
            w = r.choice([r.randint(0, 186), r.randint(55, 70), r.randint(60, 64), r.choice([64, 65, 96, 128])]); e = [0, 0, 0]
            for _ in range(w): 
                q = r.choice([i for i in range(3) if e[i] < 62]); e[q] += 1
            if r.random() < 0.4: e = r.choice([[21, 21, 21], [32, 32, 0], [31, 31, 2], [62, 1, 0], [0, 62, 2], [62, 62, 4], [30, 30, 1], [61, 0, 0], [32, 16, 16], [20, 20, 20], [62, 62, 62]])
            ops.append("vast %s %d %d %s" % (j(e), r.randint(0, 1), r.choice([0, 0, -3, 5, -20]), r.choice(["0.3", "0.75", "0.9375", "0.1"])))
        L.append("v%d geo %s" % (k, " ".join(ops)))
    lines = c.run_driver(exe, L, "geo")
    c.validate(lines, "T_Grid", "SPECIFICATION TSpec\n", "grid sizes and conversions", cases=L)
    c.assumptions += ["with a cell size that is no power of two, a location exactly on a cell border may round to the cell on either side"]
