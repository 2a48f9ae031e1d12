import itertools, math
def body(c):
    exe = c.build("rigid", lib=("conversions",), plain=("math",))
    c.model_check("MCRigid", "SPECIFICATION Spec\nCONSTANTS Far = %d\nCONSTRAINT Near\nINVARIANTS SameRotation Orthogonal Trace SkewIsCross Carries Composes EveryOrientation\nCHECK_DEADLOCK FALSE\n" % c.pick(1, 2), "poses reached by quarter turns and unit moves", heap="8g")
    r = c.rng; ev = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    group = [q for q in itertools.product((-1, 0, 1), repeat=4) if sum(x * x for x in q) in (1, 2, 4)]
    def quat():
        if r.random() < .45: return list(r.choice(group))
        while True:
            q = [r.randint(-3, 3) for _ in range(4)]
            if any(q): return q
    def v(n=3, m=4): return [r.choice([0, r.randint(-m, m)]) for _ in range(n)]
    def cosang(a, b):
        d = sum(x * y for x, y in zip(a, b)); return 2 * d * d / (sum(x * x for x in a) * sum(x * x for x in b)) - 1
    for _ in range(c.pick(25, 300)):
        ev += ["skew " + li(v(3, 99)), "unskew " + li(v(9, 30)), "hat " + li(v(6, 99)), "slide %s %d" % (li(v()), r.randint(-9, 9)), "vecs " + li(v(r.randint(0, 8), 99))]
    for n in range(8): ev.append("vecs " + li(v(n, 99)))
    for q in group:
        if any(q[1:]): ev.append("expm %s 4" % li(q))
        ev.append("euler %s %s" % (li(q), li(v())))
    ang = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)] + [(sx * a, sy * b, h) for a, b, h in ((3, 4, 5), (4, 3, 5), (5, 12, 13), (24, 7, 25), (8, 15, 17)) for sx in (1, -1) for sy in (1, -1)]
    for q1, q2 in itertools.product(group, group):
        if r.random() < c.pick(.05, 1): ev.append("dist %s %s %s %s %d" % (li(q1), li(v()), li(q2), li(v()), r.randint(-1, 9)))
    for a in itertools.product(ang[:4], repeat=3): ev.append("rpy %s %s" % (" ".join(li(x) for x in a), li(v())))
    for _ in range(c.pick(250, 4000)):
        q1, q2 = quat(), quat()
        if r.random() < .1: q2 = [k * r.choice([1, -1, 2]) for k in q1[:1]] + q1[1:] if False else [-k for k in q1]
        if any(q1[1:]): ev.append("expm %s %d" % (li(q1), r.choice([4, 4, -4, 3, 5, 0, 8])))
        ev.append("adjoint %s %s %s" % (li(q1), li(v()), li(v(6, 5))))
        # the logarithm of a half turn is not unique
        if cosang(q1, q2) > -0.98: ev.append("twist %s %s %s %s" % (li(q1), li(v()), li(q2), li(v())))
        ev.append("dist %s %s %s %s %d" % (li(q1), li(v()), li(q2), li(v()), r.randint(-2, 10)))
        ev.append("slerp %s %s %s %s %d" % (li(q1), li(v()), li(q2), li(v()), r.randint(-2, 10)))
        ev.append("euler %s %s" % (li(q1), li(v())))
        ev.append("rpy %s %s" % (" ".join(li(r.choice(ang)) for _ in range(3)), li(v())))
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5]); base = r.choice(group)
        qs = [r.choice(group) if r.random() < .6 else [k * r.choice([1, 1, -1]) for k in base] if False else r.choice([list(base), [-k for k in base], r.choice(group)]) for _ in range(n)]
        w = [] if r.random() < .4 else [r.choice([1, 1, 2, 3, 0, -2]) for _ in range(n if r.random() < .9 else r.randint(0, 4))]
        if r.random() < .1: w = [0] * len(w)
        ev.append("qavg %d %s %s" % (n, " ".join(li(q) + " " + li(v()) for q in qs), li(w)))
    for k in range(0, 9):
        for _ in range(c.pick(4, 40)):
            ax = [0, 0, 0]
            while not any(ax): ax = v(3, 3)
            ev.append("tiny %s %s %s %s %d %d" % (li(quat()), li(v()), li(ax), li(v()), k, r.randint(0, 9)))
    r.shuffle(ev)
    n = 30
    L = ["g%d %s" % (k, " ".join(ev[k:k + n])) for k in range(0, len(ev), n)]
    lines = c.run_driver(exe, L, "rigid")
    c.validate(lines, "T_Rigid", "SPECIFICATION TSpec\n", "poses, twists, rotations and conversions", cases=L)
