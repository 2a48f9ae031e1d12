import itertools
def body(c):
    exe = c.build("vecs", plain=("math",))
    c.model_check("MCVectors", "SPECIFICATION Spec\nCONSTANTS Val = 2 MaxItems = %d\nINVARIANTS Running Projecting Axes Corners\nCHECK_DEADLOCK FALSE\n" % c.pick(3, 4), "averages, interpolation and projections step by step", heap="8g")
    r = c.rng; ev = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    def vec(n, m=9): return [r.choice([0, r.randint(-m, m), r.randint(-m, m)]) for _ in range(n)]
    for n in range(0, 6):
        for _ in range(c.pick(6, 80)):
            ev.append("un %s %d" % (li(vec(n, 30)), r.randint(-7, 7)))
            ev.append("bin %s %s" % (li(vec(n)), li(vec(n if r.random() < .8 else r.randint(0, 5)))))
            ev.append("interp %s %s %d" % (li(vec(n)), li(vec(n if r.random() < .85 else r.randint(0, 5))), r.randint(-3, 11)))
    for _ in range(c.pick(150, 2500)):
        a = vec(4); b = list(a) if r.random() < .4 else vec(4)
        if r.random() < .5: b[r.randrange(4)] += r.choice([-2, -1, 1, 2])
        ev.append("fixed %s %s %d %d" % (li(a), li(b), r.choice([0, 1, 2, 3, 4, -2, -4, 8, 20]), r.randint(-2, 10)))
        n = r.randint(1, 3); lo = vec(n, 5); size = [r.choice([1, 2, 4, 3, 5]) for _ in range(n)]
        ev.append("linear %s %s %s %s" % (li(lo), li(size), li(vec(2 ** n, 20)), li([x + r.choice([0, s, r.randint(0, s), -1, s + 2]) for x, s in zip(lo, size)])))
        n = r.randint(0, 5); d = r.randint(1, 5)
        w = [] if r.random() < .35 else [r.choice([0, 1, 1, 2, 3, -1, -4]) for _ in range(n if r.random() < .9 else r.randint(0, 6))]
        if r.random() < .1: w = [0] * len(w)
        ev.append("avg %d %d %s %s" % (d, n, " ".join(li(vec(d, 40)) for _ in range(n)), li(w)))
        ev.append("dev %s %d" % (li(vec(r.randint(0, 7), 20)), r.randint(-5, 5)))
        n = r.randint(1, 4); a = vec(n, 5); b = r.choice([vec(n, 5), [k * r.choice([1, -2, 3]) for k in a], a, [-k for k in a]])
        if len(b) == n: ev.append("wdot %s %s %s" % (li(a), li(b), li([r.choice([0, 1, 1, 2, 3]) for _ in range(n)])))
        a = vec(r.randint(1, 6)); ev.append("clamp %s %d" % (li(a), r.choice([0, 1, 3, 5, 10, 13, 30])))
        if r.random() < .3: ev.append("clamp 2 3 4 5"); ev.append("clamp 2 -6 8 9")
        n = r.randint(1, 4); ev.append("proj %s %s" % (li(vec(n)), li(vec(n))))
        n = r.randint(1, 4); o = vec(n); m = vec(n if r.random() < .9 else r.randint(1, 4), 4); p = r.choice([vec(n), vec(n), o])
        ev.append("plane %s %s %s" % (li(o), li(m), li(p)))
    for n in range(0, 5):
        for v in itertools.product((0, 1, -3, 49), repeat=n):
            ev.append("ortho %s %d" % (li(v), r.choice([0, -3, 7]))) if n < 4 or r.random() < c.pick(.2, 1) else None
    for _ in range(c.pick(150, 3000)):
        v = [0] * r.randint(1, 5); v[r.randrange(len(v))] = r.randint(1, 999)
        if r.random() < .5: v = vec(len(v), 999)
        ev.append("ortho %s %d" % (li(v), r.randint(-20, 20)))
        n = r.choice([0, 1, 2, 3, 3, 3, 3, 4]); a, b = vec(n, 5), vec(n, 5)
        if r.random() < .2: b = [k * r.choice([1, -1, 2, 3]) for k in a[:1]] and [k * 3 for k in a]
        v = r.choice([vec(n, 5), [x + 2 * y for x, y in zip(a, b)], a, b, [-3 * k for k in a], [k * 7 for k in b], [0] * n])
        if r.random() < .1: v = vec(r.randint(0, 4), 4)
        ev.append("inplane %s %s %s" % (li(a), li(b), li(v)))
    for _ in range(c.pick(200, 3000)):
        d = r.choice([1, 2, 3, 3, 4]); n = r.choice([0, 1, 2, 3, 4, 5, 6]); z = r.random()
        pts = [vec(d, 4) for _ in range(n)]
        if z < .5 and d > 1:
            # on a plane: the last coordinate a whole combination of the others
            k = vec(d - 1, 1); off = r.randint(-2, 2)
            for p in pts: p[-1] = sum(x * y for x, y in zip(k, p)) + off
            i = r.randrange(d); pts = [p[:i] + [p[-1]] + p[i:-1] for p in pts]
        if all(abs(x) <= 6 for p in pts for x in p): ev.append("fit %d %s" % (n, " ".join(li(p) for p in pts)))
    r.shuffle(ev)
    n = 40
    L = ["v%d %s" % (k, " ".join(ev[k:k + n])) for k in range(0, len(ev), n)]
    lines = c.run_driver(exe, L, "vecs")
    c.validate(lines, "T_Vectors", "SPECIFICATION TSpec\n", "vector, average, interpolation and plane results", cases=L)
