import itertools
def body(c):
    exe = c.build("circle", lib=(), plain=("math",), omp=True)
    c.model_check("MCCircle", "SPECIFICATION Spec\nCONSTANTS N = %d Arc = 4\nINVARIANTS Wrapped Walked Average\nCHECK_DEADLOCK FALSE\n" % c.pick(4, 9), "walks around the circle", heap="8g")
    r = c.rng; N = 512; ev = []
    ks = [0, 1, -1, 8, N // 2, N // 2 + 1, N - 8, N - 1, N, N + 1, -N, -N - 1, -N + 1, -N // 2, 2 * N, -2 * N, 3 * N, -3 * N, 3 * N - 1, 3 * N + 1, -3 * N - 1, 5 * N, -7 * N + 3]
    def ang():
        z = r.random()
        return r.choice(ks) if z < .3 else r.randint(-N, N - 1) if z < .6 else r.randint(-9 * N, 9 * N) if z < .95 else r.randint(-10 ** 7, 10 ** 7)
    for k in ks:
        for u in (-3, -2, -1, 0, 1, 2, 3): ev.append("wrap %d %d" % (k, u))
    for a, b in itertools.product(ks, ks):
        ev += ["%s %d %d" % (o, a, b) for o in ("signed", "dist", "add", "range") if c.thorough or r.random() < .5]
        if -N <= a < N and -N <= b < N: ev.append("ends %d %d" % (a, b))  # written any other way, rounding decides about the border
        n = r.choice([-1, 0, 1, 4, 7, 8, 9]); a8, b8 = a // 8 * 8, b // 8 * 8
        ev.append("interp %d %d %d" % (a8, b8, n))
    for _ in range(c.pick(2500, 40000)):
        a, b, x = ang(), ang(), ang()
        o = r.choice(["wrap", "signed", "dist", "add", "range", "inrange", "inbounds", "ends", "interp"])
        if o == "wrap": ev.append("wrap %d %d" % (a, r.randint(-2, 2)))
        elif o == "interp": ev.append("interp %d %d %d" % (a // 8 * 8, b // 8 * 8, r.randint(-2, 10)))
        # starts and ends on even units, points on odd ones: never on the border
        elif o == "inrange": ev.append("inrange %d %d %d" % (2 * a, 2 * r.choice([0, 1, 5, N // 4, N // 2 - 1, N // 2, N - 1, N, N + 3, r.randint(0, N), -1, -r.randint(1, 2 * N)]), 2 * x + 1))
        elif o == "inbounds": ev.append("inbounds %d %d %d" % (2 * a, 2 * b if (a - b) % N else 2 * b + 2, 2 * x + 1))
        elif o == "ends": ev.append("ends %d %d" % (r.randint(-N, N - 1), r.randint(-N, N - 1)))
        else: ev.append("%s %d %d" % (o, a, b))
    for _ in range(c.pick(800, 12000)):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6]); base = ang() if r.random() < .5 else r.choice([N, -N, 0]) + r.randint(-30, 30); span = r.choice([5, 60, N - 1, N - 1, 2 * N])
        as_ = [base + r.randint(0, span) + 2 * N * r.choice([0, 0, 0, 1, -1]) for _ in range(n)]
        w = [] if r.random() < .4 else [r.choice([1, 1, 2, 3, -2, 0]) for _ in range(n if r.random() < .93 else n + r.choice([1, -1, 2]))] if n else []
        ev.append("avg %d %s %d %s" % (n, " ".join(map(str, as_)), len(w), " ".join(map(str, w))))
    for k in range(8, 24):
        for _ in range(c.pick(6, 80)): ev.append("small %d %d %d" % (r.choice(ks) if r.random() < .5 else r.randint(-9 * N, 9 * N), r.choice([1, -1]) * r.randint(1, 8), k))
    n = 40
    L = ["a%d %s" % (k, " ".join(ev[k:k + n])) for k in range(0, len(ev), n)]
    lines = c.run_driver(exe, L, "circle")
    c.validate(lines, "T_Circle", "SPECIFICATION TSpec\nCONSTANTS N = 512\n", "answers about angles", cases=L)
