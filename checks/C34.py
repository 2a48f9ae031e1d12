import itertools
def body(c):
    exe = c.build("color", omp=False)
    c.model_check("MCColor", "SPECIFICATION Spec\nCONSTANTS Hex = %d Frac = %d\nINVARIANTS InRange RoundTrip Closest Scale\nPROPERTIES OthersKept\nCHECK_DEADLOCK FALSE\n" % c.pick((6, 4), (15, 8)), "setting channels", heap="8g")
    r = c.rng; L = ["bytes bytes"]
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    def f(): return r.choice([0, 1, 31, 32, 33, 63, 64, 65, -1, 100, -100, r.randint(-5, 70), r.randint(0, 64)])
    def b(): return r.choice([0, 1, 127, 128, 254, 255, r.randint(0, 255)])
    def make():
        how, h, n = r.randint(0, 3), r.choice([0, 3, 4]), r.choice([3, 4])
        a = [f() if h == 0 else b() for _ in range(3)] + ([b() if h == 4 else f()] if n == 4 else [])
        return "make %d %d %s" % (how, h, li(a))
    def setter(): i = r.randint(1, 4); return r.choice(["set %d %d" % (i, f() if r.random() < .95 else r.choice([1000001, -1000001])), "sethex %d %d" % (i, b())])
    # every way of making a colour
    for how, h, n in itertools.product(range(4), (0, 3, 4), (3, 4)):
        for k in range(c.pick(6, 60)):
            a = [f() if h == 0 else b() for _ in range(3)] + ([b() if h == 4 else f()] if n == 4 else [])
            L.append("m%d_%d_%d_%d make %d %d %s %s" % (how, h, n, k, how, h, li(a), " ".join(setter() for _ in range(3))))
    for i, k in itertools.product(range(1, 5), range(256)):
        if c.thorough or k % 8 == i: L.append("b%d_%d zero sethex %d %d set %d %d" % (i, k, i, k, i, r.randint(0, 64)))
    for k in range(c.pick(200, 4000)): L.append("h%d %s" % (k, " ".join(r.choice([make, setter, setter, setter])() for _ in range(r.randint(3, 12)))))
    ev = []
    for n in (4, 8, 16, 32, 64, 12, 20, 60):
        for lo in (0, -8, 5): ev += ["warm %d %d %d %d" % (k, n, lo, s) for k in range(-2, n + 3) for s in ((-3, 0) if n not in (64, 60) or c.thorough else (0,))]
    for s in range(2, 7): ev += ["warm %d %d 0 %d" % (k, 2 ** s, -s) for k in range(-3, 2 ** s + 3)]
    for _ in range(c.pick(300, 4000)):
        a = [r.randint(0, 64) for _ in range(4)]; t = r.choice([0, 0, 1, 2, 5]); o = list(a)
        if r.random() < .9: o[r.randrange(4)] += r.choice([0, t, -t, t + 1, -t - 1])
        ev.append("equal %s %s %d" % (li(a), li(o), t)); ev.append("conv " + li([f() for _ in range(4)]))
    L += ["e%d %s" % (k, " ".join(ev[k:k + 50])) for k in range(0, len(ev), 50)]
    L += ["u%d unique %d" % (k, j) for k, j in enumerate((0, 1, 32, 63, 64, 65, -3, 200))]
    lines = c.run_driver(exe, L, "color")
    c.validate(lines, "T_Color", "SPECIFICATION TSpec\nCONSTANTS Hex = 255 Frac = 64\n", "colour histories", cases=L)
