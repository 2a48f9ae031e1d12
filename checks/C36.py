import math
def body(c):
    exe = c.build("sampling", omp=False)
    c.model_check("MCSampling", "SPECIFICATION Spec\nCONSTANTS Far = %d\nINVARIANTS Inside Probability Shape Covers Table Invariant Moments\nCHECK_DEADLOCK FALSE\n" % c.pick(5, 9), "drawing and turning", heap="8g")
    r = c.rng; L = []; Phi = lambda k: .5 * math.erfc(-k / 16 / math.sqrt(2))
    def md(): return "%s %s" % (r.choice([0, 0, 1, -3.5, 100, -1000.25]), r.choice([1, 1, 2, .5, .125, 16, 3]))
    def bounds():
        while True:
            lo, hi = r.choice([-1000, r.randint(-64, 56), r.randint(-64, 56), r.randint(0, 48), 0, 1]), r.choice([1000, 1000, 0, -1, r.randint(-60, 64), r.randint(-20, 40), r.randint(1, 60)])
            if hi > lo and Phi(hi) - Phi(lo) > .002: return lo, hi
    fixed = [(-1000, 1000), (0, 1000), (-1000, 0), (1, 1000), (-1000, -1), (16, 1000), (-1000, -16), (40, 1000), (-1000, -40), (-16, 16), (0, 16), (-16, 0), (1, 90), (1, 17), (16, 20), (-20, -16), (8, 100), (-100, -8), (32, 36), (-36, -32), (20, 80), (-80, -20), (-1000, 24), (-24, 1000), (40, 44), (16, 17)]
    cases = [(b, k) for b in fixed for k in range(c.pick(2, 4))] + [(bounds(), k) for k in range(c.pick(40, 400))]
    for i, ((lo, hi), k) in enumerate(cases): L.append("d%d draw %s %d %d %d 20000" % (i, md(), lo, hi, r.randint(1, 10 ** 6)))
    E = []
    for _ in range(c.pick(1500, 20000)):
        lo, hi = bounds(); v, w = sorted((r.choice([lo, hi, r.randint(-90, 90), r.randint(max(lo, -80), min(hi, 80))]) for _ in range(2)))
        E.append("eval %s %d %d %d %d" % (md(), lo, hi, v, w))
    for m, s, lo, hi in [(0, 0, -4, 4), (8, 0, -4, 4), (-8, 0, -4, 4), (3, 4, 2, 2), (2, 4, 2, 2), (0, 0, 0, 0), (1, 8, -5, -5), (4, 0, -4, 4), (5, 4, 5, 5)]:
        E.append("point %d %d %d %d %d" % (m, s, lo, hi, min(max(m, lo), hi)))
    for m, s, lo, hi in [(0, 1, 1, -1), (0, 0, 1, -1), (5, 1, 2, 1), (-5, 1, 2, 1), (0, 2, 10, 9.99), (0, 1, -1, -2), (0, -1, -1, 1), (0, -1, 1, 2), (3, -.5, 0, 2)]:
        E.append("refuse 0 %s %s %s %s 0 0" % (m, s, lo, hi))
        if lo > hi: E += ["refuse %d %s %s %s %s %s %s" % (w, m, abs(s) or 1, lo, hi, x, x) for w in (1, 2, 4) for x in (0, 1.5, -3, 20)]
    for x, y in ((1, 0), (0, -1), (.5, .25)): E += ["refuse 3 0 1 -1 1 %s %s" % (x, y), "refuse 4 0 1 -1 1 %s %s" % (x, y)]
    for n in range(5):
        for a in range(5):
            for b in range(5):
                if (n, n) != (a, b): E.append("refuse 5 %d 0 %d %d 0 0" % (n, a, b))
    L += ["e%d %s" % (k, " ".join(E[k:k + 25])) for k in range(0, len(E), 25)]
    # covariances A A' of small whole-number matrices (also of lower rank) and their null vectors
    for k in range(c.pick(40, 400)):
        d = r.randint(1, 4); rank = r.choice([d, d, d, max(0, d - 1), 1]); A = [[r.randint(-2, 2) if j < rank else 0 for j in range(d)] for _ in range(d)]
        C = [[sum(A[i][x] * A[j][x] for x in range(d)) for j in range(d)] for i in range(d)]
        null = [[r.randint(-3, 3) for _ in range(d)] for _ in range(300)]
        null = [v for v in null if any(v) and all(sum(C[i][j] * v[j] for j in range(d)) == 0 for i in range(d))][:3]
        L.append("v%d mvn %d %d %s %d %s %d %s" % (k, r.randint(1, 10 ** 6), d, " ".join(str(r.randint(-9, 9)) for _ in range(d)), d * d, " ".join(str(x) for row in C for x in row), d * len(null), " ".join(str(x) for v in null for x in v)))
    turns = ["1 0 0 0", "1 1 0 0", "0 0 1 0", "1 2 -1 3", "5 -2 1 1"]
    for kind in ("quat", "rawquat", "squat", "euler", "raweuler", "seuler"):
        for k in range(c.pick(2, 20)): L.append("r%s%d rot %s %d %s %s" % (kind, k, kind, r.randint(1, 10 ** 6), turns[0] if k == 0 else r.choice(turns), turns[0] if k == 0 else r.choice(turns)))
    for k in range(10): L.append("w%d raw %d" % (k, r.randint(1, 10 ** 6)))
    lines = c.run_driver(exe, L, "sampling")
    c.validate(lines, "T_Sampling", "SPECIFICATION TSpec\n", "samples", cases=L)
