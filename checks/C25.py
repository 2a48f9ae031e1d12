import itertools
def body(c):
    exe, fast = c.build_all([dict(name="prng"), dict(name="prngfar", src="prng", opt="-O2", san=False)])
    for kind in ("split", "plus", "star"):
        c.model_check("MCPrng", "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" Depth = %d\nINVARIANTS SameAsFresh Known\nCHECK_DEADLOCK FALSE\n" % (kind, c.pick(2 if kind == "star" else 3, 4)), "histories of two " + kind + " generators", heap="4g")
    r = c.rng; L = []
    seeds = [0, 1, 42, 2 ** 64 - 1, 2 ** 63, 2 ** 32, 0x9E3779B97F4A7C15, 2 ** 64 - 0x9E3779B97F4A7C15]
    # every history of length three over two generators, then all drawn from
    one = ["draw 1 1", "draw 1 16", "skip 1 0", "skip 1 1", "skip 1 5", "seed 1 0", "seed 1 7", "make 1 7", "copy 1 2 0", "copy 1 2 1", "draw 2 3", "seed 2 7", "skip 2 20", "copy 2 1 1"]
    for kind in ("split", "plus", "star"):
        for n, ops in enumerate(itertools.product(one, repeat=c.pick(2, 3))):
            L.append("h%s%d %s make 1 %d draw 2 2 %s draw 1 %d draw 2 2" % (kind, n, kind, r.choice(seeds), " ".join(ops), r.choice([2, 17]) if kind == "star" else 2))
        for n in range(c.pick(600, 6000)):
            sd = lambda: r.choice(seeds + [r.getrandbits(64)] * 4)
            ops = ["make 1 %d" % sd(), "limits 1"]
            for _ in range(r.randint(2, 14)):
                i, j = r.randint(1, 3), r.randint(1, 3)
                ops.append(r.choice(["draw %d %d" % (i, r.choice([1, 2, 3, 18])), "draw %d 1" % i, "skip %d %d" % (i, r.choice([0, 1, 2, 15, 16, 17, 33])), "seed %d %d" % (i, sd()), "make %d %d" % (i, sd()), "copy %d %d %d" % (i, j, r.randint(0, 1))]))
            ops += ["draw %d %d" % (i, r.choice([1, 3, 18])) for i in (1, 2, 3)]
            L.append("r%s%d %s %s" % (kind, n, kind, " ".join(ops)))
    for n in range(3): L.append("long%d %s draw 1 %d skip 1 %d draw 1 2" % (n, ("split", "plus", "star")[n], c.pick(500, 5000), c.pick(20000, 300000)))
    lines = c.run_driver(exe, L, "prng")
    c.validate(lines, "T_Prng", "SPECIFICATION TSpec\n", "generator histories", cases=L)
    F = ["far%d %s make 1 %d far 1 %d %d" % (n, k, r.getrandbits(64), 2 ** 31 + r.randint(0, 99), 2 ** 31 + r.randint(0, 99)) for n, k in enumerate(("split", "plus", "star"))]
    lines = c.run_driver(fast, F, "far", timeout=200, retry=1)
    c.validate(lines, "T_Prng", "SPECIFICATION TSpec\n", "long skips", cases=F)
