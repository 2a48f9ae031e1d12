import itertools
def body(c):
    exe = c.build("traj", lib=("time_optimal_trajectory_parametrization",), plain=("math",), opt="-O2", extra=("-fsanitize=address",))
    c.model_check("MCCursor", "SPECIFICATION Spec\nCONSTANTS Len_ = %d MaxT = %d\nINVARIANTS SameAnswer OwnList CursorTrue\nCHECK_DEADLOCK FALSE\n" % ((4, 6) if c.thorough else (3, 5)), "cursors of three trajectories", heap="8g")
    r = c.rng; L = []
    def rec():
        while True:
            d, n = r.randint(1, 4), r.choice([2, 2, 3, 4, 5])
            P = [[r.choice([0, 500, 1000, -700, 250, r.randint(-2000, 2000)]) for _ in range(d)] for _ in range(n)]
            if any(p == q for p, q in zip(P, P[1:])): continue
            dev = r.choice([0, 0, 50, 200, 1000])
            # a full turn-back has no blend
            def back(a, b, e):
                u, v = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(b, e)]
                dot = sum(x * y for x, y in zip(u, v)); m = (sum(x * x for x in u) * sum(y * y for y in v)) ** 0.5
                return dot < -0.99 * m
            if dev and any(back(*P[k:k + 3]) for k in range(n - 2)): continue
            break
        dt = r.choice([50, 100, 200, 300])
        return "%d %d %d %s %s %s %d %d" % (dt <= 100, d, n, " ".join(str(x) for p in P for x in p), " ".join(str(r.randint(200, 2000)) for _ in range(d)), " ".join(str(r.randint(200, 2000)) for _ in range(d)), dev, dt)
    N = 4096; ks = [0, 1, N - 1, N, 2048, 2047, 2049, 1024, 5, 4000]; k = 0
    one = ["ask 1 %d" % q for q in (0, 5, 2600, N, N + 300)] + ["clone 1 2", "ask 1 2590"]
    two = ["ask 2 0", "ask 2 5", "ask 2 2610", "ask 2 %d" % N, "clone 2 1", "ask 1 2600", "drop 1"]
    # every history: three operations on the first, a copy, two operations around it
    for n, (a, b, x) in enumerate(itertools.product(one[:5], one[:5], two)):
        mid = "clone 1 2 " + x
        tail = "ask 2 5 ask 2 2610 ask 2 2609 ask 2 2600" + ("" if x == "drop 1" else " ask 1 5 drop 1 ask 2 0 ask 2 2610")
        L.append("h%d make 1 %s fresh 1 5 fresh 1 2600 fresh 1 2610 %s %s %s %s" % (n, rec(), a, b, mid, tail))
    for n in range(c.pick(350, 6000)):
        ops = ["make 1 " + rec()]; live = {1}
        for _ in range(r.randint(5, 40)):
            i = r.choice(sorted(live)); z = r.random()
            if z < 0.7:
                # anywhere, or close to the time asked before
                k = r.choice(ks + [r.randint(0, N)] * 6 + [-1, N + 500]) if r.random() < 0.5 else min(N, max(0, k + r.choice([-1, 1, 0, -2, -5, -40, 3, 10, -100, 20])))
                ops.append("%s %d %d" % (r.choice(["ask"] * 9 + ["fresh"]), i, k))
            elif z < 0.8: j = r.randint(1, 4); j != i and (ops.append("clone %d %d" % (i, j)), live.add(j))
            elif z < 0.87 and len(live) > 1: ops.append("drop %d" % i); live.discard(i)
            elif z < 0.92: j = r.randint(1, 4); ops.append("make %d %s" % (j, rec())); live.add(j)
            else: ops.append("duration %d" % i)
        L.append("r%d %s" % (n, " ".join(ops)))
    lines = c.run_driver(exe, L, "traj")
    c.validate(lines, "T_Trajectory", "SPECIFICATION TSpec\n", "trajectory queries and copies", cases=L)
