from checks.grid_common import perm, j
ID = "0 1 1 1 2 1"
def far(r):
    """Where the case happens: a number of chunks of any size used here away from the grid's origin."""
    if r.random() < 0.6: return "0 0 0"
    return " ".join(repr(float(8 * r.choice([0, 1, -1, r.randint(-2 ** 31, 2 ** 31), r.randint(-2 ** 40, 2 ** 40), 2 ** 29, -2 ** 29, 2 ** 28, 2 ** 40 + 1]))) for _ in range(3))
def body(c):
    exe = c.build("dyngrid", lib=("serialization",))
    MC = "SPECIFICATION MSpec\nCONSTANTS Pts = {%s} Vals = {%s} MaxLen = %d\n%s"
    c.model_check("MCDynGrid", MC % (c.pick("1,2,3", "0,1,2,3,4"), "2,3", c.pick(3, 4), "INVARIANT ReadsItsHistory WrittenOnly\n"), "histories over three chunks")
    beh = c.behaviours("MCDynGrid", MC % ("1,2,3", "2", 3, "INVARIANT Emit\n"), "all short histories")
    r = c.rng; L = []
    for k, h in enumerate(beh):
        deny = any(o[3] for o in h)
        ops = ["new 0 2 1 1 16 16 16 %s 0 0 0 1 %s -1 1 %d 4" % (ID, "1 -2 0 0" if deny else "0", k % 2)]
        for o in h:
            p = j([16 * (o[1] - 3) + 8, 8, 8]); f = "x34"[(k + len(ops)) % 3]
            ops.append("mut 0 %s %s %d" % (f, p, o[2]) if o[0] == "mut" else "set 0 %s %s %d %d %d" % (f, p, o[2], o[0] == "chunk", k % 2))
        ops += ["get 0 x %d 0 15" % x for x in (-32, -17, -1, 0, 16)]
        L.append("s%d p %s %s" % (k, far(r), " ".join(ops)))
    for k in range(c.pick(1200, 15000)):
        kind = r.choice("pppf"); ops = []; info = [None, None]; recent = [[], []]
        def new(s):
            n = [r.choice([1, 1, 2, 3, 4]) for _ in range(3)]
            while n[0] * n[1] * n[2] > 18: n[r.randrange(3)] = 1
            # whole chunks of a power of two keep all arithmetic exact
            cs = [r.choice([1, 2, 4, 8, 16, 32]) for _ in range(3)]; n = [x if x in (1, 2, 4) else r.choice([2, 4, 1]) for x in n]
            if r.random() < 0.02: n[r.randrange(3)] = 0
            how = r.randint(0, 1); pose, t = (perm(r), [r.randint(-100, 100) for _ in range(3)]) if how == 0 else (ID, [0, 0, 0])
            deny = [[r.randint(-2, 3) for _ in range(3)] for _ in range(r.choice([0, 0, 1, 4]))] if kind == "p" else []
            if 0 in n: return "new %d %s %s %s %s 1 0 -1 1 %d 0" % (s, j(n), j(cs), pose, j(t), how)
            info[s] = dict(n=n, cs=cs, pose=pose, t=t)
            recent[s] = []
            return "new %d %s %s %s %s %d %d %s %d %d %d %d" % (s, j(n), j(cs), pose, j(t), r.randint(0, 9), len(deny), " ".join(j(d) for d in deny), r.choice([-1, -1, -1, r.randint(0, 4)]), r.random() < 0.75, how, r.choice([0, 1, 10]))
        def gpoint(s):
            g = info[s]
            if recent[s] and r.random() < 0.55:
                p = list(r.choice(recent[s]))
                if r.random() < 0.6: a = r.randrange(3); p[a] += r.choice([-1, 1]) * r.choice([1, g["cs"][a], g["cs"][a] * g["n"][a]])
            else: p = [r.choice([-2, -1, 0, 0, 1]) * g["cs"][q] * g["n"][q] + r.choice([0, r.randrange(g["cs"][q] * g["n"][q]), g["cs"][q] * g["n"][q] - 1]) for q in range(3)]
            recent[s].append(p)
            return p
        def world(s, p):
            P = list(map(int, info[s]["pose"].split())); return [P[2 * q + 1] * p[P[2 * q]] + info[s]["t"][q] for q in range(3)]
        for _ in range(r.randint(4, 18)):
            s = r.randrange(2); z = r.random(); g = info[s]; f = r.choice("x34"); v = r.randint(0, 9)
            if g is None:
                ops.append(new(s) if r.random() < 0.9 else r.choice(["get %d x 0 0 0", "set %d 3 0 0 0 1 0 0", "mut %d 4 0 0 0 1"]) % s)
                continue
            if r.random() < 0.25: ops.append("own %s" % j(world(s, gpoint(s))))
            if z < 0.03: ops.append(new(s))
            elif z < 0.20: ops.append("get %d %s %s" % (s, f, j(world(s, gpoint(s)))))
            elif z < 0.58:
                p = gpoint(s); whole = r.random() < 0.3; ops.append("set %d %s %s %d %d %d" % (s, f, j(world(s, p)), v, whole, r.randint(0, 1)))
                # the chunk itself is asked to change, just after it was filled as a whole
                if whole and r.random() < 0.3: ops.append("rset %d %s %s %d %d %d" % (s, j([p[q] // (g["n"][q] * g["cs"][q]) for q in range(3)]), j(p), r.randint(0, 9), 0, r.randint(0, 1)))
            elif z < 0.72: ops.append("mut %d %s %s %d" % (s, f, j(world(s, gpoint(s))), v))
            elif z < 0.73: ops.append("rclr %d" % s)
            elif z < 0.78:
                p = gpoint(s); ck = [p[q] // (g["n"][q] * g["cs"][q]) for q in range(3)]
                if r.random() < 0.5: ops.append("rput %d %s %s %d" % (s, j(ck), j([r.choice([-1, x]) if r.random() < 0.05 else r.randrange(x) for x in g["n"]]), v))
                else:
                    if r.random() < 0.4: p = gpoint(s)
                    ops.append("rset %d %s %s %d %d %d" % (s, j(ck), j(p), v, r.random() < 0.3, r.randint(0, 1)))
            elif z < 0.80: ops.append("sdef %d %d" % (s, v))
            elif z < 0.83:
                info[s] = g = dict(g, pose=perm(r), t=[r.randint(-64, 64) for _ in range(3)]); ops.append("pose %d %s %s" % (s, g["pose"], j(g["t"])))
            elif z < 0.86:
                m = r.choice([0, 1, 2, 5]); ops.append("deny %d %d %s %d %d" % (s, m, " ".join(j([r.randint(-2, 3) for _ in range(3)]) for _ in range(m)), r.choice([-1, 0, 1, 2, 5]), r.randint(0, 1)))
            elif z < 0.92:
                d = r.randrange(2); ops.append("copy %d %d %d" % (s, d, r.randrange(4) if d != s else r.choice([0, 1, 2]))); info[d] = info[s]; recent[d] = list(recent[s])
            elif z < 0.98:
                d = r.randrange(2); ops.append("save %d %d %d" % (s, d, r.choice([0, 1, 4, 7]))); info[d] = info[s]; recent[d] = list(recent[s])
            elif z < 0.99: ops.append("cut %d %d" % (s, r.choice([1, 2, 8, 20, 100])))
            else: ops.append("spoil %d %d" % (s, r.choice([1, 2, 3, 128, 255, r.randint(1, 255)])))
        L.append("r%d %s %s %s" % (k, kind, far(r), " ".join(ops)))
    # locations on and next to borders, with cell sizes that are no binary fractions
    for k in range(c.pick(400, 4000)):
        ops = []
        for _ in range(15):
            cs = r.choice(["0.1", "0.3", "0.7", "0.05", "0.01", "0.25", "1.1", "3"]); n = r.choice([1, 2, 3, 3, 5, 7]); xs = []
            for _ in range(3):
                z = r.random(); m = r.randint(-300, 300) if z < 0.33 or r.random() < 0.8 else r.randint(-2 ** 28, 2 ** 28); v = m * float(cs)
                if z < 0.4: xs.append(repr(v))
                elif z < 0.6: xs.append(repr(v * (1 + r.choice([-1, 1]) * 2.3e-16)))
                elif z < 0.7: xs.append(r.choice(["-1e-20", "1e-20", "-1e-300", "0", "-0.0", "-1e-17"]))
                else: xs.append(repr(v + r.uniform(-float(cs), float(cs))))
            ops.append("edge %s %d %s %d" % (cs, n, " ".join(xs), r.randint(0, 1)))
        L.append("e%d f 0 0 0 %s" % (k, " ".join(ops)))
    lines = c.run_driver(exe, L, "dyn")
    c.validate(lines, "T_DynGrid", "SPECIFICATION TSpec\n", "chunked grid histories", cases=L)
