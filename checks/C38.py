def body(c):
    exes = c.build_all([dict(name="ros%d" % v, src="rosconv", lib=("ros_conversions",), plain=("math",), extra=("-I", "%s/ros" % __import__("lib.vf").vf.DRIVERS, "-DCOMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION=%d" % v)) for v in (1, 2)])
    MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCMessages", MC % (c.pick(5, 7), "Carried"), "chains of conversions of every kind of value")
    beh = c.behaviours("MCMessages", MC % (c.pick(5, 6), "Emit"), "chains of forms")
    r = c.rng; L = []; chains = sorted(set(tuple(b) for b in beh))
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    group = [(a, b, x, y) for a in (-1, 0, 1) for b in (-1, 0, 1) for x in (-1, 0, 1) for y in (-1, 0, 1) if a * a + b * b + x * x + y * y in (1, 2, 4)]
    def v(n, m=1000): return [r.choice([0, 1, -1, r.randint(-m, m)]) for _ in range(n)]
    def start(f):
        if f in ("v3", "pt", "vec"): return [v(3)]
        if f in ("v4", "q", "qm"): return [v(4)]
        n = r.choice([0, 1, 2, 3, 7])
        if f in ("m3x", "pts", "vv3", "vecs"): return [v(3) for _ in range(n)]
        if f in ("iso", "pose", "tf"): return [list(r.choice(group) if r.random() < .5 else [r.randint(1, 3)] + v(3, 3)) + v(3)]
        k = r.choice([1, 2, 4]); g = [q for q in group if sum(x * x for x in q) == k]
        return [list(r.choice(g)) + v(3) for _ in range(n)]
    def names(f): return "".join(" " + r.choice(["@", "map", "/f_%d" % r.randint(0, 99), "f%d" % r.randint(0, 99), "/map", "_"]) for _ in range({"ptst": 1, "posest": 1, "tfst": 2}.get(f, 0)))
    for k in range(c.pick(4, 30)):
        for i, ch in enumerate(chains):
            a = start(ch[0])
            L.append("c%d_%d new %s %d %s %s" % (k, i, ch[0], len(a), " ".join(map(li, a)), " ".join("to %s%s" % (f, names(f)) for f in ch[1:])))
    for k in range(c.pick(150, 2000)):
        n = r.choice([0, 1, 2, 3, 9])
        L.append("t%d %s" % (k, " ".join("stamp %s %s %s %d" % (r.choice(["array", "markers", "points", "list", "poses"]), li([r.randint(0, 999) for _ in range(n)]), li([r.randint(0, 10**9) for _ in range(n)]), r.choice([0, 1, 999999999, 1000000000, r.randint(0, 2 * 10**9)])) for _ in range(4))))
    for exe in exes:
        lines = c.run_driver(exe, L, exe.rsplit("/", 1)[1])
        c.validate(lines, "T_Messages", "SPECIFICATION TSpec\n", "messages of " + exe[-4:], cases=L)
