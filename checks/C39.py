def body(c):
    exe = c.build("model")
    MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Vals = {%s}\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCRobotModel", MC % (c.pick(3, 4), c.pick("0, 1", "-1, 0, 1"), "Follows Sides"), "models set, copied and asked")
    beh = c.behaviours("MCRobotModel", MC % (3, "-1, 1" if c.thorough else "0, 1", "Emit"), "all short histories")
    r = c.rng; L = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    for k, h in enumerate(beh):
        L.append("s%d %s 2 1 3 %s" % (k, "ve"[k % 2], " ".join("clone %d" % o[1] if o[0] == "clone" else "set %d %s" % (o[1], li(o[2])) if o[0] == "set" else "ask %d %s %s" % (o[1], li(o[2]), li([r.randint(-3, 3), r.randint(-3, 3)])) for o in h)))
    for k in range(c.pick(600, 6000)):
        n = r.choice([0, 1, 2, 3, 7]); ops = []
        def v(): return li([r.randint(-50, 50) for _ in range(n)])
        for _ in range(12):
            z = r.random(); m = r.randint(1, 2)
            ops.append("set %d %s" % (m, v()) if z < .35 else "clone %d" % m if z < .45 else "ask %d %s %s" % (m, v(), v()))
        L.append("r%d %s %s %s" % (k, r.choice("ve"), li([r.randint(1, 9) for _ in range(n)]), " ".join(ops)))
    lines = c.run_driver(exe, L, "model")
    c.validate(lines, "T_RobotModel", "SPECIFICATION TSpec\n", "models and their derived distances", cases=L)
