def body(c):
    exe = c.build("printing", omp=False)
    c.model_check("MCPrinting", "SPECIFICATION Spec\nCONSTANTS Nums = {%s} MaxLen = %d\nINVARIANTS Level Told Nested\nCHECK_DEADLOCK FALSE\n" % c.pick(("0, 1, 10", 2), ("0, 1, 10, 12", 3)), "building nested values", heap="8g")
    r = c.rng; L = []; T = 62
    def num(): return r.choice([0, 1, -1, 2, 3, 4, 7, 8, -8, -3, r.randint(-20, 20), r.randint(-999, 999), r.randint(-10 ** 9, 10 ** 9)])
    def vals(k): return "%d %s" % (k, " ".join(str(num()) for _ in range(k)))
    for t in range(T):
        for d in (0, 1):
            for s in range(7):
                for k in range(c.pick(2, 30)): L.append("p%d_%d_%d_%d %d %d %d %s" % (t, d, s, k, t, d, s, vals(r.choice([1, 2, 5, 9, 20, 40]))))
        L.append("z%d %d 1 0 1 0" % (t, t)); L.append("e%d %d 0 0 1 0" % (t, t))
    lines = c.run_driver(exe, L, "printing")
    c.validate(lines, "T_Printing", "SPECIFICATION TSpec\n", "printed values", cases=L)
