import itertools
def body(c):
    exes = c.build_all([dict(name="vecs", plain=("math",)), dict(name="vecs_noomp", src="vecs", plain=("math",), omp=False)])
    c.model_check("MCPairTable", "SPECIFICATION Spec\nCONSTANTS Items = %d Workers = %d\nINVARIANTS OneWriter Full\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n" % c.pick((4, 2), (5, 3)), "filling the table of pairs", heap="8g")
    r = c.rng; L = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    def table(kind, th, nest, a, b): return "table %d %d %d %s %s" % (kind, th, nest, li(a), li(b))
    # every small pair of sizes, every degree
    for n, k in itertools.product(range(6), range(6)):
        a, b = [r.randint(-20, 20) for _ in range(n)], [r.randint(-20, 20) for _ in range(k)]
        L.append("s%d_%d %s" % (n, k, " ".join(table(kind, th, nest, a, b) for kind in ((1, 3) if k else (0, 1, 2, 3)) for th, nest in ((0, 0), (2, 0), (5, 0), (3, 2)))))
    for x in range(c.pick(60, 900)):
        n, k = r.randint(0, 24), r.randint(0, 24); a, b = [r.randint(-99, 99) for _ in range(n)], [r.randint(-99, 99) for _ in range(k)]
        L.append("r%d %s" % (x, " ".join(table(r.randint(0, 3), r.randint(0, 12), r.choice([0, 0, 0, 2, 3]), a, b) for _ in range(4))))
    for x in range(c.pick(6, 60)):  # many items
        n, k = r.choice([(130, 70), (260, 20), (17, 300), (120, 120)]); a, b = [r.randint(-99, 99) for _ in range(n)], [r.randint(-99, 99) for _ in range(k)]
        L.append("b%d %s" % (x, table(x % 4, r.choice([0, 2, 3, 8, 40]), r.choice([0, 0, 2]), a, b)))
    lines = c.run_driver(exes[0], L, "vecs")
    lines += c.run_driver(exes[1], [x.replace(" ", "n ", 1) for x in L], "vecs without OpenMP")
    lim = [x.replace(" ", "l ", 1) for x in L[::3]]
    lines += c.run_driver(exes[0], lim, "vecs under a thread limit", env={"OMP_THREAD_LIMIT": "2", "OMP_DYNAMIC": "true"})
    c.validate(lines, "T_Vectors", "SPECIFICATION TSpec\n", "tables of pairwise distances", cases=L)
