import vf
def ln(i, d, lo, hi, k, deg, ctx, api):
    return "%s %d %s %d %d %d %d %d %d" % (i, len(d), " ".join(map(str, d)), lo, hi, k, deg, ctx, api)
CONS = "CONSTANTS MaxN = %d MaxD = %d MaxK = %d Lossy = FALSE\n"
def body(c):
    exes = c.build_all([dict(name="knn_omp", src="knn"), dict(name="knn_async", src="knn", omp=False)])
    c.model_check("KNearest", "SPECIFICATION Spec\n" + CONS % c.pick((4, 1, 2), (4, 2, 3)) + "INVARIANT MergeIsExact\n",
                  "divide and merge finds the k nearest")
    beh = c.behaviours("GenKNearest", "SPECIFICATION GSpec\n" + CONS % c.pick((4, 2, 3), (5, 2, 4)) + "INVARIANT Emit\n", "all small queries")
    r = c.rng
    ctxs = [0, 1, 2, 3, 4, 5, 6, 7, 8]
    cases = []
    for k, (d, lo, hi, K) in enumerate(beh):
        cases.append(("s%d" % k, d, lo, hi, K, 1 + k % 5, ctxs[k % len(ctxs)], k % 3))
    for k in range(c.pick(1500, 20000)):
        n = r.choice([0, 1, 2, 5, 9, 16, 17, 33, 64, r.randint(0, 120)])
        m = r.choice([1, 3, 10, 1000])
        d = [r.randint(0, m) if r.random() > 0.02 else 1000000000 for _ in range(n)]
        if r.random() < 0.2: d.sort(reverse=r.random() < 0.5)
        lo = r.randint(0, n); hi = r.randint(lo, n)
        if r.random() < 0.3: lo, hi = 0, n
        K = r.choice([0, 1, 2, 3, 5, 8, hi - lo - 1, hi - lo, hi - lo + 1, n + 5, r.randint(0, 20)])
        if r.random() < 0.05: lo, hi = r.choice([(hi + 1, hi), (lo, n + 1), (0, n + 7)])
        if r.random() < 0.03: K = -1 - r.randint(0, 2)
        cases.append(("r%d" % k, d, lo, hi, K, r.choice([1, 2, 3, 4, 6, 8, 16]), r.choice(ctxs), r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5])))
    # many items: the merge of many partial answers, answers longer than any thread's share
    for k in range(c.pick(45, 600)):
        n = r.choice([257, 500, 1023, 1025, 2000, r.randint(200, 3000)]); m = r.choice([1, 30, 1000, 10 ** 6])
        d = [r.randint(0, m) for _ in range(n)]
        if r.random() < 0.5: d.sort(reverse=r.random() < 0.7)
        lo = r.choice([0, 0, r.randint(0, n // 2)]); hi = r.choice([n, r.randint(n // 2, n)])
        cases.append(("b%d" % k, d, lo, hi, r.choice([1, 7, 40, 100, hi - lo - 1, (hi - lo) // 3]), r.choice([2, 3, 4, 8, 16, 40]), r.choice([0, 0, 0, 2, 4, 7]), r.choice([0, 1, 1, 2, 3, 4, 5])))
    L = [ln(*x) for x in cases]
    # the ranges of the whole-collection calls with invalid K are checked too
    lines = c.run_driver(exes[0], L, "omp", env={"OMP_NUM_THREADS": "4"}, shards=4)
    lines += c.run_driver(exes[0], L[::3], "lim", env={"OMP_NUM_THREADS": "4", "OMP_THREAD_LIMIT": "3"}, shards=4)
    lines += c.run_driver(exes[1], L[::5], "async", shards=4)
    c.validate(lines, "T_KNearest", "SPECIFICATION TSpec\nCONSTANTS MaxN = 0 MaxD = 0 MaxK = 0 Lossy = FALSE\n", "K nearest queries", cases=L)
    c.assumptions += ["distances are exact integers (or infinity); NaN distances are outside the property"]
