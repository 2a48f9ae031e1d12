def lst(x): return "%d %s" % (len(x), " ".join(map(str, x)))
def model(n, cand, out, done, h):
    toks = []
    for p in range(len(cand)):
        for s in range(n):
            toks.append("%d %d %s" % (cand[p][s], len(out[p][s]), " ".join("%d %d" % tuple(x) for x in out[p][s])))
    return "%d %d %s %s %d %s" % (n, len(cand), " ".join(toks), lst(done), 1 if h else 0, lst(h or [0] * n))
def body(c):
    exe = c.build("task")
    MC = "SPECIFICATION MSpec\nCONSTANTS Unexpected = %s MaxSteps = %d Limits = {%s} Emitting = %s\n%s"
    inv = "INVARIANT OnlyCandidates SuccessMeetsTask NoMoreThanAllowed TraceLength NeverStuckIfExpected\nPROPERTY Progress\n"
    c.model_check("MCTaskPlan", MC % ("TRUE", c.pick(1, 2), "9" if not c.thorough else "9,0,1,2", "FALSE", inv), "every small task, any outcomes")
    c.model_check("MCTaskPlan", MC % ("FALSE", c.pick(2, 3), "9", "FALSE", inv), "every small task, foreseen outcomes")
    beh = c.behaviours("MCTaskPlan", MC % ("TRUE", 1, "9,0,1" if c.thorough else "9", "TRUE", "INVARIANT Emit\n"), "all short executions of small tasks")
    r = c.rng; L = []
    for k, h in enumerate(beh):
        if not c.thorough and (k + c.seed) % 12: continue
        out, cur, lim = h[0], h[1], h[2]
        cand = [[1 if o else 0 for o in p] for p in out]
        sc = h[3:] or [[0]]
        L.append("s%d %s plan %s %s %d %s %d %s" % (k, model(3, cand, out, [2], None), lst(cur), "go" if k % 3 else "quiet", lim if lim >= 0 else len(sc), lst(cur), len(sc), " ".join(lst(x) for x in sc)))
    for k in range(c.pick(2500, 30000)):
        n = r.choice([2, 3, 5, 8, 12]); np = r.choice([1, 2, 3, 4])
        cand, out = [], []
        wmax = r.choice([1, 3, 10])
        for p in range(np):
            cand.append([1 if r.random() < 0.6 else 0 for _ in range(n)])
            out.append([[(r.randrange(n), r.randint(0, wmax)) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(n)])
        done = sorted(r.sample(range(n), r.choice([0, 1, 1, 1, 2]) if n > 1 else 1))
        # remaining costs, to derive heuristics that do not overestimate
        INF = 10**6; d = [0 if s in done else INF for s in range(n)]
        for _ in range(n):
            for p in range(np):
                for s in range(n):
                    if cand[p][s]:
                        for t, w in out[p][s]: d[s] = min(d[s], d[t] + w)
        hk = r.random(); h = None
        if hk < 0.45: h = [r.randint(0, min(x, 30)) for x in d]
        elif hk < 0.6: h = [min(x, 50) for x in d]
        elif hk < 0.7: h = [r.randint(0, 30) for x in d]
        ops = []
        for _ in range(r.randint(1, 3)):
            S = [r.randrange(n) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < 0.97 else []
            z = r.random()
            if z < 0.25: ops.append("plan " + lst(S))
            elif z < 0.45: ops.append("next " + lst(S))
            else:
                sc = []
                for _ in range(r.randint(1, 8)):
                    y = r.random()
                    if y < 0.02: sc.append([])
                    elif y < 0.04: sc.append([-1])
                    elif y < 0.3 and done: sc.append([r.choice(done)] if r.random() < 0.5 else [r.randrange(n), r.choice(done)])
                    else: sc.append([r.randrange(n) for _ in range(r.choice([1, 1, 1, 2, 3]))])
                ops.append("%s %d %s %d %s" % (r.choice(["go", "go", "quiet"]), r.choice([0, 1, 2, 5, 9, 20]) if r.random() < 0.8 or not done else 30, lst(S), len(sc), " ".join(lst(x) for x in sc)))
        if r.random() < 0.2:
            q = ["reg %d" % r.randrange(np) if r.random() < 0.6 else "unreg " + lst([r.randrange(np) for _ in range(r.choice([1, 1, 2, 0]))]) if r.random() < 0.9 else "clear" for _ in range(r.randint(1, 8))]
            ops.append("coll %d %s" % (len(q), " ".join(q)))
        L.append("r%d %s %s" % (k, model(n, cand, out, done, h), " ".join(ops)))
    # no limit, but outcomes that lead to completion
    for k in range(c.pick(100, 1000)):
        n = r.choice([3, 5, 8])
        cand = [[1] * n, [r.randint(0, 1) for _ in range(n)]]; out = [[[(s - 1, 2)] if s else [] for s in range(n)], [[(r.randrange(n), 1)] for _ in range(n)]]
        sc = [[r.randrange(n)] for _ in range(r.randint(0, 4))] + [[r.randrange(n), 0]]
        L.append("u%d %s %s -1 %s %d %s" % (k, model(n, cand, out, [0], None), r.choice(["go", "quiet"]), lst([n - 1]), len(sc), " ".join(lst(x) for x in sc)))
    lines = c.run_driver(exe, L, "task")
    c.validate(lines, "T_TaskPlan", "SPECIFICATION TSpec\n", "task planning and execution", cases=L)
    c.assumptions += ["least cost is required when the heuristic never overestimates"]
