INF = 1000000000
def costs_to(n, E, goals):
    d = [INF] * n
    for g in goals: d[g] = 0
    for _ in range(n):
        for (u, v, w, ok) in E:
            if ok and w < INF and d[v] < INF: d[u] = min(d[u], d[v] + w)
    return d
def problem(r, maxn, parallel, kind=None):
    """A random search problem: (n, E, starts, goals, h)."""
    n = r.choice([2, 3, 4, 5, 6, 7, maxn])
    dens = r.choice([0.15, 0.25, 0.4, 0.7])
    wmax = r.choice([0, 1, 2, 4, 9, 30])
    E, seen = [], set()
    for u in range(n):
        for v in range(n):
            if u == v: continue
            for _ in range(2 if parallel and r.random() < 0.15 else 1):
                if r.random() < dens:
                    E.append((u, v, r.randint(0, wmax), 0 if r.random() < 0.15 else 1))
    r.shuffle(E)
    if r.random() < 0.05 and E:
        k = r.randrange(len(E)); E[k] = (E[k][0], E[k][1], INF, E[k][3])
    starts = [(r.randrange(n), r.choice([0, 0, 1, 3, 10])) for _ in range(r.choice([1, 1, 2, 3]))]
    goals = [r.randrange(n) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.85: goals = [g for g in goals if g not in [s for s, _ in starts]] or [g for g in range(n) if g not in [s for s, _ in starts]][:1] or goals
    d = costs_to(n, E, goals)
    hk = r.choice(["zero", "exact", "below", "below", "wild"])
    def hv(v):
        if hk == "zero": return 0
        if hk == "exact": return d[v]
        if hk == "wild": return r.randint(0, 12)
        return r.randint(0, min(d[v], 40))
    h = [hv(v) for v in range(n)]
    return n, E, starts, goals, h
