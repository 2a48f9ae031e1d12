from checks.search_common import *
def ln(i, n, E, S, G, h, limit, api, src, type_, extra):
    return "%s %d %d %s %d %s %d %s %d %s %d %d %d %d %d %s" % (i, n, len(E), " ".join("%d %d %d %d" % tuple(e) for e in E), len(S),
        " ".join("%d %d" % tuple(s) for s in S), len(G), " ".join(map(str, G)), len(h), " ".join(map(str, h)), limit, api, src, type_, len(extra), " ".join(map(str, extra)))
def body(c):
    exe = c.build("gsearch")
    cfg = "CONSTANTS N = %d Weights = {%s} StartCosts = {%s} HVals = {%s} WithDuplicateLimit = {TRUE, FALSE} TwoStarts = %s\n"
    c.model_check("AStar", "SPECIFICATION Spec\n" + cfg % c.pick((3, "0,1,2", "0", "0,1,2", "TRUE"), (4, "1,2", "0", "0,1", "FALSE")) + "INVARIANT AnswerCorrect\n",
                  "best-first search on every small graph", timeout=3000)
    c.model_check("DijkstraModel", "SPECIFICATION Spec\nCONSTANTS N = %d Weights = {%s}\nINVARIANT Correct\n" % c.pick((3, "0,1,2"), (4, "1,2")), "label-setting search on every small graph", timeout=3000)
    gen = c.behaviours("GenAStar", "SPECIFICATION GSpec\n" + cfg % (3, "0,1,2", "0", "0,1,2", "TRUE") + "INVARIANT Emit\n", "all small problems")
    r = c.rng
    L = []
    for k, (n, E, S, h, limit) in enumerate(gen[::c.pick(5, 1)]):
        L.append(ln("s%d" % k, n, [e + [1] for e in E], S, [n - 1], h, limit, k % 4, k % n, (k // 4) % 3, [k % 3]))
    for k in range(c.pick(3500, 40000)):
        api = r.choice([0, 1, 2, 3])
        n, E, S, G, h = problem(r, 12, api in (0,))
        if api == 0: E = [(u, v, w, 1) for (u, v, w, _) in E]; h = [min(a, b) for a, b in zip(h, costs_to(n, E, G))]
        if api: E = [(u, v, w, ok if w < INF else 0) for (u, v, w, ok) in E]
        if r.random() < 0.02: S = S + [(r.choice([-1, n, n + 3]), 0)] if api < 3 else S
        if r.random() < 0.02: G = G + [r.choice([-1, n])]
        if any(g not in range(n) for g in G) and api == 3: G = [g for g in G if g in range(n)]
        if r.random() < 0.01: S = []
        src = r.choice([r.randrange(n)] * 20 + [-1, n])
        L.append(ln("r%d" % k, n, E, S, G, h, r.randint(0, 1), api, src, r.choice([0, 0, 1, 1, 2, 3]), [r.randrange(n) for _ in range(r.randint(0, 3))]))
    lines = c.run_driver(exe, L, "gsearch")
    c.validate(lines, "T_Search", "SPECIFICATION TSpec\n", "graph search", cases=L)
    c.assumptions += ["edge weights are non-negative integers or infinity (an infinite weight marks an unusable edge; callers of the lazy search report such an edge as invalid)"]
