from checks.search_common import *
def ln(i, n, E, S, G, h, limit, api, hk):
    return "%s %d %d %s %d %s %d %s %d %s %d %d %d" % (i, n, len(E), " ".join("%d %d %d %d" % tuple(e) for e in E), len(S),
        " ".join("%d %d" % tuple(s) for s in S), len(G), " ".join(map(str, G)), len(h), " ".join(map(str, h)), limit, api, hk)
def body(c):
    exe = c.build("astar")
    cfg = "CONSTANTS N = %d Weights = {%s} StartCosts = {%s} HVals = 0..%d WithDuplicateLimit = {TRUE, FALSE} TwoStarts = %s\n"
    c.model_check("AStar", "SPECIFICATION Spec\n" + cfg.replace("0..%d", "{%s}") % c.pick((4, "1,2", "0,2", "0,1", "FALSE"), (4, "1,3", "0,2", "0,1,2,3", "TRUE")) + "INVARIANT AnswerCorrect\n",
                  "best-first search on every small graph", timeout=3000) if c.thorough else \
    c.model_check("AStar", "SPECIFICATION Spec\n" + cfg.replace("0..%d", "{%s}") % (3, "0,1,3", "0,2", "0,1,2,3", "TRUE") + "INVARIANT AnswerCorrect\n",
                  "best-first search on every small graph")
    gen = c.behaviours("GenAStar", "SPECIFICATION GSpec\n" + cfg.replace("0..%d", "{%s}") % (3, "0,1,3", "0,2", "0,1,2,3", "TRUE") + "INVARIANT Emit\n", "all small problems")
    r = c.rng
    L = []
    step = c.pick(3, 1)
    for k, (n, E, S, h, limit) in enumerate(gen[::step]):
        L.append(ln("s%d" % k, n, [e + [1] for e in E], S, [n - 1], h, limit, 0 if len(S) > 1 or S[0][1] else k % 3, k % 3))
    for k in range(c.pick(4000, 40000)):
        api = r.choice([0, 0, 1, 2])
        n, E, S, G, h = problem(r, 12, api == 0)
        if api == 2: S, G = [(S[0][0], 0)], G[:1]
        if api == 2: h = [min(x, y) for x, y in zip(h, costs_to(n, E, G))]
        if r.random() < 0.01 and api < 2: S = []
        E = [(u, v, min(w, 50), ok) for (u, v, w, ok) in E]
        L.append(ln("r%d" % k, n, E, S, G, h, r.randint(0, 1), api, r.choice([0, 0, 1, 2])))
    lines = c.run_driver(exe, L, "astar")
    c.validate(lines, "T_Search", "SPECIFICATION TSpec\n", "A* search", cases=L)
    c.assumptions += ["edge costs, start costs and heuristic values are non-negative integers, heuristics zero at goals when admissible"]
