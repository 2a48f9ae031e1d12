PROPS = {0: [], 1: [(5, -1)], 2: [(5, -1), (6, 0)], 3: [(5, -1), (6, -1)], 4: [(5, -1), (6, 0), (7, 0)], 5: [(5, -2), (6, 1)], 6: [(5, 0)]}
TREES = {1: [(1, -1)], 2: [(1, -1), (2, 0)], 3: [(1, -1), (2, -1)]}
def tree(T): return "%d %s" % (len(T), " ".join("%d %d" % x for x in T))
def lst(x): return "%d %s" % (len(x), " ".join(map(str, x)))
def prop(P): return "%d %s" % (len(P), " ".join("%d %d" % tuple(x) for x in P))
def rand_tree(r, n, lo=1):
    T = []
    for i in range(n): T.append((r.randint(lo, lo + 8), r.randint(0, i - 1) if i and r.random() < 0.75 else -1))
    return T
def rand_prop(r, lo=1, bad=0.02):
    n = r.choice([0, 0, 1, 1, 1, 2, 3, 5])
    P = []
    for j in range(n):
        z = r.random()
        P.append((r.randint(lo, lo + 12), -1 if z < 0.3 else -2 if z < 0.33 else (j - 1 if z < 0.7 else r.randint(-1, j - 1))))
    if n and r.random() < bad: P[r.randrange(n)] = (3, n + 1)
    return P
# what the callbacks do to the trees, in turn: nothing, change the new state, add a root or a child, regrow
def edits(r):
    if r.random() < 0.5: return "0"
    kinds = r.choice([(0, 1), (0, 2, 3), (0, 1, 2, 3, 4), (4,), (1,)])
    E = [(r.choice(kinds), r.randint(1, 30), r.randint(0, 40)) for _ in range(r.randint(1, 5))]
    if all(k in (2, 3, 4) for k, _, _ in E): E.append((0, 0, 0))  # the first look at the tree has to end
    return "%d %s" % (len(E), " ".join("%d %d %d" % e for e in E))
def helper_cases(c, only):
    r = c.rng; L = []
    def gen(op):
        if op == "stype" or op == "sact": return "%s %d %d" % (op, r.choice([0, 1, 16, 32, 33, 63, 64, -1, 65, r.randint(0, 64)]), r.randint(0, 1))
        if op == "tsamp": return "tsamp %d" % r.choice([0, 1, 2, 3, 5, 8, 16])
        if op == "goals":
            G = [r.randint(1, 99) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]; us = [r.randint(0, 63) for _ in range(r.randint(3, 12))]
            return "goals %d %s %s %d" % (r.choice([0, 8, 32, 32, 64, -1, 65]), lst(G), lst(us), r.randint(1, 12))
        if op == "near": return "near %d %d %d %s" % (r.randrange(3), r.choice([1, 1, 2, 3, 8]), r.randint(-20, 20), lst([r.randint(-20, 20) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 17, 33]))]))
        if op == "prop":
            a, b = r.randint(-40, 40), r.randint(-40, 40)
            return "prop %d %d %d %d %s" % (r.randrange(4), a, b if r.random() < 0.95 else a, r.choice([1, 2, 3, 4, 5, 7, 8, 8, 16, 100, 0, -3]), lst([r.randint(-40, 40) for _ in range(r.choice([0, 0, 1, 1, 3]))]))
        return "time"
    ops = [o for o in only if o != "time"]
    for k in range(c.pick(300, 3000)): L.append("h%d help %s" % (k, " ".join(gen(r.choice(ops)) for _ in range(6))))
    if "time" in only: L += ["t%d help time" % k for k in range(4)]
    return L
HELP = "SPECIFICATION TSpec\n"
