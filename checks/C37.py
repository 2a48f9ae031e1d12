import json, random
def body(c):
    exe = c.build("totp", lib=("time_optimal_trajectory_parametrization",), plain=("math",), opt="-O2", extra=("-fsanitize=address",))
    c.model_check("MCPhasePlane", "SPECIFICATION Spec\nCONSTANTS N = %d Top = %d A = 2\nINVARIANTS Below NeverTooSlow Feasible Fastest Saturated Optimal\nPROPERTIES Finishes\nCHECK_DEADLOCK FALSE\n" % c.pick((5, 5), (6, 6)), "profiles below limit curves", heap="8g")
    r = c.rng; L = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    def case(name, wp, vm, am, dev, scale=0, step=1000, h=None, wrong=0):
        d = len(vm); L.append("%s %d %s %s %s %d %d %d %d %d" % (name, d, li([x for p in wp for x in p]), li(vm), li(am), dev, scale, step, h or 200, wrong))
    def pts(d, n, dup, lo=4):
        out = []
        while len(out) < n:
            p = [r.randint(-lo, lo) for _ in range(d)]
            if out and p == out[-1] and not dup: continue
            if out and dup and r.random() < .2: p = out[-1]
            out.append(p)
        return out
    def lim(d): return [r.randint(1, 8) for _ in range(d)]
    # one segment, every small shape; reversals, corners at rest, straight on, repeats
    for k in range(c.pick(30, 300)):
        d = r.randint(1, 3); case("s%d" % k, pts(d, 2, False), lim(d), lim(d), r.choice([0, 100]), r.choice([0, 0, -1, 1]))
    for k, wp in enumerate([[[0], [4], [0]], [[0], [4], [0], [4]], [[0], [2], [4], [1]], [[0], [0], [3]], [[3], [0], [0]], [[0], [2], [2], [0]], [[1], [1]], [[2]], [[0], [1], [1], [1], [2]]]):
        for dev in (0, 100, 1000): case("l%d_%d" % (k, dev), wp, lim(1), lim(1), dev)
    for k, wp in enumerate([[[0, 0], [4, 0], [4, 4]], [[0, 0], [4, 0], [4, 0], [4, 4]], [[0, 0], [2, 0], [4, 0]], [[0, 0], [4, 0], [0, 0]], [[0, 0], [4, 0], [0, 1]], [[0, 0], [4, 1], [0, 2], [4, 3]], [[0, 0], [4, 4], [4, 4]], [[0, 0], [1, 0], [1, 1], [0, 1], [0, 0]]]):
        for dev in (0, 20, 100, 1000): case("q%d_%d" % (k, dev), wp, lim(2), lim(2), dev)
    for k in range(c.pick(25, 300)):
        d = r.randint(1, 3); case("z%d" % k, pts(d, r.randint(3, 6), r.random() < .3), lim(d), lim(d), 0, r.choice([0, 0, -1, 1]), r.choice([1000, 1000, 2000]))
    for k in range(c.pick(60, 900)):
        d = r.randint(2, 3); case("b%d" % k, pts(d, r.randint(3, 6), r.random() < .3), lim(d), lim(d), r.choice([10, 50, 100, 300, 1000]), r.choice([0, 0, 0, -1, 1]), r.choice([1000, 1000, 500]))
    # many joints, only a few of them turning the corner
    for k in range(c.pick(16, 300)):
        d = r.randint(4, 7); wp = [[0] * d]
        for _ in range(r.randint(2, 4)):
            p = list(wp[-1])
            for q in r.sample(range(d), r.choice([1, 1, 1, 2])): p[q] += r.choice([-5, -3, 3, 5])
            wp.append(p)
        am = [r.choice([1, 2, 4])] * d
        case("m%d" % k, wp, [50] * d if k % 4 else lim(d), am, r.choice([100, 300, 500]))
    for d in (4, 6):
        for q in range(1, d): case("c%d_%d" % (d, q), [[0] * d, [5 * (i == 0) for i in range(d)], [5 * (i in (0, q)) for i in range(d)]], [50] * d, [1] * d, 300, 0, 500)
    # short steps on a grid, where limits coincide: the same paths on every run
    g = random.Random(37)
    for k in range(c.pick(80, 1200)):
        d, step = g.randint(2, 3), g.randint(1, 2); wp = [[0] * d]; n = g.randint(3, 6); same = g.random() < .5
        while len(wp) < n:
            p = [x + step * g.randint(-1, 1) for x in wp[-1]]
            if p != wp[-1]: wp.append(p)
        vm, am = ([g.randint(1, 8)] * d, [g.randint(1, 8)] * d) if same else ([g.randint(1, 8) for _ in range(d)], [g.randint(1, 8) for _ in range(d)])
        case("g%d" % k, wp, vm, am, g.choice([50, 100, 300, 500, 1000]))
    for k, (wp, am, dev) in enumerate([([[1, -1], [3, 1], [5, 1], [7, -1]], 5, 300), ([[0, 0], [1, -1], [2, -1], [3, -2], [2, -3]], 3, 300), ([[0, 0], [-1, -1], [-1, -2], [0, -3]], 5, 300), ([[0, 0, 0], [0, -2, -2], [0, -2, -4], [-2, -2, -6]], 1, 1000), ([[0, 0, 0], [0, 1, -1], [1, 2, -1], [0, 2, -2], [0, 2, -1], [-1, 3, -1]], 3, 300), ([[0, 0], [4, 0], [5, 3]], 4, 500), ([[0, 0], [2, 0], [4, 0], [5, 1], [6, 2]], 4, 1000)]):
        case("y%d" % k, wp, [7] * len(wp[0]), [am] * len(wp[0]), dev)
    for w in range(1, 8): case("w%d" % w, [[0, 0], [2, 1], [0, 3]], [2, 2], [2, 2], 100, wrong=w)
    for x in c.known(): case(x["id"], x["wp"], x["vm"], x["am"], x["dev"])
    lines = c.run_driver(exe, L, "totp")
    made = [json.loads(x) for x in lines]
    def check(which, what): c.validate([l for l, m in zip(lines, made) if which(m)], "T_PhasePlane", "SPECIFICATION TSpec\n", what, cases=L, heap="10g", timeout=2400, want=sum(len(m["pos"]) + 2 for m in made if which(m)))
    check(lambda m: not m["id"].startswith("known"), "trajectories")
    for x in c.known(): c.finding(x, lambda: check(lambda m: m["id"] == x["id"], "recorded finding"))
