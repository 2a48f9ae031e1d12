def nodes(N): return "%d %s" % (len(N), " ".join("%d %d %d %s" % (v, p, len(ch), " ".join(map(str, ch))) for v, p, ch in N))
def rand_nodes(r, n, damage):
    N = []
    for i in range(n):
        p = r.randint(-1, i - 1)
        N.append([r.randint(0, 9), p if p >= 0 else r.choice([-1, -1, -1, -5]), []])
        if p >= 0: N[p][2].append(i)
    for nd in N: r.shuffle(nd[2])
    for _ in range(damage):
        i = r.randrange(n) if n else 0
        if not n: break
        k = r.randrange(6)
        if k == 0: N[i][1] = r.randint(-2, n + 1)
        elif k == 1 and N[i][2]: N[i][2].pop(r.randrange(len(N[i][2])))
        elif k == 2: N[i][2].append(r.randint(-1, n + 1))
        elif k == 3 and N[i][2]: N[i][2][r.randrange(len(N[i][2]))] = r.randint(-1, n)
        elif k == 4:
            j = r.randrange(n); N[i], N[j] = N[j], N[i]
        else:
            j = r.randrange(n); N[i][1] = j; N[j][2].append(i)
    return N
def body(c):
    exe = c.build("rrt")
    MC = "SPECIFICATION MSpec\nCONSTANTS Vals = {%s} MaxLen = %d MaxSize = %d Arrays = %d Mode = \"%s\"\n%s"
    inv = "INVARIANT AlwaysLinked FollowsFromLinked CheckIsLinked\n"
    c.model_check("MCPlannerTree", MC % ("0", 0, 0, 3, "arrays", inv), "every node array of three nodes")
    c.model_check("MCPlannerTree", MC % ("0", c.pick(4, 5), 4, 3, "hist", inv), "edit histories")
    beh = c.behaviours("MCPlannerTree", MC % ("0,1", 3, 3, 3, "hist", "INVARIANT Emit\n"), "all short tree histories")
    r = c.rng
    L = []
    for k, h in enumerate(beh):
        if not c.thorough and k % 4: continue
        ops = []
        for o in h:
            ops.append({"add": lambda: "add 0 %d" % o[1], "con": lambda: "con 0 %d %d" % (o[1], o[2]),
                        "val": lambda: "val 0 %d %d" % (o[1], o[2]), "clr": lambda: "clr 0"}[o[0]]())
        L.append("s%d tree %s chk 0 ser 0 1 %d path 0 %d" % (k, " ".join(ops), k % 3, k % 4))
    # every array of two nodes, in batches
    subs = [[], [0], [1], [2], [0, 1], [0, 2], [1, 2], [1, 1], [-1]]
    arrs = [[[0, p, a], [1, q, b]] for p in range(-2, 3) for q in range(-2, 3) for a in subs for b in subs]
    for k in range(0, len(arrs), 25):
        L.append("a%d tree %s" % (k, " ".join("lnk " + nodes(N) for N in arrs[k:k + 25])))
    for k in range(c.pick(2500, 30000)):
        ops = []
        for _ in range(r.randint(3, 14)):
            s = r.randrange(3); z = r.random()
            if z < 0.12: ops.append("add %d %d" % (s, r.randint(0, 9)))
            elif z < 0.45: ops.append("con %d %d %d" % (s, r.randint(0, 9), r.choice([0, 0, 1, 2, 3, 4, 5, -1])))
            elif z < 0.5: ops.append("val %d %d %d" % (s, r.randint(-1, 5), r.randint(0, 9)))
            elif z < 0.52: ops.append("clr %d" % s)
            elif z < 0.58: ops.append("cpy %d %d %d" % (s, r.randrange(3), r.randrange(3)))
            elif z < 0.64: ops.append("ser %d %d %d" % (s, r.randrange(3), r.choice([0, 0, 1, 5, 8])))
            elif z < 0.67: ops.append("dmg %d %d" % (s, r.choice([1, 2, 8, 9, 20, 1000])))
            elif z < 0.82: ops.append("%s %d %s" % (r.choice(["set", "new", "dsr"]), s, nodes(rand_nodes(r, r.randint(0, 7), r.choice([0, 0, 1, 1, 2])))))
            elif z < 0.88: ops.append("lnk " + nodes(rand_nodes(r, r.randint(1, 9), r.choice([0, 1, 1, 2, 3]))))
            elif z < 0.92: ops.append("path %d %d" % (s, r.randint(-1, 6)))
            elif z < 0.94: ops.append("paths %d %s" % (s, "%d %s" % (3, " ".join(str(r.randint(0, 9)) for _ in range(3)))))
            elif z < 0.97:
                ch = r.sample(range(8), r.randint(0, 4))
                ops.append("raw %s %d %d %d %s %d" % (r.choice(["ac", "rc", "cc", "sp"]), r.randint(0, 9), r.randint(-1, 5), len(ch), " ".join(map(str, ch)), r.randint(-1, 8)))
            else: ops.append("chk %d" % s)
        L.append("r%d tree %s" % (k, " ".join(ops)))
    lines = c.run_driver(exe, L, "tree")
    c.validate(lines, "T_PlannerTree", "SPECIFICATION TSpec\nINVARIANT TreesLinked TreesFollow\n", "planner tree histories", cases=L)
