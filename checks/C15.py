from checks.grid_common import perm, j
ID = "0 1 1 1 2 1"
def body(c):
    exe = c.build("grid", lib=("serialization",))
    MC = "SPECIFICATION MSpec\nCONSTANTS Vals = {%s} MaxLen = %d KeepHist = %s\n%s"
    c.model_check("MCVoxelMap", MC % ("1,2", c.pick(5, 7), "FALSE", "INVARIANT ReadsLastWrite\n"), "histories over two grids of two cells")
    beh = c.behaviours("MCVoxelMap", MC % ("2" if not c.thorough else "2,3", 3, "TRUE", "INVARIANT Emit\n"), "all short histories")
    r = c.rng; L = []
    forms = ["i", "g", "x", "3", "4"]
    for k, h in enumerate(beh):
        if not c.thorough and (k + c.seed) % 6: continue
        d, raw = h[0]
        ops = ["new %d 2 1 1 16 16 16 %s 0 0 0 1 9 %s %d %d" % (s, ID, "1 1 0 0" if d else "0", raw, k % 2) for s in (0, 1)]
        for o in h[1:]:
            f = forms[(k + len(ops)) % 5]
            at = lambda i: j(i) if f in "ig" else j([16 * i[0] + 8, 8, 8])
            if o[0] == "set": ops.append(("set %d %s %s %d %d" if len(ops) % 2 else "mut %d %s %s %d") % ((o[1], f, at(o[2]), o[3]) + ((k % 2,) if len(ops) % 2 else ())))
            elif o[0] == "raw": ops.append("%s %d %d %d 0" % ("rset" if k % 2 else "rmut", o[1], o[2][0], o[3]))
            elif o[0] == "fill": ops.append("fill %d %d" % (o[1], o[2]))
            else: ops.append("%s %d %d %d" % ("copy" if k % 3 else "save", o[1], 1 - o[1], k % 4))
        L.append("s%d p %s" % (k, " ".join(ops)))
    for k in range(c.pick(1200, 15000)):
        kind = r.choice("pppfdw"); ops = []; info = [None, None]
        def new(s):
            n = [r.choice([1, 1, 2, 3, 4, 5]) for _ in range(3)]
            while n[0] * n[1] * n[2] > 40: n[r.randrange(3)] = 1
            cs = [r.choice([1, 2, 4, 8, 16, 32]) for _ in range(3)] if r.random() < 0.7 else [r.choice([4, 16])] * 3
            how = r.randrange(6) if kind in "fw" else r.randrange(4)
            pose, t = perm(r, r.random() < 0.3), [r.randint(-100, 100) for _ in range(3)]
            if info[s] and r.random() < 0.5:   # once more, much as it was
                was = info[s]; what = r.randrange(7); how = 1
                if what & 1: pose = was["pose"]
                if what & 2: t = was["t"]
                if what & 4 and min(was["cs"]) > 1: n, cs = was["n"], was["cs"]
            if how in (2, 3, 5):
                cs = [max(2, x) for x in cs]; pose, t = ID, [-n[q] * cs[q] // 2 for q in range(3)]
            deny = []
            if kind not in "fw":
                for _ in range(r.choice([0, 1, 2, 4])): deny.append([r.randint(0, n[q] - 1) for q in range(3)])
            info[s] = dict(n=n, cs=cs, pose=pose, t=t)
            return "new %d %s %s %s %s %d %d %d %s %d %d" % (s, j(n), j(cs), pose, j(t), r.randint(0, 9), r.randint(0, 9), len(deny), " ".join(j(d) for d in deny), r.random() < 0.75, how)
        def point(s):
            g = info[s]; n, cs = g["n"], g["cs"]
            p = [r.choice([-1, 0, 0, x - 1, x, r.randrange(x), r.randrange(x)]) * cs[q] + r.choice([0, r.randrange(cs[q]), cs[q] - 1]) for q, x in enumerate(n)]
            P = list(map(int, g["pose"].split()))
            return [P[2 * q + 1] * p[P[2 * q]] + g["t"][q] for q in range(3)]
        def index(s): return [r.choice([-1, x, 0, x - 1, r.randrange(x), r.randrange(x), r.randrange(x)]) if r.random() < 0.5 else r.randrange(x) for x in info[s]["n"]]
        for _ in range(r.randint(4, 16)):
            s = r.randrange(2); z = r.random(); g = info[s]
            if g is None:
                if r.random() < 0.85: ops.append(new(s))
                elif r.random() < 0.5: ops.append("get %d i 0 0 0" % s)
                else: ops.append("%s %d %s" % (r.choice(["rget", "save"]), s, "0" if ops and False else ("0" if False else "0"))) if False else ops.append("set %d g 0 0 0 1 0" % s)
                continue
            if r.random() < 0.25: ops.append("own %d" % r.choice([-1, -2, 0, r.randrange(40)]))
            tot = g["n"][0] * g["n"][1] * g["n"][2]; f = r.choice(forms); at = index(s) if f in "ig" else point(s); v = r.randint(0, 9)
            if z < 0.09: ops.append(new(s))
            elif z < 0.15: ops.append("get %d %s %s" % (s, f, j(at)))
            elif z < 0.40: ops.append("set %d %s %s %d %d" % (s, f, j(at), v, r.randint(0, 1)))
            elif z < 0.57: ops.append("mut %d %s %s %d" % (s, f, j(at), v))
            elif z < 0.60: ops.append("rget %d %d" % (s, r.choice([-1, tot, r.randrange(tot)])))
            elif z < 0.66: ops.append("%s %d %d %d %d" % (r.choice(["rset", "rmut"]), s, r.choice([-1, tot, r.randrange(tot), r.randrange(tot), r.randrange(tot)]), v, r.randint(0, 1)))
            elif z < 0.69:
                m = r.choice([tot, tot, tot, tot - 1, tot + 1]); ops.append("rall %d %d %s" % (s, m, j([r.randint(0, 9) for _ in range(m)])))
            elif z < 0.71: ops.append("rref %d %d" % (s, v))
            elif z < 0.74: ops.append("fill %d %d" % (s, v))
            elif z < 0.76: ops.append("fdef %d" % s)
            elif z < 0.78: ops.append("ndef %d %d" % (s, v))
            elif z < 0.80: ops.append("sdef %d %d" % (s, v))
            elif z < 0.82: ops.append("soob %d %d" % (s, v))
            elif z < 0.86:
                what = r.randrange(4); g = info[s] = dict(g, pose=g["pose"] if what == 1 else perm(r), t=g["t"] if what == 2 else [r.randint(-64, 64) for _ in range(3)]); ops.append("pose %d %s %s" % (s, g["pose"], j(g["t"])))
            elif z < 0.88:
                m = r.choice([0, 1, 2]); ops.append("deny %d %d %s %d" % (s, m, " ".join(j([r.randrange(x) for x in g["n"]]) for _ in range(m)), r.randint(0, 1)))
            elif z < 0.93:
                d = r.randrange(2); how = r.randrange(4) if d != s else r.choice([0, 1, 2]); ops.append("copy %d %d %d" % (s, d, how)); info[d] = info[s]
            elif z < 0.98:
                d = r.randrange(2); ops.append("save %d %d %d" % (s, d, r.choice([0, 1, 4, 7]))); info[d] = info[s]
            elif z < 0.99: ops.append("cut %d %d" % (s, r.choice([1, 2, 8, 20, 100])))
            else: ops.append("spoil %d %d" % (s, r.choice([1, 2, 3, 128, 255, r.randint(1, 255)])))
        L.append("r%d %s %s" % (k, kind, " ".join(ops)))
    lines = c.run_driver(exe, L, "grid")
    c.validate(lines, "T_VoxelMap", "SPECIFICATION TSpec\n", "voxel grid histories", cases=L)
