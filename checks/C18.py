import json, subprocess
J = lambda v: " ".join(map(str, v))
def body(c):
    exe = c.build("serial", lib=("serialization",), opt="-O0", extra=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"))
    MC = "SPECIFICATION Spec\nCONSTANTS HDR = 1 MaxWrites = %d Rich = %s\nINVARIANTS ReadsBack CutIsRefused\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCCodec", MC % (2, "FALSE"), "two values one after another")
    c.model_check("MCCodec", MC % (1, "TRUE"), "nested containers")
    if c.thorough: c.model_check("MCCodec", MC % (2, "TRUE"), "two values, nested containers", heap="8g")
    T = json.loads(subprocess.run([exe, "--types"], capture_output=True, text=True, check=True).stdout)
    names = sorted(T); r = c.rng; L = []
    def leaf(n, name, small):
        if name == "hbool" or name == "hvbool": return [r.randint(0, 1)]
        if small: return [0] * (n - 1) + [r.randint(0, 3)]
        return [r.choice([0, 0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
    def num(k): return [0] * 6 + [k // 256, k % 256]
    o = lambda net, s: s if net else s[::-1]
    # value -> (tokens, bytes, offsets of low bytes of counts)
    def gen(ty, name, depth=0, key=False):
        k = ty[0]
        if k == "leaf":
            v = leaf(ty[1], name, key and r.random() < 0.7); return v, o(ty[2], v), []
        def many(items, pre, net):
            t, b, hs = list(pre), [], []
            for p in pre:
                hs.append(len(b) + (7 if net else 0)); b += o(net, num(p))
            for it in items: hs += [len(b) + h for h in it[2]]; t += it[0]; b += it[1]
            return t, b, hs
        size = r.choice([0, 1, 1, 2, 3] if depth else [0, 1, 2, 3, 5, 8])
        if k == "vec":
            if depth == 0 and ty[1][0] == "leaf" and r.random() < 0.02: size = r.choice([255, 256, 257, 300]) // ty[1][1]
            return many([gen(ty[1], name, depth + 1) for _ in range(size)], [size], ty[2])
        if k in ("set", "mset"):
            its = {} if k == "set" else []
            for _ in range(size):
                g = gen(ty[1], name, depth + 1, True)
                if k == "set": its.setdefault(tuple(g[1]), g)
                else: its.append(g)
            its = list(its.values()) if k == "set" else its
            return many(its, [len(its)], ty[2])
        if k == "map":
            its = {}
            for _ in range(size):
                a, b = gen(ty[1], name, depth + 1, True), gen(ty[2], name, depth + 1)
                its.setdefault(tuple(a[1]), many([a, b], [], False))
            return many(list(its.values()), [len(its)], ty[3])
        if k == "pair": return many([gen(ty[1], name, depth + 1, key), gen(ty[2], name, depth + 1, key)], [], False)
        if k == "fix": return many([gen(ty[1], name, depth + 1) for _ in range(ty[2])], [], False)
        R, K = (r.choice([0, 1, 2, 3]) for _ in "rk")
        return many([gen(ty[1], name, depth + 1) for _ in range(R * K)], [R, K], ty[2])
    def hashed(n): return n in ("humap", "numap", "huset")
    def haskind(ty, ks): return isinstance(ty, list) and (ty[0] in ks or any(haskind(x, ks) for x in ty[1:]))
    NET = [n for n in names if n.startswith("n") and T[n][0] == "leaf"]; PLAIN = [n for n in names if T[n][0] in ("leaf", "fix") and n != "hbool"]
    for k in range(c.pick(2500, 30000)):
        ops, recs, n, heads = [], [], 0, []
        for _ in range(r.randint(1, 4) if k >= len(names) else 1):
            nm = names[k] if k < len(names) else r.choice(names); t, b, hs = gen(T[nm], nm)
            if recs and n + len(b) > 900: continue
            ops.append("ser %s %s" % (nm, J(t))); recs.append((nm, n, len(b)))
            if not (hashed(nm) or haskind(T[nm], ("map", "set"))) or k % 2: heads += [(n + h, nm) for h in hs[:1 if haskind(T[nm], ("map", "set", "mset")) else None]]
            n += len(b)
            if r.random() < 0.15: ops.append("empty %s" % nm)
        for nm, at, ln in recs: ops.append("de %s %d" % (nm, at))
        nm, at, ln = recs[-1]
        if ln < 200: ops.append("cuts %s %d %d %d" % (nm, at, max(0, at - 1), n))
        else: ops.append("cuts %s %d %d %d" % (nm, at, n - 20, n))
        if r.random() < 0.4: ops.append("de %s %d" % (r.choice(PLAIN), r.choice([0, n, n - 1, n + 1, r.randint(0, n + 8)])))
        if r.random() < 0.5:   # a count that was changed, then reading again
            for _ in range(r.randint(1, 2)):
                if heads:
                    h, nm = r.choice(heads); rec = [x for x in recs if x[1] <= h < x[1] + x[2]][0]
                    if nm in ("hvbool",): continue
                    ops.append("poke %d %d" % (h, r.choice([0, 1, 2, 3, 4, 5, 9, 255])))
                    # once a count is changed, other counts of nested items may be read elsewhere
                    if haskind(T[nm][1], ("vec", "set", "mset", "map", "mat")) or T[nm][0] in ("pair",) or (T[nm][0] == "map" and haskind(T[nm][2], ("vec", "set", "mset", "map", "mat"))): ops.pop()
                    else: ops.append("de %s %d" % (nm, rec[1]))
        elif r.random() < 0.5:
            for _ in range(2):
                x = r.choice(NET); ops.append("inp %s %d %s" % (x, r.choice([0, n, max(0, n - T[x][1]), max(0, n - T[x][1] + 1), r.randint(0, n + 2)]), J(leaf(T[x][1], x, 0))))
                ops.append("de %s %d" % (r.choice(PLAIN), r.randint(0, n)))
        L.append("s%d %s" % (k, " ".join(ops)))
    for k in range(c.pick(6, 40)):
        L.append("b%d bigs %d %d %d" % (k, [255, 256, 65535, 65536, 70001, 131072][k] if k < 6 else r.randint(200, 200000), r.choice([0, 3]), r.randint(0, 10 ** 9)))
    lines = c.run_driver(exe, L, "ser")
    c.validate(lines, "T_Codec", "SPECIFICATION TSpec\nCONSTANT HDR = 8\n", "write/read histories", cases=L)
