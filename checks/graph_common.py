def op_tokens(o, deg=1):
    o = list(o)
    if o[0] == "P": return "P %d %d %d %d %s" % (o[1], o[2], deg, len(o[3]), " ".join(map(str, o[3])))
    return " ".join(map(str, o))
MC = """SPECIFICATION MSpec
CONSTANTS Slots = {0, 1, 2, 3} MaxLen = %d MaxNodes = %d Weights = {%s} KeepHist = %s Overlay = %s Pre = %d
%s"""
TRACE = "SPECIFICATION TSpec\nCONSTANTS Slots = {0, 1, 2, 3}\nINVARIANT BothEndsAgree\n"
def pre_tokens(pre):
    s = []
    for k in range(pre):
        s.append("N 0 %d" % k)
        if k: s.append("E 0 %d %d %d" % (k - 1, k, k + 1))
    return s
def random_history(r, overlay, length, maxn):
    """Random operation list; tracks only sizes, to aim indices at the interesting range."""
    ops, size = [], {0: 0}
    def build(s, n):
        for k in range(n):
            ops.append("N %d %d" % (s, r.randint(0, 99))); size[s] += 1
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.randrange(n), r.randrange(n)
            ops.append("%s %d %d %d %d" % (r.choice("EEB"), s, a, b, r.randint(0, 9)))
    build(0, r.randint(1, maxn))
    if overlay:
        ops.append("O 0 2"); size[2] = size[0]
    for _ in range(length):
        live = [s for s in size if (s >= 2 if overlay else s <= 1)]
        # once an overlay of the overlay exists, the one below must stay fixed
        if overlay and 3 in size: live = [3]
        s = r.choice(live); n = size[s]
        ix = lambda: r.choice([r.randrange(n)] * 8 + [n, -1, n + 3]) if n else r.choice([-1, 0, 1])
        k = r.random()
        if k < 0.04: ops.append("M %d %d %d %d %d" % (s, r.randint(0, 99), r.randint(0, 30), r.randint(0, 30), r.randint(0, 5))); size[s] += 1
        elif k < 0.15: ops.append("N %d %d" % (s, r.randint(0, 99))); size[s] += 1
        elif k < 0.40: ops.append("E %d %d %d %d" % (s, ix(), ix(), r.randint(0, 5)))
        elif k < 0.55: ops.append("B %d %d %d %d" % (s, ix(), ix(), r.randint(0, 5)))
        elif k < 0.65: ops.append("V %d %d %d" % (s, ix(), r.randint(100, 199)))
        elif k < 0.72: ops.append("W %d %d %d %d %d" % (s, ix(), r.randint(0, 3), r.randint(0, 9), r.randint(0, 5)))
        elif k < 0.82:
            S = sorted(x for x in range(n) if r.random() < r.choice([0.1, 0.3, 0.6]))
            r.shuffle(S)
            d = r.choice([0, 1]) if not overlay else 1
            ops.append("P %d %d %d %d %s" % (s, d, r.choice([1, 2, 3, 8]), len(S), " ".join(map(str, S)))); size[d] = n - len(S)
        elif k < 0.87:
            if overlay: ops.append("C %d %d" % (s, s))
            else:
                d = r.choice([0, 1]); ops.append("C %d %d" % (s, d)); size[d] = n
        elif k < 0.92:
            if overlay:
                if 3 not in size and r.random() < 0.5: ops.append("O 2 3"); size[3] = size[2]
            else:
                d = r.choice([0, 1]); ops.append("S %d %d %d" % (s, d, r.choice([0, 1, 7]))); size[d] = n
        elif k < 0.96: ops.append("G %d %d" % (s, ix()))
        elif not overlay: ops.append("T %d %d %d %d %d" % (s, r.randint(0, 9), r.randint(0, 3), r.choice([-1, 0, 1, 2, n - 1, n]), r.randint(0, 5)))
    if not overlay and maxn <= 8 and r.random() < 0.3:
        s = r.choice([x for x in size if x <= 1])
        if size[s] <= 6: ops.append("X %d %d" % (s, r.choice([1, 2, 128, 255, r.randint(1, 255)])))
    return ops
