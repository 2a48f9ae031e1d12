MC = """SPECIFICATION MSpec
CONSTANTS Slots = {0} M = %d MaxLen = %d Ks = {%s} KeepHist = %s Tables = "%s"
%s"""
TRACE = "SPECIFICATION TSpec\nCONSTANTS Slots = {0}\nINVARIANT BothEndsAgree\n"
def flat(T): return " ".join(str(x) for row in T for x in row)
def tables(r, m, sym):
    """Positions on a grid plus heights: an asymmetric distance with the triangle inequality."""
    sp = r.choice([4, 20, 1000])
    pos = [(r.randint(0, sp), r.randint(0, sp), r.randint(0, sp // 2)) for _ in range(m)]
    up = 0 if sym else r.choice([1, 2, 5])
    D = [[abs(a[0] - b[0]) + abs(a[1] - b[1]) + abs(a[2] - b[2]) * (1 if sym else 0) + up * max(0, b[2] - a[2]) for b in pos] for a in pos]
    p = r.choice([1.0, 0.85, 0.6, 0.3])
    V = valid(r, m, sym, p)
    SV = [1 if r.random() < 0.85 else 0 for _ in range(m)]
    return D, V, SV
def valid(r, m, sym, p):
    V = [[1 if a == b or r.random() < p else 0 for b in range(m)] for a in range(m)]
    if sym:
        for a in range(m):
            for b in range(a): V[a][b] = V[b][a]
    return V
def head(m, D, V, SV): return "%d %s %s %s" % (m, flat(D), flat(V), " ".join(map(str, SV)))
def lst(x): return "%d %s" % (len(x), " ".join(map(str, x)))
def common(r, sym, dup=None, K=None, n=6):
    # the symmetric flag may only be given when the tables are symmetric
    s = 1 if sym and r.random() < 0.7 else 0
    return "%d %d %d %d %d" % (r.choice([1, 1, 2, 3, 4, 8]), r.choice([1, 1, 2, 3]), s, r.randint(0, 1) if dup is None else dup,
                               K if K is not None else r.choice([1, 2, 3, 5, n, 20]))
def op_A(r, m, sym, dup=None): return "A %s %d %d %d" % (common(r, sym, dup), r.choice([r.randrange(m)] * 3 + [-1 - r.randrange(9)]), r.randint(0, 1), r.choice([-1, -1, -1, r.randint(0, 4)]))
def op_B(r, m, sym):
    N = r.choice([0, 1, 2, 4, 6, 9, -1] if r.random() < 0.1 else [1, 2, 4, 6, 9, 12])
    tries = r.choice([1, 2, 4, 12, 12, 12] if r.random() < 0.95 else [0, -1])
    smp = [r.randrange(m) for _ in range(max(1, abs(N)) * max(1, tries) + 2)]
    return "B %s %d %d %d %s" % (common(r, sym, None, r.choice([1, 2, 3, 4, 8] if r.random() < 0.97 else [0, -1])), N, tries, r.randint(0, 1), lst(smp))
