def perm(r, ident=False):
    if ident: return "0 1 1 1 2 1"
    a = [0, 1, 2]; r.shuffle(a)
    return " ".join("%d %d" % (x, r.choice([1, -1])) for x in a)
def j(v): return " ".join(map(str, v))
