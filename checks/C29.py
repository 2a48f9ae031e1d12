import itertools
def body(c):
    exe = c.build("helpers", omp=False, extra=("-fsanitize=undefined", "-fno-sanitize-recover=undefined"))
    c.model_check("MCHelpers", "SPECIFICATION Spec\nCONSTANTS Max = %d MaxLen = %d Bits = 5\nINVARIANTS Decides\nCHECK_DEADLOCK FALSE\n" % ((3, 4) if c.thorough else (2, 4)), "comparing by counting", heap="8g")
    r = c.rng; ev = []
    def li(v): return "%d %s" % (len(v), " ".join(map(str, v)))
    def pl(m): return "%d %s" % (len(m), " ".join("%d %d" % x for x in m))
    seqs = [s for n in range(4) for s in itertools.product(range(3), repeat=n)]
    for a, b in itertools.product(seqs, seqs):
        if c.thorough or r.random() < 0.5:
            ev.append("subset %d %s %s" % (r.randint(0, 2), li(a), li(b))); ev.append("equal %d %s %s" % (r.randint(0, 2), li(a), li(b)))
    for _ in range(c.pick(400, 8000)):
        a = [r.randint(-3, 3) for _ in range(r.randint(0, 9))]; b = list(a); r.shuffle(b); b = b[:r.choice([len(b), r.randint(0, len(b))])]
        if r.random() < 0.4 and b: b[r.randrange(len(b))] = r.randint(-4, 4)
        ev.append("%s %d %s %s" % (r.choice(["subset", "equal"]), r.randint(0, 2), li(a), li(b)))
    def pairs(): return [(r.randint(-4, 4), r.randint(-9, 9)) for _ in range(r.randint(0, 7))]
    for _ in range(c.pick(600, 8000)):
        m = pairs(); kind = r.randint(0, 1)
        ev.append(r.choice(["keys %d %s" % (kind, pl(m)), "pairs %d %s" % (kind, pl(m)), "make %d %s" % (kind, pl(m)), "get %d %s %d %d" % (kind, pl(m), r.randint(-5, 5), r.randint(-99, 99)),
            "set %d %s" % (kind, li([x for x, _ in m])), "zip %d %s %s" % (kind, li([x for x, _ in m]), li([y for _, y in (m if r.random() < .8 else pairs())]))]))
    ev += ["keys 0 0", "keys 1 0", "pairs 0 0", "make 0 0", "zip 0 0 0", "set 0 0", "get 0 0 1 5", "zip 0 0 1 4", "zip 1 1 4 0"]
    for ty in ("int", "double", "float", "u8"):
        low = 0 if ty == "u8" else -2
        for x, a, b in itertools.product(range(low, 4), repeat=3): ev.append("clamp %s %d %d %d" % (ty, x, a, b))
        for x, a, m, b in itertools.product(range(max(low, -1), 4), repeat=4): ev.append("spread %s %d %d %d %d" % (ty, x, a, m, b))
    for n in (8, 16, 32, 64):
        for p in range(n):
            for b in (0, 1):
                for w in (0, 2 ** n - 1, r.getrandbits(n), 1 << p, r.getrandbits(n)): ev.append("bits %d %d %d %d" % (n, w, p, b))
    words = [w for n in range(4) for w in itertools.product(range(2), repeat=n)]
    for _ in range(c.pick(600, 6000)):
        ev.append("find %d %s" % (r.randint(0, 1), " ".join([str(k := r.randint(0, 3))] + [li([r.randint(0, 1) for _ in range(r.randint(0, 6))]) for _ in range(k)] + [li(r.choice(words))])))
    for ty, lo, hi in (("i8", -128, 127), ("u8", 0, 255), ("i32", -30000, 30000), ("i64", -9000, 9000), ("size", 0, 30000)):
        for _ in range(c.pick(250, 4000)):
            m = r.choice([1, 3, 6, 8, 10]); k = r.choice([0, 2 ** m - 1, r.randrange(2 ** m), r.randrange(2 ** m)])
            a, b = r.choice([lo, hi, 0, r.randint(lo, hi), r.randint(lo, hi)]), r.choice([lo, hi, 1, r.randint(lo, hi), r.randint(lo, hi)])
            if r.random() < .8: a, b = min(a, b), max(a, b)
            if r.random() < .7: ev.append("range %s %d %d %d %d" % (ty, a, b, k, m))
            else: ev.append("index %s %d %d %d" % (ty, r.choice([a, b, 1, 2, 5]), k, m))
    ends = {"i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
    for ty, (lo, hi) in ends.items():
        for a, b in [(lo, hi), (lo, hi - 1), (lo + 1, hi), (lo, lo), (hi, hi), (hi - 7, hi), (lo, lo + 7), (lo, lo + (hi - lo) // 2), (lo + (hi - lo) // 2, hi)] + [tuple(sorted((r.randint(lo, hi), r.randint(lo, hi)))) for _ in range(c.pick(20, 400))]:
            ev.append("wide %s %d %d" % (ty, a, b))
    for at in list(range(0, 70)) + [128, 192, 1000, 1024, 4096, 6144]:
        for a in (1, 2, 3, 4, 8, 16, 32, 64, 128, 4096): ev.append("align %d %d" % (at, a)) if a != 3 else None
    for _ in range(c.pick(200, 3000)): ev.append("hash %d %s" % (r.randint(0, 2 ** 40), li([r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(r.randint(0, 3))])))
    ev += ["hashes 12"] + ["hashed %d %d" % (r.randint(-99, 99), r.randint(-99, 99)) for _ in range(20)]
    n = 60
    L = ["h%d %s" % (k, " ".join(ev[k:k + n])) for k in range(0, len(ev), n)]
    for k, h in enumerate(itertools.product(["fnew", "fdone", "flater"], range(3))):
        start, how = h
        L.append("f%d %s fready fready %s fready fready flater fready fdone fready fnew fready fset %d fready" % (k, start, "fset %d" % how if start == "fnew" else "", how))
    lines = c.run_driver(exe, L, "helpers")
    c.validate(lines, "T_Helpers", "SPECIFICATION TSpec\n", "calls of the helpers", cases=L)
