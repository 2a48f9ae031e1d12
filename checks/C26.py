import base64, itertools
def body(c):
    exe = c.build("packed", lib=("zlib_helpers", "base64_helpers"), san=False)
    asan = c.build("packed_asan", src="packed", lib=("zlib_helpers", "base64_helpers"))
    c.model_check("MCBytes64", "SPECIFICATION Spec\nCONSTANTS ByteSet = {0,63,64,165,255} MaxLen = %d\nINVARIANTS Prefix Whole Alphabet\nCHECK_DEADLOCK FALSE\n" % c.pick(5, 7), "encoding byte by byte", heap="4g")
    for n, b in ((0, 2), (1, 1), (4, 2), (5, 2), (6, 3), (3, 5)) + (((9, 3), (10, 4)) if c.thorough else ()):
        c.model_check("MCStream", "SPECIFICATION Spec\nCONSTANTS N = %d B = %d\nINVARIANTS All CutIsError WholeIsFine\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (n, b), "compression loops, %d items, buffer %d" % (n, b))
    r = c.rng; L = []; A = []
    lst = lambda x: "list %d %s" % (len(x), " ".join(map(str, x)))
    dec = lambda x: "dec %s %s" % (lst(x), lst(base64.b64encode(bytes(x)))) + (" dec %s %s" % (lst(x), lst(base64.b64encode(bytes(x)).rstrip(b"="))) if len(x) % 3 else "")
    # base64: all strings of one and two bytes (sampled), and of up to eight
    two = list(itertools.product(range(256), repeat=2)) if c.thorough else [(r.randrange(256), r.randrange(256)) for _ in range(2500)]
    short = [[]] + [[x] for x in range(256)] + [list(x) for x in two] + [[r.choice([0, 62, 63, 64, 127, 128, 250, 255, r.randrange(256)]) for _ in range(r.randint(3, 40))] for _ in range(c.pick(1500, 20000))]
    for i in range(0, len(short), 20):
        A.append("e%d %s" % (i, " ".join("enc %s %s" % (lst(x), dec(x)) for x in short[i:i + 20])))
    small = lambda: lst([r.choice([0, 0, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 10, 39, 41, 100]))])
    MB = 1024 * 1024
    # sizes around the size of the internal buffer, for input and output
    for n, k in enumerate([0, 1, MB - 1, MB, MB + 1, 2 * MB, 2 * MB + 1, 3 * MB, 1048000, 1048241, 1048256] + [r.randint(1, 4 * MB) for _ in range(c.pick(6, 60))]):
        for kind in (0, 1, 2, 3): L.append("p%d.%d pack gen %d %d %d peerpack gen %d %d %d %d" % (n, kind, kind, k, r.randint(0, 10 ** 6), kind, k, r.randint(0, 10 ** 6), r.choice([0, 1, 6, 9])))
    # sizes whose compressed form comes close to a multiple of the buffer size (stored blocks)
    base = 1048576 - 11 - 5 * 17
    for d in range(-c.pick(40, 400), 60, c.pick(7, 1)): L.append("q%d pack gen 0 %d %d" % (d, base + d, r.randint(0, 10 ** 6)))
    for n in range(c.pick(400, 6000)):
        ops = []
        for _ in range(4):
            v = small() if r.random() < 0.8 else "gen %d %d %d" % (r.randint(0, 3), r.randint(0, 5000), r.randint(0, 10 ** 6))
            ops += ["pack " + v, "cut %s %d" % (v, 1 if v.startswith("list") else 97), "spoil %s %d %d" % (v, r.randint(0, 10 ** 6), r.randint(0, 10 ** 6)), "spoil %s %d %d" % (v, r.randint(0, 6), r.randint(0, 10 ** 6)), "peerpack %s %d" % (v, r.randint(0, 9))]
        A.append("s%d %s" % (n, " ".join(ops)))
    def hist(n):
        ops = []
        for _ in range(n):
            i = r.randint(1, 3)
            v = small() if r.random() < 0.7 else "gen %d %d %d" % (r.randint(0, 3), r.choice([200, 3000, 70000, 300000]), r.randint(0, 10 ** 6))
            ops.append(r.choice(["write %d %s" % (i, v)] * 4 + ["load %d" % i] * 4 + ["remove %d" % i, "cutfile %d %d" % (i, r.choice([0, 1, 3, 4, r.randint(0, 999)])), "spoilfile %d %d %d" % (i, r.randint(0, 9999), r.randint(0, 254)), "loadno %d" % r.randint(0, 3), "writeno %d %d %s" % (r.randint(0, 4), i, v)]))
        return ops + ["load 1", "load 2", "load 3"]
    for n in range(c.pick(500, 8000)): L.append("f%d %s" % (n, " ".join(hist(r.randint(2, 12)))))
    lines = c.run_driver(exe, L, "packed")
    lines += c.run_driver(asan, A, "packeda")
    c.validate(lines, "T_Packed", "SPECIFICATION TSpec\n", "encoded, compressed and stored bytes", cases=L + A)
