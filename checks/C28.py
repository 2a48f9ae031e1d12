import itertools, os, subprocess
def body(c):
    exe, par = c.build_all([dict(name="atomic", omp=False), dict(name="atomic_par", omp=False, san=False, extra=("-fsanitize=thread", "-g"))])
    for what, (th, ops, n) in {"two threads": (2, 2, 0), "three threads": (3, 1, 0), "values that wrap": (2, 2, 3)}.items():
        if c.thorough: ops += 1 if th == 2 else 0
        c.model_check("MCAtomics", "SPECIFICATION Spec\nCONSTANTS Threads = %d Ops = %d Cells = 2 Lo = 0 N = %d Split = FALSE\nINVARIANTS Explained RealOne NothingLost\nCHECK_DEADLOCK FALSE\n" % (th, ops, n), "accesses of " + what, heap="12g")
    r = c.rng; L = []
    # one thread: every history of two operations on two cells around a few values, then looking at all
    def look(): return " ".join("load %d -1" % i for i in (1, 2, 3, 4))
    two = ["load 1 -1", "store 1 5 -1", "add 1 100 -1", "sub 1 100 -1", "add 1 -1 4", "cctor 1 3", "mctor 1 2", "cassign 1 2", "cassign 1 1", "massign 1 3", "massign 1 1", "cctor 3 1", "cassign 3 1", "massign 4 3", "mctor 3 4", "cassign 3 3", "massign 3 3", "def 1", "new 3 7", "store 3 3 0", "add 3 100 0", "cctor 1 1", "mctor 4 4"]
    for n, (a, b) in enumerate(itertools.product(two, two)):
        L.append("s%d s %s new 1 100 new 2 -3 new 3 60 new 4 1 %s %s %s" % (n, ("i8", "u8", "i64")[n % 3], a, b, look()))
    for n in range(c.pick(250, 5000)):
        kind = r.choice(["i8", "u8", "i64", "bool"]); ops = []
        for _ in range(r.randint(3, 40)):
            i, j = r.randint(1, 4), r.randint(1, 4)
            v = r.randint(0, 1) if kind == "bool" else r.choice([0, 1, -1, 127, -128, r.randint(-128, 127)])
            if kind == "u8" or kind == "bool": v = abs(v)
            o = r.choice([-1, -1, 0, 1, 2, 3, 4]); op = r.choice(["load"] * 3 + ["store"] * 2 + ([] if kind == "bool" else ["add", "sub", "add", "sub"]) + ["cctor", "mctor", "cassign", "massign", "new", "def"])
            if op == "load": ops.append("load %d %d" % (i, o))
            elif op in ("store", "add", "sub"): ops.append("%s %d %d %d" % (op, i, v, o))
            elif op == "new": ops.append("new %d %d" % (i, v))
            elif op == "def": ops.append("def %d" % i)
            else: ops.append("%s %d %d" % (op, i, j))
        L.append("r%d s %s %s" % (n, kind, " ".join(ops) + " " + look()))
    lines = c.run_driver(exe, L, "alone")
    c.validate(lines, "T_Atomics", "SPECIFICATION TSpec\n", "operations of one thread", cases=L)
    # every order of accesses
    one = ["load 1 1 0", "store 1 1 3", "add 1 1 1", "sub 1 1 2", "cctor 1 1 0", "mctor 1 1 0", "xctor 1 1 0", "cassign 1 2 0", "massign 1 2 0", "cassign 2 1 0", "cassign 1 1 0", "massign 1 1 0", "cassign 1 3 0", "massign 1 3 0", "cassign 3 1 0", "add 3 3 1", "add 2 2 5", "load 2 2 0", "xctor 3 3 0", "cassign 3 3 0"]
    L = []
    progs = [[[a], [b]] for a, b in itertools.combinations_with_replacement(one, 2)]
    progs += [[["add 1 1 1", a], [b, "add 1 1 2"]] for a, b in itertools.product(one, one)]
    for _ in range(c.pick(150, 3000)):
        progs.append([[r.choice(one + ["add 1 1 1"] * 8) for _ in range(r.randint(1, 2))] for _ in range(3)])
    for n, p in enumerate(progs):
        L.append("c%d c int %d %d %s" % (n, len(p), c.pick(60, 2000), " ".join("%d %s" % (len(q), " ".join(q)) for q in p)))
    lines = c.run_driver(exe, L, "orders")
    c.validate(lines, "T_Atomics", "SPECIFICATION TSpec\n", "orders of accesses of several threads", cases=L, heap="12g")
    # real threads
    if subprocess.run([par, "works"], capture_output=True).returncode != 0:
        c.assumptions.append("the thread sanitizer does not start here: real threads were not run")
        return
    L = ["m%s%d m %s" % (h, k, h) for h in "seq ra zra add addr zaddr sub zsubr assign massign xassign xmassign cctor mctor xctor cassign rmw".split() for k in range(c.pick(2, 20))]
    few = ["load 1 1 0", "store 1 1 %d", "add 1 1 1", "add 1 1 1", "add 1 1 1", "sub 1 1 2", "cctor 1 1 0", "cassign 1 2 0", "cassign 2 1 0", "load 2 2 0", "cassign 1 1 0", "add 2 2 1"]
    for n in range(c.pick(200, 3000)):
        k = r.choice([2, 3, 3])
        L.append("t%d t %d %s" % (n, k, " ".join("%d %s" % (m, " ".join((o % r.randint(0, 9)) if "%" in o else o for o in (r.choice(few) for _ in range(m)))) for m in (r.randint(3, 8) for _ in range(k)))))
    lines = c.run_driver(par, L, "threads", env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, shards=3)
    c.validate(lines, "T_Atomics", "SPECIFICATION TSpec\n", "histories of real threads", cases=L, heap="12g")
