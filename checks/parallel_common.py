"""Shared by C01, C02, C03: the parallel loops."""
import vf

SPEC_INVS = ["ExactlyOnce", "NothingOutside", "ItemsDisjoint", "ThreadNumbersExclusive", "QuietWhenOver",
             "ErrorsReported", "NoSpuriousError", "NothingRefused"]

def models(c):
    c.model_check("ParallelLoop", """SPECIFICATION LiveSpec
CONSTANTS Focus = "all" Los = {%s} Sizes = {%s} Degs = {1,2,3}
%s
PROPERTIES NothingAfterEnd Terminates
""" % (c.pick("0", "0"), c.pick("0,1,2,3", "0,1,2,3,4"), "\n".join("INVARIANT " + i for i in SPEC_INVS)),
                  "abstract loop: every hand-out, interleaving and failure")
    for n, t, fs in c.pick([(3, 2, "{}"), (4, 2, "{1}"), (4, 3, "{0,3}")],
                           [(3, 2, "{}"), (5, 2, "{1}"), (5, 3, "{}"), (5, 3, "{0,3}"), (6, 3, "{2}"), (5, 4, "{1,2}")]):
        c.model_check("AsyncDispatcher", """SPECIFICATION Spec
CONSTANTS N = %d T = %d FailSet = %s
INVARIANT QueueEnough ErrIffFailure
PROPERTIES Refines Terminates
""" % (n, t, fs), "dispatcher refines the abstract loop, N=%d T=%d fail=%s" % (n, t, fs))

def schedules(c, pairs, maxfail):
    out = []
    for n, t in pairs:
        bs = c.behaviours("GenSchedules", """SPECIFICATION Spec
CONSTANTS N = %d T = %d MaxFail = %d
INVARIANT Emit
""" % (n, t, maxfail), "completion orders N=%d T=%d fails<=%d" % (n, t, maxfail))
        out += [(b["n"], b["t"], b["h"]) for b in bs]
    return out

def gated_cases(c, scheds, contexts, want):
    """Each TLC-generated completion order on every backend/scheduling/kind, contexts in rotation."""
    cases = []
    k = 0
    combos = [(b, s, kd) for b in (0, 1, 2) for s in (0, 1) for kd in (0, 1)]
    for n, t, h in scheds:
        for (b, s, kd) in combos:
            ctx = contexts[k % len(contexts)]
            base = [0, 0, 0, 1099511627776, -4][k % 5]
            lo = [0, 3, -2, 0, 1000][(k // 5) % 5]
            k += 1
            cases.append((b, s, kd, ctx, base, lo, n, t, 1, 0, h))
    if len(cases) > want:
        # keep an even, seeded sample; every combination stays represented
        c.rng.shuffle(cases)
        cases = cases[:want]
    return cases

def free_cases(c, count, fail):
    cases = []
    r = c.rng
    for _ in range(count):
        deg = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31])
        n = r.choice([0, 1, 2, 3, deg - 1, deg, deg + 1, 2 * deg, 2 * deg + 1, 17, 40, 64, 65, 100, r.randint(0, 150)])
        base = r.choice([0, 0, 0, 2 ** 31 - 7, 2 ** 40, -2 ** 35])
        lo = r.choice([0, 0, 1, 5, -3, -50, 1000])
        fe = 0
        if fail: fe = r.choice([1, 2, 3, 5, max(1, n)])
        ctx = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])
        if ctx in (6,) and fail: ctx = 0
        cases.append((r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([0, 1]), ctx, base, lo, n, deg, 0, fe, []))
    if not fail:
        for b in (0, 1, 2):
            for s in (0, 1):
                for kd in (0, 1):
                    for deg, n, lo in ((1, -1, 0), (2, -1, 5), (3, -7, 0), (4, -1000000, 12), (0, 3, 0), (-1, 3, 2), (-2147483648, 1, 0), (0, -1, 1), (0, 0, 4)):
                        cases.append((b, s, kd, r.choice([0, 0, 4]), r.choice([0, 2 ** 40, -2 ** 35]), lo, n, deg, 0, 0, []))
    # degrees and sizes systematically
    for b in (0, 1, 2):
        for s in (0, 1):
            for kd in (0, 1):
                for deg in (1, 2, 3, 4, 8):
                    for n in range(0, 10):
                        cases.append((b, s, kd, 0, 0, [0, 7, -5][n % 3], n, deg, 0, (0 if not fail else 1 + n % 3), []))
    return cases

def huge_lines(c, count, tag):
    """Ranges of up to 2^62 indices, one piece per thread."""
    out = []; r = c.rng
    for k in range(count):
        size = r.choice([r.randint(0, 40), 2 ** r.randint(10, 62), 2 ** r.randint(10, 61) + r.randint(-9, 9), r.randint(0, 2 ** 62), r.randint(0, 2 ** 33), 2 ** 31 + r.randint(-40, 40), 2 ** 32 + r.randint(-40, 40)])
        size = max(0, min(size, 2 ** 62)); lo = r.choice([0, 0, 1, -size // 2, -size, -2 ** 62, 2 ** 62 - size, r.randint(-2 ** 61, 2 ** 61 - 1)])
        deg = r.choice([1, 2, 3, 4, 7, 8, 16, 40])
        sub = []
        for nt in (r.choice([1, 2, 3, deg, 255, 256, 1000, 65537]), r.choice([2 ** 31 - 1, 2 ** 31 + 5, 2 ** 40, max(1, size), max(1, size // 2 - 1), r.randint(1, 2 ** 50)])):
            ks = sorted(set(x for x in [0, 1, nt // 2, nt - 2, size % nt - 1, size % nt, size % nt + 1] + [r.randrange(nt) for _ in range(5)] if 0 <= x < nt))
            sub.append("%d %d %s" % (nt, len(ks), " ".join(map(str, ks))))
        out.append("%s%d 9 %d %d %d %d %s" % (tag, k, k % 3, lo, lo + size, deg, " ".join(sub)))
    return out

def lines(cases, tag):
    return ["%s%d %s" % (tag, i, " ".join(map(str, x[:-1])) + " %d %s" % (len(x[-1]), " ".join(map(str, x[-1]))))
            for i, x in enumerate(cases)]

def conform(c, focus, groups):
    """groups: [(tag, exe, cases, env)]"""
    allc, alll = [], []
    for tag, exe, cases, env in groups:
        cs = cases if cases and isinstance(cases[0], str) else lines(cases, tag)
        alll += c.run_driver(exe, cs, "par_" + tag, env=env, shards=4)
        allc += cs
    c.validate(alll, "T_ParallelLoop", """SPECIFICATION TSpec
CONSTANTS Focus = "%s" Los = {0} Sizes = {0} Degs = {1}
CHECK_DEADLOCK TRUE
""" % focus, "parallel loops", cases=allc)

def body(c, focus, fail):
    exes = c.build_all([dict(name="par_omp", src="parallel"), dict(name="par_noomp", src="parallel", omp=False)])
    models(c)
    sch = schedules(c, c.pick([(3, 2), (4, 3), (5, 3)], [(3, 2), (4, 2), (4, 3), (5, 3), (6, 3), (5, 4)]) if not fail
                    else c.pick([(3, 2), (4, 3)], [(3, 2), (4, 2), (4, 3), (5, 3)]), 2 if fail else 0)
    ctxs = [0, 0, 1, 0, 2, 4, 0, 7]
    if fail: sch = [s for s in sch if 2 in s[2][1::2]]
    want = c.pick(1200, 12000)
    groups = [("g", exes[0], gated_cases(c, sch, ctxs, want), {"OMP_NUM_THREADS": "4"}),
              ("l", exes[0], gated_cases(c, sch, [0, 2], want // 4), {"OMP_THREAD_LIMIT": "2"}),
              ("n", exes[1], gated_cases(c, sch, [0, 4], want // 4), None),
              ("f", exes[0], free_cases(c, c.pick(150, 3000), fail), {"OMP_NUM_THREADS": "4"}),
              ("w", exes[0], free_cases(c, c.pick(40, 500), fail), {"OMP_NUM_THREADS": "4", "OMP_THREAD_LIMIT": "3"}),
              ("q", exes[1], free_cases(c, c.pick(40, 500), fail), None)]
    if focus == "C01":
        groups += [("h", exes[0], huge_lines(c, c.pick(300, 6000), "h"), {"OMP_NUM_THREADS": "4"}), ("i", exes[1], huge_lines(c, c.pick(60, 600), "i"), None)]
    conform(c, focus, groups)
    c.assumptions += ["work item start/end are recorded inside the work function under one mutex, so an overlap in the "
                      "record is an overlap in the execution",
                      "completion orders are forced by holding work items at a gate; starts are awaited with a soft time-out"]
