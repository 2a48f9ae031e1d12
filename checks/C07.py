from checks.graph_common import *
def body(c, overlay=False):
    exe = c.build("graph")
    ov = "TRUE" if overlay else "FALSE"
    invs = "INVARIANT BothEndsAgree BaseFixed PruneComposes\n"
    c.model_check("MCGraphStore", MC % (c.pick(4, 5), 3, "1", "FALSE", ov, 2, invs), "every history from 2 nodes")
    c.model_check("MCGraphStore", MC % (c.pick(2, 3), 4, "1", "FALSE", ov, 3, invs), "every history from 3 nodes")
    L = []
    for pre, ln, mx in c.pick([(2, 2, 3), (3, 2, 3)], [(2, 3, 3), (3, 2, 4)]):
        beh = c.behaviours("MCGraphStore", MC % (ln, mx, "1", "TRUE", ov, pre, "INVARIANT Emit\n"), "all histories")
        for k, h in enumerate(beh):
            L.append("s%d_%d %s" % (pre, k, " ".join(pre_tokens(pre) + (["O 0 2"] if overlay else []) + [op_tokens(o, 1 + k % 3) for o in h])))
    r = c.rng
    for k in range(c.pick(500, 6000)):
        L.append("r%d %s" % (k, " ".join(random_history(r, overlay, r.choice([4, 8, 14]), r.choice([3, 5, 8])))))
    # some larger graphs pruned in parallel
    for k in range(c.pick(12, 120)):
        L.append("b%d %s" % (k, " ".join(random_history(r, overlay, 4, 30))))
    lines = c.run_driver(exe, L, "graph")
    c.validate(lines, "T_GraphStore", TRACE, "graph histories", cases=L)
