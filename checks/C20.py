def body(c):
    exe, plain = c.build_all([dict(name="scope"), dict(name="scope_noomp", src="scope", omp=False)])
    MC = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxDepth = 2\nINVARIANTS ExactlyOnce NotDisabled Restored Innermost %s\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCScopeExit", MC % (c.pick(5, 7), ""), "all scope programs")
    beh = c.behaviours("MCScopeExit", MC % (4, "Emit"), "all short scope programs")
    r = c.rng; L = []
    J = lambda ops: " ".join("%s %d" % tuple(o) for o in ops)
    for k, h in enumerate(beh): L.append("g%d 7 %s" % (k, J(h)))
    for k in range(c.pick(3000, 60000)):
        ops, ids = [], 0
        for _ in range(r.randint(5, 40)):
            z = r.random()
            if z < 0.25: ids += 1; ops.append(("g", ids))
            elif z < 0.40 and ids: ops.append((r.choice("dq"), max(1, ids - r.randint(0, 4))))
            elif z < 0.55: ops.append(("n", r.choice([1, 2, 3, 5, 9, 16])))
            elif z < 0.57: ops.append(("n", r.choice([0, -1])))
            elif z < 0.58: ops.append(("null", 0))
            elif z < 0.60: ops.append(("par", r.choice([1, 2])))
            elif z < 0.66: ops.append(("ask", 0))
            elif z < 0.80: ops.append(("{", r.randint(0, 1)))
            elif z < 0.93: ops.append(("}", 0))
            else: ops.append(("t", 0))
        L.append((k, ops))
    # drop closing braces outside every block and what follows an uncaught exception
    fixed = []
    for item in L:
        if isinstance(item, str): fixed.append(item); continue
        k, ops = item; st, out, over = [], [], False
        for o in ops:
            if over: break
            if o[0] == "{": st.append(o[1])
            elif o[0] == "}":
                if not st: continue
                st.pop()
            elif o[0] in ("t", "null") or (o[0] == "n" and o[1] < 1):
                over = True
                while st:
                    if st.pop() == 1: over = False; break
            out.append(o)
        if not over: out.append(("end", 0))
        fixed.append("r%d %d %s" % (k, r.choice([1, 2, 4, 7, 12]), J(out)))
    L = fixed
    lines = c.run_driver(exe, L, "scope")
    c.validate(lines, "T_ScopeExit", "SPECIFICATION TSpec\n", "scope programs", cases=L)
    L2 = ["l" + x for x in L[-c.pick(600, 6000):]]
    lines = c.run_driver(exe, L2, "scopelim", env={"OMP_THREAD_LIMIT": "3", "OMP_DYNAMIC": "true"})
    c.validate(lines, "T_ScopeExit", "SPECIFICATION TSpec\n", "scope programs under a thread limit", cases=L2)
    L3 = ["n" + x for x in L[::4]]
    lines = c.run_driver(plain, L3, "scope without OpenMP")
    c.validate(lines, "T_ScopeExit", "SPECIFICATION TSpec\n", "scope programs without OpenMP", cases=L3)
