def body(c):
    exe = c.build("maybe", extra=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
    c.model_check("MCMaybe", "SPECIFICATION Spec\nCONSTANTS Slots = {%s} Vals = {%s} TagFirst = TRUE\nINVARIANTS NeverTwice TagTrue Allowed\nCHECK_DEADLOCK FALSE\n" % (c.pick("1,2", "1,2,3"), c.pick("1,2", "1,2")), "storage protocol, copies that throw")
    G = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Alts = %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    own = c.behaviours("GenMaybe", G % (c.pick(3, 4), '{"b"}'), "all histories of an optional")
    uni = c.behaviours("GenMaybe", G % (3, '{"a", "b"}'), "all histories of a tagged value")
    L = []; r = c.rng
    def op(o, s, d, a, x, f, how=0): return "%s %d %d %s %d %d 0 %d %d" % (o, s, d, a, x, how, f, f)
    for k, h in enumerate(own):
        for kind in "oc" if k % 3 == 0 else "o" if k % 3 == 1 else "om":
            hh = [e for e in h if not (kind == "m" and e[0] in ("cp", "asg")) and not (kind == "c" and e[0] == "set")]
            if hh: L.append("g%s%d %s %s" % (kind, k, kind, " ".join(op(*e, how=k % 2) for e in hh)))
        if k % 2 == 0 and not any(e[5] for e in h): L.append("gr%d r %s" % (k, " ".join(op(e[0], e[1], e[2], "r", e[4] % 3 + 1 if e[0] != "set" else e[4], 0) for e in h)))
    for k, h in enumerate(uni): L.append("gu%d u %s" % (k, " ".join(op(*e, how=k % 2) for e in h)))
    OPS = ["mk", "mkv", "mkv", "mkv", "cp", "mv", "asg", "asg", "asg", "masg", "masg", "reset", "del", "set"]
    for k in range(c.pick(3000, 60000)):
        kind = r.choice("oocmuurk"); ops = []; p = r.choice([0, 0.15, 0.4])
        for _ in range(r.randint(4, 25)):
            o = r.choice(OPS + (["oset"] * 2 if kind in "rk" else []))
            if (kind == "m" and o in ("cp", "asg")) or (kind in "ck" and o == "set") or (kind == "u" and o in ("mk", "reset")): continue
            d, s = r.randint(1, 3), r.randint(1, 3)
            if o in ("mk", "mkv", "reset", "del", "set", "oset"): s = d
            elif o in ("cp", "mv") and s == d: s = d % 3 + 1
            f = kind in "ocmu" and o not in ("mk", "reset", "del", "set") and r.random() < p
            arm = r.choice([0, 1, 1, 2, 3]) if f else 0
            fc, fm = ((1, 1) if arm == 0 and r.random() < 0.5 else (int(arm == 0), 0) if r.random() < 0.5 else (0, int(arm == 0))) if f else (0, 0)
            x = r.randint(1, 3) if kind in "rk" and o not in ("set", "oset") else r.randint(1, 99)
            ops.append("%s %d %d %s %d %d %d %d %d" % (o, s, d, r.choice("ab") if kind == "u" else "b", x, r.randint(0, 1), arm, fc, fm))
        if ops: L.append("r%d %s %s" % (k, kind, " ".join(ops)))
    lines = c.run_driver(exe, L, "maybe")
    c.validate(lines, "T_Maybe", "SPECIFICATION TSpec\n", "histories of optionals", cases=L)
