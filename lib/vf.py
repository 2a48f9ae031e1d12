"""Common machinery of the checks: build a driver against /repo's working tree, let
TLC explore a specification / emit behaviours of it, run the driver, let TLC decide
whether what the real code did is a behaviour of the specification, write evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class InfraError(Exception):
    """The check itself could not do its work (exit status 2: neither 0 nor 1)."""


class Violation(Exception):
    def __init__(self, why, replay):
        super().__init__(why)
        self.why, self.replay = why, replay


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "trace_events": 0, "samples": [], "spec_runs": [], "conformance_runs": []}
        self.assumptions = []
        self._nt = 0
        shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        return os.path.join(self.work, *p)

    # ---- building -------------------------------------------------------
    def build(self, name, lib=(), omp=True, opt="-O1", san=True, extra=(), src=None, plain=()):
        """Compile drivers/<src>.cpp with /repo's headers and the listed /repo sources;
        those in plain (slow to compile, not the subject) unoptimised."""
        exe = self.path(name)
        cxx = ["g++", "-std=c++17", opt, "-w", "-I", os.path.join(REPO, "include"),
               "-isystem", "/usr/include/eigen3", "-I", DRIVERS, "-pthread"]
        if omp: cxx.append("-fopenmp")
        # accesses outside an object or after its life, and arithmetic without a meaning, end the driver
        if san: cxx += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,shift",
                        "-fno-sanitize-recover=undefined", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
        cxx += list(extra)
        base = ["-O0" if x == opt else x for x in cxx]
        srcs = [os.path.join(DRIVERS, (src or name) + ".cpp")]
        srcs += [os.path.join(REPO, "src/common_robotics_utilities", s + ".cpp") for s in lib]
        bare = [os.path.join(REPO, "src/common_robotics_utilities", s + ".cpp") for s in plain]
        srcs += bare
        objs, jobs = [], []
        for i, s in enumerate(srcs):
            o = self.path("%s.%d.o" % (name, i))
            objs.append(o)
            jobs.append(subprocess.Popen((base if s in bare else cxx) + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                         stderr=subprocess.STDOUT, text=True))
        for j in jobs:
            out, _ = j.communicate()
            if j.returncode:
                raise InfraError("compilation failed:\n" + out[-4000:])
        r = subprocess.run(cxx + objs + ["-o", exe, "-lz"], capture_output=True, text=True)
        if r.returncode:
            # the headers may have come to need more of the library: take all of it
            d = os.path.join(REPO, "src/common_robotics_utilities")
            more = [s for s in sorted(os.listdir(d)) if s.endswith(".cpp") and s[:-4] not in lib and s[:-4] not in plain and "ros" not in s]
            extra_objs = []
            def comp(s):
                o = self.path("%s.x.%s.o" % (name, s[:-4]))
                if subprocess.run(base + ["-c", os.path.join(d, s), "-o", o], capture_output=True).returncode == 0:
                    extra_objs.append(o)
            with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
                list(ex.map(comp, more))
            r = subprocess.run(cxx + objs + extra_objs + ["-o", exe, "-lz"], capture_output=True, text=True)
        if r.returncode:
            raise InfraError("link failed:\n" + r.stderr[-4000:])
        return exe

    def build_all(self, specs):
        """specs: list of kwargs dicts for build(); compiled concurrently."""
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            return [f.result() for f in [ex.submit(lambda k=k: self.build(**k)) for k in specs]]

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, workers=None, args=(), timeout=800, heap="3g"):
        self._nt += 1
        d = self.path("tlc%d_%s" % (self._nt, module))
        os.makedirs(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC",
               "-config", module + ".cfg", "-workers", str(workers or NCPU),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"] + list(args) + [module]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise InfraError("TLC timed out on " + module)
        out = r.stdout
        res = {"rc": r.returncode, "out": out, "wall": round(time.time() - t, 2), "dir": d}
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            res["gen"] = int(m[-1][0].replace(",", ""))
            res["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m: res["depth"] = int(m.group(1))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return res

    def model_check(self, module, cfg_text, what="", **kw):
        """Exhaustive exploration of a specification. Anything but success is an error of
        the machinery: it does not depend on /repo."""
        r = self.tlc(module, cfg_text, **kw)
        if r["rc"] != 0 or "distinct" not in r:
            raise InfraError("model checking %s failed:\n%s" % (module, r["out"][-6000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["gen"]
        self.cov["spec_runs"].append({"module": module, "what": what, "distinct_states": r["distinct"],
                                      "states_generated": r["gen"], "depth": r.get("depth"),
                                      "wall_s": r["wall"]})
        log("spec", module, what, r["distinct"], "states", r["wall"], "s")
        return r

    def behaviours(self, module, cfg_text, what="", count_states=True, **kw):
        """Run TLC on a generator module that prints each complete behaviour as a JSON
        string (PrintT(ToJson(..))); returns the parsed behaviours, sorted, de-duplicated."""
        kw.setdefault("workers", 1)
        r = self.tlc(module, cfg_text, **kw)
        if r["rc"] != 0:
            raise InfraError("generation from %s failed:\n%s" % (module, r["out"][-6000:]))
        outs = set()
        for line in r["out"].splitlines():
            if line.startswith('"') and line.endswith('"'):
                outs.add(json.loads(line))
        res = [json.loads(s) for s in sorted(outs)]
        if not res:
            raise InfraError("no behaviours generated from " + module + "\n" + r["out"][-3000:])
        if count_states and "distinct" in r:
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["gen"]
        self.cov["spec_runs"].append({"module": module, "what": what + " (behaviour generation)",
                                      "distinct_states": r.get("distinct"), "states_generated": r.get("gen"),
                                      "behaviours": len(res), "wall_s": r["wall"]})
        log("generated", len(res), "behaviours from", module, r["wall"], "s")
        return res

    # ---- running the real code -------------------------------------------
    def replay_file(self, name, text):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def _run_shard(self, exe, cases, tag, env, timeout, args):
        inp, outp = self.path(tag + ".in"), self.path(tag + ".ndjson")
        with open(inp, "w") as f:
            f.write("".join(c + "\n" for c in cases))
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1")
        e.setdefault("OMP_WAIT_POLICY", "passive")  # eight drivers share the cores
        e.update(env or {})
        try:
            r = subprocess.run([exe, inp, outp] + list(args), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            rc, so = r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            rc, so = -999, "driver timed out"
        done = []
        if os.path.exists(outp):
            done = [l for l in open(outp).read().split("\n") if l]
            if rc != 0 and done and not done[-1].endswith("}"): done.pop()
        return rc, so, done

    def run_driver(self, exe, cases, tag, env=None, shards=NCPU, timeout=600, args=(), retry=2):
        """cases: list of one-line strings. The driver writes one JSON line per case, in
        order. A crash or hang in the real code (reproduced on a re-run) is a violation."""
        cases = list(cases)
        shards = max(1, min(shards, len(cases)))
        chunks = [cases[i::shards] for i in range(shards)]
        with cf.ThreadPoolExecutor(max_workers=shards) as ex:
            futs = [ex.submit(self._run_shard, exe, ch, "%s.%d" % (tag, i), env, timeout, args)
                    for i, ch in enumerate(chunks)]
            results = [f.result() for f in futs]
        lines = []
        for i, ((rc, so, done), ch) in enumerate(zip(results, chunks)):
            if rc != 0 or len(done) != len(ch):
                if rc == 2:
                    raise InfraError("driver refused its input: " + so[-2000:])
                bad = ch[len(done)] if len(done) < len(ch) else ch[-1]
                # confirm: run the whole shard again (up to `retry` times)
                again = None
                for k in range(retry):
                    again = self._run_shard(exe, ch, "%s.%d.re%d" % (tag, i, k), env, timeout, args)
                    if again[0] != 0 or len(again[2]) != len(ch): break
                rc2, so2, done2 = again
                if rc2 != 0 or len(done2) != len(ch):
                    bad = ch[len(done2)] if len(done2) < len(ch) else ch[-1]
                    why = "the code crashed, hung or aborted (status %s)" % rc2
                    p = self.replay_file("%s-%d.txt" % (tag, i),
                                         "%s\ncase (driver %s, env %s):\n%s\noutput:\n%s\n" %
                                         (why, os.path.basename(exe), env, bad, so2[-6000:]))
                    raise Violation(why, p)
                log("a crash of shard", i, "did not repeat; using the re-run")
                done = done2
            lines.append(done)
        merged = []
        for k in range(max(len(x) for x in lines)):
            for x in lines:
                if k < len(x): merged.append(x[k])
        return merged

    # ---- deciding ----------------------------------------------------------
    def known(self):
        """The inputs of this property listed in KNOWN_FINDINGS.md, one JSON object each."""
        out = []
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.md")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (\{.*?\}) (.*)", l)
            if m and m.group(1) == self.pid: out.append(dict(json.loads(m.group(2)), text=m.group(3)))
        return out

    def finding(self, x, run):
        """Run a listed input; only being rejected at the listed event is what is known."""
        try: run()
        except Violation as v:
            at = re.search(r"event (\d+)\)$", v.why)
            if not at or not x["events"][0] <= int(at.group(1)) <= x["events"][1]: raise
            print("KNOWN-FINDING: property=%s %s" % (self.pid, x["text"])); sys.stdout.flush()
            try: os.remove(v.replay)
            except OSError: pass

    def validate(self, lines, module, cfg_text, what="", exact=True, cases=None, sample=True, want=None, **kw):
        """lines: one JSON object per case with a field "ev" (list of events). TLC must be
        able to follow each to its end as a behaviour of `module`; a case it cannot follow
        deadlocks the trace specification."""
        f = self.path("trace%d.ndjson" % (self._nt + 1))
        with open(f, "w") as fh:
            fh.write("".join(l + "\n" for l in lines))
        r = self.tlc(module, cfg_text, env={"TRACE": f}, **kw)
        nev = sum(len(json.loads(l)["ev"]) for l in lines)
        if r["rc"] in (75, 76, 77):
            # the recorded values are outside what the specification can evaluate at all
            r = self.tlc(module, cfg_text, env={"TRACE": f}, **kw)
        if r["rc"] in (11, 75, 76, 77) or "Deadlock reached" in r["out"] or re.search(r"Invariant \S+ is violated", r["out"]):
            out = r["out"]
            cs = re.findall(r"/\\ c = (\d+)", out)
            ls = re.findall(r"/\\ l = (\d+)", out)
            ci, li = (int(cs[-1]), int(ls[-1])) if cs and ls else (0, 0)
            txt = "property %s: %s\nspecification module: %s\n" % (self.pid, what, module)
            if ci:
                obj = json.loads(lines[ci - 1])
                evs = obj["ev"]
                txt += "case: %s\nrejected at event %d of %d\n" % (
                    json.dumps({k: v for k, v in obj.items() if k != "ev"}), li, len(evs))
                if 1 <= li <= len(evs):
                    txt += "rejected event: %s\n" % json.dumps(evs[li - 1])
                txt += "events:\n" + "\n".join(("%s%d %s" % ("=> " if k + 1 == li else "   ", k + 1, json.dumps(x)))
                                               for k, x in enumerate(evs)) + "\n"
                if cases:
                    for cs_ in cases:
                        if cs_.split(" ", 1)[0] == str(obj.get("id")):
                            txt += "driver input: " + cs_ + "\n"
            txt += "\nTLC output:\n" + out[-20000:]
            p = self.replay_file("%s-%d.txt" % (module, self._nt), txt)
            raise Violation("%s: the code's behaviour is not allowed by %s (case %s, event %s)" %
                            (what, module, json.loads(lines[ci - 1]).get("id") if ci else "?", li), p)
        if r["rc"] != 0 or "distinct" not in r:
            raise InfraError("trace validation with %s failed:\n%s" % (module, r["out"][-6000:]))
        nev = want - len(lines) if want else nev
        want = nev + len(lines)
        if (exact and r["distinct"] != want) or r["distinct"] < want:
            raise InfraError("trace validation with %s consumed %s states, expected %s" %
                             (module, r["distinct"], want))
        self.cov["traces_validated_against_impl"] += len(lines)
        self.cov["trace_events"] += nev
        self.cov["conformance_runs"].append({"module": module, "what": what, "traces": len(lines),
                                             "events": nev, "wall_s": r["wall"]})
        log("validated", len(lines), "traces,", nev, "events against", module, r["wall"], "s")
        if sample and lines:
            s = lines[len(lines) // 2]
            if len(s) < 1500: self.cov["samples"].append({"module": module, "trace": json.loads(s)})
            else: self.cov["samples"].append({"module": module, "trace_prefix": s[:1200]})
        return r

    # ---- ending --------------------------------------------------------------
    def finish(self, violations=0):
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": "model_checking", "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        if not self.cov["samples"]: self.cov["samples"] = ["none: the run ended before a trace was validated"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(pid, body):
    c = Check(pid)
    try:
        body(c)
        c.finish(0)
        print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" %
              (pid, c.cov["traces_validated_against_impl"], c.cov["trace_events"], c.cov["states"],
               time.time() - c.t0))
        rc = 0
    except Violation as v:
        print("# " + v.why)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        c.finish(1)
        rc = 1
    except InfraError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
