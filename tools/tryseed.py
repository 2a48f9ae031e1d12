#!/usr/bin/env python3
"""tryseed.py [--check-only] [--no-tests] ID...: in a private copy of /repo bound over /repo (own mount
namespace), builds and tests the planted bug, runs its demo with and without it, and the
property's quick check against it."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if not ids: ids = sorted(os.listdir(os.path.join(V, "seeded")))
def one(i):
    d = os.path.join(V, "seeded", i); meta = json.load(open(os.path.join(d, "meta.json")))
    cp = "/tmp/vseed_" + i
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    steps = ""
    if "--check-only" not in flags:
        steps += 'cd /repo; bash %s/demo.sh >/tmp/vseed_%s.demo0 2>&1; echo "demo-clean $?"\n' % (d, i)
    steps += 'cd /repo; git apply %s/patch.diff || echo "apply-failed"\n' % d
    if "--check-only" not in flags:
        if "--no-tests" not in flags:
            steps += 'bash /opt/vp/test.sh /tmp/vseed_%s.json >/tmp/vseed_%s.log 2>&1; echo "tests $?"\n' % (i, i)
        steps += 'bash %s/demo.sh >/tmp/vseed_%s.demo1 2>&1; echo "demo-bug $?"\n' % (d, i)
    steps += 'cd /verif; VERIF_SEED=1 python3 check.py %s > /tmp/vseed_%s.check 2>&1; echo "check $?"\n' % (meta["property"], i)
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo\n%s" % (cp, steps)], capture_output=True, text=True)
    shutil.rmtree(cp, ignore_errors=True)
    res = dict(l.split() for l in r.stdout.splitlines() if len(l.split()) == 2)
    if "--check-only" not in flags and "--no-tests" not in flags:
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try: res["stable-missing"] = sorted(stable - set(json.load(open("/tmp/vseed_%s.json" % i))["passed"]))
        except Exception as e: res["stable-missing"] = str(e)
    return i, meta["property"], res, r.stderr[-300:]
with cf.ThreadPoolExecutor(max_workers=3) as ex:
    for f in cf.as_completed([ex.submit(one, i) for i in ids]):
        i, p, res, err = f.result()
        ok = res.get("demo-clean", "0") == "0" and res.get("demo-bug", "1") == "1" and res.get("stable-missing", []) == [] and "apply-failed" not in res
        print(i, p, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == "1" else "MISSED", res, err, flush=True)
