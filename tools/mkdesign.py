#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_text.md (hand-written), the properties, the notes,
the last measured costs (tools/costs.json; 'mkdesign.py --measure' refreshes it from evidence/)
and the planted bugs' meta.json files."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}; NA = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cf = os.path.join(V, "tools", "costs.json")
costs = json.load(open(cf)) if os.path.exists(cf) else {}
if "--measure" in sys.argv:
    for p in props:
        e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))
        if e["violations"]: continue
        c = e["coverage"]
        costs.setdefault(p["id"], {})[e["tier"]] = dict(states=c["states"], traces=c["traces_validated_against_impl"], events=c["trace_events"], wall=round(e["wall_s"]),
            runs=[[r["module"], r.get("what", ""), r.get("states", 0)] for r in c.get("spec_runs", [])])
    json.dump(costs, open(cf, "w"), indent=0, sort_keys=True)
out = [open(os.path.join(V, "tools", "design_text.md")).read().rstrip(), "", "## Per property", ""]
B = BOUND.strip()
for p in props:
    i = p["id"]; spec, note = NOTE[i]
    out += ["### %s %s" % (i, p["title"]), "", "*Specification:* %s; trace form `specs/T_*.tla` named in `checks/%s.py`." % (", ".join("`%s.tla`" % s.strip() for s in spec.split(",")), i), "",
            note.replace(BOUND, "").strip(), ""]
    q = costs.get(i, {}).get("quick")
    if q:
        out += ["Explored by TLC (quick): " + "; ".join("%s – %s (%d states)" % (m, w, s) for m, w, s in q["runs"]) + ".",
                "Bound to the code by %d traces / %d events per quick run; %d s." % (q["traces"], q["events"], q["wall"]) +
                (" Thorough, last measured: %(states)d states, %(traces)d traces, %(events)d events, %(wall)d s." % costs[i]["thorough"] if "thorough" in costs[i] else ""), ""]
    out += ["Anchored in: " + ", ".join("`%s`" % a for a in p["anchors"]["files"]) + ".", ""]
out += ["## Planted bugs", "", "Each was kept only after the demonstration failed with it and passed without it and the 46 tests passed with it. All are caught by the named check's quick run unless marked.", "",
        "| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); one = lambda s: " ".join(str(s).split()).replace("|", "/")
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], one(m["what_it_breaks"]), one(m["needs"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
