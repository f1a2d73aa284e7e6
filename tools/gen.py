#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from rules/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "rules"))
import catalog

props, checks, na = [], [], []
for p in catalog.PROPS:
    assert len(p["title"]) <= 80, p["title"]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    props.append({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a})
    if p["na"]:
        na.append({"property": p["pid"], "reason": p["na"]})
    else:
        cmd = "python3 check.py " + p["pid"]
        checks.append({"property": p["pid"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: each check compiles probe translation units against /repo's current sources with clang, and decides on the resulting IR, syntax tree or type system; no code of /repo is executed. No hooks are needed in /repo."}, f, indent=1)
    f.write("\n")

# DESIGN.md
import design
seeds = {}
caught = {}
cp = os.path.join(V, "tools", "caught.json")
if os.path.exists(cp):
    caught = json.load(open(cp))
sd = os.path.join(V, "seeded")
for sid in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, sid, "meta.json")))
    seeds.setdefault(m["property"], []).append((sid, m["what_it_breaks"], caught.get(sid)))
if seeds:   # checks run without seeded/: then DESIGN.md stays as committed
    known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
    out = [design.INTRO, "## Property by property\n"]
    for p in catalog.PROPS:
        out.append("### %s %s\n" % (p["pid"], p["title"]))
        if p["na"]:
            out.append("Not applicable: %s\n" % p["na"])
            continue
        out.append("*Rule* `rules/%s.py` `%s`. *Method*: %s.\n" % (p["rule"][0], p["rule"][1], p["technique"]))
        if p["pid"] in design.HOW:
            out.append(design.HOW[p["pid"]] + "\n")
        out.append("*Bounds* (level `%s`): %s\n" % (p["level"], p["note"]))
        out.append("*Beyond the tests*: %s\n" % p["why"])
        for k in known:
            if k["property"] == p["pid"]:
                out.append("* %s: %s" % ("repaired in %s" % k["commit"] if k["status"] == "fixed" else "known finding `%s`" % k["key"], k["what"]))
        for sid, what, by in seeds.get(p["pid"], []):
            out.append("* planted `%s` (%s): %s" % (sid, what, "caught by %s" % ", ".join(by) if by else "not caught"))
        out.append("")
    out.append(design.TAIL_FALSE)
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))
