"""Verdicts, evidence and known findings."""
import json, os, sys, time
from ir import VERIF, AnalysisError


class Report:
    def __init__(self, pid, technique, level="other", explanation=""):
        self.pid = pid
        self.level = level
        self.explanation = explanation
        self.technique = technique
        self.t0 = time.time()
        self.obl = []            # (id, ok, detail)
        self.viol = []           # (key, message)
        self.analysed = {}
        self.assumptions = []
        self.trusted = ["clang 18 front end (same sources and flags as the build, -std=c++17 -fno-rtti)",
                        "engine/irx.cpp: LLVM 18 inlining and SSA normalisation", "engine/*.py rule code"]

    def ok(self, oid, detail=""):
        self.obl.append((oid, True, detail))

    def bad(self, key, message):
        """A violation: `key` identifies the construct, `message` is diagnosable."""
        self.obl.append((key, False, message))
        self.viol.append((key, message))

    def check(self, cond, key, okdetail, badmessage):
        if cond:
            self.ok(key, okdetail)
        else:
            self.bad(key, badmessage)
        return cond

    def note(self, k, v):
        self.analysed[k] = v

    def require(self, n, what, found):
        """Anchor guard: fewer instances than confirmed by hand is no verdict."""
        self.note(what, found)
        if found < n:
            raise AnalysisError("%s: only %d instances of '%s' found (at least %d expected): the analysis is broken" % (self.pid, found, what, n))


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def finish(rep, tier, seed):
    known = {k["key"]: k for k in known_findings() if k.get("property") == rep.pid and k.get("status") == "known"}
    fresh = []
    seen = set()
    for key, msg in rep.viol:
        if key in known:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (rep.pid, known[key]["what"]))
            seen.add(key)
        else:
            fresh.append((key, msg))
    disc = sum(1 for o in rep.obl if o[1])
    sample = [{"obligation": o[0], "result": "discharged" if o[1] else "violated", "detail": o[2][:400]} for o in rep.obl]
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": rep.level,
        "coverage": {
            "obligations": len(rep.obl), "discharged": disc,
            "checker_cmd": "python3 /verif/check.py %s" % rep.pid,
            "trusted_base": rep.trusted,
            "rule": rep.technique,
            "explanation": rep.explanation,
            "analysed": rep.analysed,
            "known_findings": sorted(seen),
            "samples": sample[:400],
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(fresh),
    }
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(d, rep.pid + ".violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    print("%s: %d obligations, %d discharged, %d violations (%d known), %.1fs" % (
        rep.pid, len(rep.obl), disc, len(rep.viol), len(rep.viol) - len(fresh), time.time() - rep.t0))
    if fresh:
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (rep.pid, rep.technique))
            for key, msg in fresh:
                f.write("[%s]\n%s\n\n" % (key, msg))
        for key, msg in fresh[:8]:
            print("  violated [%s]: %s" % (key, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    return 0
