#!/usr/bin/env python3
"""check.py ID: decides one property; exit 0 held, 1 violated, 2 no verdict."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))
sys.dont_write_bytecode = True
import importlib
import ir, report, catalog


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ent = [p for p in catalog.PROPS if p["pid"] == pid][0]
    fn = getattr(importlib.import_module(ent["rule"][0]), ent["rule"][1])
    rep = report.Report(pid, ent["technique"], ent["level"], ent["note"])
    try:
        fn(rep, tier)
        if not rep.obl:
            raise ir.AnalysisError("no obligation was generated")
    except ir.Rejected as e:
        rep.bad("interface:rejected", str(e))
    except ir.AnalysisError as e:
        if rep.viol:
            # a definite violation was already established
            sys.exit(report.finish(rep, tier, seed))
        print("%s: ANALYSIS-BROKEN (no verdict): %s" % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if rep.viol:
            sys.exit(report.finish(rep, tier, seed))
        print("%s: ANALYSIS-BROKEN (internal error)" % pid)
        sys.exit(2)
    sys.exit(report.finish(rep, tier, seed))


main()
