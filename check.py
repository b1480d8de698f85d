#!/usr/bin/env python3
"""check.py [--tier quick|thorough] ID...   decide properties on /repo's current tree"""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import db
from sa.model import Model
from sa.report import Report


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if args == ["--setup"]:
        print("extractor:", db.build_tool())
        print("dump:", db.extract())
        return 0
    rc = 0
    try:
        m = Model()
    except db.AnalysisError as e:
        print("ANALYSIS-ERROR:", e)
        return 2
    for pid in args:
        t = time.time()
        try:
            mod = importlib.import_module("checks." + pid.lower())
            r = Report(pid, tier, m)
            mod.run(m, r)
            x = r.finish()
        except db.AnalysisError as e:
            print("ANALYSIS-ERROR property=%s: %s" % (pid, e))
            x = 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s: internal error" % pid)
            x = 2
        rc = max(rc, x) if 1 not in (rc, x) else 1
    return rc


sys.exit(main())
