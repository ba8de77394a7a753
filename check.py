#!/usr/bin/env python3
"""check.py C01 [C02 ...]: decide properties from /repo's current source."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "src"))
sys.setrecursionlimit(30000)
import resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))      # give no answer rather than exhaust the machine
from bsa import prog, report

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    worst = 0
    p = None
    for pid in argv:
        t0 = time.time()
        try:
            mod = importlib.import_module("rules." + pid.lower())
            if p is None:
                p = prog.load()
            rep = report.Report(pid)
            try:
                mod.check(p, rep, tier)
            except prog.AnalysisError as e:
                # what was found before is found all the same
                if not report.new_violations(rep):
                    raise
                rep.notes.append("analysis stopped early: %s" % e)
            miss = [u for u in getattr(mod, "UNITS", []) if u in p.failed]
            if miss:
                raise prog.AnalysisError("unit(s) do not parse: %s\n%s" % (miss, p.failed[miss[0]]))
            rc = report.finish(rep, tier, seed, t0, mod.EXPLANATION)
        except prog.AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            if os.environ.get("BSA_TRACE"): traceback.print_exc()
            rc = 3
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s internal error" % pid)
            rc = 3
        worst = rc if rc and (worst == 0 or rc == 1) else worst
    return worst

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
