#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decide one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import facts
from sa.facts import AnalysisError, Undetermined
from sa.report import Report, known_findings


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        rep = Report(pid, tier)
        fx = facts.load()
        mod = importlib.import_module(pid.lower())
    except AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e))
        return 2
    error = None
    try:
        mod.check(fx, rep)
    except Undetermined as e:
        rep.undetermined(e)
    except AnalysisError as e:
        error = e
    except Exception as e:
        traceback.print_exc()
        rep.misshapen(e)
    if error is None:
        return rep.finish(fx)
    print('ANALYSIS-ERROR %s: %s' % (pid, error))
    known = known_findings(pid)
    if any(v[0] not in known for v in rep.viol):    # what was found before the analysis lost its way stands
        return rep.finish(fx)
    return 2


if __name__ == '__main__':
    sys.exit(main())
