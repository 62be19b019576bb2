#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decide one property on /repo's current source."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, mir
from lib import Q
from report import Report


class Ctx:
    pass


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    path, info = build.ensure()
    c = Ctx()
    c.P = mir.load(path)
    c.q = Q(c.P)
    c.tier = tier
    c.repo = os.environ.get("VERIF_REPO", "/repo")
    m = importlib.import_module("checks." + prop.lower())
    c.r = Report(prop, m.RULE)
    try:
        m.run(c)
    except Exception as e:  # the rule cannot judge this source: what was decided before stands
        traceback.print_exc()
        print("UNDECIDED: the analysis of %s stopped (%r)" % (prop, e))
        c.r.unknown("analysis", repr(e))
    inf = dict(c.q.info())
    inf.update(info or {})
    sys.exit(c.r.finish(tier, seed, inf))


main()
