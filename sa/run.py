"""python3 run.py C03 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def run_one(pid, tier, seed, root=None):
    t0 = time.time()
    m = importlib.import_module("props." + pid.lower())
    try:
        ck = core.Check(pid, tier, seed, root)
        try:
            m.check(ck)
        except core.AnalysisError:
            raise
        except Exception as e:
            traceback.print_exc()
            ck.undecided("internal", "analysis", "analyser failed: %r" % (e,))
        if not ck.minimum:
            ck.minimum = getattr(m, "MINIMUM", 1)
        return ck.finish(t0, getattr(m, "LEVEL", "other"), m.TECHNIQUE)
    except core.AnalysisError as e:
        print("analysis broken: %s" % e)
        return 3


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    sys.exit(run_one(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
