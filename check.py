#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]  -- decide one property of
/repo from its current source."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from pmmcheck.program import AnalysisError, Program
    from pmmcheck.report import Report, finish
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = Report(a.pid, a.tier, seed)
    try:
        prog = Program()
        rep.count("modules_parsed", len(prog.modules))
        rep.count("functions_in_package", prog.nfuncs)
        mod = importlib.import_module(f"pmmcheck.checks.{a.pid.lower()}")
        mod.run(prog, rep)
    except AnalysisError as e:
        # obligations already refuted still count as violations
        if any(not o[2] for o in rep.obs):
            rc = finish(rep)
            if rc == 1:
                return 1
        print(f"ANALYSIS-ERROR {a.pid}: {e}")
        return 2
    except Exception:
        if any(not o[2] for o in rep.obs):
            rc = finish(rep)
            if rc == 1:
                return 1
        traceback.print_exc()
        print(f"ANALYSIS-ERROR {a.pid}: internal error")
        return 2
    return finish(rep)


if __name__ == "__main__":
    # deep recursive descent: run in a thread with a large stack
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
