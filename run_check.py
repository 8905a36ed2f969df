#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--repo DIR]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    from sa.engine import AnalysisBroken

    import checks.registry as reg

    mod, fn = reg.CHECKS[a.property]
    try:
        return getattr(importlib.import_module(f"checks.{mod}"), fn)(a.property, a.tier, a.repo)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2
    except (Exception, MemoryError):
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={a.property}: internal error")
        return 3


if __name__ == "__main__":
    import resource
    import threading

    # an analysis that does not converge ends as an internal error, not at the expense of the machine
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
