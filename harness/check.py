#!/usr/bin/env python3
"""check.py <property>: decide one property on the library as it is in /repo.

Exit status 0: it held.  1: violated (VIOLATION line).  2: no verdict.
"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]

MODULES = {
    "checks_history": ["C25"],
    "checks_iter": ["C26"],
    "checks_random": ["C23"],
    "checks_int": ["C17", "C18", "C19"],
    "checks_ft": ["C20", "C21"],
    "checks_tensor": ["C06", "C07", "C12", "C22"],
    "checks_ci": ["C01", "C02", "C03", "C04", "C05", "C24"],
    "checks_whole": ["C27", "C28", "C29", "C30", "C31", "C32"],
    "checks_cc": ["C08", "C09", "C10", "C11", "C13", "C14", "C15", "C16"],
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import vlib
    import cqcpy
    where = os.path.dirname(os.path.abspath(cqcpy.__file__))
    if where != os.path.join(os.path.abspath(REPO), "cqcpy"):
        raise vlib.MachineryError("cqcpy is imported from %s, not from %s" % (where, REPO))
    mod = next((m for m, ps in MODULES.items() if prop in ps), None)
    if mod is None:
        raise vlib.MachineryError("no check for %s" % prop)
    o = vlib.Outcome(prop, tier, seed)
    getattr(__import__(mod), prop)(o)
    return vlib.finish(o)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
