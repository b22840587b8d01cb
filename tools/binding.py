#!/usr/bin/env python3
"""binding.py <property>...: do the specifications look at what was recorded?

Runs a check, changes one recorded number in a copy of every case and lets TLC judge the copies too.
Each copy should be rejected; those that are not are printed with the path of the changed number.
"""
import copy
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "harness"), os.environ.get("VERIF_REPO", "/repo")]
import numpy as np                                              # noqa: E402
import check                                                    # noqa: E402
import vlib                                                     # noqa: E402

# where recordings, as opposed to arguments and descriptions, are found in a case
RECORDED = ("val", "got", "e", "v")


def leaves(x, path=(), inside=False):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("id", "conf", "ax"):
                yield from leaves(v, path + (k,), inside or k in RECORDED)
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,), inside)
    elif inside and type(x) is int:
        yield path


def main():
    plain = vlib.judge
    total = {}

    def both(module, cases, **kw):
        t, verd = plain(module, cases, **kw)
        rng = np.random.default_rng(7)
        bad, paths = [], {}
        for c in cases:
            where = list(leaves(c))
            if not where:
                continue
            d = copy.deepcopy(c)
            p = where[rng.integers(len(where))]
            x = d
            for k in p[:-1]:
                x = x[k]
            x[p[-1]] = x[p[-1]] + 10**6 if module in ("TraceCoulomb", "TraceSymmetry") else (x[p[-1]] + 1) % 46337
            paths[d["id"]] = p
            bad.append(d)
        n = total.setdefault(module, [0, 0, len(cases)])
        if bad:
            _, second = plain(module, bad, **kw)
            for d in bad:
                n[0] += 1
                if second[d["id"]] == verd[d["id"]]:
                    print("  accepted:", module, d.get("where"), paths[d["id"]], d.get("conf") if "-v" in sys.argv else "")
                else:
                    n[1] += 1
        return t, verd
    vlib.judge = both
    for prop in [x for x in sys.argv[1:] if x != "-v"]:
        total.clear()
        o = vlib.Outcome(prop, "quick", 1)
        mod = next(m for m, ps in check.MODULES.items() if prop in ps)
        m = __import__(mod)
        if hasattr(m, "judge"):
            m.judge = both
        getattr(m, prop)(o)
        for module, (n, k, c) in total.items():
            print("%s %s: %d of %d changed recordings rejected (%d cases)" % (prop, module, k, n, c), flush=True)


main()
