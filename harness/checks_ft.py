"""C20, C21: Fermi functions and grand potentials of single levels and vectors."""
import warnings
from fractions import Fraction
from math import frexp

import numpy as np

from cqcpy import ft_utils as ft
from vlib import TLC, call, lib

LIMIT = 700                   # beyond, tails leave the range of normal doubles


def big(n):
    out = []
    while n:
        out.append(n & 32767)
        n >>= 15
    return out


def dyadic(x):
    """sign, limbs, exponent of a double."""
    m, e = frexp(abs(float(x)))
    m = int(m * 2**53)
    e -= 53
    while m and m % 2 == 0:
        m, e = m // 2, e + 1
    return (-1 if x < 0 else 1), big(m), e if m else 0


def value(name, kind, v):
    st, x = v
    out = dict(name=name, kind=kind, st=st, m=[], e=0, sg=1)
    if st == "ok":
        try:
            x = np.asarray(x)
            if x.shape != () or np.iscomplexobj(x):
                out["st"] = "shape"
                return out
            x = float(x)
        except (TypeError, ValueError):
            out["st"] = "shape"
            return out
        if not np.isfinite(x):
            out["st"] = "not-finite"
            return out
        out["sg"], out["m"], out["e"] = dyadic(x)
    return out


def points(seed, n):
    """(beta, eps, mu) with exact x = beta (eps - mu), all short dyadics."""
    rng = np.random.default_rng([seed, 20])
    out = []
    xs = [0.0, 2.0**-20, -2.0**-20, 0.5, -0.5, 1, -1]
    for edge in (10, 15, 18, 20, 25, 28, 30, 35, 36.5, 37, 40, 50, 100, 300, 600, 700):
        for d in (0, 2.0**-12, -2.0**-12):
            xs += [edge + d, -edge - d]
    for k, x in enumerate(xs):
        b = 2.0**int(rng.integers(-6, 11)) if k % 3 else 1.0
        mu = int(rng.integers(-64, 65)) / 16 if k % 2 else 0.0
        out.append((b, mu + x / b, mu))
    while len(out) < len(xs) + n:
        b = int(rng.integers(1, 4096)) / 2.0**int(rng.integers(0, 12))
        mu = int(rng.integers(-512, 513)) / 64
        x = float(rng.uniform(-45, 45) if rng.random() < 0.7 else rng.uniform(-700, 700))
        e = mu + round(x / b * 4096) / 4096
        out.append((b, e, mu))
    far = [(1.0, 800.0, 0.0), (1.0, -800.0, 0.0), (1024.0, 3.0, -2.0), (1024.0, -3.0, 2.0),
           (4096.0, 90.0, 0.5), (4096.0, -90.0, 0.5), (2.0**20, 1.0, 0.0), (2.0**20, -1.0, 0.0)]
    good = []
    for b, e, mu in out + far:
        x = Fraction(b) * (Fraction(e) - Fraction(mu))
        if e - mu != Fraction(e) - Fraction(mu) or b * (e - mu) != x:
            continue
        if LIMIT < abs(x) < 760:
            continue
        good.append((b, e, mu))
    return good


def level(b, e, mu):
    x = Fraction(b) * (Fraction(e) - Fraction(mu))
    _, bm, be = dyadic(b)
    sg, em, ee = dyadic(e - mu)
    return dict(bm=bm, be=be, em=em, ee=ee, sg=sg, beyond=abs(x) > LIMIT, outs=[], where="level",
                conf=dict(beta=b, eps=e, mu=mu, x=float(x)))


def _run(o, scalars, vectors):
    t = TLC("SpecFermi", cfg="SpecFermi.cfg" if o.tier == "quick" else "SpecFermiDeep.cfg").run().require_ok()
    o.tlc(t)
    pts = points(o.seed, 900 if o.tier != "quick" else 120)
    levels = [level(*p) for p in pts]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for (b, e, mu), c in zip(pts, levels):
            if scalars[0][1] == "f" and e >= mu:
                c["outs"].append(value("HtoK", "K", call(lib(ft, "HtoK"), e - mu)))
            for fn, kind in scalars:
                c["outs"].append(value(fn, kind, call(lib(ft, fn), b, e, mu)))
        # vectors: levels of one beta and mu, of any number and order
        rng = np.random.default_rng([o.seed, 21])
        groups = {}
        for p, c in zip(pts, levels):
            groups.setdefault(p[0], []).append((p, c))
        sets = []
        for (b, e, mu), c in zip(pts[::9], levels[::9]):
            n = int(rng.integers(0, 7))
            es = [mu + round(float(x) / b * 256) / 256 for x in rng.uniform(-45, 45, n)]
            es = [x for x in es if b * (x - mu) == Fraction(b) * (Fraction(x) - Fraction(mu))
                  and x - mu == Fraction(x) - Fraction(mu)]
            if len(sets) % 2 and es:                            # degenerate levels, next to each other or not
                es = es[:-1] + [es[len(es) // 2], es[-1], es[-1], es[0]]
                es = sorted(es) if len(sets) % 4 == 1 else es
            sets.append((b, mu, es, np.array(es, dtype=float)))
        sets.append((0.5, 1.0, [3, -2, 0, 100, -90], np.array([3, -2, 0, 100, -90])))
        for k, (b, mu, es, vec) in enumerate(sets):
            # an independent second set for functions of two
            es2 = es[::-1][: max(len(es) - 1, 1)] if k % 2 else [mu + 1.0] + es
            cs = [level(b, x, mu) for x in es]
            cs2 = [level(b, x, mu) for x in es2]
            for fn, kind in vectors:
                two = fn.startswith("u")
                if two:
                    v = call(lib(ft, fn), b, vec, np.array(es2, dtype=float), mu)
                    parts = [(cs, 0), (cs2, 1)]
                else:
                    v = call(lib(ft, fn), b, vec, mu)
                    parts = [(cs, None)]
                for lv, pick in parts:
                    st, arr = v
                    if st == "ok":
                        try:
                            arr = np.asarray(arr if pick is None else arr[pick])
                            if arr.shape != (len(lv),):
                                st = "shape"
                        except Exception:
                            st = "shape"
                    nm = fn if pick is None else "%s[%d]" % (fn, pick)
                    for j, c in enumerate(lv):
                        c["outs"].append(value(nm, kind, (st, arr[j] if st == "ok" else None)))
                    if st != "ok" and not lv:
                        o.add("vector", ["%s:%s" % (nm, st)], dict(beta=b, mu=mu, n=0))
            levels += [dict(c, where="vector") for c in cs + cs2 if c["outs"]]
    for i, c in enumerate(levels):
        c["id"] = i
    o.judged("TraceFermi", levels)


def C20(o):
    _run(o, [("fermi_function", "f"), ("vfermi_function", "v")], [("ff", "f"), ("ffv", "v")])


def C21(o):
    _run(o, [("grand_potential0", "g"), ("dgrand_potential0", "d")],
         [("GP0", "g"), ("uGP0", "g"), ("dGP0", "d")])
