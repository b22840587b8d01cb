"""C23: symmetries of the random tensors the library makes for tests."""
import itertools

import numpy as np

from cqcpy import test_utils as tu
from vlib import call, lib

GRID = 1e8
NONE = []
SYM = [dict(p=[2, 1], s=1)]
ANTI = [dict(p=[2, 1, 3, 4], s=-1), dict(p=[1, 2, 4, 3], s=-1)]
PAIR = [dict(p=[2, 1, 4, 3], s=1)]
FOUR = PAIR + [dict(p=[3, 4, 1, 2], s=1)]
ANTIG = [dict(p=[1, 3, 2, 4, 5], s=-1), dict(p=[1, 2, 3, 5, 4], s=-1)]
KEYS9 = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")
KEYS16 = tuple("".join(x) for x in itertools.product("vo", repeat=4))


def grid(a):
    a = np.asarray(a)
    if np.iscomplexobj(a) or a.dtype == object:
        return None
    a = a.astype(float) * GRID
    if a.size and (not np.isfinite(a).all() or np.abs(a).max() >= 2.0**30):
        return None
    return np.rint(a).astype(int)


def tensor(name, v, parts, gens):
    """parts: (pick, label ranges per axis); together they are one tensor."""
    st, val = v
    o = dict(name=name, kind="tensor", st=st, gens=gens, el=[])
    if st != "ok":
        return o
    for pick, ax in parts:
        try:
            a = np.asarray(pick(val))
        except Exception:
            o["st"] = "shape"
            return o
        if a.shape != tuple(len(x) for x in ax):
            o["st"] = "shape"
            return o
        g = grid(a)
        if g is None:
            o["st"] = "range"
            return o
        for ix in itertools.product(*[range(len(x)) for x in ax]):
            o["el"].append(dict(i=[ax[d][k] for d, k in enumerate(ix)], v=int(g[ix])))
    return o


def denom(name, v, n, m, p1=None, p2=None):
    st, val = v
    o = dict(name=name, kind="den", st=st, n=n, m=m, d1=0, d2=0,
             has1=p1 is not None, has2=p2 is not None)
    if st == "ok":
        for key, pick, shape in (("d1", p1, (n, n)), ("d2", p2, (n, m, n, m))):
            if pick is None:
                continue
            try:
                a = np.asarray(pick(val))
                if a.shape != shape:
                    o["st"] = "shape"
                else:
                    g = grid(a)
                    if g is None:
                        o["st"] = "range"
                    else:
                        o[key] = g.tolist()
            except Exception:
                o["st"] = "shape"
    return o


def rg(no, nv):
    return {"o": list(range(1, no + 1)), "v": list(range(no + 1, no + nv + 1))}


def blocks(keys, R, get=lambda x: x):
    return [(lambda x, k=k: getattr(get(x), k), [R[c] for c in k]) for k in keys]


def C23(o):
    big = o.tier != "quick"
    sizes = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 1), (0, 2), (2, 0), (0, 0), (2, 3)] + \
        ([(3, 3), (3, 2), (1, 2)] if big else [])
    cases = []
    ident = lambda x: x      # noqa: E731

    def done(where, outs, **conf):
        cases.append(dict(id=len(cases), where=where, conf=conf, outs=outs))

    def item(k):
        return lambda x: x[k]

    for rep in range(4 if big else 1):
        for n, (no, nv) in enumerate(sizes):
            np.random.seed(1000 * (o.seed % 1000) + 50 * rep + n)
            R = rg(no, nv)
            f2 = ("oo", "ov", "vo", "vv")
            v = call(lib(tu, "make_random_integrals"), no, nv)
            done("electrons", [
                tensor("make_random_F", call(lib(tu, "make_random_F"), no, nv), blocks(f2, R), SYM),
                tensor("make_random_I", call(lib(tu, "make_random_I"), no, nv), blocks(KEYS9, R), PAIR),
                tensor("make_random_I_anti", call(lib(tu, "make_random_I_anti"), no, nv),
                       blocks(KEYS9, R), ANTI),
                tensor("make_random_Ifull", call(lib(tu, "make_random_Ifull"), no, nv),
                       blocks(KEYS16, R), ANTI),
                tensor("make_random_integrals.F", v, blocks(f2, R, item(0)), SYM),
                tensor("make_random_integrals.I", v, blocks(KEYS9, R, item(1)), ANTI)], no=no, nv=nv)
            v = call(lib(tu, "make_random_T"), no, nv)
            w = call(lib(tu, "make_random_L"), no, nv)
            done("amplitudes", [
                tensor("make_random_T.1", v, [(item(0), [R["v"], R["o"]])], NONE),
                tensor("make_random_T.2", v, [(item(1), [R[c] for c in "vvoo"])], ANTI),
                tensor("make_random_L.1", w, [(item(0), [R["o"], R["v"]])], NONE),
                tensor("make_random_L.2", w, [(item(1), [R[c] for c in "oovv"])], ANTI)], no=no, nv=nv)
            m = no + nv
            A = list(range(1, m + 1))
            v = call(lib(tu, "make_random_ft_integrals"), m)
            w = call(lib(tu, "make_random_ft_D"), m)
            done("one-set", [
                tensor("make_random_Itot", call(lib(tu, "make_random_Itot"), m), [(ident, [A] * 4)], FOUR),
                tensor("make_random_ft_integrals.F", v, [(item(0), [A] * 2)], SYM),
                tensor("make_random_ft_integrals.I", v, [(item(1), [A] * 4)], ANTI),
                denom("make_random_ft_D", w, m, m, item(0), item(1)),
                denom("make_random_ft_D1", call(lib(tu, "make_random_ft_D1"), m), m, 0, ident)], n=m)
        quad = [(1, 2, 2, 1), (2, 2, 1, 2), (2, 1, 2, 3), (0, 2, 1, 1), (1, 1, 2, 0), (2, 3, 3, 2)]
        for n, (noa, nva, nob, nvb) in enumerate(quad):
            np.random.seed(1000 * (o.seed % 1000) + 500 + 20 * rep + n)
            A, B = rg(noa, nva), rg(nob, nvb)
            S = {"a": A, "b": B}
            v = call(lib(tu, "make_random_T1_spatial"), noa, nva, nob, nvb)
            w = call(lib(tu, "make_random_T2_spatial"), noa, nva, nob, nvb)
            outs = [tensor("make_random_T1_spatial." + s, v, [(item(k), [S[s]["v"], S[s]["o"]])], NONE)
                    for k, s in enumerate("ab")]
            for k, (s, t) in enumerate(("aa", "ab", "bb")):
                outs.append(tensor("make_random_T2_spatial." + s + t, w,
                                   [(item(k), [S[s]["v"], S[t]["v"], S[s]["o"], S[t]["o"]])],
                                   ANTI if s == t else NONE))
            sp = [(noa, nva), (nob, nvb), (nva, nob), (nvb, noa)]
            R4 = [rg(*x) for x in sp]
            v = call(lib(tu, "make_random_Ifull_gen"), *[x for y in sp for x in y])
            outs.append(tensor("make_random_Ifull_gen", v,
                               [(lambda x, k=k: getattr(x, k), [R4[d][c] for d, c in enumerate(k)])
                                for k in KEYS16], NONE))
            done("spins", outs, dims=(noa, nva, nob, nvb))
        for n, (ng, na, nb) in enumerate([(1, 2, 3), (3, 2, 2), (2, 3, 1), (2, 0, 2), (0, 2, 1), (2, 1, 0)]):
            np.random.seed(1000 * (o.seed % 1000) + 800 + 20 * rep + n)
            G, A, B = [list(range(1, x + 1)) for x in (ng, na, nb)]
            v = call(lib(tu, "make_random_ft_T"), ng, na)
            w1 = call(lib(tu, "make_random_ft_T1_spatial"), ng, na, nb)
            w2 = call(lib(tu, "make_random_ft_T2_spatial"), ng, na, nb)
            done("grid", [
                tensor("make_random_ft_T.1", v, [(item(0), [G, A, A])], NONE),
                tensor("make_random_ft_T.2", v, [(item(1), [G, A, A, A, A])], ANTIG),
                tensor("make_random_ft_T1_spatial.a", w1, [(item(0), [G, A, A])], NONE),
                tensor("make_random_ft_T1_spatial.b", w1, [(item(1), [G, B, B])], NONE),
                tensor("make_random_ft_T2_spatial.aa", w2, [(item(0), [G, A, A, A, A])], ANTIG),
                tensor("make_random_ft_T2_spatial.ab", w2, [(item(1), [G, A, B, A, B])], NONE),
                tensor("make_random_ft_T2_spatial.bb", w2, [(item(2), [G, B, B, B, B])], ANTIG),
                denom("make_random_ft_D2", call(lib(tu, "make_random_ft_D2"), na, nb), na, nb,
                      None, ident)], ng=ng, na=na, nb=nb)
    o.judged("TraceSymmetry", cases)
