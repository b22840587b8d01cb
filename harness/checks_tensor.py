"""C06, C07, C12, C22: spin conversions, blocks, ring/ladder doubles, denominators."""
import itertools

import numpy as np

import cc as ccs
from cqcpy import cc_equations as cc
from cqcpy import ov_blocks, spin_utils, utils
from vlib import Exact, call, lib, record, to_field

VARIANTS = [dict(mag=9), dict(mag=9, cplx=False), dict(mag=5, den=2, order="F"),
            dict(mag=4000, cplx=False, den=4), dict(mag=1, zero=0.7), dict(mag=9, mixed=True)]
TINY = [dict(mag=3, den=2.0**44), dict(mag=3, den=2.0**-40)]      # all numbers very small or very large
KEYS9 = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")
KEYS16 = tuple(a + b + c + d for a in "vo" for b in "vo" for c in "vo" for d in "vo")


def _case(where, conf, outs, **t):
    c = dict(id=0, where=where, conf=conf, outs=outs, noa=0, nva=0, nob=0, nvb=0)
    c.update(t)
    return c


def _run(o, cases):
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceTensor", cases)


def _axes(dims):
    noa, nva, nob, nvb = dims
    no, nv = noa + nob, nva + nvb
    return {"o": range(1, no + 1), "v": range(no + 1, no + nv + 1),
            "oa": range(1, noa + 1), "ob": range(noa + 1, no + 1),
            "va": range(no + 1, no + nva + 1), "vb": range(no + nva + 1, no + nv + 1)}


def attr(*path):
    def f(v):
        for p in path:
            v = v[p] if isinstance(p, int) else getattr(v, p)
        return v
    return f


def two_e_full(V, nos):
    return ov_blocks.two_e_blocks_full(**{k: ccs._cut(V, k, nos) for k in KEYS16})


def C06(o):
    su = spin_utils
    big = o.tier != "quick"
    cases = []
    dimlist = [(1, 1, 1, 1), (2, 3, 1, 2), (1, 2, 2, 3), (2, 2, 2, 2), (3, 1, 1, 3), (2, 1, 0, 2),
               (0, 2, 2, 1), (2, 0, 1, 2), (1, 2, 2, 0), (1, 1, 0, 0), (0, 0, 2, 1), (3, 2, 2, 2),
               (1, 3, 3, 1), (3, 4, 2, 5), (4, 2, 5, 1), (2, 2, 2, 2), (2, 3, 2, 3), (2, 1, 1, 2), (1, 2, 1, 1),
               (1, 2, 2, 1), (2, 2, 1, 2), (2, 2, 2, 2), (2, 2, 2, 2), (2, 1, 2, 2), (2, 2, 1, 2), (1, 2, 2, 2),
               (2, 2, 1, 2), (2, 1, 2, 2), (1, 9, 1, 1), (7, 1, 1, 2), (1, 1, 10, 1), (1, 2, 1, 8)]
    tiny = {26: TINY[0], 27: TINY[1]}
    mixed = dict(enumerate(("rc", "cr", "rrc", "crr", "rcr"), 21))
    same = {15: "FTDI", 16: "FT", 17: "", 18: ""}          # alpha and beta arguments are one object
    if big:
        dimlist += list(itertools.product(range(0, 4), repeat=4))
    for n, dims in enumerate(dimlist):
        noa, nva, nob, nvb = dims
        na, nb = noa + nva, nob + nvb
        no, nv = noa + nob, nva + nvb
        ex = Exact(np.random.default_rng([o.seed, 6, n]), **dict(mag=9, mixed=mixed[n]) if n in mixed else tiny.get(n, VARIANTS[n % len(VARIANTS)]))
        z = ex.den
        ax = _axes(dims)
        L = dict(noa=noa, nva=nva, nob=nob, nvb=nvb)
        conf = dict(dims=dims, same=same.get(n, ""), **ex.variant())

        def pair(what, f, a, b):
            x = f(*a)
            return x, x if what in same.get(n, "") else f(*b)

        def rec(name, kind, axs, val, pick=None):
            return record(name, kind, [ax[k] if isinstance(k, str) else k for k in axs], val,
                          scale=z, pick=pick)

        # one-electron
        Fa, Fb = pair("F", ex.t, (na, na), (nb, nb))
        v = call(lib(su, "F_to_spin"), ccs.one_e(Fa, noa), ccs.one_e(Fb, nob), *dims)
        outs = [rec("F_to_spin." + k, "F", list(k), v, attr(k)) for k in ("oo", "ov", "vo", "vv")]
        w = call(lambda: su.F_to_spatial(v[1], *dims)) if v[0] == "ok" else v
        outs += [rec("F_to_spatial(F_to_spin).%s%s" % (k, s), "F", [k[0] + s, k[1] + s], w, attr(i, k))
                 for i, s in enumerate("ab") for k in ("oo", "ov", "vo", "vv")]
        cases.append(_case("F_to_spin", conf, outs, Fa=to_field(Fa, z), Fb=to_field(Fb, z), **L))
        S = ex.t(no + nv, no + nv)
        v = call(lib(su, "F_to_spatial"), ccs.one_e(S, no), *dims)
        outs = [rec("F_to_spatial.%s%s" % (k, s), "at1", [k[0] + s, k[1] + s], v, attr(i, k))
                for i, s in enumerate("ab") for k in ("oo", "ov", "vo", "vv")]
        cases.append(_case("F_to_spatial", conf, outs, S1=to_field(S, z), **L))
        # amplitudes
        T1a, T1b = pair("T", ex.t, (nva, noa), (nvb, nob))
        v = call(lib(su, "T1_to_spin"), T1a, T1b, *dims)
        outs = [rec("T1_to_spin", "T1", "vo", v)]
        w = call(lambda: su.T1_to_spatial(v[1], *dims)) if v[0] == "ok" else v
        outs += [rec("T1_to_spatial(T1_to_spin)." + s, "T1", ["v" + s, "o" + s], w, attr(i))
                 for i, s in enumerate("ab")]
        cases.append(_case("T1_to_spin", conf, outs, T1a=to_field(T1a, z), T1b=to_field(T1b, z), **L))
        S = ex.t(nv, no)
        v = call(lib(su, "T1_to_spatial"), S, *dims)
        rows = {"a": range(1, nva + 1), "b": range(nva + 1, nv + 1)}
        outs = [rec("T1_to_spatial." + s, "at1", [rows[s], "o" + s], v, attr(i))
                for i, s in enumerate("ab")]
        cases.append(_case("T1_to_spatial", conf, outs, S1=to_field(S, z), **L))
        T2aa, T2bb = pair("T", ex.anti, (nva, nva, noa, noa), (nvb, nvb, nob, nob))
        T2ab = ex.t(nva, nvb, noa, nob)
        t2 = dict(T2aa=to_field(T2aa, z), T2bb=to_field(T2bb, z), T2ab=to_field(T2ab, z))
        v = call(lib(su, "T2_to_spin"), T2aa, T2ab, T2bb, *dims)
        outs = [rec("T2_to_spin", "T2", "vvoo", v)]
        w = call(lambda: su.T2_to_spatial(v[1], *dims)) if v[0] == "ok" else v
        outs += [rec("T2_to_spatial(T2_to_spin)." + s, "T2",
                     ["v" + s[0], "v" + s[1], "o" + s[0], "o" + s[1]], w, attr(i))
                 for i, s in enumerate(("aa", "ab", "bb"))]
        cases.append(_case("T2_to_spin", conf, outs, **t2, **L))
        S = ex.anti(nv, nv, no, no)
        v = call(lib(su, "T2_to_spatial"), S, *dims)
        outs = [rec("T2_to_spatial." + s, "at2", [rows[s[0]], rows[s[1]], "o" + s[0], "o" + s[1]], v,
                    attr(i)) for i, s in enumerate(("aa", "ab", "bb"))]
        cases.append(_case("T2_to_spatial", conf, outs, S2=to_field(S, z), **L))
        Daa, Dbb = pair("D", ex.t, (nva, nva, noa, noa), (nvb, nvb, nob, nob))
        v = call(lib(su, "D2_to_spin"), Daa, T2ab, Dbb, *dims)
        outs = [rec("D2_to_spin", "E2", "vvoo", v)]
        cases.append(_case("D2_to_spin", conf, outs, T2aa=to_field(Daa, z), T2bb=to_field(Dbb, z),
                           T2ab=to_field(T2ab, z), **L))
        # integrals
        Ia, Ib = pair("I", ex.pairsym, (na,) * 4, (nb,) * 4)
        Iab = ex.t(na, nb, na, nb)
        ab = two_e_full(Iab, (noa, nob, noa, nob))
        a = two_e_full(Ia, (noa,) * 4)
        b = a if Ib is Ia else two_e_full(Ib, (nob,) * 4)
        v = call(lib(su, "int_to_spin"), a, b, ab, *dims)
        cases.append(_case("int_to_spin", conf,
                           [rec("int_to_spin." + k, "VA", list(k), v, attr(k)) for k in KEYS9],
                           Ia=to_field(Ia, z), Ib=to_field(Ib, z), Iab=to_field(Iab, z), **L))
        Ia, Ib = pair("I", ex.anti, (na,) * 4, (nb,) * 4)
        a = ccs.two_e(Ia, noa)
        b = a if Ib is Ia else ccs.two_e(Ib, nob)
        v = call(lib(su, "int_to_spin2"), a, b, ab, *dims)
        outs = [rec("int_to_spin2." + k, "V2", list(k), v, attr(k)) for k in KEYS9]
        w = call(lambda: su.int_to_spatial(v[1], noa, nob, nva, nvb)) if v[0] == "ok" else v
        outs += _spatial(rec, "int_to_spatial(int_to_spin2)", "V2", w)
        cases.append(_case("int_to_spin2", conf, outs, Ia=to_field(Ia, z), Ib=to_field(Ib, z),
                           Iab=to_field(Iab, z), **L))
        S = ex.anti(no + nv, no + nv, no + nv, no + nv)
        v = call(lib(su, "int_to_spatial"), ccs.two_e(S, no), noa, nob, nva, nvb)
        cases.append(_case("int_to_spatial", conf, _spatial(rec, "int_to_spatial", "at2", v),
                           S2=to_field(S, z), **L))
        # the block primitive, every axis with its own counts
        rng = np.random.default_rng([o.seed, 66, n])
        A, B = [int(x) for x in rng.integers(0, 4, 4)], [int(x) for x in rng.integers(0, 4, 4)]
        sp = {"a": A, "b": B}
        blk = {s: ex.t(*[sp[c][k] for k, c in enumerate(s)])
               for s in ("aaaa", "bbbb", "abab", "baba", "abba", "baab")}
        v = call(lib(su, "int_to_spin_block"), *blk.values(), *A, *B)
        cases.append(_case("int_to_spin_block", dict(na=A, nb=B, **ex.variant()),
                           [rec("int_to_spin_block", "six",
                                [range(1, a + b + 1) for a, b in zip(A, B)], v)],
                           na=A, **{k: to_field(x, z) for k, x in blk.items()}))
    _run(o, cases)


def _spatial(rec, name, kind, v):
    outs = []
    for i, s in enumerate("ab"):
        outs += [rec("%s.%s%s" % (name, k, s), kind, [c + s for c in k], v, attr(i, k)) for k in KEYS9]
    return outs + [rec("%s.%sab" % (name, k), kind, [k[0] + "a", k[1] + "b", k[2] + "a", k[3] + "b"],
                       v, attr(2, k)) for k in KEYS16]


def C07(o):
    big = o.tier != "quick"
    cases = []
    rng = np.random.default_rng([o.seed, 7])
    splits = [((2, 3),) * 4, ((1, 2), (2, 1), (3, 1), (1, 3)), ((0, 2), (1, 1), (2, 0), (1, 2)),
              ((2, 1), (2, 1), (1, 3), (1, 3)), ((3, 1), (1, 3), (3, 1), (1, 3)), ((0, 0),) * 4,
              ((1, 0), (0, 1), (1, 1), (2, 2)), ((4, 2), (2, 4), (1, 1), (3, 2)), ((5, 4), (3, 7), (1, 6), (6, 2)),
              ((2, 9), (1, 1), (11, 3), (2, 3)), ((3, 4), (3, 4), (3, 4), (3, 4))]
    for _ in range(60 if big else 12):
        splits.append(tuple((int(a), int(b)) for a, b in rng.integers(0, 4, (4, 2))))
    for n, sp in enumerate(splits):
        ex = Exact(np.random.default_rng([o.seed, 7, n]), **(VARIANTS + TINY)[n % 8])
        z = ex.den
        S = ex.t(*[a + b for a, b in sp])
        flat = [x for ab in sp for x in ab]
        outs = []
        for fn, keys in (("make_two_e_blocks", KEYS9), ("make_two_e_blocks_full", KEYS16)):
            v = call(lib(ov_blocks, fn), S, *flat)
            for k in keys:
                ax = [range(1, a + 1) if c == "o" else range(a + 1, a + b + 1)
                      for c, (a, b) in zip(k, sp)]
                outs.append(record(fn + "." + k, "at2", ax, v, scale=z, pick=attr(k)))
            for axis in range(4):
                for d in (1, -1):
                    bad = list(flat)
                    bad[2 * axis + int(rng.integers(2))] += d
                    if min(bad) < 0:
                        continue
                    st, _ = call(lib(ov_blocks, fn), S, *bad)
                    st = "refused" if st.startswith("raised") else "accepted-mismatch"
                    outs.append(record(fn + "-mismatch", "refuse", [], (st, None)))
        cases.append(_case("make_two_e_blocks", dict(split=sp, **ex.variant()), outs,
                           S2=to_field(S, z)))
    for n in range(6):
        ex = Exact(np.random.default_rng([o.seed, 77, n]), **VARIANTS[n % len(VARIANTS)])
        z = ex.den
        no, nv = 2, 3
        S, F = ex.t(5, 5, 5, 5), ex.t(5, 5)
        rg = {"o": range(1, 3), "v": range(3, 6)}
        outs = []
        cut = {k: F[tuple(slice(0, no) if c == "o" else slice(no, None) for c in k)]
               for k in ("oo", "ov", "vo", "vv")}
        for nm, v in (("one_e_blocks", call(lambda: ov_blocks.one_e_blocks(
                          cut["oo"], cut["ov"], cut["vo"], cut["vv"]))),
                      ("one_e_blocks-kw", call(lambda: ov_blocks.one_e_blocks(**cut)))):
            outs += [record(nm + "." + k, "at1", [rg[c] for c in k], v, scale=z, pick=attr(k))
                     for k in cut]
        for nm, keys in (("two_e_blocks", KEYS9), ("two_e_blocks_full", KEYS16)):
            v = call(lambda: getattr(ov_blocks, nm)(**{k: ccs._cut(S, k, (no,) * 4) for k in keys}))
            outs += [record(nm + "." + k, "at2", [rg[c] for c in k], v, scale=z, pick=attr(k))
                     for k in keys]
        cases.append(_case("containers", ex.variant(), outs, S1=to_field(F, z), S2=to_field(S, z)))
    _run(o, cases)


def C12(o):
    big = o.tier != "quick"
    sizes = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (0, 2), (2, 0), (2, 2), (4, 4),
             (2, 5), (3, 2), (2, 3), (3, 3), (2, 2), (3, 3), (2, 2), (2, 2), (2, 3), (2, 2), (2, 2)]
    more = dict(zip((12, 13, 14), [(4, 11), (9, 4), (2, 7)]))          # additional orbitals that nothing couples to
    power = {15: -44, 16: 40}
    blank = dict(zip((17, 18, 19, 20, 21), (["T2"], ["V.oovv"], ["V.vvoo"], ["V.vovo"], ["V.vvvv", "V.oooo"])))
    var = [dict(mag=2), dict(mag=2, cplx=False, den=2), dict(mag=40, cplx=False),
           dict(mag=1, zero=0.5, order="F"), dict(mag=3, herm=True)]
    cases = []
    for rep in range(6 if big else 1):
        for n, (no, nv) in enumerate(sizes):
            ex = Exact(np.random.default_rng([o.seed, 12, rep, n]), **var[(n + rep) % len(var)])
            s = ccs.G(ex, no, nv)
            s.blank(blank.get(n, []))
            if n in power:
                s.magnify("H", power[n])
            if n in more:
                s.widen(np.random.default_rng([o.seed, 121, rep, n]), o=more[n][0], v=more[n][1])
            outs = []
            for nm, kind in (("ccd_ladder_simple", "ladder"), ("ccd_ring_simple", "ring")):
                _, I = s.blocks()
                outs.append(record(nm, kind, [range(1, nv + 1)] * 2 + [range(1, no + 1)] * 2,
                                   call(lib(cc, nm), I, s.T2), scale=4 * ex.den**3,
                                   pick=lambda x: np.asarray(x) * 2.0**-s.unit, inside=s.where("vvoo")))
            cases.append(_case("ccd_ring_ladder", s.conf, outs, no=no, nv=nv,
                               V=to_field(s.tensor("V"), ex.den), T2=to_field(s.tensor("T2"), ex.den)))
    _run(o, cases)


def C22(o):
    big = o.tier != "quick"
    cases = []
    var = [dict(mag=9, cplx=False), dict(mag=9), dict(mag=900, cplx=False, den=8),
           dict(mag=5, cplx=False, den=2, zero=0.3), dict(mag=9, mixed=True)] + TINY
    dims = [(1, 1, 1, 1), (2, 3, 1, 2), (3, 2, 2, 4), (4, 1, 3, 2), (0, 2, 1, 3), (2, 0, 3, 1),
            (2, 2, 0, 1), (1, 3, 2, 0), (3, 3, 3, 3), (2, 2, 2, 2), (7, 5, 6, 9), (11, 3, 4, 13),
            (2, 17, 5, 4), (2, 2, 2, 2), (2, 3, 3, 2), (3, 2, 2, 3), (1, 2, 2, 1), (2, 3, 2, 3), (2, 3, 3, 2),
            (2, 2, 2, 2), (1, 2, 3, 1)]
    mixed = dict(enumerate(("rc", "cr", "rc", "cr"), 17))
    if big:
        dims += list(itertools.product(range(0, 5), repeat=4))[::3]
    for n, (va, oa, vb, ob) in enumerate(dims):
        ex = Exact(np.random.default_rng([o.seed, 22, n]),
                   **dict(mag=9, mixed=mixed[n]) if n in mixed else var[n % len(var)])
        z = ex.den
        ev, eo, evb, eob = ex.t(va), ex.t(oa), ex.t(vb), ex.t(ob)
        r = {k: range(1, x + 1) for k, x in (("v", va), ("o", oa), ("V", vb), ("O", ob))}
        outs = [record("D1", "D1", [r["v"], r["o"]], call(lib(utils, "D1"), ev, eo), scale=z),
                record("D2", "D2", [r[c] for c in "vvoo"], call(lib(utils, "D2"), ev, eo), scale=z),
                record("D2u", "D2u", [r[c] for c in "vVoO"],
                       call(lib(utils, "D2u"), ev, evb, eo, eob), scale=z)]
        cases.append(_case("denominators", dict(dims=(va, oa, vb, ob), **ex.variant()), outs,
                           ev=to_field(ev, z), eo=to_field(eo, z), evb=to_field(evb, z),
                           eob=to_field(eob, z)))
        A, B = ex.t(va, oa), ex.t(vb, ob)
        if n % 6 == 2 and not np.iscomplexobj(A):
            A, B = np.rint(A * 9).astype(int), B + 0.5          # integers above, others below
            z = 2 * z
        outs = [record("block_diag", "bd", [range(1, va + vb + 1), range(1, oa + ob + 1)],
                       call(lib(utils, "block_diag"), A, B), scale=z)]
        cases.append(_case("block_diag", dict(dims=(va, oa, vb, ob), **ex.variant()), outs,
                           A=to_field(A, z), B=to_field(B, z), ma=va, mb=oa))
    _run(o, cases)
