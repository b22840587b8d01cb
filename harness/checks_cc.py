"""C08-C16: coupled-cluster energies, residuals, Lambda residuals, densities."""
import numpy as np

import cc
from vlib import Exact

# memory layout, number type and magnitude of the arguments, cycled over sizes
VARIANTS = [
    dict(mag=2),
    dict(mag=2, cplx=False, den=2),
    dict(mag=40, cplx=False),
    dict(mag=1, zero=0.5, order="F"),
    dict(mag=3, herm=True),
    dict(mag=2, cplx=False, herm=True, order="F"),
    dict(mag=12),
]
# elements of very different magnitude (amplitudes down to 1e-24 or up to 1e24): orbitals rescaled by powers
# of two, under which every term of a correct expression keeps its exact digits
STRETCHED = {"g": [(3, 3), (3, 3), (2, 4)], "u": [(2, 2, 2, 2), (2, 3, 3, 2), (2, 2, 2, 3)],
             "r": [(2, 2), (2, 2), (2, 3)]}

SIZES_G = [(2, 2), (3, 3), (3, 2), (2, 4), (4, 2), (1, 3), (3, 1), (1, 1), (0, 2), (2, 0),
           (4, 4), (2, 7), (6, 2), (2, 2), (3, 3)]
SIZES_U = [(2, 2, 1, 2), (2, 2, 2, 2), (1, 2, 2, 2), (2, 1, 1, 3), (1, 2, 0, 1), (0, 2, 2, 1),
           (2, 0, 1, 2), (1, 2, 2, 0), (3, 1, 2, 2), (1, 4, 2, 3), (2, 3, 2, 3), (1, 1, 1, 1),
           (2, 2, 2, 2), (2, 3, 0, 0), (3, 3, 1, 2)]
SIZES_R = [(1, 1), (1, 2), (2, 2), (2, 1), (3, 1), (1, 4), (2, 3), (3, 2), (2, 2), (0, 2),
           (2, 0), (1, 6)]
LARGE = {"g": [(4, 6), (2, 10), (5, 4), (8, 2), (3, 6)],
         "u": [(1, 7, 1, 6), (3, 2, 3, 3), (3, 3, 2, 3), (2, 4, 2, 4), (4, 2, 1, 3)],
         "r": [(3, 3), (2, 4), (4, 2), (1, 8)]}
# small systems inside larger ones (additional orbitals of each class), with tensors or blocks of them that
# vanish and with beta tensors that are the alpha ones
INSIDE = {
    "g": [((3, 3), (4, 10), []), ((2, 3), (9, 4), ["F.ov"]), ((3, 2), (2, 15), ["F.vo"]),
          ((2, 2), (0, 5), ["F.offdiag"]), ((2, 2), (4, 0), ["T1"]), ((2, 3), (1, 1), ["T2"]),
          ((2, 2), (3, 3), ["L1"]), ((3, 2), (1, 2), ["L2"]), ((2, 2), (0, 0), ["F.ov", "F.vo"]),
          ((2, 2), (0, 0), ["V.oovv"]), ((2, 2), (0, 0), ["V.vvoo", "F.vo"]), ((2, 2), (0, 0), ["F"]),
          ((2, 2), (0, 0), ["V.vvvo", "V.vooo"]), ((2, 2), (0, 0), ["V.vovv", "V.ooov"]),
          ((2, 2), (0, 0), ["T1", "L1", "F.ov"]), ((2, 2), (0, 0), ["V"]),
          ((2, 5), (0, 0), ["T1.v<2"]), ((4, 2), (0, 0), ["T1.o>2", "L1.v>1"]), ((2, 4), (0, 0), ["T2.v<2", "L1.v<1"]),
          ((4, 2), (0, 0), ["T2.o>1", "L2.o<2"]), ((3, 3), (0, 0), ["V.v<1", "T1.v>2"]), ((3, 3), (0, 0), ["F.o>1", "T1.o<1"])],
    "u": [((2, 2, 2, 2), (5, 9, 3, 7), [], []), ((2, 2, 1, 2), (3, 3, 6, 11), ["Fa.ov"], []),
          ((1, 2, 2, 2), (1, 2, 1, 2), ["Fb.ov", "Fb.vo"], []), ((2, 2, 2, 2), (0, 5, 0, 5), [], ["Fa", "Va", "ab"]),
          ((2, 2, 2, 2), (0, 0, 0, 0), [], ["T1a"]), ((2, 2, 2, 2), (0, 0, 0, 0), [], ["T1a", "L1a", "Fa"]),
          ((2, 2, 2, 2), (0, 0, 0, 0), [], ["T2aa", "L2aa", "T1a"]), ((2, 2, 2, 2), (0, 0, 0, 0), [], ["Va"]),
          ((2, 2, 2, 2), (1, 1, 1, 1), [], ["Fa", "Va", "T1a", "T2aa", "L1a", "L2aa"]),
          ((2, 2, 2, 2), (0, 0, 0, 0), [], ["Fa", "Va", "T1a", "T2aa", "L1a", "L2aa", "ab"]),
          ((2, 1, 1, 2), (0, 0, 0, 0), ["T1a"], []), ((1, 2, 2, 1), (0, 0, 0, 0), ["T1b"], []),
          ((2, 2, 2, 1), (2, 2, 2, 3), ["T2ab"], []), ((2, 2, 1, 2), (0, 0, 0, 0), ["T2aa"], []),
          ((1, 2, 2, 2), (0, 0, 0, 0), ["T2bb", "L2bb"], []), ((2, 2, 1, 1), (0, 0, 0, 0), ["Vab.oovv"], []),
          ((2, 2, 1, 1), (0, 0, 0, 0), ["Va.oovv", "Vb.oovv"], []), ((2, 1, 2, 1), (0, 0, 0, 0), ["L1a", "L2ab"], []),
          ((1, 2, 1, 2), (0, 0, 0, 0), ["L1b", "L2aa"], []), ((2, 2, 1, 1), (0, 0, 0, 0), ["Vab"], []),
          ((2, 1, 2, 1), (0, 0, 0, 0), ["Fa.offdiag", "Fb.offdiag"], []),
          ((1, 4, 1, 2), (0, 0, 0, 0), ["T1a.v<1", "L2ab.v>2"], []), ((1, 2, 1, 4), (0, 0, 0, 0), ["T1b.v<1", "T2ab.v>1"], []),
          ((3, 1, 2, 2), (0, 0, 0, 0), ["T1a.o>2", "T2aa.o<2", "T1b.o<1"], []), ((2, 2, 3, 1), (0, 0, 0, 0), ["T1b.o>2", "L1a.o>1"], [])],
    "r": [((2, 2), (5, 11), []), ((2, 2), (9, 5), ["F.ov"]), ((2, 2), (0, 4), ["F.vo"]), ((2, 1), (0, 0), ["T1"]),
          ((1, 2), (2, 3), ["T2"]), ((2, 2), (0, 0), ["L1"]), ((2, 2), (0, 0), ["L2"]),
          ((2, 2), (0, 0), ["V.oovv"]), ((2, 2), (3, 0), ["F.offdiag"]), ((2, 2), (0, 0), ["F.ov", "T1"]),
          ((1, 4), (0, 0), ["T1.v<1", "T2.v>2"]), ((3, 1), (0, 0), ["T1.o>2", "L1.o<1"]), ((2, 2), (0, 0), ["T2.o<1", "L2.v>1"])]}
# a very small or large Hamiltonian, and very small Lambda amplitudes
MAGNIFIED = [("H", -44), ("L", -42), ("H", 40)]
# a complex Hamiltonian with real amplitudes, and complex amplitudes with real Lambda
REAL = ["T1 T2 L1 L2", "L1 L2"]
MAKE = {"g": cc.G, "u": cc.U, "r": cc.R}
SIZES = {"g": SIZES_G, "u": SIZES_U, "r": SIZES_R}


def systems(form, seed, tier, t1=True):
    """The systems of a run: every size, the variants rotating with the seed."""
    reps = 1 if tier == "quick" else 7
    kw = {} if t1 else {"t1": False}
    n = 0
    for rep in range(reps):
        for k, dims in enumerate(SIZES[form]):
            rng = np.random.default_rng([seed, rep, n, len(form), ord(form)])
            yield MAKE[form](Exact(rng, **VARIANTS[(k + rep) % len(VARIANTS)]), *dims, **kw)
            n += 1
        for k, dims in enumerate(STRETCHED[form]):
            rng = np.random.default_rng([seed, rep, n, 98, ord(form)])
            yield MAKE[form](Exact(rng, mag=2, cplx=k == 1, stretch=(16, -16)[(k + seed) % 2]), *dims, **kw)
            n += 1
        for k, (dims, more, blank, *eq) in enumerate(INSIDE[form]):
            rng = np.random.default_rng([seed, rep, n, 97, ord(form)])
            s = MAKE[form](Exact(rng, **VARIANTS[(k + rep + 1) % 3]), *dims, **kw)
            if eq and eq[0]:
                s.equate(eq[0])
            s.blank(blank)
            if any(more):
                s.widen(rng, **dict(zip("ovOV", more)))
            yield s
            n += 1
        for k, (what, pw) in enumerate(MAGNIFIED):
            rng = np.random.default_rng([seed, rep, n, 96, ord(form)])
            s = MAKE[form](Exact(rng, mag=1, cplx=what == "H"), *STRETCHED[form][k % 2], **kw)
            s.magnify(what, pw)
            yield s
            n += 1
        for k, kinds in enumerate(REAL):
            rng = np.random.default_rng([seed, rep, n, 95, ord(form)])
            s = MAKE[form](Exact(rng, mag=2, order="CF"[(k + rep) % 2]), *STRETCHED[form][(k + 1) % 2], **kw)
            s.real(kinds)
            yield s
            n += 1
    if tier != "quick":
        for dims in LARGE[form]:
            rng = np.random.default_rng([seed, 99, n, ord(form)])
            yield MAKE[form](Exact(rng, **VARIANTS[n % len(VARIANTS)]), *dims, **kw)
            n += 1


def run(o, plan):
    cases = []
    for form, kw, recs in plan:
        for s in systems(form, o.seed, o.tier, **kw):
            for r in recs:
                cases += r(s)
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceCC", cases, timeout=3000 if o.tier != "quick" else 820)
    o.extra["systems"] = len({str(c["conf"]) for c in cases})
    o.assumptions.append("arguments are Gaussian integers or dyadic fractions; values are "
                         "compared in F_46337")


def tf(fn, t):
    return lambda s: fn(s, t)


def C08(o):
    run(o, [("g", {}, [cc.energies_g]), ("u", {}, [cc.energies_u]), ("r", {}, [cc.energies_r])])


def C09(o):
    run(o, [("g", {}, [cc.amps_g, cc.amps_lin]), ("g", dict(t1=False), [cc.amps_g, cc.amps_d])])


def C10(o):
    run(o, [("u", {}, [cc.amps_u])])


def C11(o):
    run(o, [("r", {}, [cc.amps_r])])


def C13(o):
    run(o, [("g", {}, [cc.lam_g]), ("g", dict(t1=False), [cc.lam_g, cc.lam_d])])


def C14(o):
    run(o, [("u", {}, [cc.lam_u]), ("r", {}, [cc.lam_r])])


def C15(o):
    run(o, [("g", {}, [cc.rdm_g, tf(cc.rdm_g, 3), tf(cc.rdm_g, 0)])])


def C16(o):
    run(o, [("u", {}, [cc.rdm_u, tf(cc.rdm_u, 3), tf(cc.rdm_u, 0)]),
            ("r", {}, [cc.rdm_r, tf(cc.rdm_r, 3), tf(cc.rdm_r, 0)])])
