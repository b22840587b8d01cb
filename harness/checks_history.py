"""C25: calls over shared objects do not disturb one another.

The catalog lists calls of the library over groups of shared objects.  TLC
walks through call histories (SpecCalls), the harness replays them and records
digests of every argument object and kept result after each event, and
TraceHistory judges the recording.
"""
import copy
import itertools
import json
import os
import pickle
import shutil
import tempfile
import traceback
import types
import zlib

import numpy as np
from pyscf import gto, scf
from pyscf.pbc import scf as pscf

import cc as rec
import checks_cc
import checks_tensor
import checks_whole
from cqcpy import cc_energy as ce
from cqcpy import cc_equations as cc
from cqcpy import ci_utils as cu
from cqcpy import ft_utils, integrals, ov_blocks, spin_utils, utils
from checks_int import cell
from vlib import TLC, Exact, MachineryError, call

ONE = ("oo", "ov", "vo", "vv")
TWO = [a + b + c + d for a in "vo" for b in "vo" for c in "vo" for d in "vo"]


# --------------------------------------------------------------------------
# what is seen of an object

def plain(x):
    """The publicly visible content, as nested tuples of numbers and arrays."""
    if x is None or isinstance(x, (bool, int, float, complex, str)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, dict):
        return tuple((k, plain(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if hasattr(x, "occ") and hasattr(x, "n"):
        return ("string", int(x.n), tuple(float(y) for y in x.occ))
    if hasattr(x, "mo_coeff"):
        return ("reference", plain(x.mo_coeff), plain(x.mo_occ))
    got = tuple((k, plain(getattr(x, k))) for k in list(ONE) + TWO
                if getattr(x, k, None) is not None)
    if got:
        return got
    return "opaque"


def feed(x, h):
    if isinstance(x, np.ndarray):
        # adding zero removes the sign of zeros
        a = np.ascontiguousarray(x.astype(complex) + 0.0)
        h = zlib.crc32(repr(x.shape).encode(), h)
        return zlib.crc32(a.tobytes(), h)
    if isinstance(x, tuple):
        h = zlib.crc32(b"(%d" % len(x), h)
        for y in x:
            h = feed(y, h)
        return h
    if isinstance(x, (bool, int, float, complex)):
        return feed(np.array(complex(x)), h)
    return zlib.crc32(repr(x).encode(), h)


def digest(x):
    return feed(plain(x), 0) & 0x3fffffff


def close(x, y):
    """Same content up to rounding."""
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.size == 0:
            return True
        m = max(np.abs(x).max(), np.abs(y).max())
        return bool(np.abs(x - y).max() <= 1e-10 * m)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(a, b) for a, b in zip(x, y))
    num = (bool, int, float, complex)
    if isinstance(x, num) and isinstance(y, num):
        return abs(x - y) <= 1e-10 * max(abs(x), abs(y))
    return x == y


def arrays_of(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in arrays_of(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in arrays_of(y)]
    got = [getattr(x, k, None) for k in list(ONE) + TWO]
    return [z for y in got if y is not None for z in arrays_of(y)]


# --------------------------------------------------------------------------
# groups of shared objects, at version 0 or 1.  A group is built the same way
# every time; rewriting it in place copies the arrays of the other version.
# Groups come in variants: sizes and memory layout of the arrays.

LAYOUTS = "CFSC"                    # row-major, column-major, strided parts of larger arrays
VARIANTS = len(LAYOUTS)
SIZES_G = [((2, 3), (2, 3)), ((2, 3), (3, 2)), ((1, 2), (2, 1)), ((4, 5), (3, 4))]
# two or more of everything in the first: antisymmetrised products vanish otherwise
SIZES_U = [((2, 2, 3, 2), (2, 3, 2, 2)), ((2, 2, 2, 2), (2, 3, 2, 2)), ((2, 3, 0, 2), (1, 1, 2, 2)),
           ((4, 3, 3, 5), (3, 3, 3, 3))]
SIZES_R = [((2, 3), (2, 2)), ((2, 2), (3, 2)), ((1, 1), (1, 2)), ((4, 5), (4, 3))]
SIZES_CONV = [(2, 1, 1, 2), (2, 2, 2, 2), (2, 2, 0, 0), (3, 4, 3, 2)]


def _rng(name, v, seed):
    return np.random.default_rng([seed, v, sum(map(ord, name)), 25])


def lay(x, how):
    """The same object with its arrays laid out another way in memory."""
    if how == "C":
        return x
    if isinstance(x, np.ndarray):
        if how == "F":
            return np.asfortranarray(x)
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1] + 1,), dtype=x.dtype)
        view = big[..., 1::2]
        view[...] = x
        return view
    if isinstance(x, (list, tuple)):
        return type(x)(lay(y, how) for y in x)
    for k in list(ONE) + TWO:
        if isinstance(getattr(x, k, None), np.ndarray):
            setattr(x, k, lay(getattr(x, k), how))
    return x


def group_g(v, seed, k):
    out = {}
    for n in (0, 1):
        s = rec.G(Exact(_rng("g%d" % n, v, seed), mag=2, cplx=n == 1), *SIZES_G[k][n])
        F, I = s.blocks()
        out.update({"F%d" % n: F, "I%d" % n: I, "T1%d" % n: s.T1, "T2%d" % n: s.T2,
                    "L1%d" % n: s.L1, "L2%d" % n: s.L2})
    return out


def group_u(v, seed, k):
    out = {}
    for n in (0, 1):
        s = rec.U(Exact(_rng("u%d" % n, v, seed), mag=2, cplx=n == 1), *SIZES_U[k][n])
        out["F%d" % n], out["I%d" % n] = s.blocks()[:2], s.blocks()[2:]
        out["T1%d" % n], out["T2%d" % n] = s.t()
        out["L1%d" % n], out["L2%d" % n] = s.lam()
    return out


def group_r(v, seed, k):
    out = {}
    for n in (0, 1):
        s = rec.R(Exact(_rng("r%d" % n, v, seed), mag=2, cplx=n == 1), *SIZES_R[k][n])
        F, I = s.blocks()
        out.update({"F%d" % n: F, "I%d" % n: I, "T1%d" % n: s.T1, "T2%d" % n: s.T2,
                    "L1%d" % n: s.L1, "L2%d" % n: s.L2})
    return out


def group_conv(v, seed, k):
    ex = Exact(_rng("conv", v, seed), mag=3)
    noa, nva, nob, nvb = d = SIZES_CONV[k]
    s = rec.U(ex, *d)
    na, nb = noa + nva, nob + nvb
    g = rec.G(ex, noa + nob, nva + nvb)
    F, I = g.blocks()
    Fa, Fb, Ia, Ib, Iab = s.blocks()
    return dict(_d=d, Fa=Fa, Fb=Fb, Ia=Ia, Ib=Ib, Iab=Iab,
                fa=rec.two_e_full(ex.pairsym(na, na, na, na), (noa,) * 4),
                fb=rec.two_e_full(ex.pairsym(nb, nb, nb, nb), (nob,) * 4),
                t1=s.t()[0], t2=s.t()[1], d2=(ex.t(nva, nva, noa, noa), ex.t(nva, nvb, noa, nob),
                                             ex.t(nvb, nvb, nob, nob)),
                F=F, I=I, T1=g.T1, T2=g.T2, V=g.V,
                ev=ex.t(3).real.copy(), eo=ex.t(2).real.copy(), eb=ex.t(2).real.copy(),
                ob=ex.t(1).real.copy(), A=ex.t(2, 3), B=ex.t(1, 2),
                en=ex.t(5).real / 4, em=ex.t(4).real / 2)


def group_ci(v, seed, k):
    ex = Exact(_rng("ci", v, seed), mag=2)
    ub, gb = cu_basis_u(), cu_basis_g()
    return dict(ub=ub, gb=gb, uv=ex.t(len(ub)), gv=ex.t(len(gb)),
                ha=ex.t(4, 4), hb=ex.t(4, 4), Ia=ex.pairsym(4, 4, 4, 4), Ib=ex.pairsym(4, 4, 4, 4),
                Iab=ex.t(4, 4, 4, 4), h=ex.t(5, 5), I=ex.pairsym(5, 5, 5, 5),
                occ=[0, 1, 1, 0, 1, 0], x=cu.Dstring(5, np.array([1, 0, 1, 1, 0])),
                y=cu.Dstring(5, np.array([0, 1, 1, 1, 0])), p=cu.Pstring(3, np.array([2, 0, 1])),
                t1a=ex.t(2, 2), t1b=ex.t(2, 2), t2aa=ex.anti(2, 2, 2, 2), t2ab=ex.t(2, 2, 2, 2),
                t2bb=ex.anti(2, 2, 2, 2), gt1=ex.t(3, 3), gt2=ex.anti(3, 3, 3, 3))


def _str(n, occ):
    return cu.Dstring(n, np.array([1 if p in occ else 0 for p in range(n)]))


def cu_basis_u():
    prs = list(itertools.combinations(range(4), 2))
    return [(_str(4, a), _str(4, b)) for a in prs for b in [(0,), (1,), (3,)]]


def cu_basis_g():
    return [_str(5, a) for a in itertools.combinations(range(5), 2)][::-1]


def group_int(v, seed, k):
    rng = _rng("int", v, seed)
    mol = gto.Mole()
    mol.atom, mol.basis, mol.verbose = "H 0 0 0; He 0.3 0.4 1.1", "sto-3g", 0
    mol.spin = 1
    mol.build()

    def c(*s):
        return lay(rng.integers(-2, 3, s).astype(float), LAYOUTS[k])
    out = dict(o=[c(2, m) for m in (2, 1, 2, 1)], p=[c(2, m) for m in (1, 2, 1, 2)])
    for nm, ref in (("rhf", scf.hf.RHF(mol)), ("uhf", scf.UHF(mol))):
        unr = nm == "uhf"
        mo = c(2, 2, 2) if unr else c(2, 2)
        oc = np.array([[1., 0], [0, 1]]) if unr else np.array([0., 2])
        ref.mo_coeff, ref.mo_occ = mo, oc
        out[nm + ".mo"], out[nm + ".occ"] = mo, oc
        out["_" + nm] = out[nm + ".ref"] = ref
    out["_mol"] = mol
    return out


def group_sol(v, seed, k):
    rng = _rng("sol", v, seed)
    cl = cell(k)

    def c(*s):
        z = rng.integers(-2, 3, s) + 1j * rng.integers(-2, 3, s)
        return lay(z if k < 2 else z.real.copy(), LAYOUTS[k])
    out = dict(o=[c(2, m) for m in (2, 1, 2, 1)], p=[c(2, m) for m in (1, 2, 1, 2)])
    for nm, ref in (("rhf", pscf.RHF(cl)), ("uhf", pscf.UHF(cl)), ("krhf", pscf.KRHF(cl, cl.make_kpts((2, 1, 1))))):
        n = {"rhf": (), "uhf": (2,), "krhf": (2,)}[nm]
        mo = c(*n, 2, 2)
        oc = np.zeros(n + (2,))
        oc[..., 1 - k % 2] = 1 if nm == "uhf" else 2
        ref.mo_coeff, ref.mo_occ = mo, oc
        out[nm + ".mo"], out[nm + ".occ"] = mo, oc
        out["_" + nm] = out[nm + ".ref"] = ref
    return out


GROUPS = dict(g=group_g, u=group_u, r=group_r, conv=group_conv, ci=group_ci, int=group_int, sol=group_sol)


class Store:
    """One group of shared objects."""

    def __init__(self, name, seed, var):
        self.name, self.seed, self.var, self.v = name, seed, var, 0
        self.o = self.make()
        self.names = sorted(k for k in self.o if not k.startswith("_"))
        self.intor = {}

    def make(self):
        o = GROUPS[self.name](self.v, self.seed, self.var)
        return {k: o[k] if k[0] == "_" or self.name in ("int", "sol") else lay(o[k], LAYOUTS[self.var]) for k in o}

    def digests(self):
        return [digest(self.o[k]) for k in self.names]

    def rewrite(self):
        """Put the values of the other version into the same arrays."""
        self.v = 1 - self.v
        new = self.make()
        for k in self.names:
            for a, b in zip(arrays_of(self.o[k]), arrays_of(new[k])):
                a[...] = b
        self.intor = {}

    def inter(self, n):
        """Lambda intermediates, kept while the arguments stay as they are."""
        if n not in self.intor:
            o = self.o
            n = str(n)
            self.intor[int(n)] = cc.lambda_int(o["F" + n], o["I" + n], o["T1" + n], o["T2" + n])
        return self.intor[int(n)]


# --------------------------------------------------------------------------
# the catalog

class Entry:
    def __init__(self, name, grp, fn, scr=False, view=False):
        self.name, self.grp, self.fn, self.scr, self.view = name, grp, fn, scr, view


def catalog():
    out = []

    def add(name, grp, fn, **k):
        out.append(Entry(name, grp, fn, **k))

    for n in "01":
        def a(s, *ks, n=n):
            return [s.o[k + n] for k in ks]
        for f in ("ccsd_simple", "ccsd_stanton", "lccsd_simple"):
            add(f + n, "g", lambda s, f=f, a=a: getattr(cc, f)(*a(s, "F", "I", "T1", "T2")), scr=True)
        for f in ("ccd_ring_simple", "ccd_ladder_simple"):
            add(f + n, "g", lambda s, f=f, a=a: getattr(cc, f)(*a(s, "I", "T2")), scr=True)
        for f in ("ccd_simple", "ccd_stanton", "lccd_simple"):
            add(f + n, "g", lambda s, f=f, a=a: getattr(cc, f)(*a(s, "F", "I", "T2")), scr=True)
        for f in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
            add(f + n, "g", lambda s, f=f, a=a: getattr(cc, f)(
                *a(s, "F", "I", "L1", "L2", "T1", "T2")), scr=True)
        add("ccsd_lambda_opt_int" + n, "g", lambda s, a=a, n=n: cc.ccsd_lambda_opt_int(
            *a(s, "F", "I", "L1", "L2", "T1", "T2"), s.inter(int(n))), scr=True)
        add("ccd_lambda_simple" + n, "g", lambda s, a=a: cc.ccd_lambda_simple(
            *a(s, "F", "I", "L2", "T2")), scr=True)
        for f in ("cc_energy", "mp2_energy"):
            add(f + n, "g", lambda s, f=f, n=n: getattr(ce, f)(
                s.o["T1" + n], s.o["T2" + n], s.o["F" + n].ov, s.o["I" + n].oovv))
        add("cc_energy_d" + n, "g", lambda s, n=n: ce.cc_energy_d(s.o["T2" + n], s.o["I" + n].oovv))
        for nm, _ in rec.RDM_G:
            for suf in ("", "_opt"):
                add("ccsd_" + nm + suf + n, "g", lambda s, f="ccsd_" + nm + suf, a=a: getattr(cc, f)(
                    *a(s, "T1", "T2", "L1", "L2")), scr=True)
        # unrestricted
        add("uccsd_stanton" + n, "u", lambda s, n=n: cc.uccsd_stanton(
            *s.o["F" + n], *s.o["I" + n], s.o["T1" + n], s.o["T2" + n]), scr=True)
        add("uccsd_lambda_opt" + n, "u", lambda s, n=n: cc.uccsd_lambda_opt(
            *s.o["F" + n], *s.o["I" + n], s.o["L1" + n], s.o["L2" + n], s.o["T1" + n], s.o["T2" + n]),
            scr=True)
        for f in ("ucc_energy", "ump2_energy"):
            add(f + n, "u", lambda s, f=f, n=n: getattr(ce, f)(
                s.o["T1" + n], s.o["T2" + n], *[x.ov for x in s.o["F" + n]],
                *[x.oovv for x in s.o["I" + n]]))
        for nm, _ in rec.RDM_U:
            add("uccsd_" + nm + n, "u", lambda s, f="uccsd_" + nm, n=n: getattr(cc, f)(
                *s.o["T1" + n], *s.o["T2" + n], *s.o["L1" + n], *s.o["L2" + n]), scr=True)
        # restricted
        add("rccsd_stanton" + n, "r", lambda s, a=a: cc.rccsd_stanton(*a(s, "F", "I", "T1", "T2")),
            scr=True)
        add("rccsd_lambda_opt" + n, "r", lambda s, a=a: cc.rccsd_lambda_opt(
            *a(s, "F", "I", "L1", "L2", "T1", "T2")), scr=True)
        add("rcc_energy" + n, "r", lambda s, n=n: ce.rcc_energy(
            s.o["T1" + n], s.o["T2" + n], s.o["F" + n].ov, s.o["I" + n].oovv))
        for nm, _ in rec.RDM_R:
            add("rccsd_" + nm + n, "r", lambda s, f="rccsd_" + nm, a=a: getattr(cc, f)(
                *a(s, "T1", "T2", "L1", "L2")), scr=True)

    # conversions and small helpers
    su = spin_utils
    add("F_to_spin", "conv", lambda s: su.F_to_spin(s.o["Fa"], s.o["Fb"], *s.o["_d"]), scr=True)
    add("T1_to_spin", "conv", lambda s: su.T1_to_spin(*s.o["t1"], *s.o["_d"]), scr=True)
    add("T2_to_spin", "conv", lambda s: su.T2_to_spin(*s.o["t2"], *s.o["_d"]), scr=True)
    add("D2_to_spin", "conv", lambda s: su.D2_to_spin(*s.o["d2"], *s.o["_d"]), scr=True)
    add("int_to_spin", "conv", lambda s: su.int_to_spin(s.o["fa"], s.o["fb"], s.o["Iab"], *s.o["_d"]), scr=True)
    add("int_to_spin2", "conv", lambda s: su.int_to_spin2(s.o["Ia"], s.o["Ib"], s.o["Iab"], *s.o["_d"]),
        scr=True)
    add("T1_to_spatial", "conv", lambda s: su.T1_to_spatial(s.o["T1"], *s.o["_d"]), scr=True)
    add("T2_to_spatial", "conv", lambda s: su.T2_to_spatial(s.o["T2"], *s.o["_d"]), scr=True)
    add("F_to_spatial", "conv", lambda s: su.F_to_spatial(s.o["F"], *s.o["_d"]), view=True)
    add("int_to_spatial", "conv", lambda s: su.int_to_spatial(s.o["I"], *[s.o["_d"][x] for x in (0, 2, 1, 3)]),
        view=True)
    for f in ("make_two_e_blocks", "make_two_e_blocks_full"):
        add(f, "conv", lambda s, f=f: getattr(ov_blocks, f)(
            s.o["V"], *((s.o["_d"][0] + s.o["_d"][2], s.o["_d"][1] + s.o["_d"][3]) * 4)), view=True)
    add("D1", "conv", lambda s: utils.D1(s.o["ev"], s.o["eo"]), view=True)
    add("D2", "conv", lambda s: utils.D2(s.o["ev"], s.o["eo"]), view=True)
    add("D2u", "conv", lambda s: utils.D2u(s.o["ev"], s.o["eb"], s.o["eo"], s.o["ob"]), view=True)
    add("block_diag", "conv", lambda s: utils.block_diag(s.o["A"], s.o["B"]), view=True)
    for f in ("ff", "ffv", "GP0", "dGP0"):
        add(f, "conv", lambda s, f=f: getattr(ft_utils, f)(1.7, s.o["en"], 0.3), view=True)
    add("uGP0", "conv", lambda s: ft_utils.uGP0(1.7, s.o["en"], s.o["em"], 0.3), view=True)

    # strings, bases and vectors
    def ci(name, fn):
        add(name, "ci", lambda s, fn=fn: fn(s.o), view=True)
    for i, k in ((0, 1), (2, 4), (3, 3), (2, 0), (2, 1), (3, 1)):
        ci("excite%d%d" % (i, k), lambda o, i=i, k=k: o["x"].excite(i, k))
    for nm in ("level", "diff"):
        ci(nm, lambda o, nm=nm: getattr(cu, nm)(o["x"], o["y"]))
    ci("raize", lambda o: o["p"].raize(1))
    ci("lower", lambda o: o["p"].lower(0))
    ci("eq", lambda o: (o["x"] == o["y"], o["x"] == o["x"]))
    for f in ("s_strings", "d_strings", "t_strings"):
        ci(f, lambda o, f=f: getattr(cu, f)(6, 3, occ=o["occ"]))
        ci(f + "0", lambda o, f=f: getattr(cu, f)(6, 3))
    ci("q_strings", lambda o: cu.q_strings(8, 4))
    for f in ("ucis_basis", "ucisd_basis", "ucisdt_basis", "ucisdtq_basis"):
        ci(f, lambda o, f=f: getattr(cu, f)(4, 2, 2))
    for f in ("gcis_basis", "gcisd_basis", "gcisdt_basis", "gcisdtq_basis"):
        ci(f, lambda o, f=f: getattr(cu, f)(6, 3))
    for f in ("vcis_basis", "vcisd_basis"):
        ci(f, lambda o, f=f: getattr(cu, f)(3))
    ci("makeCfromT", lambda o: cu.makeCfromT(2, 2, 2, 2, o["t1a"], o["t1b"], o["t2aa"], o["t2ab"],
                                              o["t2bb"], order=3))
    ci("gmakeCfromT", lambda o: cu.gmakeCfromT(3, 3, o["gt1"], o["gt2"], order=2))
    ci("ci_matrixel", lambda o: [cu.ci_matrixel(*o["ub"][b], *o["ub"][k], o["ha"], o["hb"], o["Ia"],
                                                o["Ib"], o["Iab"], 1.5)
                                 for b, k in ((0, 0), (0, 4), (3, 0), (7, 10), (2, 17))])
    ci("gci_matrixel", lambda o: [cu.gci_matrixel(o["gb"][b], o["gb"][k], o["h"], o["I"], 1.5)
                                  for b, k in ((0, 0), (0, 4), (3, 0), (7, 9))])
    ci("s_on_vec", lambda o: cu.s_on_vec(o["gb"], o["gv"], 1, 4))
    ci("s_on_vec=", lambda o: cu.s_on_vec(o["gb"], o["gv"], 2, 2))
    ci("d_on_vec", lambda o: cu.d_on_vec(o["gb"], o["gv"], 0, 1, 3, 4))
    ci("gH_on_vec", lambda o: cu.gH_on_vec(o["gb"], o["gv"], o["h"], o["I"]))
    for f in ("sa_on_vec", "sb_on_vec"):
        ci(f, lambda o, f=f: getattr(cu, f)(o["ub"], o["uv"], 0, 3))
    for f in ("da_on_vec", "db_on_vec", "sasb_on_vec"):
        ci(f, lambda o, f=f: getattr(cu, f)(o["ub"], o["uv"], 0, 1, 2, 3))
    ci("H_on_vec", lambda o: cu.H_on_vec(o["ub"], o["uv"], o["ha"], o["hb"], o["Ia"], o["Ib"], o["Iab"]))

    # integrals
    ig = integrals
    for f in ("get_chem", "get_phys", "get_chem_anti", "get_phys_anti"):
        add(f, "int", lambda s, f=f: getattr(ig, f)(s.o["_mol"], *s.o["o"]), view=True)
    for f in ("get_chemu", "get_chem_antiu", "get_phys_antiu"):
        add(f, "int", lambda s, f=f: getattr(ig, f)(s.o["_mol"], *s.o["o"], *s.o["p"]), view=True)
    for f in ("get_chemu_all", "get_physu_all", "get_phys_antiu_all"):
        add(f, "int", lambda s, f=f: getattr(ig, f)(s.o["_mol"], s.o["o"][0], s.o["p"][1]), view=True)
    for ref in ("rhf", "uhf"):
        add("get_physu_all_gen." + ref, "int", lambda s, ref=ref: ig.get_physu_all_gen(s.o["_" + ref]),
            view=True)
        for code in (4, 9):
            add("eri_blocks.%s%d" % (ref, code), "int",
                lambda s, ref=ref, code=code: ig.eri_blocks(s.o["_" + ref], code=code), view=True)
    for f in ("get_chem_sol", "get_phys_sol"):
        for anti in (False, True):
            add("%s.%d" % (f, anti), "sol", lambda s, f=f, anti=anti: getattr(ig, f)(
                s.o["_rhf"], *s.o["o"], anti=anti), view=True)
    add("get_phys_gen.sol", "sol", lambda s: ig.get_phys_gen(s.o["_uhf"], *s.o["p"]), view=True)
    for f in ("get_chemu_sol", "get_chem_antiu_sol", "get_phys_antiu_sol"):
        add(f, "sol", lambda s, f=f: getattr(ig, f)(s.o["_uhf"], *s.o["o"], *s.o["p"]), view=True)
    for f in ("get_chemu_all_sol", "get_physu_all_sol"):
        add(f, "sol", lambda s, f=f: getattr(ig, f)(s.o["_uhf"], s.o["o"][0], s.o["p"][1]), view=True)
    for ref in ("rhf", "uhf"):
        add("get_phys_antiu_all_gen.sol." + ref, "sol", lambda s, ref=ref: ig.get_phys_antiu_all_gen(
            s.o["_" + ref]), view=True)
        for code in (0, 7):
            add("eri_blocks.sol.%s%d" % (ref, code), "sol",
                lambda s, ref=ref, code=code: ig.eri_blocks(s.o["_" + ref], code=code), view=True)
    for f in ("get_chem_solk", "get_phys_solk"):
        add(f, "sol", lambda s, f=f: getattr(ig, f)(s.o["_krhf"], [0, 1, 1, 0], *s.o["o"], anti=True), view=True)
    for order in ("chem", "phys"):
        add("get_solk_integrals." + order, "sol", lambda s, order=order: ig.get_solk_integrals(
            s.o["_krhf"], eriorder=order), view=True)
    return out


# --------------------------------------------------------------------------
# baselines: every call by itself, in a process of its own

def _alone(entry, var, v, seed):
    s = Store(entry.grp, seed, var)
    if v:
        s.rewrite()
    st, r = call(entry.fn, s)
    return (st, plain(r)) if st == "ok" else (st, None)


def forked(jobs, work, each):
    """work(job) for all jobs in eight processes; with `each', every job in a process of its own."""
    nproc = 8
    d = tempfile.mkdtemp(prefix="vhist-")

    def one(n):
        with open(os.path.join(d, str(n)), "wb") as f:
            pickle.dump(work(jobs[n]), f)

    def child(fn):
        pid = os.fork()
        if pid == 0:
            try:
                fn()
                os._exit(0)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        return pid

    def share(w):
        for n in range(w, len(jobs), nproc):
            if each:
                os.waitpid(child(lambda: one(n)), 0)
            else:
                one(n)
    try:
        for pid in [child(lambda w=w: share(w)) for w in range(nproc)]:
            os.waitpid(pid, 0)
        out = []
        for n in range(len(jobs)):
            p = os.path.join(d, str(n))
            if not os.path.exists(p):
                raise MachineryError("no result for job %s" % (jobs[n],))
            with open(p, "rb") as f:
                out.append(pickle.load(f))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def baselines(cat, used, seed):
    jobs = [(c, k, v) for c, k in used for v in (0, 1)]
    return dict(zip(jobs, forked(jobs, lambda j: _alone(cat[j[0]], j[1], j[2], seed), True)))


# --------------------------------------------------------------------------
# replay

KEEP = 8


def replay(cat, base, walk, seed):
    gs, var = walk["groups"], walk["variant"] - 1
    stores = {g: Store(g, seed, var) for g in gs}
    objs = []
    for gi, g in enumerate(gs):
        other = Store(g, seed, var)
        one = other.digests()
        other.rewrite()
        objs += [dict(name=k, g=gi + 1, want=[a, b])
                 for k, a, b in zip(other.names, one, other.digests())]
    used = sorted({e["c"] - 1 for e in walk["log"] if e["k"] == "call"})
    pos = {c: n for n, c in enumerate(used)}
    alone = {(c, v): base[c, var, v] for c in used for v in (0, 1)}
    want = {x: digest(r) if st == "ok" else feed(st, 0) & 0x3fffffff for x, (st, r) in alone.items()}
    calls = [dict(name=cat[c].name, g=gs.index(cat[c].grp) + 1, view=cat[c].view,
                  want=[want[c, 0], want[c, 1]]) for c in used]
    kept, events = [], []            # kept: (catalog index, result, digest assumed at the start)
    for e in walk["log"]:
        ev = dict(k=e["k"], c=e["c"], got=0)
        if e["k"] == "call":
            c = e["c"] - 1
            ev["c"] = pos[c] + 1
            s = stores[cat[c].grp]
            st, r = call(cat[c].fn, s)
            b = alone[c, s.v]
            if st != "ok":
                ev["got"] = feed(st, 0) & 0x3fffffff
                r = st
            elif b[0] == "ok" and close(plain(r), b[1]):
                ev["got"] = want[c, s.v]
            else:
                ev["got"] = digest(r)
            # from now on its own bits count, under the name of the baseline
            kept.append([c, r, digest(r), want[c, s.v]])
            kept = kept[-KEEP:]
        elif e["k"] == "overwrite":
            k = kept[e["c"] - 1]
            for a in arrays_of(k[1]):
                if a.flags.writeable:
                    a[...] = a + 1000
            k[2] = k[3] = digest(k[1])
            ev["got"] = k[3]
        else:
            g = gs[e["c"] - 1]
            stores[g].rewrite()
            kept = [k for k in kept if not (cat[k[0]].grp == g and cat[k[0]].view)]
        ev["args"] = [x for g in gs for x in stores[g].digests()]
        ev["kept"] = []
        for k in kept:
            now = digest(k[1])
            ev["kept"].append(k[3] if now == k[2] else (now ^ 0x15555555))
        events.append(ev)
    return dict(groups=gs, objs=objs, calls=calls, events=events, where="+".join(gs),
                conf=dict(groups=gs, variant=var, calls=[x["name"] for x in calls][:12]))


# --------------------------------------------------------------------------
# short histories of single calls, on systems with vanishing, shared, real or very small tensors

def copied(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    return type(x)(copied(y) for y in x) if isinstance(x, (list, tuple)) else copy.deepcopy(x)


# results that may be views of the arguments
VIEWS = ("F_to_spatial", "int_to_spatial", "make_two_e_blocks", "make_two_e_blocks_full", "D1", "D2", "D2u", "block_diag",
         "int_to_spin_block")


def twice(cases, fn, *a, **k):
    """A call, its result overwritten unless it may be a view, and the same call again."""
    name = getattr(fn, "__name__", "call")
    if not a and not k:                      # the arguments are inside
        return call(fn)
    args = list(a) + [k[x] for x in sorted(k)]
    want = [digest(x) for x in args]
    st, r = call(fn, *a, **k)
    first = copied(r)
    got = digest(r) if st == "ok" else feed(st, 0) & 0x3fffffff
    events = [dict(k="call", c=1, got=got, args=[digest(x) for x in args], kept=[got])]
    for x in arrays_of(r) if st == "ok" and name not in VIEWS else []:
        if x.flags.writeable:
            x[...] = x + 1000
    over = digest(r)
    events.append(dict(k="overwrite", c=1, got=over, args=[digest(x) for x in args], kept=[over]))
    st2, r2 = call(fn, *a, **k)
    again = got if st2 == st and (st != "ok" or close(plain(r2), plain(first))) else digest(r2) ^ 0x2aaaaaaa
    events.append(dict(k="call", c=1, got=again, args=[digest(x) for x in args], kept=[digest(r), again]))
    cases.append(dict(groups=["x"], objs=[dict(name="argument %d" % n, g=1, want=[w, w]) for n, w in enumerate(want, 1)],
                      calls=[dict(name=name, g=1, view=False, want=[got, got])], events=events, where=name, conf={}))
    return st, first


def again(o):
    cases = []
    for m in (rec, checks_whole, checks_tensor):
        m.call = lambda *a, **k: twice(cases, *a, **k)
    try:
        for form in "gur":
            for k, s in enumerate(itertools.chain((s for s, _ in checks_whole.special(form, [o.seed, 25])), plain_ones(form, o.seed))):
                seen = len(cases)
                for r in checks_whole.ALL[form] + ([] if form != "g" or s.T1.any() or s.L1.any() else checks_whole.ALL["gd"]):
                    r(s)
                for c in cases[seen:]:
                    c["conf"] = s.conf
        quiet = types.SimpleNamespace(seed=o.seed, tier="quick", judged=lambda *a: None)
        for f in (checks_tensor.C06, checks_tensor.C07, checks_tensor.C12, checks_tensor.C22):
            f(quiet)
    finally:
        for m in (rec, checks_whole, checks_tensor):
            m.call = call
    return cases


def plain_ones(form, seed):
    """Rescaled orbitals, other magnitudes and number types; doubles only."""
    make, sizes = checks_cc.MAKE[form], checks_cc.STRETCHED[form]
    for k in range(2):
        yield make(Exact(np.random.default_rng([seed, 251, k, ord(form)]), mag=2, cplx=k == 1, stretch=(16, -16)[k]), *sizes[k])
    for k, (what, pw) in enumerate(checks_cc.MAGNIFIED):
        s = make(Exact(np.random.default_rng([seed, 252, k, ord(form)]), mag=1, cplx=what == "H"), *sizes[k % 2])
        s.magnify(what, pw)
        yield s
    for k, kinds in enumerate(checks_cc.REAL + ["T1 L1"]):
        s = make(Exact(np.random.default_rng([seed, 253, k, ord(form)]), mag=2), *sizes[k % 2])
        s.real(kinds)
        yield s
    if form == "g":
        for k in range(2):
            yield make(Exact(np.random.default_rng([seed, 254, k]), mag=2, cplx=k == 1), *sizes[k], t1=False)


WALKGROUPS = [["g"], ["g"], ["g"], ["u"], ["u"], ["r"], ["r"], ["conv"], ["ci"], ["ci"], ["int"], ["sol"],
              ["g", "u", "r"], ["g", "conv"], ["conv", "ci"], ["u", "r"]]
FAULTS = ("mutates", "aliases", "reuses", "caches")


def C25(o):
    big = o.tier != "quick"
    t = TLC("SpecHistory").run().require_ok()
    o.tlc(t)
    if big:
        for f in FAULTS:
            t = TLC("SpecHistory", cfg="SpecHistory_%s.cfg" % f).run()
            if "Invariant Faithful is violated" not in t.stdout:
                raise MachineryError("SpecHistory does not see fault " + f)
    cat = catalog()
    d = tempfile.mkdtemp(prefix="vcat-")
    try:
        env = dict(CATALOG=os.path.join(d, "cat.json"), GROUPS=os.path.join(d, "grp.json"))
        with open(env["CATALOG"], "w") as f:
            json.dump([dict(name=e.name, grp=e.grp, scr=e.scr, view=e.view) for e in cat], f)
        with open(env["GROUPS"], "w") as f:
            json.dump(WALKGROUPS, f)
        t = TLC("SpecCalls", env=env, workers=1, args=[
            "-simulate", "num=%d" % (600 if big else 60), "-depth", "110", "-seed", str(o.seed)])
        t.run().require_ok()
        probe = TLC("SpecCalls", cfg="SpecCallsProbe.cfg", env=env).run().require_ok()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o.tlc(t)
    o.tlc(probe)
    walks, probes = t.tagged("WALK"), probe.tagged("WALK")
    if not walks:
        raise MachineryError("SpecCalls printed no walk")
    if len(probes) != VARIANTS * len(GROUPS):
        raise MachineryError("%d probes for %d groups" % (len(probes), len(GROUPS)))
    walks += probes
    used = sorted({(e["c"] - 1, w["variant"] - 1) for w in walks for e in w["log"] if e["k"] == "call"})
    base = baselines(cat, used, o.seed)
    cases = forked(walks, lambda w: replay(cat, base, w, o.seed), False)
    short = again(o)
    o.extra["single_calls"] = len(short)
    cases += short
    for n, c in enumerate(cases):
        c["id"] = n
    o.judged("TraceHistory", cases)
    o.compared = sum(1 + len(e["args"]) + len(e["kept"]) for c in cases for e in c["events"])
    o.extra.update(calls_in_catalog=len(cat), calls_used=len(used),
                   calls_made=sum(e["k"] == "call" for c in cases for e in c["events"]),
                   calls_failing_alone=sum(b[0] != "ok" for b in base.values()))
