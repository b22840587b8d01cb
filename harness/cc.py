"""Recorded coupled-cluster calls (spin-orbital, unrestricted, restricted)."""
import numpy as np

from vlib import call, lib, record, to_field

from cqcpy import cc_equations as cc
from cqcpy import cc_energy as ce
from cqcpy import ov_blocks


# --------------------------------------------------------------------------
# exact systems.  Blocks are cut here with plain slicing so that nothing of
# the library sits between the specification's tensors and its arguments.

def one_e(F, no):
    return ov_blocks.one_e_blocks(F[:no, :no].copy("K"), F[:no, no:].copy("K"),
                                  F[no:, :no].copy("K"), F[no:, no:].copy("K"))


def _cut(V, key, nos):
    return V[tuple(slice(0, no) if k == "o" else slice(no, None)
                   for k, no in zip(key, nos))].copy("K")


def two_e(V, no):
    keys = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")
    return ov_blocks.two_e_blocks(**{k: _cut(V, k, (no,) * 4) for k in keys})


def two_e_full(V, nos):
    keys = [a + b + c + d for a in "vo" for b in "vo" for c in "vo" for d in "vo"]
    return ov_blocks.two_e_blocks_full(**{k: _cut(V, k, nos) for k in keys})


class System:
    """What the three kinds of systems have in common.

    A system may be `inside' a larger one: its orbitals are some of the larger one's, and no tensor
    couples the others.  The library is given the larger tensors; what it returns must be that of
    the small system at its orbitals and zero elsewhere.
    """
    place = None                    # orbital class -> (number in the larger system, positions)
    unit = 0                        # power of two by which the Hamiltonian given to the library is larger
    lden = 1                        # Lambda amplitudes are multiples of 1/(den lden)

    def types(self, classes):
        """Occupied or virtual character of the orbitals of a class."""
        no, nv = self.count(classes)
        return np.array([0] * no + [1] * nv, dtype=bool)

    def blank(self, names):
        """Set tensors, or their blocks of a given occupied/virtual pattern, to zero.

        `T1.v<2' leaves only what belongs to the first two virtual orbitals, `T1.v>2' what belongs to the others.
        """
        for name in names:
            name, _, key = name.partition(".")
            a = getattr(self, name)
            for idx in [np.indices(a.shape)] if a.size else []:
                occ = [self.types(c)[i] if c in "nN" else np.full(a.shape, c in "vV")
                       for c, i in zip(self.axes[name], idx)]
                kill = np.ones(a.shape, dtype=bool)
                if key[1:2] in ("<", ">"):
                    kill = np.zeros(a.shape, dtype=bool)
                    for c, i, v in zip(self.axes[name], idx, occ):
                        i = i - (self.count(c)[0] if c in "nN" else 0) * v
                        kill |= (v == (key[0] == "v")) & ((i < int(key[2:])) == (key[1] == ">"))
                elif key == "offdiag":
                    kill = idx[0] != idx[1]
                elif len(key) == 2:
                    kill = (occ[0] == (key[0] == "v")) & (occ[1] == (key[1] == "v"))
                elif len(key) == 4 and self.axes[name] == "nNnN":
                    for o, k in zip(occ, key):
                        kill &= o == (k == "v")
                elif len(key) == 4:
                    kill = ((occ[0].astype(int) + occ[1] == key[:2].count("v"))
                            & (occ[2].astype(int) + occ[3] == key[2:].count("v")))
                a[kill] = 0
        if names:
            self.conf["blank"] = list(names)

    def real(self, kinds):
        """Let tensors of some kinds be arrays of real numbers while the others are complex."""
        for name in self.axes:
            if name[:2] in kinds and hasattr(self, name):
                setattr(self, name, getattr(self, name).real.copy())
        self.conf["real"] = kinds

    def magnify(self, what, k):
        """Multiply the Hamiltonian, or divide Lambda, by a power of two.

        Everything is linear in the Hamiltonian, so it stays as it was for the specification and what is
        returned is divided again.
        """
        self.small = {n: getattr(self, n) for n in self.axes if hasattr(self, n)}
        for n in self.small:
            if n[0] in ("FV" if what == "H" else "L"):
                setattr(self, n, getattr(self, n) * 2.0**k)
        if what == "H":
            self.unit = k
        else:
            self.lden, self.small = 2**-k, None
        self.conf["magnified"] = [what, k]

    small = None

    def widen(self, rng, **more):
        """Put the system inside a larger one with `more' additional orbitals of each class."""
        self.place = {}
        for c, extra in more.items():
            if c in "OV" and self.conf.get("equal"):
                self.place[c] = self.place[c.lower()]
                continue
            no, nv = self.count("n" if c in "ov" else "N")
            have = no if c in "oO" else nv
            # the last one is always among them
            some = [have + extra - 1] + list(rng.permutation(have + extra - 1)[:have - 1]) if have else []
            self.place[c] = (have + extra, [int(x) for x in rng.permutation(some)])
        for n, o, v in (("n", "o", "v"), ("N", "O", "V")):
            if o in self.place:
                (NO, po), (NV, pv) = self.place[o], self.place[v]
                self.place[n] = (NO + NV, po + [NO + x for x in pv])
        self.small = {}
        for name, ax in self.axes.items():
            if hasattr(self, name):
                a = self.small[name] = getattr(self, name)
                same = [x for x in self.small if x != name and self.small[x] is a]
                if same:
                    setattr(self, name, getattr(self, same[0]))
                    continue
                big = np.zeros([self.place[c][0] for c in ax], dtype=a.dtype)
                big[np.ix_(*[self.place[c][1] for c in ax])] = a
                setattr(self, name, np.asfortranarray(big) if a.flags.f_contiguous else big)
        self.conf["inside"] = {c: self.place[c][0] for c in more}

    def tensor(self, name):
        return self.small[name] if self.small else getattr(self, name)

    def field(self, name):
        """Residues of a tensor."""
        return to_field(self.tensor(name), self.den * (self.lden if name[0] == "L" else 1), self.exps[name])

    def where(self, blk):
        """The part of a larger returned array that belongs to the system."""
        if not self.place or not blk:
            return None
        p = self.place
        if "N" not in p:
            blk = blk.lower()
        return [p[c][0] for c in blk], [p[c][1] for c in blk]


class G(System):
    """Spin-orbital system."""
    form = "g"
    axes = dict(F="nn", V="nnnn", T1="vo", T2="vvoo", L1="ov", L2="oovv", U1="vo")

    def count(self, _):
        return self.no, self.nv

    def __init__(self, ex, no, nv, t1=True):
        n = no + nv
        self.no, self.nv, self.den = no, nv, ex.den
        self.F, self.V = ex.h1(ex.t(n, n)), ex.h2(ex.anti(n, n, n, n))
        self.T1, self.T2 = ex.t(nv, no), ex.anti(nv, nv, no, no)
        self.L1, self.L2 = ex.t(no, nv), ex.anti(no, no, nv, nv)
        if not t1:
            self.T1, self.L1 = 0 * self.T1, 0 * self.L1
        self.U1 = ex.t(nv, no)
        k = ex.exponents(no, nv)
        self.stretch(ex, k)
        self.expo = dict(enumerate(k, 1))
        self.conf = dict(form="g", no=no, nv=nv, **ex.variant())

    def stretch(self, ex, k):
        o, v = k[:self.no], k[self.no:]
        self.exps = dict(F=[k] * 2, V=[k] * 4, T1=[v, o], T2=[v, v, o, o], L1=[o, v], L2=[o, o, v, v], U1=[v, o])
        for name, e in self.exps.items():
            if hasattr(self, name):
                setattr(self, name, ex.scaled(getattr(self, name), *e))

    def blocks(self):
        no = self.place["o"][0] if self.place else self.no
        return one_e(self.F, no), two_e(self.V, no)

    def json(self):
        d = dict(form="g", no=self.no, nv=self.nv)
        for k in ("F", "V", "T1", "T2", "L1", "L2"):
            d[k] = self.field(k)
        return d

    def ax(self, s):
        o = list(range(1, self.no + 1))
        v = list(range(self.no + 1, self.no + self.nv + 1))
        return [o if c == "o" else v for c in s]


class U(System):
    """Unrestricted system."""
    form = "u"
    axes = dict(Fa="nn", Fb="NN", Va="nnnn", Vb="NNNN", Vab="nNnN", T1a="vo", T1b="VO", T2aa="vvoo",
                T2ab="vVoO", T2bb="VVOO", L1a="ov", L1b="OV", L2aa="oovv", L2ab="oOvV", L2bb="OOVV")
    names = ("Fa", "Fb", "Va", "Vb", "Vab", "T1a", "T1b", "T2aa", "T2ab", "T2bb",
             "L1a", "L1b", "L2aa", "L2ab", "L2bb")

    def __init__(self, ex, noa, nva, nob, nvb):
        na, nb = noa + nva, nob + nvb
        self.dims, self.den = (noa, nva, nob, nvb), ex.den
        self.Fa, self.Fb = ex.h1(ex.t(na, na)), ex.h1(ex.t(nb, nb))
        self.Va = ex.h2(ex.anti(na, na, na, na))
        self.Vb = ex.h2(ex.anti(nb, nb, nb, nb))
        self.Vab = ex.h2(ex.t(na, nb, na, nb))
        self.T1a, self.T1b = ex.t(nva, noa), ex.t(nvb, nob)
        self.T2aa, self.T2bb = ex.anti(nva, nva, noa, noa), ex.anti(nvb, nvb, nob, nob)
        self.T2ab = ex.t(nva, nvb, noa, nob)
        self.L1a, self.L1b = ex.t(noa, nva), ex.t(nob, nvb)
        self.L2aa, self.L2bb = ex.anti(noa, noa, nva, nva), ex.anti(nob, nob, nvb, nvb)
        self.L2ab = ex.t(noa, nob, nva, nvb)
        k, q = ex.exponents(noa, nva), ex.exponents(nob, nvb)
        o, v, O, V = k[:noa], k[noa:], q[:nob], q[nob:]
        self.exps = dict(Fa=[k] * 2, Fb=[q] * 2, Va=[k] * 4, Vb=[q] * 4, Vab=[k, q, k, q],
                         T1a=[v, o], T1b=[V, O], T2aa=[v, v, o, o], T2ab=[v, V, o, O],
                         T2bb=[V, V, O, O], L1a=[o, v], L1b=[O, V], L2aa=[o, o, v, v],
                         L2ab=[o, O, v, V], L2bb=[O, O, V, V])
        for name, e in self.exps.items():
            setattr(self, name, ex.scaled(getattr(self, name), *e))
        self.expo = dict(enumerate(o + O + v + V, 1))
        self.conf = dict(form="u", dims=self.dims, **ex.variant())

    def count(self, c):
        return self.dims[:2] if c == "n" else self.dims[2:]

    def equate(self, names):
        """Let beta tensors be the alpha ones, the same objects; mixed ones symmetric."""
        for name in names:
            if name == "ab":
                for x in ("Vab", "T2ab", "L2ab"):
                    setattr(self, x, getattr(self, x) + getattr(self, x).transpose(1, 0, 3, 2))
            else:
                setattr(self, name.replace("a", "b"), getattr(self, name))
        self.conf["equal"] = list(names)

    def t(self):
        return (self.T1a, self.T1b), (self.T2aa, self.T2ab, self.T2bb)

    def lam(self):
        return (self.L1a, self.L1b), (self.L2aa, self.L2ab, self.L2bb)

    def blocks(self):
        noa, _, nob, _ = self.dims
        if self.place:
            noa, nob = self.place["o"][0], self.place["O"][0]
        Fa, Ia = one_e(self.Fa, noa), two_e(self.Va, noa)
        return (Fa, Fa if self.Fb is self.Fa else one_e(self.Fb, nob), Ia,
                Ia if self.Vb is self.Va else two_e(self.Vb, nob), two_e_full(self.Vab, (noa, nob, noa, nob)))

    def json(self):
        d = dict(form="u")
        d.update(zip(("noa", "nva", "nob", "nvb"), self.dims))
        for k in self.names:
            d[k] = self.field(k)
        return d

    def ax(self, s):
        noa, nva, nob, nvb = self.dims
        no = noa + nob
        m = {"o": range(1, noa + 1), "O": range(noa + 1, no + 1),
             "v": range(no + 1, no + nva + 1), "V": range(no + nva + 1, no + nva + nvb + 1)}
        return [list(m[c]) for c in s]


class R(System):
    """Restricted (closed-shell) system."""
    form = "r"
    axes, count = G.axes, G.count

    def __init__(self, ex, no, nv):
        n = no + nv
        self.no, self.nv, self.den = no, nv, ex.den
        self.F, self.V = ex.h1(ex.t(n, n)), ex.h2(ex.pairsym(n, n, n, n))
        self.T1, self.T2 = ex.t(nv, no), ex.pairsym(nv, nv, no, no)
        self.L1, self.L2 = ex.t(no, nv), ex.pairsym(no, no, nv, nv)
        k = ex.exponents(no, nv)
        self.stretch(ex, k)
        self.expo = dict(enumerate(2 * k[:no] + 2 * k[no:], 1))
        self.conf = dict(form="r", no=no, nv=nv, **ex.variant())

    def blocks(self):
        no = self.place["o"][0] if self.place else self.no
        return one_e(self.F, no), two_e_full(self.V, (no,) * 4)

    json, stretch = G.json, G.stretch

    def ax(self, s):
        no, nv = self.no, self.nv
        m = {"o": range(1, no + 1), "O": range(no + 1, 2 * no + 1),
             "v": range(2 * no + 1, 2 * no + nv + 1),
             "V": range(2 * no + nv + 1, 2 * no + 2 * nv + 1)}
        return [list(m[c]) for c in s]


def case(s, where, outs, mode="full", tfac=1):
    d = s.json()
    d["form"] = s.form
    d.update(id=0, where=where, conf=s.conf, mode=mode, tfac=tfac, outs=outs)
    return d


def rec(s, name, kind, blk, value, pick=None):
    # exact values are multiples of 1/(4 den^6 lden)
    def unit(v):
        v = v if pick is None else pick(v)
        return np.asarray(v) * 2.0**-s.unit
    return record(name, kind, s.ax(blk), value, scale=4 * s.den**6 * s.lden, expo=s.expo, inside=s.where(blk),
                  blk=blk, pick=unit if s.unit and kind[0] in "ERM" else pick)


def it(*path):
    def f(v):
        for p in path:
            v = v[p]
        return v
    return f


# --------------------------------------------------------------------------
# recorders; each returns a list of cases for one system

def energies_g(s):
    F, I = s.blocks()
    full = [
        rec(s, "cc_energy", "E", "", call(lib(ce, "cc_energy"), s.T1, s.T2, F.ov, I.oovv)),
        rec(s, "cc_energy-parts", "E", "", call(
            lambda: ce.cc_energy_d(s.T2, I.oovv) + ce.cc_energy_s1(s.T1, F.ov)
            + 0.5 * ce.cc_energy_s2(s.T1, I.oovv))),
        rec(s, "cc_energy-parts-a", "E", "", call(
            lambda: ce.cc_energy_d(s.T2, I.oovv) + ce.cc_energy_s1(s.T1, F.ov)
            + 0.5 * ce.cc_energy_s2_a(s.T1, s.T1, I.oovv))),
    ]
    lin = [rec(s, "mp2_energy", "E", "", call(lib(ce, "mp2_energy"), s.T1, s.T2, F.ov, I.oovv))]
    e = [rec(s, "cc_energy_d", "Ed", "", call(lib(ce, "cc_energy_d"), s.T2, I.oovv)),
         rec(s, "cc_energy_s1", "Es", "", call(lib(ce, "cc_energy_s1"), s.T1, F.ov)),
         rec(s, "cc_energy_s2", "Ess", "", call(lib(ce, "cc_energy_s2"), s.T1, I.oovv)),
         rec(s, "cc_energy_s2_a", "Ess", "", call(lib(ce, "cc_energy_s2_a"), s.T1, s.T1.copy(), I.oovv)),
         rec(s, "cc_energy_s2_a", "Esu", "", call(lib(ce, "cc_energy_s2_a"), s.T1, s.U1, I.oovv)),
         rec(s, "cc_energy_s2_a", "Esu", "", call(lib(ce, "cc_energy_s2_a"), s.U1, s.T1, I.oovv))]
    parts = case(s, "cc_energy-pieces", e, mode="pieces")
    parts["U1"] = s.field("U1")
    return [case(s, "cc_energy", full), case(s, "mp2_energy", lin, mode="linear"), parts]


def energies_u(s):
    Fa, Fb, Ia, Ib, Iab = s.blocks()
    t1, t2 = s.t()
    a = (t1, t2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
    return [case(s, "ucc_energy", [rec(s, "ucc_energy", "E", "", call(lib(ce, "ucc_energy"), *a))]),
            case(s, "ump2_energy", [rec(s, "ump2_energy", "E", "", call(lib(ce, "ump2_energy"), *a))],
                 mode="linear")]


def energies_r(s):
    F, I = s.blocks()
    return [case(s, "rcc_energy", [rec(s, "rcc_energy", "E", "", call(
        ce.rcc_energy, s.T1, s.T2, F.ov, I.oovv))])]


def amps_g(s, methods=("ccsd_simple", "ccsd_stanton")):
    outs = []
    for m in methods:
        F, I = s.blocks()
        v = call(lib(cc, m), F, I, s.T1, s.T2)
        outs += [rec(s, m + ".T1", "R1", "vo", v, it(0)),
                 rec(s, m + ".T2", "R2", "vvoo", v, it(1))]
    return [case(s, "ccsd", outs)]


def amps_lin(s):
    F, I = s.blocks()
    v = call(lib(cc, "lccsd_simple"), F, I, s.T1, s.T2)
    return [case(s, "lccsd_simple",
                 [rec(s, "lccsd_simple.T1", "R1", "vo", v, it(0)),
                  rec(s, "lccsd_simple.T2", "R2", "vvoo", v, it(1))], mode="linear")]


def amps_d(s):
    """Doubles-only methods; the system has T1 = 0."""
    assert not s.T1.any()
    outs = []
    for m in ("ccd_simple", "ccd_stanton"):
        F, I = s.blocks()
        outs.append(rec(s, m, "R2", "vvoo", call(lib(cc, m), F, I, s.T2)))
    F, I = s.blocks()
    lin = [rec(s, "lccd_simple", "R2", "vvoo", call(lib(cc, "lccd_simple"), F, I, s.T2))]
    return [case(s, "ccd", outs), case(s, "lccd", lin, mode="linear")]


def amps_u(s):
    Fa, Fb, Ia, Ib, Iab = s.blocks()
    t1, t2 = s.t()
    v = call(lib(cc, "uccsd_stanton"), Fa, Fb, Ia, Ib, Iab, t1, t2)
    return [case(s, "uccsd_stanton", [
        rec(s, "T1a", "R1", "vo", v, it(0, 0)), rec(s, "T1b", "R1", "VO", v, it(0, 1)),
        rec(s, "T2aa", "R2", "vvoo", v, it(1, 0)), rec(s, "T2ab", "R2", "vVoO", v, it(1, 1)),
        rec(s, "T2bb", "R2", "VVOO", v, it(1, 2))])]


def amps_r(s):
    F, I = s.blocks()
    v = call(lib(cc, "rccsd_stanton"), F, I, s.T1, s.T2)
    return [case(s, "rccsd_stanton", [
        rec(s, "T1", "R1", "vo", v, it(0)), rec(s, "T2", "R2", "vVoO", v, it(1))])]


def lam_g(s):
    outs = []

    def intor(F, I, L1, L2, T1, T2):
        return cc.ccsd_lambda_opt_int(F, I, L1, L2, T1, T2, cc.lambda_int(F, I, T1, T2))
    for name, fn in (("simple", lib(cc, "ccsd_lambda_simple")),
                     ("opt", lib(cc, "ccsd_lambda_opt")),
                     ("stanton", lib(cc, "ccsd_lambda_stanton")), ("opt_int", intor)):
        F, I = s.blocks()
        v = call(fn, F, I, s.L1, s.L2, s.T1, s.T2)
        outs += [rec(s, name + ".L1", "M1", "ov", v, it(0)),
                 rec(s, name + ".L2", "M2", "oovv", v, it(1))]
    return [case(s, "ccsd_lambda", outs)]


def lam_d(s):
    assert not s.T1.any() and not s.L1.any()
    F, I = s.blocks()
    return [case(s, "ccd_lambda_simple", [rec(
        s, "ccd_lambda_simple", "M2", "oovv",
        call(lib(cc, "ccd_lambda_simple"), F, I, s.L2, s.T2))])]


def lam_u(s):
    Fa, Fb, Ia, Ib, Iab = s.blocks()
    t1, t2 = s.t()
    l1, l2 = s.lam()
    v = call(lib(cc, "uccsd_lambda_opt"), Fa, Fb, Ia, Ib, Iab, l1, l2, t1, t2)
    return [case(s, "uccsd_lambda_opt", [
        rec(s, "L1a", "M1", "ov", v, it(0, 0)), rec(s, "L1b", "M1", "OV", v, it(0, 1)),
        rec(s, "L2aa", "M2", "oovv", v, it(1, 0)), rec(s, "L2ab", "M2", "oOvV", v, it(1, 1)),
        rec(s, "L2bb", "M2", "OOVV", v, it(1, 2))])]


def lam_r(s):
    F, I = s.blocks()
    v = call(lib(cc, "rccsd_lambda_opt"), F, I, s.L1, s.L2, s.T1, s.T2)
    return [case(s, "rccsd_lambda_opt", [
        rec(s, "L1", "M1", "ov", v, it(0)), rec(s, "L2", "M2", "oOvV", v, it(1))])]


RDM_G = [("1rdm_ba", "vv"), ("1rdm_ji", "oo"), ("1rdm_ai", "vo"),
         ("2rdm_cdab", "vvvv"), ("2rdm_ciab", "vovv"), ("2rdm_bcai", "vvvo"),
         ("2rdm_bjai", "vovo"), ("2rdm_abij", "vvoo"), ("2rdm_jkai", "oovo"),
         ("2rdm_kaij", "ovoo"), ("2rdm_klij", "oooo")]
RDM_U = [("1rdm_ba", ("vv", "VV")), ("1rdm_ji", ("oo", "OO")), ("1rdm_ai", ("vo", "VO")),
         ("2rdm_ciab", ("vovv", "VOVV", "vOvV", "VoVv")),
         ("2rdm_jkai", ("oovo", "OOVO", "oOvO", "OoVo")),
         ("2rdm_cdab", ("vvvv", "VVVV", "vVvV")),
         ("2rdm_bjai", ("vovo", "VOVO", "vOvO", "vOVo", "VovO", "VoVo")),
         ("2rdm_klij", ("oooo", "OOOO", "oOoO")),
         ("2rdm_bcai", ("vvvo", "VVVO", "vVvO", "VvVo")),
         ("2rdm_kaij", ("ovoo", "OVOO", "oVoO", "OvOo")),
         ("2rdm_abij", ("vvoo", "VVOO", "vVoO"))]
RDM_R = [("1rdm_ba", "vv"), ("1rdm_ji", "oo"), ("1rdm_ai", "vo"),
         ("2rdm_ciab", "vOvV"), ("2rdm_jkai", "oOvO"), ("2rdm_cdab", "vVvV"),
         ("2rdm_bjai", "vOvO"), ("2rdm_bjia", "vOoV"), ("2rdm_klij", "oOoO"),
         ("2rdm_bcai", "vVvO"), ("2rdm_kaij", "oVoO"), ("2rdm_abij", "vVoO")]
TFAC = ("1rdm_ai", "2rdm_abij")          # the blocks that see the reference weight


def _kind(nm):
    return "G1" if nm.startswith("1") else "G2"


def rdm_g(s, tfac=1):
    outs = []
    for nm, blk in RDM_G:
        for suf in ("", "_opt"):
            fn = lib(cc, "ccsd_" + nm + suf)
            kw = {}
            if tfac != 1:
                if nm not in TFAC:
                    continue
                kw = {"tfac": float(tfac)}
            outs.append(rec(s, nm + suf, _kind(nm), blk,
                            call(fn, s.T1, s.T2, s.L1, s.L2, **kw)))
    return [case(s, "ccsd_rdm", outs, tfac=tfac)]


def rdm_u(s, tfac=1):
    outs = []
    t1, t2 = s.t()
    l1, l2 = s.lam()
    for nm, blks in RDM_U:
        fn = lib(cc, "uccsd_" + nm)
        kw = {}
        if tfac != 1:
            if nm not in TFAC:
                continue
            kw = {"tfac": float(tfac)}
        v = call(fn, *(t1 + t2 + l1 + l2), **kw)
        for i, b in enumerate(blks):
            outs.append(rec(s, nm + "." + b, _kind(nm), b, v, it(i)))
    return [case(s, "uccsd_rdm", outs, tfac=tfac)]


def rdm_r(s, tfac=1):
    outs = []
    for nm, blk in RDM_R:
        fn = lib(cc, "rccsd_" + nm)
        kw = {}
        if tfac != 1:
            if nm != "1rdm_ai":
                continue
            kw = {"tfac": float(tfac)}
        outs.append(rec(s, nm, _kind(nm), blk, call(fn, s.T1, s.T2, s.L1, s.L2, **kw)))
    return [case(s, "rccsd_rdm", outs, tfac=tfac)]
