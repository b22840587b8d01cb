"""C17, C18, C19: molecular, periodic and k-point integrals; block objects."""
import itertools

import numpy as np
from pyscf import gto, scf
from pyscf.pbc import gto as pgto
from pyscf.pbc import scf as pscf

from cqcpy import integrals
from vlib import MachineryError, call, lib

UNIT = 2.0**20                # fixed point: values are recorded in 1/UNIT
BLOCKS = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")


def fix(a):
    """Fixed-point pairs; None when a number does not fit."""
    a = np.asarray(a, dtype=complex)
    z = np.stack([a.real, a.imag], axis=-1) * UNIT
    if z.size and (not np.isfinite(z).all() or np.abs(z).max() >= 2.0**30):
        return None
    return np.rint(z).astype(int).tolist()


def molecule(n):
    atoms = ["H 0 0 0; H 0.3 0.4 1.1; He 1.0 -0.7 0.2", "He 0 0.1 0; He 0.9 0.4 -0.8; H -0.6 1.2 0.3"]
    m = gto.Mole()
    m.atom, m.basis, m.verbose = atoms[n % 2], "sto-3g", 0
    m.charge = 0 if n % 2 == 0 else 1
    m.build()
    return m


def larger(n):
    """Molecules with more atomic orbitals, p shells among them."""
    m = gto.Mole()
    m.atom, m.basis, m.verbose = ["O 0 0.1 0; H 0.4 0.8 -0.3", "C 0 0 0; H 0.5 -0.6 0.7; H -0.9 0.2 0.4"][n % 2], "sto-3g", 0
    m.charge = -1 if n % 2 == 0 else 0
    m.build()
    return m


def cell(n):
    c = pgto.Cell()
    c.atom = ["He 0.1 0.2 0.3; H 1.1 0.9 1.7", "H 0.0 0.3 0.1; H 1.2 1.4 0.7"][n % 2]
    c.a = np.array([[3.0, 0, 0], [0.3, 3.2, 0], [0.1, 0.2, 3.4]])
    c.basis, c.mesh, c.verbose = "sto-3g", [9, 9, 9], 0
    c.spin = 1 - n % 2
    c.build()
    return c


class Pool:
    """The orbitals of one case and their indices."""

    def __init__(self, rng, nao, cplx):
        self.rng, self.nao, self.cplx, self.orbs = rng, nao, cplx, []

    def coeff(self, n, real=False, order="C"):
        while True:
            c = self.rng.integers(-1, 2, (self.nao, n)).astype(float)
            if self.cplx and not real:
                c = c + 1j * self.rng.integers(-1, 2, (self.nao, n))
            if n == 0 or np.abs(c).sum(axis=0).min() > 0:
                break
        return np.asfortranarray(c) if order == "F" else c

    def wide(self, n, keep, order="C"):
        """n orbitals of which all but `keep' are zero, and each has at most two atomic orbitals."""
        keep = min(n, keep)
        pos = sorted([n - 1] + [int(x) for x in self.rng.permutation(n - 1)[:keep - 1]]) if keep else []
        c = np.zeros((self.nao, n), dtype=complex if self.cplx else float)
        for j in pos:
            for a in self.rng.permutation(self.nao)[:2]:
                c[a, j] = self.rng.choice([1, -1] + ([1j, -1j, 1 + 1j] if self.cplx else []))
        return (np.asfortranarray(c) if order == "F" else c), pos

    def add(self, c, s="n", k=1):
        """Register the columns of c; their labels."""
        out = []
        for j in range(c.shape[1]):
            z = np.asarray(c[:, j], dtype=complex)
            self.orbs.append(dict(c=[[int(x.real), int(x.imag)] for x in z], s=s, k=k))
            out.append(len(self.orbs))
        return out


def out(name, kind, anti, ax, v, pick=None, part=None, **extra):
    """part: shape of a larger array and the positions of the recorded part; the rest must be zero."""
    st, val = v
    o = dict(name=name, kind=kind, anti=anti, ax=ax, st=st, val=0)
    o.update(extra)
    if st != "ok":
        return o
    try:
        val = np.asarray(val if pick is None else pick(val))
        shape = tuple(extra.get("shape") or [len(x) for x in ax])
        if part is not None and val.shape == tuple(part[0]):
            at = np.ix_(*part[1])
            rest = val.copy()
            rest[at] = 0
            if not (np.abs(rest) < 1e-9).all():
                o["st"] = "outside"
                return o
            val = val[at]
        if val.shape != shape:
            o["st"] = "shape"
            return o
        o["val"] = fix(val)
        if o["val"] is None:
            o["st"] = "range"
    except Exception:
        o["st"] = "shape"
    return o


def flag(name, got, want):
    return dict(name=name, kind="flag", anti=False, ax=[], st="ok", val=0, got=got, want=want)


def case(where, conf, pool, ao, outs, mesh=(1,), at=((0,),), h=0):
    # rounding of the atomic integrals: half a unit each, times the coefficients
    norm = max([sum(abs(complex(*x)) for x in orb["c"]) for orb in pool.orbs] + [1.0])
    tol = int(2 * 0.71 * norm**4) + 20
    return dict(id=0, where=where, conf=conf, orbs=pool.orbs, ao=ao, outs=outs, mesh=list(mesh),
                at=[list(x) for x in at], h=h, tol=tol)


def _run(o, cases):
    for i, c in enumerate(cases):
        c["id"] = i
    o.assumptions = ["pyscf evaluates integrals over atomic orbitals; UNIT = 2^-20"]
    o.judged("TraceCoulomb", cases)


def mol_ao(mol):
    return [[[fix(mol.intor("int2e", aosym="s1"))]]]


NC = [(2, 1, 3, 2), (1, 2, 2, 3), (3, 2, 1, 1), (2, 2, 2, 2), (1, 3, 1, 2), (2, 0, 1, 2)]


SETS = [((1, 2, 1, 1), (2, 1, 2, 2)), ((2, 1, 1, 2), (1, 2, 2, 1)), ((1, 0, 2, 1), (0, 2, 0, 1)),
        ((2, 1, 2, 1), (1, 1, 2, 2)), ((0, 1, 1, 0), (1, 2, 1, 2)), ((2, 0, 0, 1), (0, 2, 1, 0))]
ALL = [(2, 1), (1, 2), (0, 2), (1, 3), (2, 0), (2, 2)]


# which of the four coefficient sets are one and the same array; equally many orbitals in all of them
SHARED = ["abcd", "abab", "aabb", "abba", "aaaa", "aaab", "abac", "abcb", "aabc", "abcc"]


def shared(pool, pattern, n, order="C", real=False):
    sets = {c: pool.coeff(n, order=order, real=real) for c in sorted(set(pattern))}
    return [sets[c] for c in pattern]


def spin_axes(pool, rng, na, nb, order="C", real=False):
    oa = [pool.coeff(n, order=order, real=real) for n in na]
    ob = [pool.coeff(n, order=order, real=real) for n in nb]
    ax = [pool.add(a, "a") + pool.add(b, "b") for a, b in zip(oa, ob)]
    return oa, ob, ax


def many(o, n, rng, mf, umf, ao, nao, cplx, source, suffix, conf):
    """The same functions with many orbitals, few of which are not zero.

    source is what the functions take first: the molecule or the mean-field object.
    """
    ig = integrals
    order = "CF"[n % 2]
    cases = []

    def sets(pool, ns, keep):
        return [pool.wide(k, keep, order) for k in ns]

    pool = Pool(rng, nao, cplx)
    ns = [(9, 13, 8, 11), (17, 3, 10, 5), (6, 6, 12, 12)][n % 3]
    w = sets(pool, ns, 2)
    cs, part = [c for c, _ in w], (ns, [p for _, p in w])
    ax = [pool.add(c[:, p]) for c, p in w]
    outs = [out("get_%s%s(anti=%s)" % (kind, suffix, anti), kind, anti, ax,
                call(lib(ig, "get_%s%s" % (kind, suffix)), source, *cs, anti=anti), part=part)
            for kind in ("chem", "phys") for anti in (False, True)]
    cases.append(case("many", dict(conf, columns=ns), pool, ao, outs))

    def spins(pool, wa, wb):
        lab = [pool.add(c[:, p], "a") + pool.add(d[:, q], "b") for (c, p), (d, q) in zip(wa, wb)]
        part = ([c.shape[1] + d.shape[1] for (c, _), (d, _) in zip(wa, wb)],
                [p + [c.shape[1] + x for x in q] for (c, p), (_, q) in zip(wa, wb)])
        return lab, part

    pool = Pool(rng, nao, cplx)
    na, nb = [((7, 5, 6, 8), (4, 9, 5, 6)), ((8, 7, 9, 3), (3, 6, 2, 10)), ((6, 7, 6, 7), (7, 6, 7, 6))][n % 3]
    wa, wb = sets(pool, na, 1), sets(pool, nb, 2)
    ax, part = spins(pool, wa, wb)
    oa, ob = [c for c, _ in wa], [c for c, _ in wb]
    outs = [out("get_chemu%s(anti=%s)" % (suffix, anti), "chem", anti, ax,
                call(lib(ig, "get_chemu" + suffix), source, *oa, *ob, anti=anti), part=part) for anti in (False, True)]
    outs.append(out("get_phys_antiu" + suffix, "phys", True, ax,
                    call(lib(ig, "get_phys_antiu" + suffix), source, *oa, *ob), part=part))
    cases.append(case("many-spin-sets", dict(conf, alpha=na, beta=nb), pool, ao, outs))
    pool = Pool(rng, nao, cplx)
    na, nb = [(7, 9), (12, 5), (6, 11)][n % 3]
    wa, wb = pool.wide(na, 2, order), pool.wide(nb, 1 + n % 2, order)
    ax, part = spins(pool, [wa], [wb])
    ax, part = ax * 4, (part[0] * 4, part[1] * 4)
    outs = [out("get_%su_all%s(anti=%s)" % (kind, suffix, anti), kind, anti, ax,
                call(lib(ig, "get_%su_all%s" % (kind, suffix)), source, wa[0], wb[0], anti=anti), part=part)
            for kind in ("chem", "phys") for anti in (False, True)]
    cases.append(case("many-spin-all", dict(conf, alpha=na, beta=nb), pool, ao, outs))
    for ref, unr in ((mf, False), (umf, True)):
        pool = Pool(rng, nao, cplx)
        nmo = 7 + 3 * (n % 2)
        wa = pool.wide(nmo, 2)
        wb = pool.wide(nmo, 2) if unr else wa
        ref.mo_coeff = np.array((wa[0], wb[0])) if unr else wa[0]
        occ = np.array([1.0] * 4 + [0.0] * (nmo - 4))
        ref.mo_occ = np.array((occ, occ[::-1])) if unr else 2 * occ
        ax, part = spins(pool, [wa], [wb])
        outs = [out("get_physu_all_gen(anti=%s)" % anti, "phys", anti, ax * 4,
                    call(lib(ig, "get_physu_all_gen"), ref, anti=anti), part=(part[0] * 4, part[1] * 4))
                for anti in (False, True)]
        cases.append(case("many-mean-field", dict(conf, unrestricted=unr, nmo=nmo), pool, ao, outs))
    return cases


def C17(o):
    ig = integrals
    cases = []
    for n in range(6 if o.tier != "quick" else 2):
        mol = larger(n)
        cases += many(o, n, np.random.default_rng([o.seed, 171, n]), scf.RHF(mol), scf.UHF(mol), mol_ao(mol),
                      int(mol.nao), False, mol, "", dict(molecule="larger"))
    for n in range(18 if o.tier != "quick" else 6):
        mol = molecule(n)
        nao = int(mol.nao)
        ao = mol_ao(mol)
        rng = np.random.default_rng([o.seed, 17, n])
        order = "CF"[n % 2]
        conf = dict(molecule=n % 2, nao=nao, layout=order)
        pool = Pool(rng, nao, False)
        nc = NC[n % len(NC)]
        cs = [pool.coeff(k, order=order) for k in nc]
        ax = [pool.add(c) for c in cs]
        outs = []
        for fn, kind in (("get_chem", "chem"), ("get_phys", "phys")):
            outs.append(out(fn, kind, False, ax, call(lib(ig, fn), mol, *cs)))
            outs.append(out(fn + "(anti)", kind, True, ax, call(lib(ig, fn), mol, *cs, anti=True)))
            outs.append(out(fn + "_anti", kind, True, ax, call(lib(ig, fn + "_anti"), mol, *cs)))
        for ref in (scf.RHF(mol), scf.UHF(mol)):
            nm = "get_phys_gen." + ("UHF" if ref.__class__.__name__ == "UHF" else "RHF")
            for anti in (False, True):
                outs.append(out(nm, "phys", anti, ax, call(lib(ig, "get_phys_gen"), ref, *cs, anti=anti)))
        cases.append(case("spatial", dict(conf, columns=nc), pool, ao, outs))
        for pat in (SHARED[n % 10], SHARED[(n + 6) % 10]):
            pool = Pool(rng, nao, False)
            cs = shared(pool, pat, 2, order)
            ax = [pool.add(c) for c in cs]
            outs = [out("get_%s(anti=%s)" % (kind, anti), kind, anti, ax,
                        call(lib(ig, "get_" + kind), mol, *cs, anti=anti))
                    for kind in ("chem", "phys") for anti in (False, True)]
            cases.append(case("spatial-shared", dict(conf, columns=pat), pool, ao, outs))
            pool = Pool(rng, nao, False)
            oa = shared(pool, pat, 2, order)
            ob = oa if n % 3 == 2 else shared(pool, SHARED[(n + (pat != SHARED[n % 10])) % 10], 1 + (n % 3 == 0), order)
            ax = [pool.add(a, "a") + pool.add(b, "b") for a, b in zip(oa, ob)]
            outs = [out("get_chemu(anti=%s)" % anti, "chem", anti, ax,
                        call(lib(ig, "get_chemu"), mol, *oa, *ob, anti=anti)) for anti in (False, True)]
            outs.append(out("get_phys_antiu", "phys", True, ax, call(lib(ig, "get_phys_antiu"), mol, *oa, *ob)))
            cases.append(case("spin-sets-shared", dict(conf, columns=pat, same=ob is oa), pool, ao, outs))
        # four coefficient sets per spin
        pool = Pool(rng, nao, False)
        na, nb = SETS[n % len(SETS)]
        oa, ob, ax = spin_axes(pool, rng, na, nb, order)
        outs = [out("get_chemu", "chem", False, ax, call(lib(ig, "get_chemu"), mol, *oa, *ob)),
                out("get_chemu(anti)", "chem", True, ax,
                    call(lib(ig, "get_chemu"), mol, *oa, *ob, anti=True)),
                out("get_chem_antiu", "chem", True, ax, call(lib(ig, "get_chem_antiu"), mol, *oa, *ob)),
                out("get_phys_antiu", "phys", True, ax, call(lib(ig, "get_phys_antiu"), mol, *oa, *ob))]
        cases.append(case("spin-sets", dict(conf, alpha=na, beta=nb), pool, ao, outs))
        # one coefficient matrix per spin
        pool = Pool(rng, nao, False)
        na, nb = ALL[n % len(ALL)]
        a, b = pool.coeff(na, order=order), pool.coeff(nb, order=order)
        ax = [pool.add(a, "a") + pool.add(b, "b")] * 4
        outs = []
        for fn, kind in (("get_chemu_all", "chem"), ("get_physu_all", "phys")):
            outs.append(out(fn, kind, False, ax, call(lib(ig, fn), mol, a, b)))
            outs.append(out(fn + "(anti)", kind, True, ax, call(lib(ig, fn), mol, a, b, anti=True)))
        outs.append(out("get_chem_antiu_all", "chem", True, ax,
                        call(lib(ig, "get_chem_antiu_all"), mol, a, b)))
        outs.append(out("get_phys_antiu_all", "phys", True, ax,
                        call(lib(ig, "get_phys_antiu_all"), mol, a, b)))
        cases.append(case("spin-all", dict(conf, alpha=na, beta=nb), pool, ao, outs))
        cases += _gen(o, rng, conf, ao, nao, scf.RHF(mol), scf.UHF(mol), False)
    _run(o, cases)


def _gen(o, rng, conf, ao, nao, rhf, uhf, cplx):
    """Functions that take everything from the mean-field object."""
    cases = []
    for mf, unr in ((rhf, False), (uhf, True)):
        pool = Pool(rng, nao, cplx)
        a = pool.coeff(2)
        b = pool.coeff(2) if unr else a
        mf.mo_coeff = np.array((a, b)) if unr else a
        occ = np.array([1.0, 0.0])
        mf.mo_occ = np.array((occ, occ[::-1])) if unr else 2 * occ
        ax = [pool.add(a, "a") + pool.add(b, "b")] * 4
        tag = "UHF" if unr else "RHF"
        fns = [(("get_physu_all_gen"), False, {}), ("get_physu_all_gen", True, dict(anti=True)),
               ("get_phys_antiu_all_gen", True, {})]
        outs = [out(fn + "." + tag, "phys", anti, ax, call(lib(integrals, fn), mf, **kw))
                for fn, anti, kw in fns]
        cases.append(case("mean-field", dict(conf, reference=tag), pool, ao, outs))
    return cases


def gamma_ao(mf, nao):
    e = np.eye(nao)
    v = mf.with_df.ao2mo((e,) * 4, mf.kpt, compact=False)
    if v.shape != (nao * nao, nao * nao):
        raise MachineryError("atomic integrals of the cell have shape %s" % (v.shape,))
    return [[[fix(v.reshape((nao,) * 4))]]]


def solids(cl, n):
    """Reference objects at the gamma point and at a general momentum."""
    kpt = np.zeros(3) if n % 2 == 0 else np.array([0.21, -0.13, 0.34])
    return pscf.RHF(cl, kpt=kpt), pscf.UHF(cl, kpt=kpt)


def C18(o):
    ig = integrals
    cases = []
    big = o.tier != "quick"
    for n in range(16 if big else 6):
        cl = cell(n // 2)
        nao = int(cl.nao)
        mf, umf = solids(cl, n)
        ao = gamma_ao(mf, nao)
        rng = np.random.default_rng([o.seed, 18, n])
        cplx = n % 3 != 2
        conf = dict(cell=n // 2 % 2, kpt=[float(x) for x in mf.kpt], cplx=cplx)
        order = "CF"[n // 3 % 2]
        pool = Pool(rng, nao, cplx)
        nc = NC[n % len(NC)]
        cs = [pool.coeff(k, order=order) for k in nc]
        ax = [pool.add(c) for c in cs]
        outs = []
        for anti in (False, True):
            for fn, kind in (("get_chem_sol", "chem"), ("get_phys_sol", "phys"),
                             ("get_phys_gen", "phys")):
                outs.append(out(fn, kind, anti, ax, call(lib(ig, fn), mf, *cs, anti=anti)))
        cases.append(case("sol", dict(conf, columns=nc), pool, ao, outs))
        for pat in (SHARED[n % 10], SHARED[(n + 6) % 10]):
            pool = Pool(rng, nao, cplx)
            cs = shared(pool, pat, 2, order)
            ax = [pool.add(c) for c in cs]
            outs = [out("get_%s_sol(anti=%s)" % (kind, anti), kind, anti, ax,
                        call(lib(ig, "get_%s_sol" % kind), mf, *cs, anti=anti))
                    for kind in ("chem", "phys") for anti in (False, True)]
            cases.append(case("sol-shared", dict(conf, columns=pat), pool, ao, outs))
            pool = Pool(rng, nao, cplx)
            oa = shared(pool, pat, 2, order)
            ob = oa if n % 3 == 2 else shared(pool, SHARED[(n + (pat != SHARED[n % 10])) % 10], 1 + (n % 3 == 0), order)
            ax = [pool.add(a, "a") + pool.add(b, "b") for a, b in zip(oa, ob)]
            outs = [out("get_chemu_sol(anti=%s)" % anti, "chem", anti, ax,
                        call(lib(ig, "get_chemu_sol"), mf, *oa, *ob, anti=anti)) for anti in (False, True)]
            outs.append(out("get_phys_antiu_sol", "phys", True, ax,
                            call(lib(ig, "get_phys_antiu_sol"), mf, *oa, *ob)))
            cases.append(case("sol-spin-sets-shared", dict(conf, columns=pat, same=ob is oa), pool, ao, outs))
        # spins; one of the sets real where the rest is complex
        pool = Pool(rng, nao, cplx)
        na, nb = SETS[n % len(SETS)]
        oa = [pool.coeff(k, order=order, real=n % 4 == 3 and j == 0) for j, k in enumerate(na)]
        ob = [pool.coeff(k, order=order) for k in nb]
        ax = [pool.add(a, "a") + pool.add(b, "b") for a, b in zip(oa, ob)]
        outs = [out("get_chemu_sol", "chem", False, ax, call(lib(ig, "get_chemu_sol"), mf, *oa, *ob)),
                out("get_chemu_sol(anti)", "chem", True, ax,
                    call(lib(ig, "get_chemu_sol"), mf, *oa, *ob, anti=True)),
                out("get_chem_antiu_sol", "chem", True, ax,
                    call(lib(ig, "get_chem_antiu_sol"), mf, *oa, *ob)),
                out("get_phys_antiu_sol", "phys", True, ax,
                    call(lib(ig, "get_phys_antiu_sol"), mf, *oa, *ob))]
        cases.append(case("sol-spin-sets", dict(conf, alpha=na, beta=nb), pool, ao, outs))
        pool = Pool(rng, nao, cplx)
        na, nb = ALL[n % len(ALL)]
        a, b = pool.coeff(na, real=n % 4 == 3), pool.coeff(nb)
        ax = [pool.add(a, "a") + pool.add(b, "b")] * 4
        outs = []
        for anti in (False, True):
            outs.append(out("get_chemu_all_sol", "chem", anti, ax,
                            call(lib(ig, "get_chemu_all_sol"), mf, a, b, anti=anti)))
            outs.append(out("get_physu_all_sol", "phys", anti, ax,
                            call(lib(ig, "get_physu_all_sol"), mf, a, b, anti=anti)))
        cases.append(case("sol-spin-all", dict(conf, alpha=na, beta=nb), pool, ao, outs))
        cases += _gen(o, rng, conf, ao, nao, mf, umf, cplx)
    for n in range(6 if big else 2):
        cl = cell(n)
        mf, umf = solids(cl, n + 1)
        cases += many(o, n, np.random.default_rng([o.seed, 182, n]), mf, umf, gamma_ao(mf, int(cl.nao)),
                      int(cl.nao), True, mf, "_sol", dict(cell=n))
    meshes = [(2, 1, 1), (3, 1, 1), (1, 2, 2)] + ([(4, 1, 1), (2, 3, 1), (5, 1, 1)] if big else [])
    for n, mesh in enumerate(meshes):
        for shift in ((0, 0, 0), (0.17, -0.05, 0.11)):
            cases += _kpoints(o, n, mesh, shift, big)
    _run(o, cases)


def _kpoints(o, n, mesh, shift, big):
    ig = integrals
    cl = cell(n)
    nao = int(cl.nao)
    kpts = cl.make_kpts(mesh) + np.array(shift)
    nk = len(kpts)
    # coordinates on the mesh, from the fractional momenta
    frac = cl.get_scaled_kpts(kpts - kpts[0])
    at = [[int(round(x * m)) for x, m in zip(f, mesh)] for f in frac]
    mf = pscf.KRHF(cl, kpts)
    e = np.eye(nao)

    def fourth(a, b, c):
        return [d for d in range(nk)
                if all((at[a][x] - at[b][x] + at[c][x] - at[d][x]) % mesh[x] == 0
                       for x in range(3))][0]
    ao = [[[fix(mf.with_df.ao2mo((e,) * 4, kpts=[kpts[x] for x in (a, b, c, fourth(a, b, c))],
                                 compact=False).reshape((nao,) * 4))
            for c in range(nk)] for b in range(nk)] for a in range(nk)]
    rng = np.random.default_rng([o.seed, 181, n, int(shift[0] != 0)])
    conf = dict(mesh=mesh, shift=shift)
    pool = Pool(rng, nao, True)
    outs = []
    quads = list(itertools.product(range(nk), repeat=4))
    keep = [q for q in quads if fourth(*q[:3]) == q[3] or fourth(q[0], q[2], q[1]) == q[3]]
    rest = [q for q in quads if q not in keep]
    rng.shuffle(keep)
    rng.shuffle(rest)
    for q in list(keep)[:40 if big else 14] + list(rest)[:10 if big else 4]:
        q = [int(x) for x in q]
        cs = [pool.coeff(int(x)) for x in rng.integers(0 if big else 1, 3, 4)]
        ax = [pool.add(c, k=k + 1) for c, k in zip(cs, q)]
        for fn, kind in (("get_chem_solk", "chem"), ("get_phys_solk", "phys")):
            for anti in (False, True):
                outs.append(out("%s" % fn, kind, anti, ax, call(lib(ig, fn), mf, q, *cs, anti=anti)))
    cases = [case("solk", conf, pool, ao, outs, mesh, at)]
    pool = Pool(rng, nao, True)
    outs = []
    for q in list(keep)[14:18 if n else 22]:
        q = [int(x) for x in q]
        ns = [int(x) for x in rng.integers(4, 12, 4)]
        w = [pool.wide(x, 2) for x in ns]
        ax = [pool.add(c[:, p], k=k + 1) for (c, p), k in zip(w, q)]
        for fn, kind in (("get_chem_solk", "chem"), ("get_phys_solk", "phys")):
            for anti in (False, True):
                outs.append(out(fn, kind, anti, ax, call(lib(ig, fn), mf, q, *[c for c, _ in w], anti=anti),
                                part=(ns, [p for _, p in w])))
    if outs:
        cases.append(case("solk-many", conf, pool, ao, outs, mesh, at))
    # tables over all momenta
    pool = Pool(rng, nao, True)
    nmo = 1 + n % 2
    if shift[0]:                                   # many, few of them not zero
        N = 5 + n
        w = [pool.wide(N, nmo) for _ in range(nk)]
        return cases + _tables(mf, nk, w, pool, ao, mesh, at, conf)
    mf.mo_coeff = [pool.coeff(nmo) for _ in range(nk)]
    w = [(c, list(range(nmo))) for c in mf.mo_coeff]
    return cases + _tables(mf, nk, w, pool, ao, mesh, at, conf)


def _tables(mf, nk, w, pool, ao, mesh, at, conf):
    """Tables over all momenta; w gives for each the orbitals and the places of those not zero."""
    ig = integrals
    mf.mo_coeff = [c for c, _ in w]
    N, nmo = w[0][0].shape[1], len(w[0][1])
    mf.mo_occ = [np.array([2.0] + [0.0] * (N - 1)) for _ in range(nk)]
    ax = [pool.add(c[:, p], k=k + 1) for k, (c, p) in enumerate(w)]

    def fourth(kind, ks):
        sg = (1, -1, 1) if kind == "chemtab" else (1, 1, -1)
        return [d for d in range(nk) if all((sum(g * at[k][x] for g, k in zip(sg, ks)) - at[d][x]) % mesh[x] == 0
                                            for x in range(3))][0]
    hcore = np.asarray(mf.get_hcore())
    outs = []
    for ordr, kind in (("chem", "chemtab"), ("phys", "phystab"), ("Chem", "chemtab")):
        v = call(lib(ig, "get_solk_integrals"), mf, eriorder=ordr)
        for k in range(nk):
            outs.append(out("get_solk_integrals.h1", "core", False, [ax[k]] * 2, v,
                            lambda x, k=k: x[0][k], part=([N] * 2, [w[k][1]] * 2)))
        for ks in itertools.product(range(nk), repeat=3):
            outs.append(out("get_solk_integrals(%s)" % ordr, kind, False, [], v,
                            lambda x, ks=ks: x[1][ks], ks=[k + 1 for k in ks], shape=[nmo] * 4,
                            part=([N] * 4, [w[k][1] for k in ks + (fourth(kind, ks),)])))
    return [case("solk-tables", dict(conf, nmo=N), pool, ao, outs, mesh, at, h=[fix(h) for h in hcore])]


PATTERNS = [((1, 0, 0), (1, 0, 0)), ((0, 1, 0), (1, 0, 0)), ((1, 0, 1), (0, 1, 0)), ((0, 0, 1), (1, 1, 0)),
            ((1, 1, 0), (0, 1, 1)), ((1, 0, 0), (0, 0, 0)), ((1, 1, 1), (1, 0, 0))]


def C19(o):
    cases = []
    big = o.tier != "quick"
    refs = []
    wide = range(100, 100 + (12 if big else 4))
    for n in list(range(28 if big else 14)) + list(wide):
        mol = larger(n // 2) if n in wide else molecule(n)
        refs.append((int(mol.nao), mol_ao(mol), (scf.RHF(mol), scf.UHF(mol))[n % 2], n % 2, False, "mol", n))
    for n in list(range(20 if big else 10)) + list(wide):
        cl = cell(n)
        pair = solids(cl, n // 2)
        refs.append((int(cl.nao), gamma_ao(pair[0], int(cl.nao)), pair[n % 2], n % 2, n % 4 >= 2 and n % 3 != 0, "cell", n))
    for nao, ao, mf, unr, cplx, kind, n in refs:
        rng = np.random.default_rng([o.seed, 19, n, kind == "mol"])
        pool = Pool(rng, nao, cplx)
        pa, pb = PATTERNS[(n // 2) % len(PATTERNS)]
        if kind == "cell":
            pa, pb = [((0, 1), (1, 0)), ((1, 0), (1, 0)), ((1, 0), (0, 1)), ((0, 1), (0, 0)),
                      ((1, 1), (0, 0))][(n // 2) % 5]
        nmo = len(pa)
        if n in wide:                              # many orbitals, few of them not zero
            nmo = 6 + n % 5
            pa, pb = [np.array(rng.random(nmo) < f, dtype=float) for f in rng.choice([0.3, 0.5, 0.7], 2)]
            (a, ka), (b, kb) = pool.wide(nmo, 3), pool.wide(nmo, 3)
        else:
            a, b = pool.coeff(nmo), pool.coeff(nmo)
            ka = kb = list(range(nmo))
        pa = np.array(pa, dtype=float)
        pb = np.array(pb, dtype=float) if unr else pa
        if not unr:
            b, kb = a, ka
        mf.mo_coeff = np.array((a, b)) if unr else a
        part = rng.choice([0.25, 0.5, 1.0], (2, nmo)) if n % 5 > 2 else np.ones((2, nmo))     # partly occupied
        mf.mo_occ = np.array((pa, pb)) * part if unr else 2 * pa * part[0]
        al, be = dict(zip(ka, pool.add(a[:, ka], "a"))), dict(zip(kb, pool.add(b[:, kb], "b")))
        lab, size, pos = {}, {}, {}
        for c, f in (("o", 1), ("v", 0)):
            both = [al.get(x) for x in range(nmo) if pa[x] == f] + [be.get(x) for x in range(nmo) if pb[x] == f]
            size[c], pos[c] = len(both), [k for k, x in enumerate(both) if x]
            lab[c] = [x for x in both if x]
        outs = []
        for code in range(0, 10):
            v = call(lambda: integrals.eri_blocks(mf, code=code) if code else integrals.eri_blocks(mf))
            for k, blk in enumerate(BLOCKS):
                want = code == 0 or code == k + 1
                name = "eri_blocks(%d).%s" % (code, blk)
                got = v[0] == "ok" and bool(getattr(v[1], "has_" + blk, not want))
                held = v[0] == "ok" and getattr(v[1], blk, None) is not None
                outs.append(flag(name + ":flag", got, want))
                outs.append(flag(name + ":held", held, want))
                if want:
                    outs.append(out(name, "phys", True, [lab[c] for c in blk], v,
                                    lambda x, blk=blk: getattr(x, blk),
                                    part=([size[c] for c in blk], [pos[c] for c in blk])))
        cases.append(case(kind, dict(reference="UHF" if unr else "RHF", occ=mf.mo_occ.tolist(),
                                     cplx=cplx), pool, ao, outs))
    _run(o, cases)
