"""C27-C32: what energies, residuals, Lambda, densities and CI vectors have to do with each other.

The systems may be larger than those of C08-C16 since recordings are judged against each other and the
specification does not have to run the coupled-cluster machine on them.
"""
import copy
import json
import os
import tempfile

import numpy as np

import cc
from checks_ci import CIg, CIu, explored, orbs
from checks_cc import INSIDE, MAGNIFIED, MAKE, STRETCHED
from vlib import TLC, Exact, call, lib, record, to_field

from cqcpy import cc_energy as ce
from cqcpy import cc_equations as eq
from cqcpy import ci_utils as cu


def spatial(s):
    """Orbitals of the closed-shell form counted as spatial ones."""
    o, v = list(range(1, s.no + 1)), list(range(s.no + 1, s.no + s.nv + 1))
    return {"o": o, "O": o, "v": v, "V": v}


def note(s, name, blk, value, pick=None, scale=1, unit=0):
    """Record a block in the orbitals of Lagrangian.tla, divided by a power of two."""
    ax, expo = s.ax(blk), s.expo
    if s.form == "r":
        ax = [spatial(s)[c] for c in blk]
        expo = {p: s.expo[p if p <= s.no else p + s.no] for p in range(1, s.no + s.nv + 1)}
    def divided(v):
        v = v if pick is None else pick(v)
        return np.asarray(v) * 2.0**-unit
    return record(name, "", ax, value, scale=4 * s.den**6 * scale, expo=expo, pick=divided if unit else pick)


def given(s, name, blk, arr):
    return note(s, name, blk, ("ok", arr), scale=s.lden)


# --------------------------------------------------------------------------
# C27: one Lagrangian

DIRECTIONS = {"g": dict(T1="D1", T2="D2"), "r": dict(T1="D1", T2="D2"),
              "u": dict(T1a="D1a", T1b="D1b", T2aa="D2aa", T2ab="D2ab", T2bb="D2bb")}


def direction(s, ex, doubles):
    """A random change of the amplitudes, of the same symmetry and scaling."""
    d = {}
    for name in DIRECTIONS[s.form]:
        shape = getattr(s, name).shape
        same = name[1] == "2" and name[2:] != "ab"
        x = ex.t(*shape) if not same else (ex.pairsym if s.form == "r" else ex.anti)(*shape)
        if doubles and name[1] == "1":
            x = 0 * x
        d[name] = ex.scaled(x, *s.exps[name])
    return d


def point(s, amp, shift, d):
    """Energy and residuals at T + shift D."""
    T = {n: getattr(s, n) + shift * d[n] for n in d}
    if s.form == "u":
        Fa, Fb, Ia, Ib, Iab = s.blocks()
        t1, t2 = (T["T1a"], T["T1b"]), (T["T2aa"], T["T2ab"], T["T2bb"])
        E = call(lib(ce, "ucc_energy"), t1, t2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
        R = call(lib(eq, amp), Fa, Fb, Ia, Ib, Iab, t1, t2)
        blks = [("vo", 0, 0), ("VO", 0, 1), ("vvoo", 1, 0), ("vVoO", 1, 1), ("VVOO", 1, 2)]
    else:
        F, I = s.blocks()
        E = call(lib(ce, "cc_energy" if s.form == "g" else "rcc_energy"), T["T1"], T["T2"], F.ov, I.oovv)
        if amp.startswith("ccd_"):
            R = call(lib(eq, amp), F, I, T["T2"])
            blks = [("vvoo",)]
        else:
            R = call(lib(eq, amp), F, I, T["T1"], T["T2"])
            blks = [("vo", 0), ("vvoo", 1)]
    return dict(E=note(s, "energy", "", E, unit=s.unit),
                R=[note(s, amp + "." + b, b, R, cc.it(*path), unit=s.unit) for b, *path in blks])


def densities(s, suffix, t):
    kw = {} if t == 1 else {"tfac": float(t)}
    out = []
    if s.form == "u":
        t1, t2 = s.t()
        l1, l2 = s.lam()
        a = t1 + t2 + l1 + l2
        for nm, blks in cc.RDM_U:
            v = call(lib(eq, "uccsd_" + nm), *a, **(kw if nm in cc.TFAC else {}))
            out += [note(s, nm + "." + b, b, v, cc.it(i), s.lden) for i, b in enumerate(blks)]
        lam = [given(s, "", "ov", s.L1a), given(s, "", "OV", s.L1b), given(s, "", "oovv", s.L2aa),
               given(s, "", "oOvV", s.L2ab), given(s, "", "OOVV", s.L2bb)]
    else:
        a = (s.T1, s.T2, s.L1, s.L2)
        pre, table = ("ccsd_", cc.RDM_G) if s.form == "g" else ("rccsd_", cc.RDM_R)
        for nm, b in table:
            v = call(lib(eq, pre + nm + suffix), *a, **(kw if nm in cc.TFAC else {}))
            out.append(note(s, nm + suffix, b, v, scale=s.lden))
        lam = [given(s, "", "ov", s.L1), given(s, "", "oovv", s.L2)]
    return dict(name="densities" + suffix, t=t, outs=out, **{"lambda": lam})


def lambdas(s, doubles):
    if s.form == "u":
        c = cc.lam_u(s)
        blks = ["ov", "OV", "oovv", "oOvV", "OOVV"]
    elif s.form == "r":
        c = cc.lam_r(s)
        blks = ["ov", "oovv"]
    elif doubles:
        c = cc.lam_d(s)
        blks = ["oovv"]
    else:
        c = cc.lam_g(s)
        blks = ["ov", "oovv"]
    outs = c[0]["outs"]
    if s.form == "r":
        for x in outs:
            x["ax"] = [spatial(s)[k] for k in ("ov" if len(x["ax"]) == 2 else "oovv")]
    n = len(blks)
    return [dict(name=outs[k]["name"].split(".")[0] if s.form == "g" else c[0]["where"], outs=outs[k:k + n])
            for k in range(0, len(outs), n)]


SIZES = {"g": [(2, 2), (3, 4), (5, 3), (4, 6), (1, 5), (4, 1), (2, 9), (6, 6), (1, 1)],
         "u": [(2, 2, 1, 2), (3, 4, 2, 3), (2, 3, 3, 2), (1, 5, 4, 2), (3, 3, 0, 2), (2, 3, 0, 0), (0, 1, 3, 3),
               (4, 4, 3, 4), (1, 1, 1, 1)],
         "r": [(2, 2), (3, 4), (4, 3), (1, 6), (5, 1), (2, 7), (5, 5), (1, 1)]}
KINDS = [dict(mag=1), dict(mag=2, cplx=False), dict(mag=2, cplx=False, den=2), dict(mag=1, order="F"),
         dict(mag=2, herm=True)]
METHODS = {"g": [("ccsd_simple", ""), ("ccsd_stanton", "_opt"), ("ccd_simple", ""), ("ccd_stanton", "")],
           "u": [("uccsd_stanton", "")], "r": [("rccsd_stanton", "")]}


def lagrangian_systems(form, o):
    big = o.tier != "quick"
    n = -1
    for rep in range(4 if big else 1):
        for k, dims in enumerate(SIZES[form]):
            n += 1
            rng = np.random.default_rng([o.seed, 27, rep, k, ord(form)])
            kind = dict(KINDS[(k + rep) % len(KINDS)])
            if k in (1, 2):
                kind = dict(mag=1, cplx=k == 1, stretch=(12, -12)[k % 2])
            ex = Exact(rng, **kind)
            yield n, MAKE[form](ex, *dims), ex
        # vanishing tensors, beta tensors that are the alpha ones; then other magnitudes
        for k, (dims, _, blank, *eq) in enumerate(INSIDE[form]):
            n += 1
            ex = Exact(np.random.default_rng([o.seed, 27, rep, k, 7, ord(form)]), **KINDS[(k + rep) % 3])
            s = MAKE[form](ex, *dims)
            if eq and eq[0]:
                s.equate(eq[0])
            s.blank(blank)
            yield n, s, ex
        for k, (what, pw) in enumerate(MAGNIFIED):
            n += 1
            ex = Exact(np.random.default_rng([o.seed, 27, rep, k, 8, ord(form)]), mag=1, cplx=what == "H")
            s = MAKE[form](ex, *STRETCHED[form][k % 2])
            s.magnify(what, pw)
            yield n, s, ex


def lagrangian(s, ex, amp, suf, weights):
    doubles = amp.startswith("ccd_")
    ex.mag = 5
    d = direction(s, ex, doubles)
    c = dict(id=0, where=amp, conf=dict(s.conf, amp=amp))
    c.update(s.json(), form=s.form)
    for name, arr in d.items():
        c[DIRECTIONS[s.form][name]] = to_field(arr, s.den, s.exps[name])
    c["at"] = [point(s, amp, k, d) for k in (0, -2, -1, 1, 2)]
    c["den"] = [densities(s, suf, t) for t in weights]
    c["lam"] = lambdas(s, doubles)
    c["outs"] = [x for p in c["at"] for x in [p["E"]] + p["R"]] + [x for y in c["den"] + c["lam"] for x in y["outs"]]
    return c


def C27(o):
    big = o.tier != "quick"
    t = TLC("SpecLagrangian", cfg="SpecLagrangianDeep.cfg" if big else "SpecLagrangian.cfg").run().require_ok()
    o.tlc(t)
    cases = []
    for form in "gur":
        for n, s, ex in lagrangian_systems(form, o):
            for m, (amp, suf) in enumerate(METHODS[form]):
                if amp.startswith("ccd_"):
                    if n % 3 == 0 and n < len(SIZES[form]) or big:
                        rng = np.random.default_rng([o.seed, 27, n, m])
                        exd = Exact(rng, **KINDS[(n + m) % len(KINDS)])
                        cases.append(lagrangian(cc.G(exd, s.no, s.nv, t1=False), exd, amp, suf, []))
                elif form == "r":
                    cases.append(lagrangian(s, ex, amp, suf, [1]))
                else:
                    cases.append(lagrangian(s, ex, amp, suf, [1, (3, 0, -2)[n % 3]]))
    for i, c in enumerate(cases):
        c["id"] = i
        c["outs"] = [dict(name=x["name"]) for x in c["outs"]]
    o.judged("TraceLagrangian", cases)
    o.assumptions.append("arguments are Gaussian integers or dyadic fractions; values are compared in F_46337")


# --------------------------------------------------------------------------
# C28: relabelled systems

def classes(s):
    if s.form == "u":
        return dict(zip("ovOV", s.dims))
    return dict(o=s.no, v=s.nv, O=0, V=0)


class Labels:
    """Carries out relabellings, one by one, on the tensors of a system."""

    def __init__(self, s):
        self.s = s
        self.up = {c: [0] * n for c, n in classes(s).items()}

    def axis(self, c, per):
        """Values per class put together for one axis."""
        return per[c] if c in "ovOV" else per["o"] + per["v"] if c == "n" else per["O"] + per["V"]

    def act(self, a):
        s, n = self.s, {c: len(x) for c, x in self.up.items()}
        if a["k"] == "spins":
            new = {}
            for name in s.axes:
                x = getattr(s, name)
                if name.endswith("ab"):
                    new[name] = x.transpose(1, 0, 3, 2).copy()
                else:
                    new[name.translate(str.maketrans("ab", "ba"))] = x
            for name, x in new.items():
                setattr(s, name, x)
            s.dims = s.dims[2:] + s.dims[:2]
            self.up = {c: self.up[c.swapcase()] for c in "ovOV"}
        elif a["k"] in ("swap", "cycle"):
            c, i, j = a["c"], a["i"], a["j"]
            order = {k: list(range(n[k])) for k in n}
            if a["k"] == "swap":
                order[c][i - 1], order[c][j - 1] = j - 1, i - 1
            else:
                order[c] = [(p + i) % n[c] for p in range(n[c])]
            self.up[c] = [self.up[c][p] for p in order[c]]
            for first, rest in (("o", "v"), ("O", "V")):
                order[rest + "+"] = [n[first] + p for p in order[rest]]
            for name, ax in s.axes.items():
                if hasattr(s, name):
                    x = getattr(s, name)
                    for k, cl in enumerate(ax):
                        x = np.take(x, order[cl] if cl in "ovOV" else
                                    order["o"] + order["v+"] if cl == "n" else order["O"] + order["V+"], axis=k)
                    setattr(s, name, x)
        elif a["k"] == "mix":
            c, i, j = a["c"], a["i"] - 1, a["j"] - 1
            t = 2.0**(self.up[c][i] - self.up[c][j])
            for name, ax in s.axes.items():
                if hasattr(s, name):
                    x = getattr(s, name).copy(order="K")
                    for k, cl in enumerate(ax):
                        if cl == c or cl == ("n" if c in "ov" else "N"):
                            y = np.moveaxis(x, k, 0)
                            lo = n["o" if c == "v" else "O"] if cl in "nN" and c in "vV" else 0
                            if 2 * k < len(ax):
                                y[lo + i] += t * y[lo + j]
                            else:
                                y[lo + j] -= t * y[lo + i]
                    setattr(s, name, x)
        else:
            c, i, j = a["c"], a["i"], a["j"]
            cplx = bool(s.conf["cplx"])
            f = {k: [1.0 + 0j * cplx] * n[k] for k in n}
            if a["k"] == "scale":
                f[c][i - 1] *= 2.0**j
                self.up[c][i - 1] += j
            else:
                f[c][i - 1] *= (1, 1j, -1, -1j)[j] if cplx else (1, 0, -1, 0)[j]
            for name, ax in s.axes.items():
                if hasattr(s, name):
                    x = getattr(s, name)
                    for k, cl in enumerate(ax):
                        v = np.array(self.axis(cl, f))
                        v = v if 2 * k < len(ax) else 1 / v
                        x = x * v.reshape([-1 if q == k else 1 for q in range(len(ax))])
                    setattr(s, name, x)
        s.exps = {name: [self.axis(cl, self.up) for cl in ax] for name, ax in s.axes.items()}
        up = self.up
        s.expo = dict(enumerate(2 * up["o"] + 2 * up["v"] if s.form == "r" else
                                up["o"] + up["O"] + up["v"] + up["V"], 1))


def pairs_g(s):
    """Ring and ladder doubles."""
    out = []
    for nm in ("ccd_ladder_simple", "ccd_ring_simple"):
        out.append(cc.rec(s, nm, "R2", "vvoo", call(lib(eq, nm), s.blocks()[1], s.T2)))
    return [dict(where="ccd_riccati", outs=out)]


ALL = {"g": [cc.energies_g, cc.amps_g, cc.amps_lin, cc.lam_g, cc.rdm_g, lambda s: cc.rdm_g(s, 3)],
       "gd": [cc.amps_d, cc.lam_d, pairs_g],
       "u": [cc.energies_u, cc.amps_u, cc.lam_u, cc.rdm_u, lambda s: cc.rdm_u(s, 3)],
       "r": [cc.energies_r, cc.amps_r, cc.lam_r, cc.rdm_r, lambda s: cc.rdm_r(s, 3)]}


def everything(s, recs):
    """All results for a system, each with the function it came from and the classes of its axes."""
    out = []
    for r in recs:
        for c in r(s):
            for x in c["outs"]:
                nm = x["name"]
                group = "" if s.form == "u" and "." not in nm else nm.split(".")[0]
                blk = x["blk"] if s.form != "r" else x["blk"].lower()
                x.update(fn="%s/%s/%s/%s" % (c["where"], x["kind"], group, c.get("tfac", 1)), blk=list(blk),
                         name=c["where"] + "/" + nm)
                x.pop("ax")
                out.append(x)
    return out


RELABELLED = {"g": [(4, 4), (5, 7), (3, 9)], "u": [(3, 3, 2, 3), (2, 4, 3, 3), (4, 3, 2, 5)],
              "r": [(3, 3), (4, 5), (2, 7)], "gd": [(4, 5), (5, 4)]}


def special(form, seed):
    """Systems with vanishing tensors or with beta tensors that are the alpha ones."""
    for k, (dims, _, blank, *eq) in enumerate(INSIDE[form]):
        if blank or any(eq):
            ex = Exact(np.random.default_rng(seed + [k, 7, ord(form)]), **KINDS[k % 3])
            s = MAKE[form](ex, *dims)
            if any(eq):
                s.equate(eq[0])
            s.blank(blank)
            yield s, ex


def C28(o):
    big = o.tier != "quick"
    t = TLC("SpecRelabel").run().require_ok()
    o.tlc(t)
    plan = []
    for rep in range(5 if big else 1):
        for form, sizes in RELABELLED.items():
            for n, dims in enumerate(sizes):
                rng = np.random.default_rng([o.seed, 28, rep, n, len(form), ord(form[0])])
                ex = Exact(rng, **KINDS[(n + rep) % 3])
                plan.append((form, MAKE[form[0]](ex, *dims, **({"t1": False} if form == "gd" else {}))))
        for form in "gur":
            plan += [(form, s) for s, _ in special(form, [o.seed, 28, rep])]
        for n, name in enumerate(("T1a", "T1b", "T2aa", "L1b", "L2bb", "Fa", "Vb")):
            s = MAKE["u"](Exact(np.random.default_rng([o.seed, 28, rep, n, 5]), **KINDS[n % 3]), 2, 2, 2, 2)
            s.blank([name])
            plan.append(("u", s))
    sizes = [dict(size=classes(s), kind="complex" if s.conf["cplx"] else "real") for _, s in plan]
    d = tempfile.mkdtemp(prefix="vsize-")
    try:
        path = os.path.join(d, "sizes.json")
        with open(path, "w") as f:
            json.dump(sizes, f)
        (walks,) = explored(o, "SpecRelabel", "SpecRelabelWalk.cfg", ["WALK"], workers=1,
                           args=["-seed", str(o.seed)], env=dict(SIZES=path))
    finally:
        os.remove(path)
        os.rmdir(d)
    logs = {w["no"]: w["log"] for w in walks}
    cases = []
    for k, (form, s) in enumerate(plan, 1):
        recs = ALL[form]
        c = dict(id=k, where=form, conf=s.conf, size=classes(s), base=everything(s, recs), steps=[])
        lab, log = Labels(s), logs[k]
        # results after the first action, then after several more
        for lo, hi in ((0, 1), (1, 5), (5, len(log))):
            for a in log[lo:hi]:
                lab.act(a)
            c["steps"].append(dict(acts=log[lo:hi], outs=everything(s, recs)))
        if form == "u":
            # with either spin first
            a = dict(k="spins", c="o", i=0, j=0)
            lab.act(a)
            c["steps"].append(dict(acts=[a], outs=everything(s, recs)))
        c["outs"] = [dict(name=x["name"]) for x in c["base"] for _ in c["steps"]]
        cases.append(c)
    o.judged("TraceRelabel", cases)


# --------------------------------------------------------------------------
# C29: fragments

def assembled(form, frags, rng):
    """The fragments in one system, their orbitals interleaved at random."""
    n = {c: sum(classes(f)[c] for f in frags) for c in "ovOV"}
    own = {}
    for c in "ovOV":
        own[c] = [[k, j + 1] for k, f in enumerate(frags, 1) for j in range(classes(f)[c])]
        order = rng.permutation(len(own[c]))
        own[c] = [own[c][p] for p in order]
    # the orbitals of one fragment keep their order
    for c in "ovOV":
        seen = {}
        for x in own[c]:
            seen[x[0]] = seen.get(x[0], 0) + 1
            x[1] = seen[x[0]]
    dims = (n["o"], n["v"]) + ((n["O"], n["V"]) if form == "u" else ())
    s = MAKE[form](Exact(rng, mag=1, cplx=bool(frags[0].conf["cplx"])), *dims)
    s.den = frags[0].den
    for k, f in enumerate(frags, 1):
        at = {c: [p for p, x in enumerate(own[c]) if x[0] == k] for c in own}
        at["n"] = at["o"] + [n["o"] + p for p in at["v"]]
        at["N"] = at["O"] + [n["O"] + p for p in at["V"]]
        for name, ax in s.axes.items():
            if hasattr(s, name):
                x = getattr(s, name)
                if k == 1:
                    x[...] = 0
                x[np.ix_(*[at[c] for c in ax])] = getattr(f, name)
    s.conf = dict(s.conf, fragments=[f.conf for f in frags])
    return s, own


FRAGMENTS = {"g": [[(2, 2), (2, 3)], [(3, 2), (1, 2), (2, 2)], [(2, 2), (2, 2)], [(1, 1), (3, 5)], [(1, 2)] * 5, [(2, 1), (1, 1)] * 4],
             "gd": [[(2, 2), (3, 3)], [(2, 3), (2, 2), (2, 2)]],
             "u": [[(2, 2, 1, 2), (1, 1, 2, 2)], [(2, 2, 0, 0), (0, 0, 2, 3), (1, 1, 1, 1)], [(1, 2, 1, 2), (1, 2, 1, 2)],
                   [(3, 3, 1, 2), (1, 2, 2, 1)], [(1, 1, 1, 1)] * 5],
             "r": [[(1, 2), (2, 2)], [(1, 1), (1, 2), (2, 1)], [(2, 2), (2, 2)], [(1, 4), (3, 1)], [(1, 1)] * 7]}


def fragments(form, frags, rng):
    recs, n = ALL[form], len(frags)
    c = dict(id=0, where=form, conf=[f.conf for f in frags],
             frags=[dict(outs=everything(f, recs)) for f in frags], wholes=[])
    for parts in [[1]] + ([[1, 2]] if n > 2 else []) + [list(range(1, n + 1))]:
        s, own = assembled(form[0], [frags[k - 1] for k in parts], rng)
        c["wholes"].append(dict(parts=parts, own=own, outs=everything(s, recs)))
    c["outs"] = [dict(name=x["name"]) for w in c["wholes"] for x in w["outs"]]
    return c


def C29(o):
    big = o.tier != "quick"
    t = TLC("SpecFragments", cfg="SpecFragmentsDeep.cfg" if big else "SpecFragments.cfg").run().require_ok()
    o.tlc(t)
    cases = []
    for rep in range(5 if big else 1):
        for form, sets in FRAGMENTS.items():
            for n, dims in enumerate(sets):
                rng = np.random.default_rng([o.seed, 29, rep, n, len(form), ord(form[0])])
                kw = {"t1": False} if form == "gd" else {}
                ex = Exact(rng, **KINDS[(n + rep) % 3])
                frags = [MAKE[form[0]](ex, *d, **kw) for d in dims]
                if n == 2:
                    frags[1] = frags[0]                         # two copies
                cases.append(fragments(form, frags, rng))
        for form in "gur":
            for n, (s, ex) in enumerate(special(form, [o.seed, 29, rep])):
                cases.append(fragments(form, [s, MAKE[form](ex, *FRAGMENTS[form][n % 4][-1])], ex.rng))
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceFragments", cases)


# --------------------------------------------------------------------------
# C30: the same state as a CI vector

def amplitudes(ex, h, axes):
    """Random amplitudes, scaled with the orbitals along their axes."""
    T = {}
    for nm, ax in axes.items():
        shape = [len(x) for x in ax]
        T[nm] = ex.scaled((ex.t if len(shape) == 2 or nm[2:] == "ab" else ex.anti)(*shape),
                          *[[h.k[p - 1] for p in x] for x in ax])
    return T


def bridge_u(ex, dims, unit):
    noa, nva, nob, nvb = dims
    m = noa + nva
    h = CIu(ex, m, 0.0)
    if unit:
        h.magnify(unit)
    o, v, O, V = [list(range(*x)) for x in ((1, noa + 1), (noa + 1, m + 1), (m + 1, m + nob + 1), (m + nob + 1, 2 * m + 1))]
    axes = dict(T1a=[v, o], T1b=[V, O], T2aa=[v, v, o, o], T2ab=[v, V, o, O], T2bb=[V, V, O, O])
    T = amplitudes(ex, h, axes)
    Va, Vb = [x - x.transpose(0, 1, 3, 2) for x in (h.Ia, h.Ib)]
    Fa = h.ha + np.einsum("piqi->pq", Va[:, :noa, :, :noa]) + np.einsum("piqi->pq", h.Iab[:, :nob, :, :nob])
    Fb = h.hb + np.einsum("piqi->pq", Vb[:, :nob, :, :nob]) + np.einsum("ipiq->pq", h.Iab[:noa, :, :noa, :])
    F = cc.one_e(Fa, noa), cc.one_e(Fb, nob)
    W = cc.two_e(Va, noa), cc.two_e(Vb, nob), cc.two_e_full(h.Iab, (noa, nob, noa, nob))
    t1, t2 = (T["T1a"], T["T1b"]), (T["T2aa"], T["T2ab"], T["T2bb"])
    E = call(lib(ce, "ucc_energy"), t1, t2, F[0].ov, F[1].ov, W[0].oovv, W[1].oovv, W[2].oovv)
    R = call(lib(eq, "uccsd_stanton"), *F, *W, t1, t2)

    def state():
        bas = cu.ucisdtq_basis(m, noa, nob)
        C = cu.makeCfromT(*dims, *t1, *t2, order=4)
        return [orbs(a) + orbs(b, m) for a, b in bas], h.on(bas, C)
    path = dict(R1a=(0, 0), R1b=(0, 1), R2aa=(1, 0), R2ab=(1, 1), R2bb=(1, 2))
    return h, T, axes, E, [("uccsd_stanton", R, path)], call(state), dict(
        zip(("noa", "nva", "nob", "nvb"), dims), n=2 * m, occ=o + O, vir=v + V)


def bridge_g(ex, dims, unit):
    no, nv = dims
    n = no + nv
    h = CIg(ex, n, 0.0)
    if unit:
        h.magnify(unit)
    nb = no // 2
    occ = [i for i in range(n // 2) if i < no - nb] + [n // 2 + i for i in range(nb)]
    vir = [p for p in range(n) if p not in occ]
    order = occ + vir
    o, v = [[p + 1 for p in x] for x in (occ, vir)]
    axes = dict(T1=[v, o], T2=[v, v, o, o])
    T = amplitudes(ex, h, axes)
    V = (h.I - h.I.transpose(0, 1, 3, 2))[np.ix_(order, order, order, order)]
    F = h.h[np.ix_(order, order)] + np.einsum("piqi->pq", V[:, :no, :, :no])
    F, V = cc.one_e(F, no), cc.two_e(V, no)
    E = call(lib(ce, "cc_energy"), T["T1"], T["T2"], F.ov, V.oovv)
    R = [(nm, call(lib(eq, nm), F, V, T["T1"], T["T2"]), dict(R1=(0,), R2=(1,)))
         for nm in ("ccsd_simple", "ccsd_stanton")]

    def state():
        bas = cu.gcisdtq_basis(n, no)
        C = cu.gmakeCfromT(no, nv, T["T1"], T["T2"], order=4)
        return [orbs(a) for a in bas], h.on(bas, C)
    return h, T, axes, E, R, call(state), dict(n=n, no=no, nv=nv, occ=o, vir=v)


BRIDGES = {"u": [(1, 1, 1, 1), (2, 2, 2, 2), (2, 1, 1, 2), (3, 2, 2, 3), (1, 3, 2, 2), (2, 2, 0, 4), (0, 3, 2, 1), (2, 3, 3, 2),
                 (3, 3, 2, 4), (4, 1, 2, 3), (1, 4, 4, 1), (2, 2, 2, 2), (1, 5, 3, 3), (3, 3, 1, 5), (0, 8, 4, 4), (4, 4, 0, 8)],
           "g": [(1, 1), (2, 2), (1, 3), (3, 3), (4, 2), (2, 4), (4, 4), (3, 5), (5, 3), (2, 2), (3, 3)]}


def bridged(make, ex, dims, unit):
    """One system, for every function that gives its residuals."""
    h, T, axes, E, R, (st, got), more = make(ex, dims, unit)
    z, expo = ex.den, dict(enumerate(h.k, 1))

    def plain(*path):
        return lambda v: np.asarray(cc.it(*path)(v) if path else v) * 2.0**-unit
    for nm, val, path in R:
        c = dict(id=0, where=nm, conf=dict(h.conf, dims=dims), st=st, lab=[], val=[])
        c.update(h.json())
        c.update(more)
        c.update({k: to_field(x, z, [[expo[p] for p in y] for y in axes[k]]) for k, x in T.items()})
        c["outs"] = [record("energy", "E", [], E, scale=4 * z**3, pick=plain())]
        for k, p in path.items():
            c["outs"].append(record(k, "R", axes["T" + k[1:]], val, pick=plain(*p), scale=4 * z**6, expo=expo))
        for x in c["outs"]:
            x.pop("ax")
            c[x["name"]] = x.pop("val")
        if st == "ok":
            v = np.asarray(got[1])
            c["lab"] = got[0]
            if v.shape != (len(got[0]),):
                c["st"] = "shape"
            else:
                ref = h.exps([more["occ"]])[0]
                c["val"] = to_field(v * 2.0**-unit, 48 * z**5, [[k - ref for k in h.exps(got[0])]])
                if c["val"] is None:
                    c["st"], c["val"] = "inexact", []
        yield c


MAKERS = {"u": bridge_u, "g": bridge_g}
# orbitals rescaled, the Hamiltonian very small or large
SCALED = {"u": [((2, 2, 2, 2), 16, 0), ((2, 3, 1, 4), -16, 0), ((2, 2, 1, 3), 0, -44), ((1, 3, 2, 2), 0, 40)],
          "g": [((2, 4), 16, 0), ((4, 2), -16, 0), ((3, 3), 0, -44), ((2, 2), 0, 40)]}


def C30(o):
    big = o.tier != "quick"
    t = TLC("SpecBridge", cfg="SpecBridgeDeep.cfg" if big else "SpecBridge.cfg").run().require_ok()
    o.tlc(t)
    cases = []
    kinds = [dict(mag=1), dict(mag=2, cplx=False), dict(mag=2), dict(mag=2, cplx=False, den=2), dict(mag=2, herm=True)]
    for rep in range(4 if big else 1):
        for form, make in MAKERS.items():
            for n, dims in enumerate(BRIDGES[form] + (([(3, 3, 3, 3), (4, 2, 3, 3)] if form == "u" else [(5, 5)]) if big else [])):
                ex = Exact(np.random.default_rng([o.seed, 30, rep, n, ord(form)]), **kinds[(n + rep) % len(kinds)])
                cases += bridged(make, ex, dims, 0)
            for n, (dims, stretch, unit) in enumerate(SCALED[form]):
                ex = Exact(np.random.default_rng([o.seed, 30, rep, n, 9, ord(form)]), mag=1, cplx=(n + rep) % 2 == 0, stretch=stretch)
                cases += bridged(make, ex, dims, unit)
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceBridge", cases)


# --------------------------------------------------------------------------
# C31: holes instead of electrons

def exchanged(s, side):
    """The system described by the holes of the spins whose letters are in `side'."""
    h, made = copy.copy(s), {}
    h.json, h.field = dict, lambda name: 0                  # recordings are compared with each other only
    first = {c: s.place[o][0] if s.place else s.count(c)[0] for c, o in (("n", "o"), ("N", "O"))
             if any(c in ax for ax in s.axes.values())}
    for name, ax in s.axes.items():
        if not hasattr(s, name):
            continue
        a, n = getattr(s, name), len(ax)
        fl = [c in side for c in ax]
        perm = list(range(n))
        for p, q in zip([p for p in range(n // 2) if fl[p]], [p for p in range(n // 2, n) if fl[p]]):
            perm[p], perm[q] = q, p
        sign = (-1) ** sum(fl[:n // 2])
        key = (id(a), tuple(fl))
        if key not in made:
            x = a.transpose(perm)
            for p in range(n):
                if fl[p] and ax[p] in "nN":
                    x = np.roll(x, -first[ax[p]], axis=p)            # old virtual orbitals come first
            made[key] = (x if sign > 0 else -x).copy()
        setattr(h, name, made[key])
    if s.form == "u":
        noa, nva, nob, nvb = s.dims
        h.dims = ((nva, noa) if "o" in side else (noa, nva)) + ((nvb, nob) if "O" in side else (nob, nvb))
    else:
        h.no, h.nv = s.nv, s.no
    if s.place:
        h.place = {c: s.place[TURN.get(c, c) if c in side else c] for c in s.place}
    letters = "ov" if s.form == "g" else "oOvV"
    old, new = [dict(zip(letters, x.ax(letters))) for x in (s, h)]
    h.expo = {}
    for c in new:
        was = TURN[c] if c in side else c
        for p, q in zip(new[c], old[was]):
            h.expo[p] = -s.expo[q] if c in side else s.expo[q]
    h.conf = dict(s.conf, holes=side)
    return h


TURN = dict(zip("ovOV", "voVO"))
SIDES = {"g": ["ovn"], "gd": ["ovn"], "r": ["ovnOVN"], "u": ["ovnOVN", "ovn", "OVN"]}
EXCHANGED = {"g": [(3, 4), (4, 2), (1, 5), (6, 3), (2, 2)], "gd": [(3, 4), (4, 2), (2, 6)],
             "u": [(3, 2, 2, 3), (2, 3, 1, 2), (4, 1, 1, 3), (1, 2, 0, 3), (2, 0, 2, 2), (3, 3, 3, 3)],
             "r": [(2, 3), (3, 1), (1, 4), (4, 3), (5, 2)]}


def methods(s, recs):
    """All results, by method and quantity."""
    out = []
    for r in recs:
        for c in r(s):
            for x in c["outs"]:
                nm = x["name"]
                if x["kind"][0] == "G":
                    group = "opt" if nm.endswith("_opt") else ""
                else:
                    group = "" if s.form == "u" and "." not in nm else nm.split(".")[0]
                x.update(fn="%s/%s/%s/%s" % (c["where"], x["kind"], group, c.get("tfac", 1)), blk=list(x["blk"]),
                         name=c["where"] + "/" + nm)
                x.pop("ax")
                out.append(x)
    return out


def wide(form, seed):
    """Systems with vanishing or equal tensors, systems inside larger ones."""
    for k, (dims, more, blank, *eq) in enumerate(INSIDE[form]):
        ex = Exact(np.random.default_rng(seed + [k, 8, ord(form)]), **KINDS[k % 3])
        s = MAKE[form](ex, *dims)
        if any(eq):
            s.equate(eq[0])
        s.blank(blank)
        if any(more):
            s.widen(ex.rng, **dict(zip("ovOV", more)))
        yield s


def holes(form, s):
    recs = ALL[form]
    c = dict(id=0, where=form, conf=s.conf, closed=form == "r", base=methods(s, recs), views=[])
    for side in SIDES[form]:
        c["views"].append(dict(side=[x for x in side if x in "ovOV"], outs=methods(exchanged(s, side), recs)))
    c["outs"] = [dict(name=x["name"]) for v in c["views"] for x in v["outs"]]
    return c


def C31(o):
    big = o.tier != "quick"
    t = TLC("SpecHoles", cfg="SpecHolesDeep.cfg" if big else "SpecHoles.cfg").run().require_ok()
    o.tlc(t)
    cases = []
    for rep in range(5 if big else 1):
        for form, sizes in EXCHANGED.items():
            for n, dims in enumerate(sizes):
                for kw in (KINDS[(n + rep) % 3], dict(mag=1, stretch=(12, -12)[n % 2])):
                    rng = np.random.default_rng([o.seed, 31, rep, n, len(form), ord(form[0]), len(kw)])
                    s = MAKE[form[0]](Exact(rng, **kw), *dims, **({"t1": False} if form == "gd" else {}))
                    cases.append(holes(form, s))
        for form in "gur":
            cases += [holes(form, s) for s in wide(form, [o.seed, 31, rep])]
            for n, (what, pw) in enumerate(MAGNIFIED):
                rng = np.random.default_rng([o.seed, 31, rep, n, 96, ord(form)])
                s = MAKE[form](Exact(rng, mag=1, cplx=what == "H"), *STRETCHED[form][n % 2])
                s.magnify(what, pw)
                cases.append(holes(form, s))
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceHoles", cases)


# --------------------------------------------------------------------------
# C32: sums of arguments

def cut(s, rng, n):
    """The Hamiltonian as a sum of n: each of its occupied/virtual blocks goes to one of them."""
    parts = [copy.copy(s) for _ in range(n)]
    for name, ax in s.axes.items():
        if name[0] not in "FV" or not hasattr(s, name):
            continue
        a = getattr(s, name)
        idx = np.indices(a.shape)
        virt = [s.types(c)[i].astype(int) for c, i in zip(ax, idx)]
        half = len(ax) // 2
        # by the numbers of virtual indices, which respects all symmetries of the tensor
        block = 3 * sum(virt[:half]) + sum(virt[half:])
        at = rng.integers(n, size=9)[block]
        for k, p in enumerate(parts):
            setattr(p, name, np.where(at == k, a, 0 * a))
    return parts


def summed(s, parts, cs, letters):
    """The system whose tensors of some kinds are combinations of those of the parts."""
    w = copy.copy(s)
    for name in s.axes:
        if name[0] in letters and hasattr(s, name):
            setattr(w, name, sum(c * getattr(p, name) for c, p in zip(cs, parts)))
    return w


def several(s, other, letter):
    """Amplitudes of a kind: these, none, singles only, doubles only."""
    parts = []
    for keep, src in (("12", s), ("", s), ("1", other), ("2", other)):
        p = copy.copy(s)
        for name in s.axes:
            if name[0] == letter and hasattr(s, name):
                x = getattr(src, name)
                setattr(p, name, x.copy() if name[1] in keep else 0 * x)
        parts.append(p)
    return parts


def linear_g(s):
    F, I = s.blocks()
    return cc.amps_lin(s) + [dict(where="mp2_energy", outs=[
        cc.rec(s, "mp2_energy", "E", "", call(lib(ce, "mp2_energy"), s.T1, s.T2, F.ov, I.oovv))])]


def linear_d(s):
    F, I = s.blocks()
    return [dict(where="lccd_simple", outs=[
        cc.rec(s, "lccd_simple", "R2", "vvoo", call(lib(eq, "lccd_simple"), F, I, s.T2))])]


def linear_u(s):
    return [c for c in cc.energies_u(s) if c["where"] == "ump2_energy"]


# what is linear in the Hamiltonian, of first degree in Lambda, of first degree in the amplitudes
LINEAR = {"H": {"g": [cc.energies_g, cc.amps_g, cc.amps_lin, cc.lam_g], "gd": ALL["gd"],
                "u": [cc.energies_u, cc.amps_u, cc.lam_u], "r": [cc.energies_r, cc.amps_r, cc.lam_r]},
          "L": {"g": [cc.lam_g, cc.rdm_g, lambda s: cc.rdm_g(s, 3)], "gd": [cc.lam_d],
                "u": [cc.lam_u, cc.rdm_u, lambda s: cc.rdm_u(s, 3)],
                "r": [cc.lam_r, cc.rdm_r, lambda s: cc.rdm_r(s, 3)]},
          "T": {"g": [linear_g], "gd": [linear_d], "u": [linear_u]}}
COEFS = [[1, 1, 1], [1, -1, 2], [3, 1, 1]]
ADDED = {"g": [(3, 4), (4, 2), (1, 5), (5, 4)], "gd": [(3, 4), (4, 2), (4, 5)],
         "u": [(3, 2, 2, 3), (2, 3, 1, 2), (4, 1, 1, 3), (1, 2, 0, 3), (3, 3, 3, 3)],
         "r": [(2, 3), (3, 1), (1, 4), (4, 4)]}


def C32(o):
    big = o.tier != "quick"
    t = TLC("SpecLinear", cfg="SpecLinearDeep.cfg" if big else "SpecLinear.cfg").run().require_ok()
    o.tlc(t)
    cases = []

    def add(form, what, s, parts, cs):
        recs = LINEAR[what][form]
        w = summed(s, parts, cs, "FV" if what == "H" else what)
        c = dict(id=len(cases), where=form + "-" + what, what=what, cs=cs, conf=dict(s.conf, cs=cs),
                 parts=[methods(p, recs) for p in parts], whole=methods(w, recs))
        c["outs"] = [dict(name=x["name"]) for x in c["whole"]]
        cases.append(c)
    for rep in range(5 if big else 1):
        for form, sizes in ADDED.items():
            kw = {"t1": False} if form == "gd" else {}
            for n, dims in enumerate(sizes):
                rng = np.random.default_rng([o.seed, 32, rep, n, len(form), ord(form[0])])
                ex = Exact(rng, **KINDS[(n + rep) % 4])
                s, other = [MAKE[form[0]](ex, *dims, **kw) for _ in "12"]
                add(form, "H", s, cut(s, rng, 3), COEFS[n % 3])
                for what in "LT":
                    if form in LINEAR[what]:
                        add(form, what, s, several(s, other, what), [2, -3, 1, 1])
                s = MAKE[form[0]](Exact(rng, mag=1, stretch=(12, -12)[n % 2]), *dims, **kw)
                add(form, "H", s, cut(s, rng, 3), COEFS[0])
        for form in "gur":
            for n, (s, ex) in enumerate(special(form, [o.seed, 32, rep])):
                other = MAKE[form](ex, *(s.dims if form == "u" else (s.no, s.nv)))
                add(form, "H", s, cut(s, ex.rng, 2), [1, 1])
                add(form, "L", s, several(s, other, "L"), [2, -3, 1, 1])
    o.judged("TraceLinear", cases)
