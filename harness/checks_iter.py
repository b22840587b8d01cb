"""C26: coupled-cluster iterations with implementations mixed step by step."""
import numpy as np

import cc as rec
from checks_ci import explored
from cqcpy import cc_energy as ce
from cqcpy import cc_equations as cc
from cqcpy import ov_blocks, spin_utils
from vlib import P, Exact, call, record, to_field

SNAP = {True: np.array([0, 1, 1j, -1j, -1]), False: np.array([0.0, 1.0, -1.0])}


class Off(Exception):
    """A value that is not a number of the exact grid."""


def snap(old, res, scale, cplx):
    """The update rule; same as Snap in TraceIterate.tla."""
    f = to_field(np.asarray(old) + np.asarray(res), scale)
    if f is None:
        raise Off()
    x = np.array(f, dtype=np.int64).reshape(np.shape(old))
    x = np.where(2 * x > P, x - P, x)
    return SNAP[cplx][np.mod(x, len(SNAP[cplx]))]


def anti(x):
    return x - x.transpose(0, 1, 3, 2)


class Iteration:
    """The amplitudes a user holds, and the system in every representation.

    Conversions go through the library's own functions.
    """

    def __init__(self, s, variant):
        self.s, self.form, self.scale = s, s.form, 4 * s.den**6
        self.cplx = bool(s.conf["cplx"])
        self.blocks = {}
        self.intor = None
        if s.form == "g":
            self.blocks["g"] = s.blocks()
            self.T, self.L = ("g", (s.T1, s.T2)), ("g", (s.L1, s.L2))
            return
        if s.form == "u":
            self.dims = s.dims
            self.blocks["u"] = s.blocks()
            self.T = ("u", s.t())
            self.L = ("u", s.lam())
        else:
            self.dims = (s.no, s.nv, s.no, s.nv)
            F, I = s.blocks()
            self.blocks["r"] = (F, I)
            Ia = rec.two_e(anti(s.V), s.no)
            self.blocks["u"] = (F, F, Ia, Ia, I)
            self.T = ("r", (s.T1, s.T2))
            self.L = ("r", (s.L1, s.L2))
        self.variant = variant

    def sys(self, rep):
        if rep not in self.blocks:
            d = self.dims
            Fa, Fb, Ia, Ib, Iab = self.blocks["u"]
            F = spin_utils.F_to_spin(Fa, Fb, *d)
            if self.variant and self.form == "r":
                I = self.blocks["r"][1]
                self.blocks["g"] = (F, spin_utils.int_to_spin(I, I, I, *d))
            else:
                self.blocks["g"] = (F, spin_utils.int_to_spin2(Ia, Ib, Iab, *d))
            if self.variant:
                # the unrestricted tensors taken back out of the spin-orbital ones
                n = (d[0], d[2], d[1], d[3])
                self.blocks["u"] = (spin_utils.F_to_spatial(F, *d)
                                    + spin_utils.int_to_spatial(self.blocks["g"][1], *n))
        return self.blocks[rep]

    def convert(self, held, rep, lam):
        have, (x1, x2) = held
        if have == rep:
            return held
        d = self.dims
        if lam:
            d = (d[1], d[0], d[3], d[2])
        if have == "r":
            x1, x2 = (x1, x1), (anti(x2), x2, anti(x2))
        elif have == "g":
            x1, x2 = spin_utils.T1_to_spatial(x1, *d), spin_utils.T2_to_spatial(x2, *d)
        if rep == "g":
            x1, x2 = spin_utils.T1_to_spin(*x1, *d), spin_utils.T2_to_spin(*x2, *d)
        elif rep == "r":
            x1, x2 = x1[0], x2[1]
        return rep, (x1, x2)

    def update(self, held, res, lam):
        """new = snap(old + residual) on the independent amplitudes."""
        rep = held[0]
        if rep != self.form:
            old = self.convert(held, self.form, lam)
            new = self.update(old, self.convert((rep, res), self.form, lam)[1], lam)
            return self.convert(new, rep, lam)
        if rep == "g" or rep == "r":
            return rep, tuple(snap(o, r, self.scale, self.cplx) for o, r in zip(held[1], res))
        return rep, tuple(tuple(snap(o, r, self.scale, self.cplx) for o, r in zip(ho, re))
                          for ho, re in zip(held[1], res))

    # -- events ------------------------------------------------------------
    def amp(self, rep, m):
        b = self.sys(rep)
        self.T = self.convert(self.T, rep, False)
        r = getattr(cc, m)(*b, *self.T[1])
        self.T = self.update(self.T, r, False)
        self.intor = None
        return r

    def lam(self, rep, m):
        b = self.sys(rep)
        self.T = self.convert(self.T, rep, False)
        self.L = self.convert(self.L, rep, True)
        a = (self.intor,) if m == "ccsd_lambda_opt_int" else ()
        r = getattr(cc, m)(*b, *self.L[1], *self.T[1], *a)
        self.L = self.update(self.L, r, True)
        return r

    def energy(self, rep, m):
        b = self.sys(rep)
        self.T = self.convert(self.T, rep, False)
        if rep == "u":
            Fa, Fb, Ia, Ib, Iab = b
            return ce.ucc_energy(*self.T[1], Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
        F, I = b
        return getattr(ce, m)(*self.T[1], F.ov, I.oovv)

    def prep(self, rep, m):
        b = self.sys(rep)
        self.T = self.convert(self.T, rep, False)
        self.intor = cc.lambda_int(*b, *self.T[1])


def arrays(it, rep, kind, value):
    """Recorded residuals or amplitudes: (name, kind, axes, array)."""
    one, two = ("vo", "vvoo") if kind in "RT" else ("ov", "oovv")
    if rep == "g":
        if it.form == "g":
            names = [(one, value[0]), (two, value[1])]
        else:
            names = [(one.replace("v", "w").replace("o", "p"), value[0]),
                     (two.replace("v", "w").replace("o", "p"), value[1])]
    else:
        U = two[0] + two[0].upper() + two[2] + two[2].upper()
        if rep == "r":
            names = [(one, value[0]), (U, value[1])]
        else:
            names = [(one, value[0][0]), (one.upper(), value[0][1]), (two, value[1][0]),
                     (U, value[1][1]), (two.upper(), value[1][2])]
    out = []
    for blk, x in names:
        ax = []
        for c in blk:
            if c in "wp":
                lo, up = it.s.ax({"w": "vV", "p": "oO"}[c])
                ax.append(lo + up)
            else:
                ax.append(it.s.ax(c)[0])
        out.append((kind + blk, kind + str(len(blk) // 2), ax, x))
    return out


def replay(s, sched, variant):
    it = Iteration(s, variant)
    events = []
    for ev in sched:
        k, r, m = ev["k"], ev["r"], ev["m"]
        st, v = call(getattr(it, k), r, m)
        e = dict(k=k, m=m, outs=[], keep=[])
        events.append(e)
        if st != "ok":
            e["outs"] = [dict(name=r, kind="done", ax=[], st=st, val=0)]
            break
        try:
            if k == "energy":
                e["outs"] = [record(r, "E", [], (st, v), it.scale)]
            elif k in ("amp", "lam"):
                e["outs"] = [record(n, kd, ax, ("ok", x), it.scale)
                             for n, kd, ax, x in arrays(it, r, "R" if k == "amp" else "M", v)]
            for kind, held in (("T", it.T), ("L", it.L)):
                if k != "prep":
                    e["keep"] += [record("held" + n, kd, ax, ("ok", x), it.scale)
                                  for n, kd, ax, x in arrays(it, held[0], kind, held[1])]
        except Exception:
            e["outs"].append(dict(name=r, kind="done", ax=[], st="shape", val=0))
            break
        if any(x["st"] != "ok" for x in e["outs"] + e["keep"]):
            break
    d = s.json()
    d["form"] = s.form
    return dict(sys=d, real=not it.cplx, events=events, where="+".join(sorted({e["m"] for e in events})),
                conf=dict(s.conf, schedule=[e["m"] for e in sched]))


MAKE = {"g": rec.G, "u": rec.U, "r": rec.R}
SMALL = {"g": [(2, 2), (3, 2)], "u": [(2, 1, 1, 2), (1, 2, 1, 1)], "r": [(2, 1), (1, 2)]}
WALK = {"g": [(3, 3), (2, 3), (4, 2), (3, 2)],
        "u": [(2, 2, 1, 2), (1, 2, 2, 1), (2, 2, 2, 1), (1, 2, 0, 1), (2, 1, 2, 2)],
        "r": [(2, 2), (1, 2), (2, 1), (1, 3)]}
NUM = [dict(mag=1), dict(mag=2, cplx=False), dict(mag=1, zero=0.3), dict(mag=2, cplx=False, herm=True)]


def C26(o):
    big = o.tier != "quick"
    (short,) = explored(o, "SpecIterate", "SpecIterateDeep.cfg" if big else "SpecIterate.cfg",
                        ["SCHED"])
    (walks,) = explored(o, "SpecIterate", "SpecIterateWalk.cfg", ["SCHED"], workers=1,
                        args=["-simulate", "num=%d" % (400 if big else 36), "-depth", "14",
                              "-seed", str(o.seed)])
    cases = []
    for sizes, scheds in ((SMALL, short), (WALK, walks)):
        for n, sc in enumerate(sorted(scheds, key=str)):
            rng = np.random.default_rng([o.seed, n, len(sc["log"])])
            dims = sizes[sc["form"]][(n // 5) % len(sizes[sc["form"]])]
            ex = Exact(rng, **NUM[n % len(NUM)])
            c = replay(MAKE[sc["form"]](ex, *dims), sc["log"], n % 3 == 0)
            c["id"] = len(cases)
            cases.append(c)
    o.judged("TraceIterate", cases, timeout=3000 if big else 820)
    o.compared = sum(len(e["outs"]) + len(e["keep"]) for c in cases for e in c["events"])
    o.extra.update(schedules_exhaustive=len(short), schedules_walked=len(walks),
                   events=sum(len(c["events"]) for c in cases))
    o.assumptions.append("amplitudes start as small Gaussian integers and are folded onto "
                         "{0, 1, -1, i, -i} (real ones onto {0, 1, -1}) after each update")
