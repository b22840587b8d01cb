"""C01-C05, C24: strings, bases, CI matrix elements, operators, exp(T)|0>."""
import itertools

import numpy as np

from cqcpy import ci_utils as cu
from vlib import TLC, Exact, MachineryError, call, lib, to_field

D = lib(cu, "Dstring")
PS = lib(cu, "Pstring")


def ints(occ):
    """Occupation numbers of a string as a plain list."""
    return [int(x) for x in list(occ)]


def same(x, occ):
    try:
        return int(x.n) == len(occ) and ints(x.occ) == list(occ)
    except Exception:
        return False


def explored(o, module, cfg, tags, **kw):
    t = TLC(module, cfg=cfg, **kw).run().require_ok()
    o.tlc(t)
    out = []
    for tag in tags:
        got = t.tagged(tag)
        if not got:
            raise MachineryError("%s/%s printed no %s" % (module, cfg, tag))
        out.append(got)
    return out


class Tally:
    """Violations of one kind are reported once, with a first example."""

    def __init__(self, o):
        self.o, self.seen = o, {}

    def bad(self, where, clause, detail):
        k = (where, clause)
        if k not in self.seen:
            self.seen[k] = True
            self.o.add(where, [clause], detail)


# --------------------------------------------------------------------------
# C01

OCC_FORMS = [list, np.array, tuple, lambda v: np.array(v, dtype=np.int32),
             lambda v: np.array(v, dtype=float)]


def _excite_ok(tl, where, s, i, a, sign, new, detail):
    """One excitation on a real string; returns the new string (or None)."""
    before = ints(s.occ)
    st, r = call(lambda: s.excite(i, a))
    if st != "ok":
        tl.bad(where, st, detail)
        return None
    if ints(s.occ) != before:
        tl.bad(where, "original-changed", detail)
    try:
        gs, gn = r
    except Exception:
        tl.bad(where, "not-a-pair", detail)
        return None
    if sign == 0:
        if gn is not None:
            tl.bad(where, "not-annihilated", detail)
        return None
    if gn is None:
        tl.bad(where, "annihilated", detail)
        return None
    if not same(gn, new):
        tl.bad(where, "wrong-string", detail)
        return None
    try:
        if float(gs) != sign:
            tl.bad(where, "wrong-sign", detail)
    except Exception:
        tl.bad(where, "wrong-sign", detail)
    return gn


def C01(o):
    tl = Tally(o)
    big = o.tier != "quick"
    (steps,) = explored(o, "SpecStrings", "SpecStringsDeep.cfg" if big else "SpecStrings.cfg",
                        ["STEP"])
    for k, s in enumerate(steps):
        st, x = call(D, s["n"], OCC_FORMS[k % len(OCC_FORMS)](s["occ"]))
        det = dict(n=s["n"], occ=s["occ"], i=s["i"], a=s["a"])
        if st != "ok":
            tl.bad("Dstring", st, det)
            continue
        _excite_ok(tl, "Dstring.excite", x, s["i"], s["a"], s["s"], s["new"], det)
        o.traces += 1
    o.sample(dict(step=steps[len(steps) // 2]))
    (pairs,) = explored(o, "SpecStrings", "SpecStringsAlgebra.cfg", ["PAIR"])
    for k, p in enumerate(pairs):
        x = D(p["n"], OCC_FORMS[k % 2](p["x"]))
        y = D(p["m"], OCC_FORMS[(k + 1) % 2](p["y"]))
        for nm, fn, want in (("==", lambda: x == y, p["eq"]), ("!=", lambda: x != y, not p["eq"])):
            st, r = call(fn)
            if st != "ok":
                tl.bad("Dstring" + nm, st, p)
            elif bool(r) != want:
                tl.bad("Dstring" + nm, "wrong-answer", p)
        if p["lev"] >= 0:
            for nm in ("level", "diff"):
                st, r = call(lib(cu, nm), x, y)
                if st != "ok":
                    tl.bad(nm, st, p)
                elif int(r) != p["lev"]:
                    tl.bad(nm, "wrong-count", p)
        if not (same(x, p["x"]) and same(y, p["y"])):
            tl.bad("Dstring", "comparison-changed-string", p)
        o.traces += 1
    o.sample(dict(pair=pairs[len(pairs) // 3]))
    # histories, on objects returned by earlier excitations
    (walks,) = explored(o, "SpecStrings", "SpecStringsWalk.cfg", ["WALK"], workers=1,
                        args=["-simulate", "num=%d" % (1500 if big else 200), "-depth", "60",
                              "-seed", str(o.seed)])
    for w in walks:
        x = D(w["n"], list(w["h"][0][0]))
        held = [(x, w["h"][0][0])]
        for new, i, a, s, lev in w["h"][1:]:
            y = _excite_ok(tl, "walk", x, i, a, s, new, dict(n=w["n"], i=i, a=a,
                                                            occ=held[-1][1]))
            if s != 0:
                if y is None:
                    break
                x = y
                held.append((x, new))
                for nm in ("level", "diff"):
                    st, r = call(lib(cu, nm), held[0][0], x)
                    if st != "ok" or int(r) != lev:
                        tl.bad("walk", nm + "-wrong-count", dict(x=held[0][1], y=new))
        for y, v in held:
            if not same(y, v):
                tl.bad("walk", "earlier-string-changed", dict(n=w["n"], occ=v))
        for (y, v), (z, u) in itertools.combinations(held[::5], 2):
            st, r = call(lambda: y == z)
            if st != "ok" or bool(r) != (v == u):
                tl.bad("walk", "equality", dict(x=v, y=u))
        o.traces += 1
    o.extra.update(steps_replayed=len(steps), pairs_replayed=len(pairs), walks_replayed=len(walks),
                   exhaustive=True)
    o.sample(dict(walk=walks[0]["h"][:4], n=walks[0]["n"]))
    o.assumptions.append("exhaustive for strings of up to %d orbitals; longer strings by simulated "
                         "walks" % (8 if big else 7))


# --------------------------------------------------------------------------
# C24

def C24(o):
    tl = Tally(o)
    big = o.tier != "quick"

    def step(where, x, op, p, ok, new, det):
        before = ints(x.occ)
        st, r = call(lambda: x.raize(p) if op == "raise" else x.lower(p))
        if st != "ok":
            tl.bad(where, st, det)
            return None
        if ints(x.occ) != before:
            tl.bad(where, "original-changed", det)
        if not ok:
            if r is not None:
                tl.bad(where, "lowered-empty-mode", det)
            return None
        if r is None:
            tl.bad(where, "nothing-returned", det)
        elif not same(r, new):
            tl.bad(where, "wrong-occupation", det)
        else:
            return r
        return None

    (steps,) = explored(o, "SpecBosons", "SpecBosons.cfg", ["STEP"])
    for k, s in enumerate(steps):
        x = PS(s["n"], OCC_FORMS[k % 4](s["occ"]))
        step("Pstring." + s["op"], x, s["op"], s["p"], s["ok"], s["new"], s)
        o.traces += 1
    (pairs,) = explored(o, "SpecBosons", "SpecBosonsPairs.cfg", ["PAIR"])
    for p in pairs:
        x, y = PS(p["n"], p["x"]), PS(p["m"], np.array(p["y"]))
        st, r = call(lambda: x == y)
        if st != "ok":
            tl.bad("Pstring==", st, p)
        elif bool(r) != p["eq"]:
            tl.bad("Pstring==", "wrong-answer", p)
        o.traces += 1
    for n, m in ((1, 2), (2, 3), (3, 2), (2, 1)):
        st, r = call(lambda: PS(n, [0] * n) == PS(m, [0] * m))
        if st != "ok" or bool(r):
            tl.bad("Pstring==", "different-lengths-equal", dict(n=n, m=m))
    (walks,) = explored(o, "SpecBosons", "SpecBosonsWalk.cfg", ["WALK"], workers=1,
                        args=["-simulate", "num=%d" % (1500 if big else 200), "-depth", "80",
                              "-seed", str(o.seed)])
    for w in walks:
        x = PS(w["n"], list(w["h"][0]))
        held = [(x, w["h"][0])]
        for e in w["h"][1:]:
            y = step("walk", x, e["op"], e["p"], e["ok"], e["new"], dict(e, occ=held[-1][1]))
            if e["ok"]:
                if y is None:
                    break
                x = y
                held.append((x, e["new"]))
        for y, v in held:
            if not same(y, v):
                tl.bad("walk", "earlier-string-changed", dict(occ=v))
        for (y, v), (z, u) in itertools.combinations(held[::7], 2):
            st, r = call(lambda: y == z)
            if st != "ok" or bool(r) != (v == u):
                tl.bad("walk", "equality", dict(x=v, y=u))
        o.traces += 1
    o.sample(dict(step=steps[7]))
    o.sample(dict(walk=walks[0]["h"][:4]))
    o.extra.update(steps_replayed=len(steps), pairs_replayed=len(pairs), walks_replayed=len(walks),
                   exhaustive=True)
    o.assumptions.append("exhaustive for up to 4 modes with up to 4 quanta each")


# --------------------------------------------------------------------------
# C02

def orbs(s, off=0):
    """Occupied orbitals (counted from 1) of a returned string."""
    v = ints(s.occ)
    if any(x not in (0, 1) for x in v) or len(v) != int(s.n):
        raise ValueError("not a determinant")
    return [k + 1 + off for k, x in enumerate(v) if x]


def _listcase(where, fn, args, kw, to, length, **case):
    st, r = call(lib(cu, fn), *args, **kw)
    got = []
    if st == "ok":
        try:
            got = [to(x) for x in r]
            for x in r:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if len(list(y.occ)) != length or int(y.n) != length:
                        st = "string-length"
        except Exception:
            st, got = "not-strings", []
    c = dict(id=0, where=where, conf=dict(args=list(args), **{k: (list(map(int, v)) if k == "occ" else v)
                                                              for k, v in kw.items()}),
             st=st, got=got, ref=[], na=0, nb=0, lo=0, first=False)
    c.update(case)
    return c


def C02(o):
    big = o.tier != "quick"
    rng = np.random.default_rng([o.seed, 2])
    cases = []
    names = {1: "s_strings", 2: "d_strings", 3: "t_strings", 4: "q_strings"}
    # every occupation pattern of up to 5 (7) orbitals, samples beyond
    for n in range(1, (8 if big else 6)):
        for bits in itertools.product((0, 1), repeat=n):
            for k, f in names.items():
                if n > 4 and k > 2 and sum(bits) < k and rng.random() < 0.7:
                    continue
                cases.append(_listcase(f, f, (n, sum(bits)), dict(occ=list(bits)), orbs, n,
                                       kind="strings", n=n, k=k,
                                       ref=[i + 1 for i, b in enumerate(bits) if b]))
    for n in (8, 9, 10):
        for _ in range(3):
            no = int(rng.integers(4, n - 3)) if n > 8 else 4
            pat = rng.permutation([1] * no + [0] * (n - no))
            for k, f in names.items():
                kw = dict(occ=[int(x) for x in pat])
                cases.append(_listcase(f, f, (n, no), kw, orbs, n, kind="strings", n=n, k=k,
                                       ref=[i + 1 for i, b in enumerate(pat) if b]))
    for n in range(1, 9):                    # default occupation
        for no in range(0, n + 1):
            for k, f in names.items():
                cases.append(_listcase(f, f, (n, no), {}, orbs, n, kind="strings", n=n, k=k,
                                       ref=list(range(1, no + 1))))
    ub = {1: "ucis_basis", 2: "ucisd_basis", 3: "ucisdt_basis", 4: "ucisdtq_basis"}
    gb = {1: "gcis_basis", 2: "gcisd_basis", 3: "gcisdt_basis", 4: "gcisdtq_basis"}

    def spin(n):
        return lambda x: orbs(x[0]) + orbs(x[1], n)

    sizes = [(n, a, b) for n in range(1, 5) for a in range(0, n + 1) for b in range(0, n + 1)]
    sizes += [(5, a, b) for a in range(0, 6) for b in range(0, 6)]
    sizes += [(6, 3, 1), (6, 1, 3), (6, 2, 3), (6, 4, 3), (6, 4, 2), (6, 3, 4), (6, 3, 3), (6, 0, 3), (6, 5, 3),
              (8, 4, 1), (8, 1, 4), (9, 5, 0), (9, 0, 4), (7, 3, 3)]
    for n, a, b in sizes:
        for k, f in ub.items():
            if k == 1:
                for kw in ({}, {"gs": True}, {"gs": False}):
                    cases.append(_listcase(f, f, (n, a, b), kw, spin(n), n, kind="spin", n=n, k=1,
                                           na=a, nb=b, first=kw.get("gs", True)))
            elif n <= 6 or k == 4:
                if n == 7 and not big:
                    continue
                cases.append(_listcase(f, f, (n, a, b), {}, spin(n), n, kind="spin", n=n, k=k,
                                       na=a, nb=b, first=True))
    for nmo in (2, 4, 6, 8, 10, 12) if big else (2, 4, 6, 8, 10):
        for n in range(0, nmo + 1):
            if nmo >= 10 and n not in (4, 5, 6) and not big:
                continue
            for k, f in gb.items():
                if k == 1:
                    for kw in ({}, {"gs": True}, {"gs": False}):
                        cases.append(_listcase(f, f, (nmo, n), kw, orbs, nmo, kind="gen", n=nmo,
                                               k=1, na=n, first=kw.get("gs", True)))
                else:
                    cases.append(_listcase(f, f, (nmo, n), {}, orbs, nmo, kind="gen", n=nmo, k=k,
                                           na=n, first=True))
    for n, no in ((30, 3), (26, 24), (40, 1), (17, 9)):          # many orbitals, low ranks
        for k, f in names.items():
            if k == 1 or (k == 2 and min(no, n - no) < 3):
                pat = [int(x) for x in rng.permutation([1] * no + [0] * (n - no))]
                for kw in ({}, dict(occ=pat)):
                    occ = kw.get("occ", [1] * no + [0] * (n - no))
                    cases.append(_listcase(f, f, (n, no), kw, orbs, n, kind="strings", n=n, k=k,
                                           ref=[i + 1 for i, b in enumerate(occ) if b]))
    for n, a, b in ((20, 2, 3), (18, 17, 1), (33, 1, 2)):
        cases.append(_listcase("ucis_basis", "ucis_basis", (n, a, b), {}, spin(n), n, kind="spin", n=n, k=1,
                               na=a, nb=b, first=True))
    for n, a, b in ((10, 1, 2), (9, 2, 1), (8, 2, 2)):
        cases.append(_listcase("ucisd_basis", "ucisd_basis", (n, a, b), {}, spin(n), n, kind="spin", n=n, k=2,
                               na=a, nb=b, first=True))
    for nmo, n in ((30, 7), (36, 34), (60, 1)):
        cases.append(_listcase("gcis_basis", "gcis_basis", (nmo, n), {}, orbs, nmo, kind="gen", n=nmo, k=1,
                               na=n, first=True))
    for m in list(range(1, 7)) + [9, 11]:
        for f, lo, k in (("s_pstrings", 1, 1), ("d_pstrings", 2, 2), ("vcis_basis", 0, 1),
                         ("vcisd_basis", 0, 2)):
            cases.append(_listcase(f, f, (m,), {}, lambda x: ints(x.occ), m, kind="boson", n=m, k=k,
                                   lo=lo, first=lo == 0))
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceBasis", cases)
    o.compared = sum(len(c["got"]) for c in cases)
    o.sample({k: v for k, v in cases[400].items()})


# --------------------------------------------------------------------------
# C03, C04: CI Hamiltonians

# Hamiltonians of which parts vanish
BLANK = [("g", 5, 2, "h"), ("g", 5, 3, "I"), ("g", 6, 3, "h.diagonal"), ("u", 3, 2, 1, "Iab"), ("u", 3, 1, 2, "Ia"), ("u", 4, 2, 2, "Ib"),
         ("u", 4, 2, 2, "ha"), ("u", 4, 2, 2, "hb Ib"), ("u", 3, 2, 2, "ha hb"), ("u", 4, 2, 2, "ha.diagonal hb.diagonal"),
         ("u", 4, 2, 2, "Ia Ib"), ("u", 4, 2, 1, "Ia Ib Iab"), ("u", 4, 2, 2, "ha Ia")]

class CIg:
    form = "g"

    def __init__(self, ex, n, const):
        self.n, self.den, self.const = n, ex.den, const
        self.k = ex.spread(n)
        self.h = ex.scaled(ex.h1(ex.t(n, n)), *[self.k] * 2)
        self.I = ex.scaled(ex.h2(ex.pairsym(n, n, n, n)), *[self.k] * 4)
        self.conf = dict(form="g", n=n, **ex.variant())
        self.data = dict(form="g", m=0, h=to_field(self.h, self.den, [self.k] * 2),
                         I=to_field(self.I, self.den, [self.k] * 4),
                         const=to_field(np.array(self.const), 4))

    names, unit = ("h", "I"), 0

    def magnify(self, k):
        """Multiply the Hamiltonian by a power of two; the specification keeps it as it was."""
        self.unit = k
        self.conf["magnified"] = k
        for nm in self.names + ("const",):
            setattr(self, nm, getattr(self, nm) * 2.0**k)

    def blank(self, names):
        """Let integrals vanish, or only what is off the diagonal (ha.diagonal)."""
        self.conf["blank"] = names
        for nm in names.split():
            nm, _, keep = nm.partition(".")
            a = getattr(self, nm)
            setattr(self, nm, a * np.eye(len(a)) if keep else a * 0)
            self.data[nm] = to_field(getattr(self, nm), self.den)

    def json(self):
        return self.data

    def exps(self, dets):
        """The powers of two that come with the determinants."""
        return [sum(self.k[p - 1] for p in d) for d in dets]

    def el(self, b, k):
        return cu.gci_matrixel(b, k, self.h, self.I, self.const)

    def on(self, bas, v):
        return cu.gH_on_vec(bas, v, self.h, self.I)

    def det(self, d):
        return D(self.n, [1 if p + 1 in d else 0 for p in range(self.n)])


class CIu:
    form = "u"

    def __init__(self, ex, m, const, same=""):
        self.m, self.n, self.den, self.const = m, 2 * m, ex.den, const
        a, b = ex.spread(m), ex.spread(m)
        b = a if same else b
        self.k = a + b
        self.ha, self.hb = ex.h1(ex.t(m, m)), ex.h1(ex.t(m, m))
        self.Ia, self.Ib = ex.h2(ex.pairsym(m, m, m, m)), ex.h2(ex.pairsym(m, m, m, m))
        self.Iab = ex.h2(ex.t(m, m, m, m))
        self.axes = dict(ha=[a] * 2, hb=[b] * 2, Ia=[a] * 4, Ib=[b] * 4, Iab=[a, b, a, b])
        for nm, e in self.axes.items():
            setattr(self, nm, ex.scaled(getattr(self, nm), *e))
        for nm in same.split():
            setattr(self, nm if nm == "Iab" else nm.replace("a", "b"), self.Ia if nm == "Iab" else getattr(self, nm))
        self.conf = dict(form="u", m=m, same=same, **ex.variant())
        self.data = dict(form="u", m=self.m, const=to_field(np.array(self.const), 4))
        for k in self.names:
            self.data[k] = to_field(getattr(self, k), self.den, self.axes[k])

    exps, magnify, json, blank = CIg.exps, CIg.magnify, CIg.json, CIg.blank
    names, unit = ("ha", "hb", "Ia", "Ib", "Iab"), 0

    def el(self, b, k):
        return cu.ci_matrixel(b[0], b[1], k[0], k[1], self.ha, self.hb, self.Ia, self.Ib, self.Iab,
                              self.const)

    def on(self, bas, v):
        return cu.H_on_vec(bas, v, self.ha, self.hb, self.Ia, self.Ib, self.Iab)

    def det(self, d):
        m = self.m
        return (D(m, [1 if p + 1 in d else 0 for p in range(m)]),
                D(m, np.array([1 if p + 1 + m in d else 0 for p in range(m)])))


def sector_g(n, k):
    return [list(x) for x in itertools.combinations(range(1, n + 1), k)]


def sector_u(m, a, b):
    return [list(x) + list(y) for x in itertools.combinations(range(1, m + 1), a)
            for y in itertools.combinations(range(m + 1, 2 * m + 1), b)]


CI_VARIANTS = [dict(mag=2), dict(mag=3, cplx=False), dict(mag=2, cplx=False, den=2),
               dict(mag=2, herm=True), dict(mag=1, zero=0.6, order="F"),
               dict(mag=2, stretch=20), dict(mag=30, cplx=False), dict(mag=3, mixed=True)]
CONSTS = [0.0, -2.5, 3.0, 7.25]


def _pick(rng, dets, limit):
    dets = [dets[i] for i in rng.permutation(len(dets))]
    return dets[:limit]


def C03(o):
    big = o.tier != "quick"
    t = TLC("SpecFock").run().require_ok()
    o.tlc(t)
    cases = []
    gs = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (5, 2), (5, 3), (6, 3), (6, 2), (7, 4), (8, 4),
          (4, 0), (9, 3), (12, 2), (17, 2), (14, 11)]
    us = [(1, 1, 0), (1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2), (4, 2, 2), (4, 3, 1), (4, 0, 2),
          (5, 2, 0), (5, 3, 2), (6, 2, 3), (6, 4, 0), (3, 3, 3), (6, 0, 3), (7, 2, 2), (10, 2, 2), (11, 1, 9),
          (3, 2, 1), (4, 2, 2), (4, 1, 3), (3, 2, 2)]
    # alpha and beta integrals that are one object
    same = {len(gs) + len(us) - 4 + k: x for k, x in enumerate(("ha", "Ia", "ha Ia", "ha Ia Iab"))}
    reps = 4 if big else 1
    for rep in range(reps):
        for k, dims in enumerate([("g",) + g for g in gs] + [("u",) + u for u in us] + BLANK):
            *dims, gone = dims if isinstance(dims[-1], str) else dims + ("",)
            rng = np.random.default_rng([o.seed, 3, rep, k])
            ex = Exact(rng, **CI_VARIANTS[(k + rep) % (3 if gone else len(CI_VARIANTS))])
            const = CONSTS[(k + rep) % len(CONSTS)]
            if dims[0] == "g":
                s, dets = CIg(ex, dims[1], const), sector_g(*dims[1:])
            else:
                s, dets = CIu(ex, dims[1], const, same.get(k, "")), sector_u(*dims[1:])
            s.blank(gone)
            if len(gs) + len(us) > k >= len(gs) + len(us) - 12 and k not in same and not ex.stretch:
                s.magnify((-44, 40)[k % 2])
            dets = _pick(rng, dets, 120 if big else 60)
            bas = [s.det(d) for d in dets]
            st, M = call(lambda: [[s.el(b, c) for c in bas] for b in bas])
            val = 0
            if st == "ok":
                try:
                    arr = np.array(M) * 2.0**-s.unit
                    st = "ok" if arr.shape == (len(bas),) * 2 else "shape"
                except Exception:
                    st = "shape"
            if st == "ok":
                val = to_field(arr, 4 * s.den, [s.exps(dets)] * 2)
                if val is None:
                    st, val = "inexact", 0
            nm = "gci_matrixel" if dims[0] == "g" else "ci_matrixel"
            c = dict(id=0, kind="matrix", where=nm, conf=dict(s.conf, dims=dims[1:]), st=st,
                     bas=dets if st == "ok" else [], val=val, outs=[dict(name="H")])
            c.update(s.json())
            cases.append(c)
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceCI", cases)
    o.compared = sum(len(c["bas"]) ** 2 for c in cases)


def _ops(rng, s, dets, length):
    """A random history of operator names and indices (from 1).

    Most operators are aimed at a determinant of the basis so that they do not
    annihilate everything; the rest has arbitrary, also coinciding, indices.
    """
    out = []
    u = s.form == "u"
    m = s.m if u else s.n
    kinds = ["sa", "sb", "da", "db", "sasb", "H"] if u else ["s", "d", "H"]

    def idx(spin):
        lo = m if spin == "b" else 0
        if rng.random() < 0.25 or not dets:
            return int(rng.integers(1, m + 1)), int(rng.integers(1, m + 1))
        d = dets[rng.integers(len(dets))]
        occ = [p - lo for p in d if lo < p <= lo + m]
        vir = [p for p in range(1, m + 1) if p not in occ]
        if rng.random() < 0.2 and occ:
            i = occ[rng.integers(len(occ))]
            return int(i), int(i)
        if not occ or not vir:
            return int(rng.integers(1, m + 1)), int(rng.integers(1, m + 1))
        return int(occ[rng.integers(len(occ))]), int(vir[rng.integers(len(vir))])

    for _ in range(length):
        k = kinds[rng.integers(len(kinds))]
        op = dict(k=k, i=0, j=0, a=0, b=0)
        if k in ("s", "sa", "sb"):
            op["i"], op["a"] = idx(k[1:] or "a")
        elif k in ("d", "da", "db"):
            op["i"], op["a"] = idx(k[1:] or "a")
            op["j"], op["b"] = idx(k[1:] or "a")
            if rng.random() < 0.15:              # undo or follow the first excitation
                op["j"], op["b"] = op["a"], int(rng.choice([op["i"], op["b"]]))
        elif k == "sasb":
            op["i"], op["a"] = idx("a")
            op["j"], op["b"] = idx("b")
        out.append(op)
    return out


def _apply(s, bas, v, op):
    k = op["k"]
    if k == "H":
        return call(s.on, bas, v)
    i, j, a, b = (op[x] - 1 for x in "ijab")
    args = (i, a) if k in ("s", "sa", "sb") else (i, j, a, b)
    return call(lib(cu, k + "_on_vec"), bas, v, *args)


def _moves(s, op):
    """The excitations in an operator: names of its indices, and the offset of the spin."""
    lo = s.n // 2
    return {"H": [], "s": [("i", "a", 0)], "sa": [("i", "a", 0)], "sb": [("i", "a", lo)],
            "d": [("i", "a", 0), ("j", "b", 0)], "da": [("i", "a", 0), ("j", "b", 0)],
            "db": [("i", "a", lo), ("j", "b", lo)],
            "sasb": [("i", "a", 0), ("j", "b", lo)]}[op["k"]]


def _strings_of(bas):
    return [tuple(ints(y.occ) for y in (x if isinstance(x, tuple) else (x,))) for x in bas]


def _history(s, ex, dets, ops, where, unit=0):
    """unit: power of two by which the vector is larger; the operators are linear."""
    bas = [s.det(d) for d in dets]
    k = [x - 40 if ex.stretch else x for x in s.exps(dets)]
    vec = ex.scaled(ex.t(len(dets)), k)
    v = vec * 2.0**unit
    frozen = _strings_of(bas)
    nH, off, rec = 0, 0, []
    for op in ops:
        op = dict(op, st="ok", val=[])
        before = v.copy()
        st, r = _apply(s, bas, v, op)
        nH += op["k"] == "H"
        if st == "ok":
            try:
                r = np.asarray(r)
                st = "ok" if r.shape == vec.shape else "shape"
            except Exception:
                st = "shape"
        if st == "ok" and not np.array_equal(before, v):
            st = "vector-changed"
        if st == "ok" and (len(bas) != len(frozen) or _strings_of(bas) != frozen):
            st = "basis-changed"
        if st == "ok":
            off += sum(s.k[op[x] - 1 + lo] - s.k[op[y] - 1 + lo] for x, y, lo in _moves(s, op))
            f = to_field(r * 2.0**(-unit - nH * s.unit), 2 * ex.den ** (1 + nH), [[x + off for x in k]])
            if f is None:
                st = "inexact"
            else:
                op["val"] = f
        op["st"] = st
        rec.append(op)
        if st != "ok":
            break
        v = r
    c = dict(id=0, kind="history", where=where, conf=dict(s.conf, dets=len(dets)),
             bas=dets, vec=to_field(vec, ex.den, [k]), ops=rec, st="ok", outs=rec)
    c.update(s.json())
    return c


def C04(o):
    big = o.tier != "quick"
    cases = []
    sizes = [("g", 3, 1), ("g", 4, 2), ("g", 5, 3), ("g", 6, 3), ("g", 7, 2), ("g", 2, 2), ("g", 8, 4),
             ("u", 2, 1, 1), ("u", 3, 2, 1), ("u", 3, 1, 2), ("u", 4, 2, 2), ("u", 4, 1, 3),
             ("u", 5, 0, 2), ("u", 5, 2, 0), ("u", 4, 3, 2), ("u", 6, 2, 1)]
    n = 0
    for rep in range(12 if big else 4):
        for dims in sizes:
            n += 1
            rng = np.random.default_rng([o.seed, 4, n])
            var = dict(CI_VARIANTS[n % len(CI_VARIANTS)])
            var["mag"] = 2
            ex = Exact(rng, **var)
            if dims[0] == "g":
                s, alld = CIg(ex, dims[1], 0.0), sector_g(*dims[1:])
            else:
                s, alld = CIu(ex, dims[1], 0.0), sector_u(*dims[1:])
            # whole space or a random part of it, in random order
            lim = len(alld) if rng.random() < 0.4 else max(1, int(len(alld) * 0.7))
            dets = _pick(rng, alld, min(lim, 36))
            ops = _ops(rng, s, dets, 6)
            if n % 5 == 2:
                s.magnify((-44, 40)[rep % 2])
            cases.append(_history(s, ex, dets, ops, "history-" + dims[0], (-44, 40)[n % 2] if n % 7 == 3 else 0))
    # every index combination once on a small space, complete, and with half of it left out
    rng = np.random.default_rng([o.seed, 4])
    for part in (False, True):
        ex = Exact(rng, mag=2, stretch=24 * (not part))

        def space(dets):
            return _pick(rng, dets, (len(dets) + 1) // 2 if part else len(dets))
        s = CIg(ex, 4, 0.0)
        for i, a in itertools.product(range(1, 5), repeat=2):
            cases.append(_history(s, ex, space(sector_g(4, 2)), [dict(k="s", i=i, j=0, a=a, b=0)], "s_on_vec"))
            for j, b in itertools.product(range(1, 5), repeat=2):
                cases.append(_history(s, ex, space(sector_g(4, 2)), [dict(k="d", i=i, j=j, a=a, b=b)],
                                      "d_on_vec"))
        s = CIu(ex, 3, 0.0)
        for i, a in itertools.product(range(1, 4), repeat=2):
            for k in ("sa", "sb"):
                for dets in (sector_u(3, 2, 1), sector_u(3, 1, 2)):
                    cases.append(_history(s, ex, space(dets), [dict(k=k, i=i, j=0, a=a, b=0)], k + "_on_vec"))
            for j, b in itertools.product(range(1, 4), repeat=2):
                for k in ("da", "db", "sasb"):
                    cases.append(_history(s, ex, space(sector_u(3, 2, 2)), [dict(k=k, i=i, j=j, a=a, b=b)],
                                          k + "_on_vec"))
                cases.append(_history(s, ex, space(sector_u(3, 1, 2)), [dict(k="sasb", i=i, j=j, a=a, b=b)],
                                      "sasb_on_vec"))
    # larger spaces that keep part of what an operator reaches
    for r in range(60 if big else 20):
        rng = np.random.default_rng([o.seed, 41, r])
        ex = Exact(rng, **dict(CI_VARIANTS[r % len(CI_VARIANTS)], mag=2))
        m, na, nb = [(4, 2, 2), (5, 2, 1), (5, 1, 3), (6, 2, 2)][r % 4]
        s, dets = CIu(ex, m, 0.0), _pick(rng, sector_u(m, na, nb), 30)
        for k in ("sa", "sb", "da", "db", "sasb"):
            op = [x for x in _ops(rng, s, dets, 60) if x["k"] == k][:2]
            cases += [_history(s, ex, dets, [x], k + "_on_vec") for x in op]
        n, e = [(6, 3), (8, 3), (7, 4), (10, 2)][r % 4]
        s, dets = CIg(ex, n, 0.0), _pick(rng, sector_g(n, e), 30)
        for k in ("s", "d"):
            op = [x for x in _ops(rng, s, dets, 30) if x["k"] == k][:2]
            cases += [_history(s, ex, dets, [x], k + "_on_vec") for x in op]
    for r, (*dims, gone) in enumerate(BLANK):
        rng = np.random.default_rng([o.seed, 43, r])
        ex = Exact(rng, mag=2, cplx=r % 2 == 0)
        s, dets = (CIg, CIu)[dims[0] == "u"](ex, dims[1], 0.0), (sector_g, sector_u)[dims[0] == "u"](*dims[1:])
        s.blank(gone)
        cases.append(_history(s, ex, _pick(rng, dets, len(dets)), [dict(k="H", i=0, j=0, a=0, b=0)] * 2, "blank-" + dims[0]))
    # long bases
    for r, dims in enumerate([("g", 8, 4), ("u", 5, 2, 2), ("g", 10, 3), ("u", 6, 3, 1)] * (4 if big else 1)):
        rng = np.random.default_rng([o.seed, 42, r])
        ex = Exact(rng, mag=2, cplx=r % 2 == 0)
        s, dets = (CIg, CIu)[dims[0] == "u"](ex, dims[1], 0.0), (sector_g, sector_u)[dims[0] == "u"](*dims[1:])
        dets = _pick(rng, dets, len(dets))
        ops = _ops(rng, s, dets, 200)
        for k in sorted({x["k"] for x in ops}):
            op = [x for x in ops if x["k"] == k]
            cases += [_history(s, ex, dets, op[:1], "long-" + dims[0])]
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceCI", cases)
    o.compared = sum(len(c["ops"]) * len(c["bas"]) for c in cases)


# --------------------------------------------------------------------------
# C05

def _expt(where, form, st, lab, val, scale, conf, k=None, **case):
    f = 0
    if st == "ok":
        try:
            v = np.asarray(val)
            if v.shape != (len(lab),):
                st = "shape"
            else:
                e = None if k is None else [[sum(k[p - 1] for p in d) - sum(k[p - 1] for p in case["occ"])
                                             for d in lab]]
                f = to_field(v, scale, e)
                if f is None:
                    st, f = "inexact", 0
        except Exception:
            st = "shape"
    c = dict(id=0, kind="expt", form=form, where=where, conf=conf, st=st, lab=lab, val=f,
             outs=[dict(name=where)])
    c.update(case)
    return c


def C05(o):
    big = o.tier != "quick"
    cases = []
    ub = {1: "ucis_basis", 2: "ucisd_basis", 3: "ucisdt_basis", 4: "ucisdtq_basis"}
    gb = {1: "gcis_basis", 2: "gcisd_basis", 3: "gcisdt_basis", 4: "gcisdtq_basis"}
    us = [(1, 1, 1, 1), (2, 2, 2, 2), (2, 1, 1, 2), (1, 2, 2, 1), (3, 2, 2, 3), (2, 3, 3, 2),
          (3, 3, 1, 5), (1, 5, 3, 3), (1, 4, 3, 2), (4, 4, 0, 8), (0, 8, 4, 4), (0, 5, 2, 3), (2, 3, 2, 3),
          (2, 3, 4, 1), (4, 1, 2, 3), (4, 2, 2, 4), (2, 4, 4, 2), (3, 3, 4, 2), (4, 2, 3, 3),
          (3, 3, 5, 1), (5, 1, 3, 3)]
    if big:
        us += [(4, 4, 1, 7), (1, 7, 4, 4), (3, 3, 3, 3), (0, 9, 4, 5), (4, 5, 0, 9), (2, 4, 3, 3),
               (3, 4, 4, 3), (4, 3, 3, 4)]
    gs = [(2, 2), (1, 3), (3, 3), (4, 2), (2, 6), (4, 4), (3, 5), (5, 3), (0, 4), (1, 1), (5, 9), (3, 13)]
    if big:
        gs += [(6, 4), (4, 6), (5, 5)]
    n = 0
    var = [dict(mag=1), dict(mag=2, cplx=False, den=2), dict(mag=2), dict(mag=9, cplx=False),
           dict(mag=1, stretch=14), dict(mag=1, stretch=-14)]
    # all amplitudes real but one; some vanish; alpha and beta ones the same arrays
    nought = ["a", "b", "ab", "A", "M", "B", "AMB", "AB", "aA", "bB", "aM", "=", "=M", "=ab", "=A"]
    for dims, one, zero in [(d, None, "") for d in us] + [((2, 2, 2, 2), k, "") for k in range(5)] + \
                           [((2, 2, 2, 2), None, z) for z in nought] + \
                           [((4, 5, 3, 6), None, ""), ((2, 9, 3, 8), None, ""), ((7, 3, 5, 5), None, "")]:
        noa, nva, nob, nvb = dims
        m = noa + nva
        for order in (1, 2) if m > 8 and not big and min(noa, nob) else (1, 2, 3, 4) if one is None else (2, 3):
            n += 1
            ex = Exact(np.random.default_rng([o.seed, 5, n]), **var[2 if one is not None or zero else n % len(var)])
            t1a, t1b = ex.t(nva, noa), ex.t(nvb, nob)
            t2aa, t2bb = ex.anti(nva, nva, noa, noa), ex.anti(nvb, nvb, nob, nob)
            t2ab = ex.t(nva, nvb, noa, nob)
            if one is not None:
                t1a, t1b, t2aa, t2bb, t2ab = [t if k == one else t.real.copy() for k, t in
                                              enumerate((t1a, t1b, t2aa, t2bb, t2ab))]
            if zero:
                t1a, t1b, t2aa, t2ab, t2bb = [t * (c not in zero) for c, t in
                                              zip("abAMB", (t1a, t1b, t2aa, t2ab, t2bb))]
            if "=" in zero:
                t1b, t2bb, t2ab = t1a, t2aa, t2ab + t2ab.transpose(1, 0, 3, 2)
            ka, kb = ex.exponents(noa, nva), ex.exponents(nob, nvb)
            oa, va, ob, vb = ka[:noa], ka[noa:], kb[:nob], kb[nob:]
            t1a, t1b = ex.scaled(t1a, va, oa), ex.scaled(t1b, vb, ob)
            t2aa, t2bb = ex.scaled(t2aa, va, va, oa, oa), ex.scaled(t2bb, vb, vb, ob, ob)
            t2ab = ex.scaled(t2ab, va, vb, oa, ob)
            kw = {} if order == 2 and n % 2 else {"order": order}
            st, C = call(lib(cu, "makeCfromT"), *dims, t1a, t1b, t2aa, t2ab, t2bb, **kw)
            sl, lab = call(lambda: [orbs(a) + orbs(b, m) for a, b in
                                    getattr(cu, ub[order])(m, noa, nob)])
            if sl != "ok":
                st, lab = "basis-" + sl, []
            z = ex.den
            cases.append(_expt(
                "makeCfromT", "u", st, lab, C, 24 * z**4,
                dict(dims=dims, order=order, only=-1 if one is None else one, vanish=zero, **ex.variant()),
                order=order, n=2 * m, noa=noa, nva=nva, nob=nob, nvb=nvb,
                occ=list(range(1, noa + 1)) + [m + i for i in range(1, nob + 1)],
                vir=list(range(noa + 1, m + 1)) + [m + i for i in range(nob + 1, m + 1)],
                T1a=to_field(t1a, z, [va, oa]), T1b=to_field(t1b, z, [vb, ob]),
                T2aa=to_field(t2aa, z, [va, va, oa, oa]), T2ab=to_field(t2ab, z, [va, vb, oa, ob]),
                T2bb=to_field(t2bb, z, [vb, vb, ob, ob]), k=ka + kb))
    # then: vanishing (1, 2) or real (r: singles, R: doubles) amplitudes
    for no, nv, zero in [g + ("",) for g in gs] + [(3, 3, z) for z in ("1", "2", "12", "r", "R")]:
        nmo = no + nv
        nb = no // 2
        occ = [1 if i < no - nb else 0 for i in range(nmo // 2)] + \
              [1 if i < nb else 0 for i in range(nmo // 2)]
        for order in (1, 2, 3, 4):
            if (order == 4 and no * nv > 16 or order == 3 and no * nv > 30) and not big:
                continue
            if order > 2 and no * nv > 36:
                continue
            for given in (False, True):
                n += 1
                ex = Exact(np.random.default_rng([o.seed, 5, n]), **var[2 if zero else n % len(var)])
                t1, t2 = ex.t(nv, no), ex.anti(nv, nv, no, no)
                t1, t2 = t1 * ("1" not in zero), t2 * ("2" not in zero)
                t1, t2 = t1.real.copy() if "r" in zero else t1, t2.real.copy() if "R" in zero else t2
                ko = ex.exponents(no, nv)
                ko, kv = ko[:no], ko[no:]
                t1, t2 = ex.scaled(t1, kv, ko), ex.scaled(t2, kv, kv, ko, ko)
                k = [ko[sum(occ[:p])] if x else kv[p - sum(occ[:p])] for p, x in enumerate(occ)]
                kw = {} if order == 2 and not given else {"order": order}
                if given:
                    kw["occ"] = list(occ)
                st, C = call(lib(cu, "gmakeCfromT"), no, nv, t1, t2, **kw)
                sl, lab = call(lambda: [orbs(a) for a in getattr(cu, gb[order])(nmo, no)])
                if sl != "ok":
                    st, lab = "basis-" + sl, []
                cases.append(_expt(
                    "gmakeCfromT", "g", st, lab, C, 24 * ex.den**4,
                    dict(no=no, nv=nv, order=order, given=given, vanish=zero, **ex.variant()),
                    order=order, n=nmo, occ=[i + 1 for i, x in enumerate(occ) if x],
                    vir=[i + 1 for i, x in enumerate(occ) if not x],
                    T1=to_field(t1, ex.den, [kv, ko]), T2=to_field(t2, ex.den, [kv, kv, ko, ko]), k=k))
    for order in (0, -1, 5, 6):
        ex = Exact(np.random.default_rng(o.seed))
        for nm, a in (("makeCfromT", (1, 1, 1, 1, ex.t(1, 1), ex.t(1, 1), ex.t(1, 1, 1, 1),
                                      ex.t(1, 1, 1, 1), ex.t(1, 1, 1, 1))),
                      ("gmakeCfromT", (2, 2, ex.t(2, 2), ex.t(2, 2, 2, 2)))):
            st, C = call(lib(cu, nm), *a, order=order)
            st = "refused" if st.startswith("raised") else \
                 "accepted-order" if st == "ok" else st
            cases.append(_expt(nm, "g", st, [], None, 1, dict(order=order), order=order, n=0,
                               occ=[], vir=[]))
    for i, c in enumerate(cases):
        c["id"] = i
    o.judged("TraceCI", cases)
    o.compared = sum(len(c["lab"]) for c in cases)
