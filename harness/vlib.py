"""Shared plumbing: field residues, recorded outputs, TLC runs, verdicts.

The checks record what the library in /repo returns for exact (Gaussian
integer or dyadic) arguments, write it as JSON and let TLC decide, with the
specification in ../spec, whether the recording is a behaviour of the system.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
TLA_CP = os.environ.get(
    "TLA_CLASSPATH",
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")

P = 46337                      # prime, P = 1 mod 4; must equal P of Field.tla
ROOT_M1 = next(r for r in range(2, P) if r * r % P == P - 1)

CALL_LIMIT = 180              # seconds


class MachineryError(Exception):
    """The check itself could not reach a verdict."""


# --------------------------------------------------------------------------
# field residues

def _inv(a):
    return pow(int(a), P - 2, P)


def residue(x, scale):
    """Residue of one number known to lie in (1/scale) Z[i]; None if it does not."""
    x = complex(x)
    out = 0
    for part, unit in ((x.real, 1), (x.imag, ROOT_M1)):
        y = part * scale
        if not np.isfinite(y) or abs(y) > 2.0**53:
            return None
        r = int(np.rint(y))
        if abs(y - r) > 1e-5 + 1e-10 * abs(y):
            return None
        out = (out + r % P * unit) % P
    return out * _inv(scale) % P


def stretched(a, exps, sign=1):
    """Multiply by powers of two, exps[n] along axis n: up in the first half of the axes and down
    in the second half, as a tensor changes when its orbitals are rescaled."""
    e = np.zeros((1,) * len(exps), dtype=np.int64)
    for n, k in enumerate(exps):
        k = np.asarray(k, dtype=np.int64).reshape([-1 if m == n else 1 for m in range(len(exps))])
        e = e + (k if 2 * n < len(exps) else -k)
    return a * np.ldexp(1.0, sign * e), e


def to_field(arr, scale=1, exps=None):
    """Nested list of residues, or None when an entry is off the exact grid.

    The grid is that of 1/scale, stretched by exps when given.
    """
    a = np.asarray(arr)
    if exps is not None and a.dtype != object:
        a, e = stretched(a, exps, -1)
        f = to_field(a, scale)
        if f is None:
            return None
        two = np.array([pow(2, int(k) % (P - 1), P) for k in e.reshape(-1)], dtype=np.int64)
        return (np.array(f, dtype=np.int64).reshape(a.shape) * two.reshape(e.shape) % P).tolist()
    if a.dtype == object:
        return None
    try:
        z = a.astype(complex)
    except (TypeError, ValueError):
        return None
    out = np.zeros(z.shape, dtype=np.int64)
    for part, unit in ((z.real, 1), (z.imag, ROOT_M1)):
        y = part * scale
        if y.size and (not np.isfinite(y).all() or np.abs(y).max() > 2.0**53):
            return None
        r = np.rint(y)
        if y.size and (np.abs(y - r) > 1e-5 + 1e-10 * np.abs(y)).any():
            return None
        out = (out + np.mod(r, P).astype(np.int64) * unit) % P
    return (out * _inv(scale) % P).tolist()


def record(name, kind, ax, fn_value, scale=1, pick=None, expo=None, inside=None, **extra):
    """Record one returned array.

    fn_value is (status, value): status "ok" or the exception text.  ax gives
    the orbitals along each axis, hence the only acceptable shape.  inside
    gives the shape of a larger array and the positions of the recorded part
    in it; the rest must be zero.
    """
    st, val = fn_value
    out = dict(name=name, kind=kind, ax=[list(map(int, x)) for x in ax],
               st=st, val=0)
    out.update(extra)
    if st != "ok":
        return out
    if pick is not None:
        try:
            val = pick(val)
        except Exception:
            out["st"] = "shape"
            return out
    try:
        arr = np.asarray(val)
    except Exception:
        out["st"] = "shape"
        return out
    if inside is not None and arr.dtype != object and arr.shape == tuple(inside[0]):
        part = np.ix_(*inside[1])
        rest = arr.copy()
        rest[part] = 0
        if rest.any():
            out["st"] = "outside"
            return out
        arr = arr[part]
    if arr.shape != tuple(len(x) for x in ax):
        out["st"] = "shape"
        return out
    exps = None if expo is None or not ax else [[expo[k] for k in x] for x in ax]
    f = to_field(arr, scale, exps)
    if f is None:
        out["st"] = "inexact"
        return out
    out["val"] = f
    return out


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang()


def call(fn, *a, **k):
    """Call into the library; exceptions become a status, never escape.

    The calls take milliseconds; one that runs for minutes does not return.
    """
    old = signal.signal(signal.SIGALRM, _hang)
    signal.alarm(CALL_LIMIT)
    try:
        return ("ok", fn(*a, **k))
    except Hang:
        return ("no-return", None)
    except Exception as e:                      # noqa: BLE001
        return ("raised-" + type(e).__name__, None)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def lib(module, name):
    """A library function looked up at call time, so that a missing one is a
    recorded failure of the call and not of the check."""
    def f(*a, **k):
        return getattr(module, name)(*a, **k)
    f.__name__ = name
    return f


# --------------------------------------------------------------------------
# exact random tensors

class Exact:
    """Random exact tensors: entries (m + i n)/den with |m|,|n| <= mag."""

    def __init__(self, rng, mag=2, cplx=True, den=1, zero=0.0, order="C", herm=False,
                 stretch=0, mixed=False):
        self.rng, self.mag, self.cplx, self.den, self.zero = rng, mag, cplx, den, zero
        self.order, self.herm, self.stretch, self.mixed = order, herm, stretch, mixed

    def variant(self):
        return dict(cplx=self.cplx, den=self.den, mag=self.mag, zero=self.zero,
                    layout=self.order, herm=self.herm, stretch=self.stretch, mixed=self.mixed)

    def exponents(self, no, nv):
        """Powers of two by which orbitals are rescaled: occupied ones up and virtual ones down for
        a positive stretch, which makes T small and Lambda large, and the reverse for a negative."""
        k = abs(self.stretch)
        up = self.rng.integers(-k // 4, k + 1, no + nv) if k else np.zeros(no + nv)
        sgn = 1 if self.stretch > 0 else -1
        return [int(sgn * x) for x in up[:no]] + [int(-sgn * x) for x in up[no:]]

    def spread(self, n):
        """Powers of two for orbitals that are neither occupied nor virtual."""
        k = abs(self.stretch)
        return [int(x) for x in self.rng.integers(-k, k + 1, n)]

    def scaled(self, a, *exps):
        return self.lay(stretched(a, exps)[0]) if self.stretch else a

    def lay(self, a):
        """The memory layout under test; values are the same."""
        return np.asfortranarray(a) if self.order == "F" else a

    def real(self):
        """Mixed number types: some tensors are real, at random or by turns as in "rrc"."""
        if not isinstance(self.mixed, str):
            return self.mixed and self.rng.integers(2)
        self.turn += 1
        return self.mixed[self.turn % len(self.mixed)] == "r"

    turn = -1

    def t(self, *s):
        r = self.rng.integers(-self.mag, self.mag + 1, s).astype(float)
        if self.cplx and not self.real():
            r = r + 1j * self.rng.integers(-self.mag, self.mag + 1, s)
        if self.zero:
            r = r * (self.rng.random(s) >= self.zero)
        return self.lay(r / self.den)

    def anti(self, a, b, c, d):
        """Antisymmetric in the first and in the last pair of indices."""
        m = self.t(a, b, c, d)
        m = m - m.transpose(1, 0, 2, 3)
        return self.lay(m - m.transpose(0, 1, 3, 2))

    def pairsym(self, a, b, c, d):
        m = self.t(a, b, c, d)
        return self.lay(m + m.transpose(1, 0, 3, 2))

    def h1(self, m):
        """A one-electron operator's matrix from a general one."""
        return self.lay(m + m.conj().T) if self.herm else m

    def h2(self, m):
        return self.lay(m + m.conj().transpose(2, 3, 0, 1)) if self.herm else m


# --------------------------------------------------------------------------
# TLC

STATES = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states")
INITIAL = re.compile(r"initial states: (\d[\d,]*) ")
WALKED = re.compile(r"number of states generated: (\d[\d,]*)")


class TLC:
    """One TLC run in a scratch directory of its own."""

    def __init__(self, module, cfg=None, env=None, workers=8, args=(), timeout=820,
                 mem="6g"):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.env, self.workers, self.args = env or {}, workers, list(args)
        self.timeout, self.mem = timeout, mem
        self.steps = self.distinct = 0
        self.lines = []
        self.stdout = ""
        self.ok = False
        self.wall = 0.0

    def run(self):
        meta = tempfile.mkdtemp(prefix="vtlc-")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + self.mem, "-Xss64m",
               "-Djava.io.tmpdir=" + meta,
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(self.workers),
               "-metadir", os.path.join(meta, "st"), "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, self.cfg)] + self.args + [
               os.path.join(SPEC, self.module + ".tla")]
        env = dict(os.environ)
        env.update({k: str(v) for k, v in self.env.items()})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=self.timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC on %s exceeded %ds" % (self.module, self.timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        self.wall = time.time() - t0
        self.stdout = r.stdout
        self.lines = r.stdout.splitlines()
        num = lambda m, k=1: int(m.group(k).replace(",", ""))
        for m in STATES.finditer(r.stdout):
            self.steps, self.distinct = num(m), num(m, 2)
        for m in INITIAL.finditer(r.stdout):
            self.steps -= num(m)
        for m in WALKED.finditer(r.stdout):
            self.steps = num(m)
        self.ok = r.returncode == 0
        self.returncode = r.returncode
        return self

    def require_ok(self):
        if not self.ok:
            tail = "\n".join(l[:400] for l in [x for x in self.lines if not x.startswith(("Parsing file", "Semantic proc"))][-40:])
            raise MachineryError("TLC on %s failed (%s):\n%s"
                                 % (self.module, self.returncode, tail))
        return self

    def tagged(self, tag):
        """JSON payloads printed by the specification behind a tag."""
        out = []
        for l in self.lines:
            s = l.strip()
            if s.startswith('"' + tag + " "):
                out.append(json.loads(json.loads(s)[len(tag) + 1:]))
        return out


def judge(module, cases, cfg=None, env=None, timeout=820, label=None, workers=8):
    """Let TLC judge recorded cases.

    Returns (tlc, {case id: [failing clauses]}).  Every case must come back
    with a verdict; anything else is a failure of the machinery.
    """
    d = tempfile.mkdtemp(prefix="vcase-")
    try:
        path = os.path.join(d, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        e = {"CASES": path}
        e.update(env or {})
        t = TLC(module, cfg=cfg, env=e, timeout=timeout, workers=workers).run().require_ok()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verd = {}
    for v in t.tagged("VERDICT"):
        verd[v["id"]] = v["bad"]
    missing = [c["id"] for c in cases if c["id"] not in verd]
    if missing:
        raise MachineryError("%s: no verdict for %d of %d cases (first %s)"
                             % (module, len(missing), len(cases), missing[:5]))
    return t, verd


# --------------------------------------------------------------------------
# the outcome of a check

class Outcome:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.compared = 0
        self.violations = []
        self.extra = {}
        self.assumptions = []

    def tlc(self, t):
        self.states += t.distinct
        self.transitions += t.steps

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def add(self, where, clauses, detail=None):
        """A violation at an identified place (function and configuration)."""
        self.violations.append(dict(where=where, clauses=sorted(set(clauses)),
                                    detail=detail))

    def judged(self, module, cases, describe=None, **kw):
        """Judge cases and turn bad verdicts into violations."""
        if not cases:
            return {}
        t, verd = judge(module, cases, **kw)
        self.tlc(t)
        self.traces += len(cases)
        self.compared += sum(len(c.get("outs", [0])) for c in cases)
        for c in cases[:1]:
            self.sample(dict(module=module, where=c.get("where"), conf=c.get("conf"),
                             outs=[x.get("name") for x in c.get("outs", [])][:8],
                             bad=verd[c["id"]]))
        for c in cases:
            b = verd[c["id"]]
            if b:
                self.add(c.get("where", str(c["id"])), b,
                         describe(c) if describe else c.get("conf"))
        return verd


def load_known():
    """Lines 'finding: property=<id> where=<...> clause=<...> :: text'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) where=(\S+) clause=(\S+) :: (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(o, level="model_checking"):
    os.makedirs(EVID, exist_ok=True)
    known = [k for k in load_known() if k[0] == o.prop]
    real = []
    for v in o.violations:
        rest = []
        for c in v["clauses"]:
            hit = [k for k in known if k[1] == v["where"] and k[2] == c]
            if hit:
                print("KNOWN-FINDING: property=%s %s %s: %s"
                      % (o.prop, v["where"], c, hit[0][3]))
            else:
                rest.append(c)
        if rest:
            real.append(dict(v, clauses=rest))
    cov = dict(states=o.states, transitions=o.transitions,
               traces_validated_against_impl=o.traces, samples=o.samples,
               outputs_compared=o.compared)
    cov.update(o.extra)
    ev = dict(property=o.prop, tier=o.tier, seed=o.seed, level=level,
              coverage=cov, wall_s=round(time.time() - o.t0, 2),
              violations=len(real))
    if o.assumptions:
        ev["assumptions"] = o.assumptions
    path = os.path.join(EVID, o.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(path + ".tmp", path)
    replay = os.path.join(EVID, o.prop + ".replay.json")
    if real:
        with open(replay, "w") as f:
            json.dump(real, f, indent=1, default=str)
            f.write("\n")
        for v in real[:20]:
            print("  %s: %s" % (v["where"], ", ".join(v["clauses"])[:300]))
        print("VIOLATION property=%s replay=%s" % (o.prop, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print("OK property=%s traces=%d states=%d wall=%.1fs"
          % (o.prop, o.traces, o.states, time.time() - o.t0))
    return 0
