"""A small property-based-testing engine.

Every random choice of a case comes from a Src, which records it.  A case is
the list of its recorded choices, so it can be replayed exactly, and shrunk by
simplifying the list and re-running the generator on it: every shrunk case is
valid by construction.  A run is a pure function of the code under test and of
VERIF_SEED."""

import hashlib
import json
import struct

import numpy as np


class Fail(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The generated case lies outside the property's domain."""


class Src:
    """Source of choices: random, or replayed from a list (with defaults once
    the list is exhausted or does not fit)."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.labels = []
        self.nontriv = True
        self.notes = {}

    def _next(self, kind, fresh, default, ok):
        if self.replay is None:
            val = fresh()
        else:
            val = default
            if self.pos < len(self.replay):
                k, v = self.replay[self.pos]
                if k == kind and ok(v):
                    val = v
        self.pos += 1
        self.rec.append((kind, val))
        return val

    # primitive choices ----------------------------------------------------
    def int(self, lo, hi):
        """An integer in [lo, hi]; shrinks to lo."""
        if hi < lo:
            raise ValueError((lo, hi))
        return self._next("i", lambda: int(self.rng.integers(lo, hi + 1)), lo,
                          lambda v: isinstance(v, int) and lo <= v <= hi)

    def unit(self, default=0.0):
        """A float in [0, 1), with a bias towards its ends."""
        def fresh():
            r = self.rng.random(2)
            if r[1] < 0.04:
                return default
            if r[1] < 0.06:
                return 0.0
            return float(r[0])
        return self._next("u", fresh, default,
                          lambda v: isinstance(v, float) and 0 <= v < 1.0000001)

    def block(self, n, default=0.5):
        """n floats in [0, 1), recorded as one choice."""
        return np.array(self._next(
            "b", lambda: [float(x) for x in self.rng.random(n)],
            [default] * n, lambda v: isinstance(v, list) and len(v) == n))

    # derived choices ------------------------------------------------------
    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self.int(0, 999) >= 1000 * (1 - p)

    def choice(self, seq):
        """Shrinks to the first."""
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def float(self, lo, hi, default=None):
        """Uniform in [lo, hi]; shrinks to default (lo)."""
        d = 0.0 if default is None else (default - lo) / (hi - lo)
        return lo + (hi - lo) * self.unit(d)

    def log(self, lo, hi, default=None):
        """Log-uniform in [lo, hi]."""
        d = 0.0 if default is None else np.log(default / lo) / np.log(hi / lo)
        return float(lo * (hi / lo) ** self.unit(float(d)))

    def sym(self, a=1.0):
        """Uniform in [-a, a]; shrinks to 0."""
        return a * (2 * self.unit(0.5) - 1)

    def arr(self, shape, lo=-1.0, hi=1.0):
        """An array, uniform in [lo, hi]; shrinks to the middle."""
        n = int(np.prod(shape))
        return (lo + (hi - lo) * self.block(n)).reshape(shape)

    def sparse(self, shape, lo=-1.0, hi=1.0):
        """As arr, but sometimes with most entries at the middle."""
        a = self.arr(shape, lo, hi)
        if self.bool(0.25):
            m = self.block(a.size).reshape(a.shape) < 0.75
            a = np.where(m, 0.5 * (lo + hi), a)
        return a

    # reporting -------------------------------------------------------------
    def label(self, *names):
        self.labels += [str(n) for n in names]

    def trivial(self):
        self.nontriv = False

    def note(self, **kw):
        self.notes.update(kw)


def seeded(seed, law, i):
    h = hashlib.sha256(f"{seed}|{law}|{i}".encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], "big")))


def digest(rec):
    return hashlib.sha1(json.dumps(rec).encode()).hexdigest()[:16]


def plain(x, depth=0):
    """x, as something json can write, cut short."""
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"shape": list(x.shape), "head": plain(x.ravel()[:16])}
        return [plain(y) for y in x.tolist()]
    if isinstance(x, (np.floating, float)):
        return float(f"{float(x):.8g}")
    if isinstance(x, (np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(y, depth + 1) for y in list(x)[:40]]
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:200]


# -- assertions ---------------------------------------------------------------

def ensure(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


def close(name, got, want, rtol=1e-9, atol=0.0, scale=None):
    """|got - want| <= atol + rtol * scale, elementwise; scale defaults to the
    largest of |want| and |got| of the whole array."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Fail(f"{name}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    if scale is None:
        scale = np.abs(want).max()
    tol = atol + rtol * np.asarray(scale)
    with np.errstate(invalid="ignore"):
        err = np.abs(got - want)
        bad = ~(err <= tol)
    if bad.any():
        tolb = np.broadcast_to(tol, err.shape)
        with np.errstate(divide="ignore", invalid="ignore"):
            r = np.where(np.isnan(err), np.inf, err) / tolb
        i = np.unravel_index(np.argmax(np.where(bad, r, -1)), err.shape)
        raise Fail(f"{name}: at {tuple(int(k) for k in i)} got {got[i]!r}, "
                   f"expected {want[i]!r} (tolerance {float(tolb[i]):.3g}; "
                   f"{int(bad.sum())} of {bad.size} entries differ)")


# -- laws ---------------------------------------------------------------------

class Law:
    def __init__(self, fn, name, variant, quick, thorough, rule):
        self.fn, self.name, self.variant = fn, name, variant
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Laws:
    """The laws of one property, each tied to a variant of the build."""

    def __init__(self, prop, mult=1):
        self.prop, self.mult = prop, mult
        self.laws = []

    def law(self, quick, thorough=None, variants=("default",), rule=""):
        def deco(fn):
            vs = [variants] if isinstance(variants, str) else list(variants)
            for v in vs:
                name = fn.__name__ if len(vs) == 1 else f"{fn.__name__}@{v}"
                q = quick[v] if isinstance(quick, dict) else quick
                t = thorough
                if isinstance(t, dict):
                    t = t[v]
                self.laws.append(Law(fn, name, v, q * self.mult, t or 10 * q,
                                     rule or (fn.__doc__ or "").strip()))
            return fn
        return deco

    def get(self, name):
        for law in self.laws:
            if law.name == name:
                return law
        raise KeyError(name)


def run_case(law, src, G):
    """Runs one case; returns None or the message of its failure."""
    try:
        law.fn(src, G)
    except Fail as e:
        return str(e)
    except Skip:
        src.trivial()
        src.label("skipped")
    except AssertionError as e:
        return f"AssertionError: {e}"
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return f"{type(e).__name__}: {e} ({tb.filename}:{tb.lineno})"
    return None


# -- shrinking ----------------------------------------------------------------

def _simpler(kind, v):
    """Candidates for one choice, simplest first."""
    if kind == "i":
        out = []
        for c in (0, 1, 2, v // 2, v - 1):
            if c < v and c not in out:
                out.append(c)
        return out
    if kind == "u":
        out = []
        for c in (0.0, 0.5, round(v, 1), round(v, 2), round(v, 4)):
            if c != v and c < 1 and c not in out and len(repr(c)) < len(repr(v)):
                out.append(c)
        return out
    if kind == "b":
        out = []
        n = len(v)
        out.append([0.5] * n)
        out.append([0.0] * n)
        out.append([v[0]] * n)
        h = n // 2
        if n > 1:
            out.append([0.5] * h + v[h:])
            out.append(v[:h] + [0.5] * (n - h))
        out.append([round(x, 1) if round(x, 1) < 1 else 0.9 for x in v])
        out.append([round(x, 2) if round(x, 2) < 1 else 0.99 for x in v])
        return [c for c in out if c != v]
    return []


def _weight(rec):
    w = 0
    for k, v in rec:
        if k == "i":
            w += 1 + abs(v)
        elif k == "u":
            w += len(repr(v))
        else:
            w += sum(len(repr(x)) for x in v)
    return (len(rec), w)


def shrink(fails, rec, budget):
    """fails(rec) -> recorded choices of the (still failing) case, or None;
    budget() -> whether there is time left."""
    best = rec
    seen = set()
    improved = True
    while improved and budget():
        improved = False
        i = 0
        while i < len(best) and budget():
            kind, v = best[i]
            for c in _simpler(kind, v):
                if not budget():
                    break
                cand = best[:i] + [(kind, c)] + best[i + 1:]
                h = digest(cand)
                if h in seen:
                    continue
                seen.add(h)
                got = fails(cand)
                if got is not None and _weight(got) < _weight(best):
                    best = got
                    improved = True
                    break
            i += 1
        # single entries of a block
        for i in range(len(best)):
            kind, v = best[i]
            if kind != "b" or len(v) > 64:
                continue
            for j in range(len(v)):
                if not budget():
                    break
                for c in (0.5, 0.0, round(v[j], 1)):
                    if c == v[j] or c >= 1 or len(repr(c)) >= len(repr(v[j])):
                        continue
                    w = list(v)
                    w[j] = c
                    cand = best[:i] + [("b", w)] + best[i + 1:]
                    got = fails(cand)
                    if got is not None and _weight(got) < _weight(best):
                        best = got
                        v = best[i][1] if best[i][0] == "b" else v
                        improved = True
                        break
    return best
