"""Level sets: signed distances, gradients, interface cells, materials."""

import heapq

import numpy as np

from pbt import Laws, Skip, close, ensure
from .common import opt
from .fields import ints

L = Laws("C16")
L.assumptions = [
    "Distances far from interfaces are those of the first order fast marching scheme "
    "(an independent program); their error against true distances is bounded by law.",
]


def shape(s, lo=3, big=12, nd=None):
    nd = nd or s.int(1, 2)
    return [s.int(lo, 24 if nd == 1 else big) for _ in range(nd)]


def centres(nX, dX):
    return np.stack(np.meshgrid(*[(np.arange(n) + 0.5) * d for n, d in zip(nX, dX)],
                                indexing="ij"), -1)


def bodies(s, nX, dX):
    """A level set: negative inside (or outside) some balls and half spaces, or
    with every value at random, or of whole numbers."""
    x = centres(nX, dX)
    L_ = np.array(nX) * dX
    kind = s.choice(["balls", "balls", "plane", "random", "whole", "symmetric"])
    if kind == "random":
        φ = s.arr(tuple(nX))
    elif kind == "whole":
        φ = np.round(3 * s.arr(tuple(nX)))
    elif kind == "plane":
        n = s.arr((len(nX),)) if s.bool() else np.eye(len(nX))[s.int(0, len(nX) - 1)]
        if np.linalg.norm(n) < 1e-3:
            raise Skip
        n = n / np.linalg.norm(n)
        c = s.arr((len(nX),), 0, 1) * L_
        φ = (x - c) @ n
    else:
        φ = np.full(tuple(nX), np.inf)
        for _ in range(s.int(1, 3)):
            c = s.arr((len(nX),), 0, 1) * L_ if kind == "balls" else L_ / 2
            r = s.float(0.02, 0.6) * L_.min()
            φ = np.minimum(φ, np.linalg.norm(x - c, axis=-1) - r)
            if kind == "symmetric":
                break
    if s.bool():
        φ = -φ
    s.label(f"{len(nX)}D", kind)
    return φ


def spacing(s, nX):
    dX = np.array([s.log(1e-3, 10, 1)] * len(nX))
    if len(nX) == 2 and s.bool(0.3):
        dX[1] *= s.log(0.3, 3, 1)
        s.label("uneven")
    return dX


def neighbours(i, nX):
    for d in range(len(nX)):
        for e in (-1, 1):
            if 0 <= i[d] + e < nX[d]:
                yield d, i[:d] + (i[d] + e,) + i[d + 1:]


def march(φ, dX):
    """Signed distances: those of cells by the interface along the grid,
    linearly interpolated; of others by first order fast marching."""
    nX = φ.shape
    sg = np.sign(φ)
    D = np.full(nX, np.inf)
    near = np.zeros(nX, bool)
    for i in np.ndindex(*nX):
        if φ[i] == 0:
            D[i] = 0
            near[i] = True
    for i in np.ndindex(*nX):
        if near[i]:
            continue
        for d, j in neighbours(i, nX):
            if φ[i] * φ[j] < 0:
                D[i] = min(D[i], dX[d] * abs(φ[i] / (φ[i] - φ[j])))
                near[i] = True
    if not near.any():
        return φ, near, False
    done = near.copy()
    odd = False

    def solve(i):
        nonlocal odd
        v = {}
        for d, j in neighbours(i, nX):
            if done[j]:
                v[d] = min(v.get(d, np.inf), D[j])
        if len(v) == 2 and abs(v[0] - v[1]) >= 0.999 * np.hypot(*dX):
            # no root: the neighbours' distances differ too much
            odd = True
            return min(v[d] + dX[d] for d in v)
        a = sum(1 / dX[d]**2 for d in v)
        b = sum(v[d] / dX[d]**2 for d in v)
        c = sum((v[d] / dX[d])**2 for d in v) - 1
        if len(v) == 2 and (b + np.sqrt(max(b * b - a * c, 0))) / a < max(v.values()):
            odd = True
        return (b + np.sqrt(max(b * b - a * c, 0))) / a

    h = []
    val = {}
    for i in np.ndindex(*nX):
        if not done[i] and any(done[j] for _, j in neighbours(i, nX)):
            val[i] = solve(i)
            heapq.heappush(h, (val[i], i))
    while h:
        x, i = heapq.heappop(h)
        if done[i] or x != val[i]:
            continue
        # all cells at this distance at once
        group = [i]
        while h and h[0][0] <= x:
            y, j = heapq.heappop(h)
            if not done[j] and y == val[j] and j not in group:
                group.append(j)
        for j in group:
            done[j] = True
            D[j] = val[j]
        for j in group:
            for _, k in neighbours(j, nX):
                if not done[k]:
                    val[k] = solve(k)
                    heapq.heappush(h, (val[k], k))
    return sg * D, near, odd


def run(G, φ, dX):
    return np.array(G.system.multi.distance(φ.ravel().copy(), dX.copy(),
                                            ints(*φ.shape))).reshape(φ.shape)


@L.law(quick={"default": 5000}, thorough={"default": 150000})
def distances(s, G):
    """By the interface, the distance is that to it along the grid; further off
    it is that of fast marching; its sign is that of the level set; a level set
    without an interface is kept."""
    nX = shape(s, lo=1)
    dX = spacing(s, nX)
    φ = bodies(s, nX, dX)
    want, near, odd = march(φ, dX)
    got = run(G, φ, dX)
    s.note(nX=nX, dX=dX, φ=φ)
    if not near.any():
        s.label("no interface")
        ensure((got == φ).all(), "a level set without an interface changed")
        return
    ensure((np.sign(got) == np.sign(φ))[near].all(), "a sign by the interface changed")
    h = np.abs(dX).max()
    close("distance by the interface", got[near], want[near], atol=1e-12 * h, rtol=1e-12)
    s.label("odd" if odd else "even")
    ensure((np.sign(got) == np.sign(φ)).all(), "a sign changed")
    if not odd:
        close("distance", got, want, atol=1e-9 * h, rtol=1e-9)


@L.law(quick={"default": 3000}, thorough={"default": 100000})
def exactness(s, G):
    """In 1D the signed distances to interfaces are true to rounding; in 2D they
    are within the error of a first order scheme of those to planes and balls."""
    nd = s.int(1, 2)
    nX = [s.int(3, 40)] if nd == 1 else [s.int(6, 24) for _ in range(2)]
    dX = np.full(nd, s.log(1e-3, 10, 1))
    x = centres(nX, dX)
    size = np.array(nX) * dX
    if nd == 1:
        at = np.sort(s.arr((s.int(1, 4),), 0, 1) * size)
        # between centres, at most one in each
        cell = np.floor(at / dX - 0.5)
        if len(set(cell)) < len(at) or np.diff(at).min(initial=np.inf) < 1.01 * dX[0]:
            raise Skip
        d = np.abs(x - at).min(-1)
        true = d * np.prod(np.sign(x - at), -1)
        if not (true[1:] * true[:-1] < 0).any():
            raise Skip
        # interfaces beyond the last centres are not seen
        if (cell < 0).any() or (cell > nX[0] - 2).any():
            raise Skip
        tol = 1e-9 * size[0]
        if len(at) > 1:
            # linear interpolation has to see straight lines
            for c in cell.astype(int):
                a, b = true[c], true[c + 1]
                if abs(abs(a) + abs(b) - dX[0]) > 1e-9 * dX[0]:
                    raise Skip
    elif s.bool():
        t = s.float(0, 2 * np.pi)
        n = np.array([np.cos(t), np.sin(t)])
        c = s.arr((2,), 0.3, 0.7) * size
        true = (x - c) @ n
        foot = x - true[..., None] * n
        tol = None
    else:
        c = s.arr((2,), 0.3, 0.7) * size
        r = s.float(3, 8) * dX[0]
        true = np.linalg.norm(x - c, axis=-1) - r
        foot = c + r * (x - c) / np.maximum(np.linalg.norm(x - c, axis=-1), 1e-9 * r)[..., None]
        tol = None
    if not (true < 0).any() or not (true > 0).any():
        raise Skip
    sg = s.choice([1.0, -1.0])
    # any function with the same interface serves, were it linear across it
    k = s.log(0.01, 100, 1)
    got = run(G, sg * k * true, dX)
    s.label(f"{nd}D")
    if tol is None:
        # twice the largest errors seen: distances along a grid line exceed those to a
        # slanted plane, and the scheme is of first order
        h = dX[0]
        seen = ((foot > 0.5 * dX) & (foot < size - 0.5 * dX)).all(-1)
        err = np.abs(got - sg * true) * seen
        far = np.abs(true) / h
        bound = (0.45 + 0.25 * np.log2(2 + far)) * h + 0.05 * np.abs(true)
        s.note(nX=nX, err=float((err / h).max()))
        ensure((err <= bound).all(), lambda: f"distance is out by {(err / bound).max()} times "
               "the bound")
    else:
        close("distance", got, sg * true, atol=tol)


@L.law(quick={"default": 2000}, thorough={"default": 60000})
def relations(s, G):
    """Distances change sign with the level set, do not depend on its size, are
    carried along by reflections and transpositions of the grid, and scale
    with its cells."""
    nX = shape(s, lo=1)
    dX = spacing(s, nX)
    φ = bodies(s, nX, dX)
    a = run(G, φ, dX)
    if not ((φ == 0).any() or (a != φ).any() or np.ptp(np.sign(φ)) > 0):
        s.trivial()
        return
    if not (φ == 0).any() and np.ptp(np.sign(φ)) == 0:
        s.trivial()
        return
    h = np.abs(dX).max()
    t = dict(atol=1e-9 * h, rtol=1e-9)
    close("distance of the negative", run(G, -φ, dX), -a, **t)
    c = 2.0 ** s.int(-8, 8)
    close("distance of a multiple", run(G, c * φ, dX), a, **t)
    close("distance on larger cells", run(G, φ, c * dX), c * a, atol=c * 1e-9 * h, rtol=1e-9)
    ax = s.int(0, len(nX) - 1)
    close("distance on a reflected grid", np.flip(run(G, np.flip(φ, ax).copy(), dX), ax), a, **t)
    if len(nX) == 2:
        close("distance on a transposed grid", run(G, φ.T.copy(), dX[::-1].copy()).T, a, **t)


@L.law(quick={"default": 3000}, thorough={"default": 60000})
def gradient(s, G):
    """Gradients are central differences, those of cells at edges are of the
    next cell in; a plane's are exact everywhere."""
    nX = shape(s)
    dX = spacing(s, nX)
    x = centres(nX, dX)
    plane = s.bool(0.3)
    if plane:
        n = s.arr((len(nX),)) * s.log(1e-3, 1e3, 1)
        φ = x @ n + s.sym()
    else:
        φ = bodies(s, nX, dX)
    want = np.zeros(tuple(nX) + (len(nX),))
    for i in np.ndindex(*nX):
        for d in range(len(nX)):
            k = min(max(i[d], 1), nX[d] - 2)
            a, b = list(i), list(i)
            a[d], b[d] = k - 1, k + 1
            want[i][d] = (φ[tuple(b)] - φ[tuple(a)]) / (2 * dX[d])
    got = np.full((φ.size, len(nX)), np.nan)
    G.multi.finite_difference(got, φ.ravel().copy(), dX.copy(), ints(*nX))
    s.label("plane" if plane else "other")
    s.note(nX=nX, dX=dX)
    got = got.reshape(want.shape)
    sz = np.abs(φ).max() / dX
    close("gradient", got, want, atol=1e-13 * sz)
    if plane:
        close("gradient of a plane", got, np.broadcast_to(n, got.shape), atol=1e-12 * sz)


def interface_cells(φ):
    """0 away from interfaces; -1 and 1 for cells on its two sides; -2 for lone
    cells of the material (2D)."""
    nX = φ.shape
    out = np.zeros(nX, int)
    lone = np.zeros(nX, bool)
    if len(nX) == 2:
        for i in np.ndindex(*nX):
            lone[i] = φ[i] <= 0 and not any(φ[j] <= 0 for _, j in neighbours(i, nX))
    for i in np.ndindex(*nX):
        if φ[i] > 0:
            if any(φ[j] <= 0 and not lone[j] for _, j in neighbours(i, nX)):
                out[i] = 1
        elif lone[i]:
            out[i] = -2
        elif any(φ[i] * φ[j] <= 0 for _, j in neighbours(i, nX)):
            out[i] = -1
    return out


@L.law(quick={"default": 4000}, thorough={"default": 100000})
def interfaces(s, G):
    """The cells by an interface are those with a neighbour on its other side;
    lone cells of the material, in 2D, are no part of it and have none."""
    nX = shape(s)
    dX = np.ones(len(nX))
    φ = bodies(s, nX, dX)
    got = ints(*np.full(φ.size, 7))
    G.multi.find_interface_cells(got, φ.ravel().copy(), ints(*nX))
    got = got.reshape(φ.shape)
    want = interface_cells(φ)
    s.label(*[f"has {k}" for k in np.unique(want)])
    s.note(nX=nX)
    bad = got != want
    ensure(not bad.any(), lambda: f"cells {np.argwhere(bad)[:4].tolist()}: {got[bad][:4]}, not "
           f"{want[bad][:4]}")


def indicator(ls, mat, dX):
    """Negative in the cells of a material, from the level sets (cells..., LSET):
    material k has k nonnegative level sets."""
    nmat = ls.shape[-1] + 1
    φ = ls[..., 0] if mat == 0 else -ls[..., 0]
    if nmat > 2:
        parts = [φ] + [-ls[..., k] for k in range(1, mat)] + \
            [ls[..., k] for k in range(mat, nmat - 1)]
        φ = np.max(parts, 0)
        return march(φ, dX)
    return φ, None, False


@L.law(quick={"lset1": 800, "default": 1500, "lset3": 1000},
       thorough={"lset1": 20000, "default": 40000, "lset3": 20000},
       variants=("lset1", "default", "lset3"))
def materials(s, G):
    """Level sets are renormalised each on its own, and nothing else with them;
    the indicator of a material is negative in just the cells in which it is,
    and the distance to their edge."""
    o = opt(G)
    nX = shape(s)
    dX = spacing(s, nX)
    ls = np.stack([bodies(s, nX, dX) for _ in range(o.LSET)], -1)
    if s.bool(0.7):
        # nested: material k + 1 has a nonnegative level set more than k
        ls = -np.sort(-ls, -1)
        s.label("nested")
    u = s.arr(tuple(nX) + (o.V,))
    u[..., o.V - o.LSET:] = ls
    flat = u.reshape(-1, o.V).copy()
    G.multi.renormalize_levelsets(flat, dX.copy(), ints(*nX))
    ensure((flat[:, :o.V - o.LSET] == u.reshape(-1, o.V)[:, :o.V - o.LSET]).all(),
           "renormalising level sets changed other variables")
    h = dX.max()
    for k in range(o.LSET):
        want, near, odd = march(ls[..., k], dX)
        got = flat[:, o.V - o.LSET + k].reshape(nX)
        if odd:
            got = np.where(near, got, want)
        close(f"level set {k}", got, want, atol=1e-9 * h, rtol=1e-9)
    mat = s.int(0, o.LSET)
    φ = np.full(u[..., 0].size, 7.0)
    G.multi.material_indicator(φ, u.reshape(-1, o.V).copy(), mat, o.LSET + 1, dX.copy(),
                               ints(*nX))
    φ = φ.reshape(nX)
    want, near, odd = indicator(ls, mat, dX)
    s.label(f"material {mat} of {o.LSET + 1}")
    s.note(nX=nX, dX=dX)
    if odd:
        φ = np.where(near, φ, want)
    close("indicator", φ, want, atol=1e-9 * h, rtol=1e-9)
    if (np.diff(ls, axis=-1) <= 0).all() and not (ls == 0).any():
        index = (ls >= 0).sum(-1)
        ensure(((want < 0) == (index == mat)).all(), "indicator of the wrong cells")
        s.label("cells checked")
