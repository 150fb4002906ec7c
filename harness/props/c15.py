"""Ghost cells of the boundary conditions, and the cells to be predicted."""

import os

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import opt
from .fields import base, ints, mirror, noise, sane

L = Laws("C15", 2)
VS = ("default", "n3", "thermal", "multi3", "destress")
TRANSMISSIVE, PERIODIC, SLIP, STICK, MOVING, SYMMETRIC = range(6)
NAMES = ["transmissive", "periodic", "slip", "stick", "moving", "symmetric"]
SLOW = 1e-13
DESTRESS = os.environ.get("VERIF_VARIANT") == "destress"


def ghost(G, q, kind, d, o):
    """The state that stands beyond a wall for the state q."""
    g = q.copy()
    if kind == SLIP:
        g[..., 2 + d] *= -1
    elif kind == STICK:
        g[..., 2:5] *= -1
    elif kind == MOVING:
        # the wall moves along x with unit speed: the mean of the velocities
        g[..., 2:5] *= -1
        g[..., 2] += 2 * q[..., 0]
        g[..., 1] += ((g[..., 2:5]**2).sum(-1) - (q[..., 2:5]**2).sum(-1)) / (2 * q[..., 0])
    elif kind == SYMMETRIC:
        g = g * mirror(d, o)
    if DESTRESS and kind in (SLIP, STICK, MOVING):
        A = q[..., 5:14].reshape(-1, 3, 3)
        U, _, Vt = np.linalg.svd(A)
        Ag = 2 * np.cbrt(np.linalg.det(A))[:, None, None] * (U @ Vt) - A
        g[..., 5:14] = Ag.reshape(g.shape[:-1] + (9,))
    return g


def extend(G, u, axis, types, d, o):
    """u, with N cells added at either end of the axis."""
    N = o.N
    u = np.moveaxis(u, axis, 0)
    n = len(u)
    out = np.full((n + 2 * N,) + u.shape[1:], np.nan)
    out[N:-N] = u
    for k in range(1, N + 1):
        for side, kind in enumerate(types):
            g = N - k if side == 0 else N + n - 1 + k       # k-th cell beyond the end
            if kind == TRANSMISSIVE:
                c = 0 if side == 0 else n - 1
            elif kind == PERIODIC:
                c = (g - N) % n
            else:
                c = k - 1 if side == 0 else n - k
            out[g] = ghost(G, u[c], kind, d, o)
    return np.moveaxis(out, 0, axis)


def gen(s, G, nd=None, lo=None):
    o = opt(G)
    m, P, a, Q, sc = base(s, o)
    nd = nd or s.int(1, 2)
    nX = [s.int(o.N, (9, 6)[nd - 1] + o.N) for _ in range(nd)]
    u = noise(s, Q, sc, nX, 0.1 if DESTRESS else 0.3, o)
    if DESTRESS:
        A = u[..., 5:14].reshape(-1, 3, 3)
        sv = np.linalg.svd(A)[1] / np.cbrt(np.maximum(np.linalg.det(A), 1e-30))[:, None]
        if sv.max() > 1.6:
            raise Skip
    types = [s.int(0, 5) for _ in range(2 * nd)]
    s.note(nX=nX, types=[NAMES[t] for t in types])
    s.label(*[NAMES[t] for t in types])
    return o, m, nX, u, types, sc


def fill(G, u, nX, types, o):
    ub = np.full([n + 2 * o.N for n in nX] + [o.V], np.nan)
    flat = ub.ravel()
    uu = u.copy().ravel()
    G.boundaries(uu, flat, ints(*nX), ints(*types))
    ensure((uu == u.ravel()).all(), "the field itself was changed")
    return flat.reshape(ub.shape)


@L.law(quick={"default": 6000, "n3": 3000, "thermal": 3000, "multi3": 2000, "destress": 4000},
       thorough={"default": 150000, "n3": 80000, "thermal": 80000, "multi3": 60000,
                 "destress": 100000},
       variants=VS)
def ghost_cells(s, G):
    """Every ghost cell has the state of its boundary condition, in any
    combination of conditions; the field is copied."""
    o, m, nX, u, types, sc = gen(s, G)
    got = fill(G, u, nX, types, o)
    want = u
    for d in range(len(nX)):
        want = extend(G, want, d, types[2 * d:2 * d + 2], d, o)
    inner = tuple(slice(o.N, -o.N) for _ in nX)
    ensure((got[inner] == u).all(), "the field was not copied")
    close("ghost cells", got, want, atol=SLOW * (np.abs(want) + sc))


@L.law(quick={"default": 5000, "n3": 1000, "thermal": 3000, "multi3": 2000},
       thorough={"default": 100000, "n3": 20000, "thermal": 60000, "multi3": 40000},
       variants=("default", "n3", "thermal", "multi3"))
def walls_do_no_work(s, G):
    """Beyond walls and symmetry planes, density, pressure and temperature are
    those of the mirrored cells; at a wall the mean of the two velocities is the
    wall's (along the normal, if it slips)."""
    o = opt(G)
    m, P, a, Q, sc = base(s, o)
    n = s.int(o.N, 8)
    u = noise(s, Q, sc, [n], 0.03, o)
    sane(u, m, o)
    types = [s.int(SLIP, SYMMETRIC), s.int(SLIP, SYMMETRIC)]
    s.note(types=types)
    s.label(*[NAMES[t] for t in types])
    d = s.int(0, 1)
    if d == 0:
        ub = fill(G, u, [n], types, o)
    else:
        k = s.int(o.N, o.N + 2)
        ub = fill(G, np.repeat(u[None], k, 0), [k, n], [0, 0] + types, o)[o.N + 1]
    par = m.par(G)
    var = G.system.variables
    for side, t in enumerate(types):
        for k in range(o.N):
            i, g = (o.N + k, o.N - 1 - k) if side == 0 else (o.N + n - 1 - k, o.N + n + k)
            q, r = ub[i].copy(), ub[g].copy()
            if q[0] != r[0]:
                ensure(False, f"density beyond the {NAMES[t]} boundary")
            pq, pr = var.pressure(q, par), var.pressure(r, par)
            sp = abs(pq) + R.gamma(q[0], m) * (abs(q[1]) + q[0] * abs(R.e_ref(q[0], m)))
            if t == MOVING:
                sp += R.gamma(q[0], m) * q[0] * (1 + (r[2:5] @ r[2:5] + q[2:5] @ q[2:5]) / q[0]**2)
            close(f"pressure beyond the {NAMES[t]} boundary", pr, pq, rtol=0, atol=1e-11 * sp)
            v, w = q[2:5] / q[0], r[2:5] / r[0]
            mean = 0.5 * (v + w)
            e = 1e-13 * (1 + np.abs(v).max())
            if t in (SLIP, SYMMETRIC):
                want = v.copy()
                want[d] = 0
            else:
                want = np.array([1.0, 0, 0]) if t == MOVING else np.zeros(3)
            close(f"velocity of the {NAMES[t]} boundary", mean, want, rtol=0, atol=e)


@L.law(quick={"default": 8000, "n3": 3000}, thorough={"default": 200000, "n3": 60000},
       variants=("default", "n3"))
def extended_mask(s, G):
    """The masked cells and all that share a face with them, ghosts included,
    are marked; nothing is marked that does not share a face with a marked cell;
    nor are the corners."""
    nd = s.int(1, 2)
    nX = [s.int(1, (12, 7)[nd - 1]) for _ in range(nd)]
    x = s.arr(nX, 0, 1)
    mask = x < s.choice([0.1, 0.5, 0.02, 0.9, 2.0])
    got = s.choice([np.zeros, np.ones])([n + 2 for n in nX], bool)
    flat = got.ravel().copy()
    s.note(nX=nX, mask=mask.astype(int))
    if not mask.any():
        s.trivial()
    G.extend_mask(mask.ravel().copy(), flat, ints(*nX))
    got = flat.reshape(got.shape)

    def near(m):
        r = m.copy()
        for d in range(nd):
            for k in (1, -1):
                z = np.roll(m, k, d)
                e = [slice(None)] * nd
                e[d] = 0 if k == 1 else -1
                z[tuple(e)] = False
                r |= z
        return r

    big = np.pad(mask, 1)
    need = near(big)
    ensure(got[need].all(), lambda: f"cells {np.argwhere(need & ~got).tolist()} are needed")
    inner = tuple(slice(1, -1) for _ in nX)
    ensure((got[inner] == need[inner]).all(),
           lambda: f"cells {np.argwhere(got & ~need).tolist()} are not needed")
    ensure(not (got & ~near(need)).any(),
           lambda: f"cells {np.argwhere(got & ~near(need)).tolist()} are not near the mask")
    if nd == 2:
        ensure(not (got[0, 0] or got[0, -1] or got[-1, 0] or got[-1, -1]), "a corner is marked")


@L.law(quick={"default": 1000}, thorough={"default": 20000})
def sizes(s, G):
    """extended_dimensions counts the cells of a grid extended on every side."""
    nX = [s.int(1, 40) for _ in range(s.int(1, 3))]
    e = s.int(0, 6)
    want = int(np.prod([n + 2 * e for n in nX]))
    ensure(G.solvers.extended_dimensions(ints(*nX), e) == want, "size")
