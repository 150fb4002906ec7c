"""Predictor, half step and the steps of the two schemes."""

import numpy as np

from pbt import Laws, Skip, close, ensure
from .common import opt
from .c10 import basis
from .c13 import FLUXES, basis_mats
from .fields import RUSANOV, base, ints, noise, pick_flux, sane, time_step

L = Laws("C12")
L.assumptions = [
    "Fluxes, sources and products at points are those of the code (C03, C05); the "
    "schemes are assembled from them by an independent numpy program.",
    "The predictor is compared where fixed-point iteration contracts (factor below 0.5 "
    "on average), to the convergence tolerance of the code, 6e-6 (1 + |q|).",
    "The stiff solver (Newton's method, which may diverge) has absolute tolerances and "
    "finite differences: it is tried on small perturbations, exponents of relaxation up "
    "to 2, and in units in which the variables are within 1e3 of unit size.",
]
VS = ("default", "n3", "thermal", "multi3")
DG_TOL = 6e-6


def rate(G, q, dX, m, o, SOURCES):
    """dq/dt at the nodes of one cell: q (nodes..., V)."""
    w, D, E = basis_mats(o.N)
    par = m.par(G)
    nd = q.ndim - 1
    out = np.zeros_like(q)
    buf = np.zeros(o.V)
    idx = list(np.ndindex(*q.shape[:-1]))
    if SOURCES:
        for i in idx:
            G.system.source(buf, q[i].copy(), par)
            out[i] += buf
    for d in range(nd):
        F = np.zeros_like(q)
        for i in idx:
            buf[:] = 0
            G.system.flux(buf, q[i].copy(), d, par)
            F[i] = buf
        dF = np.moveaxis(np.tensordot(D, F, (1, d)), 0, d)
        dq = np.moveaxis(np.tensordot(D, q, (1, d)), 0, d)
        for i in idx:
            G.system.Bdot(buf, q[i].copy(), dq[i].copy(), d, par)
            out[i] -= (dF[i] + buf) / dX[d]
    return out


_mat = {}


def time_matrix(N):
    """(KW)_tk: the weak form in time of dq/dt = r, q(0) = w, has the solution
    q_t = w + dt sum_k (KW)_tk r_k."""
    if N not in _mat:
        b = basis(N)
        M = np.zeros((N, N))
        for t in range(N):
            for k in range(N):
                I = (b.psi[t].deriv() * b.psi[k]).integ()
                M[t, k] = b.psi[t](1) * b.psi[k](1) - (I(1) - I(0))
        K = np.linalg.inv(M)
        _mat[N] = K @ np.diag(b.w)
    return _mat[N]


def predict(G, w0, dt, dX, m, o):
    """Space-time nodal values (N, nodes..., V), by Picard iteration to
    rounding, or Skip."""
    KW = time_matrix(o.N)
    q = np.repeat(w0[None], o.N, 0)
    ref = 1 + np.abs(w0)
    first = None
    for it in range(40):
        r = np.array([rate(G, q[t], dX, m, o, True) for t in range(o.N)])
        n = w0 + dt * np.tensordot(KW, r, (1, 0))
        if not np.isfinite(n).all():
            raise Skip
        e = (np.abs(n - q) / ref).max()
        q = n
        if first is None:
            first = max(e, 1e-12)
        if e < 1e-12:
            return q
        if it > 2 and e > first * 0.5**it:
            raise Skip
    raise Skip


def run_weno(G, ub, nX, m, o):
    nd = len(nX)
    wh = np.zeros(tuple(n + 2 for n in nX) + (o.N,) * nd + (o.V,))
    flat = wh.ravel()
    G.solvers.weno.weno_launcher(flat, ub.copy().ravel(), ints(*nX), m.par(G))
    return flat.reshape(wh.shape)


def gen(s, G, nmax=(7, 3), amps=(1e-3, 0.03, 0.0), CFL=(0.02, 0.5), **kw):
    o = opt(G)
    m, P, a, Q, sc = base(s, o, **kw)
    nd = s.int(1, 2)
    nX = [s.int(o.N, max(o.N, nmax[nd - 1])) for _ in range(nd)]
    amp = s.choice(amps)
    kind = s.choice(["waves", "noise"])
    s.label(f"{nd}D", kind)
    if kind == "noise":
        u = noise(s, Q, sc, nX, amp, o)
    else:
        x = np.stack(np.meshgrid(*[np.arange(n) / n for n in nX], indexing="ij"), -1)
        k = np.array([s.int(0, 2) for _ in nX])
        ph = s.arr((o.V,), 0, 2 * np.pi)
        u = Q + amp * sc * s.arr((o.V,)) * np.sin(2 * np.pi * (x @ k)[..., None] + ph)
    if o.MULTI:
        u[..., o.mV] = np.clip(u[..., o.mV], 0, u[..., 0])
    sane(u, m, o)
    dX = np.array([s.log(1e-3, 10, 1) for _ in nX])
    if nd == 2:
        dX[1] = dX[0] * s.log(0.3, 3, 1)
    types = []
    for _ in nX:
        types += [1, 1] if s.bool() else [s.int(0, 5), s.int(0, 5)]
    dt, lam = time_step(s, G, u, m, o, dX, s.log(*CFL, 0.2))
    s.note(nX=nX, amp=amp, dX=dX, types=types, dt=dt, kind=kind)
    ub = np.zeros([n + 2 * o.N for n in nX] + [o.V])
    flat = ub.ravel()
    G.boundaries(u.copy().ravel(), flat, ints(*nX), ints(*types))
    ub = flat.reshape(ub.shape)
    return o, m, P, Q, sc, nX, u, ub, dX, dt, types


def full_mask(s, nX):
    """Cells to step and their neighbours, as of extend_mask."""
    m = np.ones([n + 2 for n in nX], bool)
    if s.bool(0.3):
        m &= s.arr(m.shape, 0, 1) < 0.8
        s.label("masked")
    if len(nX) == 2:
        m[0, 0] = m[0, -1] = m[-1, 0] = m[-1, -1] = False
    return m


def edges(q, m, o):
    """Skips unless the nodal values (cells, nodes..., V) and those on faces
    are physical."""
    _, _, E = basis_mats(o.N)
    sane(q, m, o)
    for d in range(q.ndim - 2):
        sane(np.tensordot(E, q, (1, 1 + d)), m, o)


@L.law(quick={"default": 800, "n3": 150, "thermal": 400, "multi3": 150},
       thorough={"default": 20000, "n3": 2000, "thermal": 10000, "multi3": 2500},
       variants=VS)
def ader_step(s, G):
    """The ADER step is the finite volume update of the predictor's solution of
    the weak space-time problem with the reconstruction as its initial state;
    the same whether found by iteration or by the stiff solver."""
    o, m, P, Q, sc, nX, u, ub, dX, dt, types = gen(s, G, nmax=(6, 2))
    mask = full_mask(s, nX)
    FLUX = RUSANOV
    # the stiff solver has absolute tolerances, and is slow in 2D
    STIFF = P < 1e3 and len(nX) == 1 and s.bool()
    s.label("stiff" if STIFF else "iterated")
    wh = run_weno(G, ub, nX, m, o)
    nd = len(nX)
    # the corners are never predicted
    cells = [c for c in np.ndindex(*mask.shape) if mask[c]]
    if not cells:
        raise Skip
    sane(np.array([wh[c] for c in cells]), m, o)
    qh = np.full(mask.shape + (o.N,) + wh.shape[nd:], np.nan)
    for c in cells:
        qh[c] = predict(G, wh[c], dt, dX, m, o)
    good = qh[mask]
    edges(good.reshape((-1,) + good.shape[2:]), m, o)
    want = u.copy().ravel()
    par = m.par(G)
    G.solvers.fv.fv_launcher(want, qh.ravel().copy(), ints(*nX), dt, dX.copy(), True, True,
                             FLUX, par, mask.ravel().copy())
    want = want.reshape(u.shape)
    if not np.isfinite(want).all():
        raise Skip
    got = u.copy().ravel()
    G.solvers.ader_stepper(got, ub.copy().ravel(), ints(*nX), dt, dX.copy(), STIFF, FLUX, par,
                           mask.ravel().copy())
    got = got.reshape(u.shape)
    # sensitivity of the update to the predictor
    e = DG_TOL * (1 + np.abs(good).max(axis=tuple(range(good.ndim - 1))))
    r = (e / sc).max() * sc
    if STIFF:
        r = r * 3
    close("step", got, want, atol=20 * r * 0.5 + 1e-12 * np.abs(u))
    ensure((got[~mask[tuple(slice(1, -1) for _ in nX)]] ==
            u[~mask[tuple(slice(1, -1) for _ in nX)]]).all(), "a cell outside of the mask")


@L.law(quick={"default": 3000, "n3": 500, "thermal": 1500, "multi3": 500},
       thorough={"default": 60000, "n3": 10000, "thermal": 30000, "multi3": 10000},
       variants=VS)
def half_step(s, G):
    """The half step adds to the nodal values of every masked cell dt/2 times
    the homogeneous rate of change there; others are left alone."""
    o, m, P, Q, sc, nX, u, ub, dX, dt, types = gen(s, G)
    mask = full_mask(s, nX)
    wh = run_weno(G, ub, nX, m, o)
    nd = len(nX)
    wh[~mask] = np.nan
    want = wh.copy()
    size = np.zeros_like(wh)
    for c in np.ndindex(*mask.shape):
        if mask[c]:
            r = rate(G, wh[c], dX, m, o, False)
            if not np.isfinite(r).all():
                raise Skip
            want[c] += dt / 2 * r
            size[c] = dt / 2 * np.abs(r)
    got = wh.ravel().copy()
    G.solvers.split.midstepper(got, dt, dX.copy(), m.par(G), mask.ravel().copy())
    got = got.reshape(wh.shape)
    flux = np.zeros(o.V)
    for d in range(nd):
        f = np.zeros(o.V)
        G.system.flux(f, Q.copy(), d, m.par(G))
        flux += np.abs(f) * dt / dX[d]
    tol = 1e-11 * (np.abs(want) + sc + size + 10 * flux)
    close("half step", got[mask], want[mask], atol=tol[mask])
    ensure(np.isnan(got[~mask]).all(), "a cell outside of the mask was stepped")


@L.law(quick={"default": 2500, "n3": 300, "thermal": 1200, "multi3": 400},
       thorough={"default": 50000, "n3": 6000, "thermal": 25000, "multi3": 8000},
       variants=VS)
def split_step(s, G):
    """The split step is half a step of the ODEs, a step of the finite volume
    scheme without sources on the (half-stepped) reconstruction, and half a step
    of the ODEs."""
    o, m, P, Q, sc, nX, u, ub, dX, dt, types = gen(s, G)
    mask = full_mask(s, nX)
    HALF = s.bool()
    FLUX = pick_flux(s, P)
    s.label("half step" if HALF else "no half step", FLUXES[FLUX])
    par = m.par(G)
    want, ubw = u.copy().ravel(), ub.copy().ravel()
    sp = G.solvers.split
    sp.ode_launcher(want, dt / 2, par)
    sp.ode_launcher(ubw, dt / 2, par)
    if not (np.isfinite(want).all() and np.isfinite(ubw).all()):
        raise Skip
    wh = run_weno(G, ubw.reshape(ub.shape), nX, m, o)
    flat = wh.ravel()
    if HALF:
        sp.midstepper(flat, dt, dX.copy(), par, mask.ravel().copy())
    edges(flat.reshape(wh.shape)[mask], m, o)
    G.solvers.fv.fv_launcher(want, flat, ints(*nX), dt, dX.copy(), False, False, FLUX, par,
                             mask.ravel().copy())
    sp.ode_launcher(want, dt / 2, par)
    if not np.isfinite(want).all():
        raise Skip
    got = u.copy().ravel()
    G.solvers.split_stepper(got, ub.copy().ravel(), ints(*nX), dt, dX.copy(), HALF, FLUX, par,
                            mask.ravel().copy())
    close("step", got.reshape(u.shape), want.reshape(u.shape),
          atol=1e-12 * (np.abs(u) + sc))
