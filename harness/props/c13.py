"""The finite volume update."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import opt
from .c10 import basis
from .fields import RUSANOV, ROE, OSHER, base, ints, mirror, noise, permute, pick_flux, sane

L = Laws("C13")
L.assumptions = [
    "Interface fluxes, jump terms, sources and non-conservative products are those "
    "of the code (C03, C05, C09 compare them with the model); here they are "
    "assembled into the update by an independent numpy program.",
]
VS = ("default", "n3", "thermal", "multi3")
FLUXES = {RUSANOV: "D_RUS", ROE: "D_ROE", OSHER: "D_OSH"}


def basis_mats(N):
    b = basis(N)
    D = np.array([[p.deriv()(x) for p in b.psi] for x in b.x])
    E = np.array([[p(e) for p in b.psi] for e in (0.0, 1.0)])
    return b.w, D, E


def gen_grid(s, G, nmax=(7, 4), free=False):
    """Nodal values of nX+2 cells: (cells..., nt, nodes..., V)."""
    o = opt(G)
    m, P, a, Q, sc = base(s, o)
    nd = s.int(1, 2)
    nX = [s.int(1, nmax[nd - 1]) for _ in range(nd)]
    TIME = s.bool()
    nt = o.N if TIME else 1
    amp = 0.0 if free else s.choice([0.0, 1e-3, 0.03])
    shape = tuple(n + 2 for n in nX) + (nt,) + (o.N,) * nd
    rec = noise(s, Q, sc, shape, amp, o)
    if amp:
        ends(rec, nd, m, o)
    dX = np.array([s.log(1e-3, 10, 1) for _ in nX])
    dt = s.log(1e-6, 1, 0.1) * dX.min() / np.sqrt(P / m.ρ0)
    s.note(nX=nX, TIME=TIME, amp=amp, dX=dX, dt=dt)
    s.label(f"{nd}D", "in time" if TIME else "half step")
    return o, m, P, Q, sc, nX, TIME, rec, dX, dt


def ends(rec, nd, m, o):
    """Skips unless nodal and interface values are all physical."""
    _, _, E = basis_mats(o.N)
    sane(rec, m, o)
    for d in range(nd):
        sane(np.tensordot(E, rec, (1, nd + 1 + d)), m, o)


def gen_mask(s, nX):
    shape = tuple(n + 2 for n in nX)
    k = s.choice(["all", "random", "half", "sparse"])
    s.label("mask " + k)
    if k == "all":
        return np.ones(shape, bool)
    x = s.arr(shape, 0, 1)
    if k == "half":
        c = s.int(0, shape[0])
        m = np.zeros(shape, bool)
        m[c:] = True
        return m
    return x < (0.8 if k == "random" else 0.3)


def launch(G, u, rec, nX, dt, dX, SOURCES, TIME, FLUX, m, mask):
    u = u.copy().ravel()
    G.solvers.fv.fv_launcher(u, rec.ravel().copy(), ints(*nX), dt, np.array(dX, float),
                             SOURCES, TIME, FLUX, m.par(G), mask.ravel().copy())
    return u.reshape(tuple(nX) + (-1,))


def update(G, rec, nX, dt, dX, SOURCES, FLUX, m, mask, o):
    """The increments, and the sum of the sizes of what was added."""
    w, D, E = basis_mats(o.N)
    par = m.par(G)
    nd = len(nX)
    nt = rec.shape[nd]
    wt = w if nt > 1 else [1.0]
    du = np.zeros(tuple(nX) + (o.V,))
    sz = np.zeros_like(du)
    flux = getattr(G.solvers.fv, FLUXES[FLUX])
    Bint = G.solvers.fv.Bint

    def inside(c):
        return all(0 <= k < n for k, n in zip(c, nX))

    def add(c, x):
        du[c] += x
        sz[c] += np.abs(x)

    def size(c, x):
        sz[c] += np.abs(x)

    buf = np.zeros(o.V)
    for c in np.ndindex(*mask.shape):
        if not mask[c]:
            continue
        c0 = tuple(k - 1 for k in c)
        for t in range(nt):
            q = rec[c][t]                        # nodes..., V
            if inside(c0):
                for nodes in np.ndindex(*q.shape[:-1]):
                    wn = dt * wt[t] * np.prod([w[i] for i in nodes])
                    qs = q[nodes].copy()
                    if SOURCES:
                        G.system.source(buf, qs, par)
                        add(c0, wn * buf)
                    for d in range(nd):
                        line = q[nodes[:d] + (slice(None),) + nodes[d + 1:]]
                        G.system.Bdot(buf, qs, D[nodes[d]] @ line, d, par)
                        add(c0, -wn / dX[d] * buf)
            for d in range(nd):
                cr = c[:d] + (c[d] + 1,) + c[d + 1:]
                if cr[d] >= mask.shape[d] or not mask[cr]:
                    continue
                cr0 = tuple(k - 1 for k in cr)
                if not inside(c0) and not inside(cr0):
                    continue
                ql = np.tensordot(E[1], q, (0, d)).reshape(-1, o.V)
                qr = np.tensordot(E[0], rec[cr][t], (0, d)).reshape(-1, o.V)
                for s in range(len(ql)):
                    ws = w[s] if nd > 1 else 1.0
                    k = dt * wt[t] * ws / (2 * dX[d])
                    f = flux(ql[s].copy(), qr[s].copy(), d, par)
                    b = Bint(ql[s].copy(), qr[s].copy(), d, par)
                    if inside(c0):
                        add(c0, -k * f)
                        add(c0, -k * b)
                    if inside(cr0):
                        add(cr0, k * f)
                        add(cr0, -k * b)
    if FLUX != RUSANOV:
        # conditioning of the eigenvectors, in the units of the code
        sz += 1e3 * sz.max(-1, keepdims=True)
    return du, sz


@L.law(quick={"default": 2400, "n3": 500, "thermal": 1200, "multi3": 400},
       thorough={"default": 40000, "n3": 8000, "thermal": 16000, "multi3": 6000},
       variants=VS)
def is_the_update(s, G):
    """The increments of every cell are the integrals of sources and smooth
    non-conservative products, minus those of fluxes and jump terms of its
    interfaces with masked cells; cells outside of the mask are neither changed
    nor read."""
    o, m, P, Q, sc, nX, TIME, rec, dX, dt = gen_grid(s, G, (7, 3))
    SOURCES = s.bool()
    FLUX = pick_flux(s, P)
    s.label(FLUXES[FLUX])
    mask = gen_mask(s, nX)
    s.note(mask=mask.astype(int), FLUX=FLUX, SOURCES=SOURCES)
    if not mask.any():
        raise Skip
    u = noise(s, Q, sc, nX, 0.1, o)
    du, sz = update(G, rec, nX, dt, dX, SOURCES, FLUX, m, mask, o)
    if not np.isfinite(du).all():
        raise Skip
    dirty = rec.copy()
    dirty[~mask] = np.nan
    got = launch(G, u, dirty, nX, dt, dX, SOURCES, TIME, FLUX, m, mask)
    inner = mask[tuple(slice(1, -1) for _ in nX)]
    close("increment", got - u, du, atol=1e-9 * sz + 1e-14 * np.abs(u) + 1e-300)
    ensure((got[~inner] == u[~inner]).all(), "a cell outside of the mask was changed")


@L.law(quick={"default": 1500, "n3": 300, "thermal": 800, "multi3": 300},
       thorough={"default": 40000, "n3": 8000, "thermal": 20000, "multi3": 6000},
       variants=VS)
def conservation(s, G):
    """On a periodic grid the update without sources keeps the totals of mass,
    momentum, energy and reactant; with sources it changes those of momentum by
    the body force and keeps mass and energy."""
    o, m, P, Q, sc, nX, TIME, rec, dX, dt = gen_grid(s, G, (8, 4))
    FLUX = pick_flux(s, P)
    SOURCES = s.bool()
    s.label(FLUXES[FLUX])
    nd = len(nX)
    for d in range(nd):
        r = np.moveaxis(rec, d, 0)
        r[0], r[-1] = r[-2], r[1]
    mask = np.ones([n + 2 for n in nX], bool)
    u = np.zeros(tuple(nX) + (o.V,))
    got = launch(G, u, rec, nX, dt, dX, SOURCES, TIME, FLUX, m, mask)
    vars_ = [0, 1, 2, 3, 4]
    if o.MULTI and not (SOURCES and m.REACTION > -1):
        vars_.append(o.mV)
    want = np.zeros(o.V)
    if SOURCES:
        want[2:5] = dt * np.prod(nX) * np.asarray(m.δp)
    axes = tuple(range(nd))
    tot = got.sum(axis=axes)
    size = np.abs(got).sum(axis=axes) + np.abs(want)
    qmax = np.abs(rec).max(axis=tuple(range(rec.ndim - 1)))
    c = np.sqrt(P / m.ρ0) * 10
    size = size + np.prod(nX) * np.sum(dt / dX) * c * np.maximum(qmax, sc)
    if not np.isfinite(got[..., vars_]).all():
        raise Skip
    close("total", tot[vars_], want[vars_], atol=1e-10 * size[vars_])


@L.law(quick={"default": 1500, "n3": 300, "thermal": 800, "multi3": 300},
       thorough={"default": 40000, "n3": 8000, "thermal": 20000, "multi3": 6000},
       variants=VS)
def free_stream(s, G):
    """A uniform field is changed by its sources only, exactly."""
    o, m, P, Q, sc, nX, TIME, rec, dX, dt = gen_grid(s, G, (8, 4), free=True)
    FLUX = pick_flux(s, P)
    SOURCES = s.bool()
    s.label(FLUXES[FLUX])
    mask = np.ones([n + 2 for n in nX], bool)
    u = np.zeros(tuple(nX) + (o.V,))
    got = launch(G, u, rec, nX, dt, dX, SOURCES, TIME, FLUX, m, mask)
    want = np.zeros(o.V)
    if SOURCES:
        S = np.zeros(o.V)
        G.system.source(S, Q.copy(), m.par(G))
        if not np.isfinite(S).all():
            raise Skip
        want = dt * S
    f = np.abs(np.array([R.flux(Q, d, m, o) for d in range(len(nX))])).T @ (dt / dX)
    f += np.sum(dt / dX) * np.sqrt(P / m.ρ0) * 10 * np.maximum(sc, np.abs(Q))
    close("increment", got, np.broadcast_to(want, got.shape),
          atol=1e-10 * f + 1e-10 * np.abs(want))


@L.law(quick={"default": 1200, "n3": 250, "thermal": 600, "multi3": 200},
       thorough={"default": 30000, "n3": 6000, "thermal": 15000, "multi3": 5000},
       variants=VS)
def symmetries(s, G):
    """Mirrored data give the mirrored update; in 2D, exchanged axes the
    exchanged update; and data uniform along an axis the 1D update."""
    o, m, P, Q, sc, nX, TIME, rec, dX, dt = gen_grid(s, G, (7, 3))
    SOURCES = False
    FLUX = pick_flux(s, P)
    s.label(FLUXES[FLUX])
    mask = gen_mask(s, nX)
    nd = len(nX)
    u = np.zeros(tuple(nX) + (o.V,))
    ref = launch(G, u, rec, nX, dt, dX, SOURCES, TIME, FLUX, m, mask)
    if not np.isfinite(ref).all():
        raise Skip
    qmax = np.abs(rec).max(axis=tuple(range(rec.ndim - 1)))
    tol = (1e-10 if FLUX == RUSANOV else 1e-7) * np.sum(dt / dX) * (
        np.sqrt(P / m.ρ0) * 10 * np.maximum(sc, qmax) +
        np.abs(np.array([R.flux(Q, d, m, o) for d in range(3)])).max(0))
    tol = tol + 1e-9 * np.abs(ref)
    d = s.int(0, nd - 1)
    sg = mirror(d, o)
    got = launch(G, u, sg * np.flip(rec, (d, nd + 1 + d)), nX, dt, dX, SOURCES, TIME, FLUX, m,
                 np.flip(mask, d))
    close(f"mirrored in {d}", np.flip(sg * got, d), ref, atol=tol)
    if nd == 2:
        I = permute((1, 0, 2), o)
        r = rec.transpose(1, 0, 2, 4, 3, 5)[..., I]
        got = launch(G, u.transpose(1, 0, 2), r, nX[::-1], dt, dX[::-1], SOURCES, TIME, FLUX, m,
                     mask.T)
        close("exchanged", got[..., I].transpose(1, 0, 2), ref, atol=tol)
    else:
        ny = s.int(1, 3)
        r = np.repeat(rec[:, None], ny + 2, 1)
        r = np.repeat(r[..., None, :], o.N, r.ndim - 1)
        got = launch(G, np.zeros((nX[0], ny, o.V)), r, nX + [ny], dt,
                     [dX[0], s.log(0.1, 10, 1) * dX[0]], SOURCES, TIME, FLUX, m,
                     np.repeat(mask[:, None], ny + 2, 1))
        # the fluxes along y cancel, to rounding
        close("uniform in y", got, np.repeat(ref[:, None], ny, 1), atol=20 * tol.max(0))
