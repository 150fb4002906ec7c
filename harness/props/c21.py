"""Whole runs: of several materials, and under the symmetries of the model."""

import os

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .c17 import scene
from .c20 import gen_run, step_model
from .common import EOS_ALL, opt, rheology
from .fields import RUSANOV, base, ints, mirror, noise, permute, pick_flux, sane

L = Laws("C21")
L.assumptions = [
    "Ghost cells, star states and single steps of runs of several materials are those of the "
    "code (C12, C14, C15, C17, C18): their runs are put together from them anew.",
]
VARIANT = os.environ.get("VERIF_VARIANT")
NONE = np.inf       # no distortion is contorted


def iterate(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, FLUX, pars, tol=NONE, STIFF=False):
    """The final state of a run, and the number of its frames."""
    ret = G.solvers.iterator(u.ravel().copy(), float(tf), ints(*nX), np.array(dX, float), CFL,
                             ints(*types), SPLIT, HALF, STIFF, FLUX, pars, tol)
    return [np.array(f) for f in ret]


def final(G, u, *args, **kw):
    f = iterate(G, u, *args, **kw)[99]
    if f.size != u.size or not np.isfinite(f).all():
        raise Skip
    return f.reshape(u.shape)


# -- several materials -----------------------------------------------------------

def run_model(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, FLUX, pars, vac, o):
    """The frames of a run of LSET + 1 materials."""
    u = u.ravel().copy()
    t, dt, count, push = 0.0, 0.0, 0, 0
    n = int(np.prod(nX))
    frames = [None] * 100
    grids = [u.copy() for _ in pars]
    masks = [np.ones(n, bool) for _ in pars]
    ext = int(np.prod([k + 2 * o.N for k in nX]))
    while t < tf:
        prev = u.copy()
        gv, mv = G.VectorVec(grids), G.VectorbVec(masks)
        G.multi.fill_ghost_cells(gv, mv, u, ints(*nX), dX.copy(), dt, pars)
        grids, masks = [np.array(g) for g in gv], [np.array(k) for k in mv]
        dt = step_model(G, [g.reshape(-1, o.V) for g in grids], masks, dX, CFL, t, tf, count,
                        pars, vac)
        if not 0 < dt < np.inf:
            raise Skip
        for k, par in enumerate(pars):
            if k in vac:
                continue
            ub = np.zeros(ext * o.V)
            mb = np.zeros(int(np.prod([i + 2 for i in nX])), bool)
            G.boundaries(grids[k].copy(), ub, ints(*nX), ints(*types))
            G.extend_mask(masks[k].copy(), mb, ints(*nX))
            if SPLIT:
                G.solvers.split_stepper(grids[k], ub, ints(*nX), dt, dX.copy(), HALF, FLUX, par,
                                        mb)
            else:
                G.solvers.ader_stepper(grids[k], ub, ints(*nX), dt, dX.copy(), False, FLUX, par,
                                       mb)
        # the grid of all materials
        w = u.reshape(-1, o.V)
        p = o.V - o.LSET
        M = np.array(masks)
        gs = np.array(grids).reshape(len(pars), -1, o.V)
        for i in range(n):
            if M[:, i].any():
                acc = np.zeros(o.LSET)
                for k in np.nonzero(M[:, i])[0]:
                    acc = acc + gs[k, i, p:]
                w[i, p:] = acc / float(M[:, i].sum())
            k = int((w[i, p:] >= 0).sum())
            w[i, :p] = 0.0 if k in vac else gs[k, i, :p]
        if o.MULTI:
            w[:, o.mV] = np.maximum(np.minimum(w[:, o.mV], w[:, 0]), 0.0)
        t += dt
        count += 1
        G.solvers.renorm_distortion(u, pars)
        if t >= (push + 1) / 100 * tf:
            frames[push] = u.copy()
            push += 1
        if np.isnan(u).any():
            push = min(push, 98)
            frames[push], frames[push + 1] = prev, u
            return frames, count, True
        if count > 60:
            raise Skip
    frames[99] = u
    return frames, count, False


@L.law(quick={"lset1": 300, "default": 250, "lset3": 100, "multi": 100},
       thorough={"lset1": 10000, "default": 10000, "lset3": 4000, "multi": 4000},
       variants=("lset1", "default", "lset3", "multi"))
def several(s, G):
    """A run of several materials is a sequence of steps: ghost cells are
    filled, every material but vacuum is stepped alone, by the smallest of their time
    steps, and the grid is put together again."""
    o, ms, pars, vac, nX, dX, u = scene(s, G, big=6, amp=0.01, alike=True)
    lam = 0.0
    index = (u[..., o.V - o.LSET:] >= 0).sum(-1)
    for i in np.ndindex(*nX):
        if index[i] not in vac:
            lam = max(lam, sum(G.system.max_abs_eigs(u[i].copy(), d, pars[index[i]]) / dX[d]
                               for d in range(len(nX))))
    if not 0 < lam < np.inf:
        raise Skip
    for m in ms:
        m.δp = m.δp * 0.01
    pars = [p if k in vac else ms[k].par(G) for k, p in enumerate(pars)]
    CFL = s.log(0.02, 0.6, 0.3)
    tf = s.float(0.1, 7) * CFL / lam
    types = []
    for _ in nX:
        types += [1, 1] if s.bool() else [s.choice([0, 2, 3, 5]), s.choice([0, 2, 3, 5])]
    SPLIT = s.bool(0.9) or any(not m.SOLID for m in ms)
    HALF = s.bool()
    FLUX = RUSANOV
    s.note(CFL=CFL, types=types, SPLIT=SPLIT, HALF=HALF)
    want, steps, nan = run_model(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, FLUX, pars, vac, o)
    got = iterate(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, FLUX, pars)
    s.label("nan" if nan else "finite", f"{steps} steps", "split" if SPLIT else "ader")
    if len(set(index.ravel()) - vac) < 2:
        s.label("one material")
    for i in range(100):
        if want[i] is None:
            ensure(got[i].size == 0, f"frame {i} should be empty")
            continue
        ensure(got[i].size == u.size, f"frame {i} is missing ({steps} steps)")
        w = want[i]
        bad = ~((got[i] == w) | (np.isnan(got[i]) & np.isnan(w)))
        if not np.isfinite(w).all():
            bad = np.isnan(got[i]) != np.isnan(w)
        ensure(not bad.any(), lambda: f"frame {i} of {steps} steps differs at cells "
               f"{np.unique(np.nonzero(bad)[0] // o.V)[:6]}")


@L.law(quick={"lset1": 300, "default": 300},
       thorough={"lset1": 8000, "default": 8000}, variants=("lset1", "default"))
def absent(s, G):
    """The parameters of a material that occurs nowhere do not matter, nor does
    which of the materials it is that fills the domain."""
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf = gen_run(s, G, unstable=False)
    SPLIT, HALF = True, s.bool()
    p = o.V - o.LSET
    tf *= min(1, 20 / max(s.notes["steps"], 1)) * s.choice([1, 0.2])
    types = [2 if k == 4 else k for k in types]     # lids may speed up the flow at any rate

    def go(k, others):
        v = u.copy()
        v[..., p:] = -1.0 - np.arange(o.LSET)
        if k:
            v[..., p:p + k] = 1.0 + np.arange(k)
        pars = list(others)
        pars[k] = m.par(G)
        r = iterate(G, v, tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars)[99]
        if r.size != u.size or not np.isfinite(r).all():
            raise Skip
        return r.reshape(u.shape)[..., :p]

    def some():
        return [R.vacuum(G) if s.bool(0.2) else R.gen_material(s, opt=o)[0].par(G)
                for _ in range(o.LSET + 1)]
    k = s.int(0, o.LSET)
    a = go(0, some())
    b = go(k, some())
    s.label(f"as material {k}")
    ensure((a == b).all(), lambda: f"runs differ by {np.abs(a - b).max()}")


@L.law(quick={"lset1": 300, "default": 200},
       thorough={"lset1": 10000, "default": 8000}, variants=("lset1", "default"))
def contact(s, G):
    """Interfaces between unstressed materials at the same pressure and velocity
    are carried along: pressure and velocity stay uniform, each material
    keeps its state, and interfaces end where the velocity takes them."""
    o = opt(G)
    n = s.int(12, 40)
    dx = s.log(1e-2, 10, 1)
    nmat = o.LSET + 1
    ms, st = [], []
    p = v = None
    SPLIT = s.bool(0.75)
    c = 0.0
    for k in range(nmat):
        for _ in range(6):
            m, P = R.gen_material(s, kinds=EOS_ALL, opt=o,
                                    rheology=None if SPLIT else "elastic")
            if k == 0:
                P0 = P
            if 1e-3 < P / P0 < 1e3:
                break
        else:
            raise Skip
        m.δp = np.zeros(3)
        lo, hi = R.rho_range(m)
        ρ = m.ρ0 * s.float(lo, hi, 1.0)
        if p is None:
            x = R.gen_state(s, m, P, o, strain=0.0)
            ρ, p = x.ρ, x.p
            v = np.sqrt(P / m.ρ0) * s.choice([2.0, 0.5, -2.0]) * s.float(0.2, 1, 0.5) * np.array([1.0, 0, 0])
        A = np.eye(3) * np.cbrt(ρ / m.ρ0)
        if R.temp(ρ, p, m) <= 0 or not R.c0sq(ρ, p, A, m) > 1e-3 * P / m.ρ0:
            raise Skip
        ms.append(m)
        st.append(R.S(ρ, p, v, A, λ=0.5))
        c = max(c, abs(v[0]) + np.sqrt(R.c0sq(ρ, p, A, m) + 4 * R.cs2(ρ, m)))
        if ρ * R.gamma(ρ, m) * 1e-15 * abs(R.energy(st[-1], m, o)) > 1e-8 * P0:
            raise Skip
    if s.bool(0.3):
        v[0] = 0.0
        s.label("at rest")
    # interfaces, from left to right: material k lies left of the k-th
    cuts = []
    at = 4.0
    for k in range(o.LSET):
        at += s.float(0, (n - 8 - at) / (o.LSET - k), 0.5) if n - 8 - at > 0 else 0
        cuts.append(at * dx)
        at += 4.0
    if at > n:
        raise Skip
    x = (np.arange(n) + 0.5) * dx
    u = np.zeros((n, o.V))
    ls = np.stack([x - a for a in cuts[::-1]][::-1], -1)
    ls = -np.sort(-ls, -1)
    index = (ls >= 0).sum(-1)
    for k in range(nmat):
        u[index == k] = R.cons(st[k].copy(ls=np.zeros(o.LSET)), ms[k], o)
    u[:, o.V - o.LSET:] = ls
    CFL = s.log(0.1, 0.8, 0.4)
    if not SPLIT:
        CFL *= 0.25
    tf = s.int(1, 40) * CFL * dx / c
    HALF = s.bool()
    s.note(n=n, dx=dx, cuts=cuts, p=p, v=v[0], CFL=CFL)
    got = final(G, u, tf, [n], [dx], CFL, [0, 0], SPLIT, HALF, RUSANOV,
                [m.par(G) for m in ms])
    ls2 = got[:, o.V - o.LSET:]
    k2 = (ls2 >= 0).sum(-1)
    want = (x[:, None] - np.array(cuts) - v[0] * tf >= 0).sum(-1)
    near = np.abs(x[:, None] - np.array(cuts) - v[0] * tf).min(-1) < 0.6 * dx
    far = near | (x < 3 * dx) | (x > (n - 3) * dx)
    bad = (k2 != want) & ~far
    ensure(not bad.any(), lambda: f"cells {np.nonzero(bad)[0][:5]} changed material")
    for i in range(n):
        m, y = ms[k2[i]], st[k2[i]]
        q = R.prim(got[i], m, o)
        e = (1e-7 if SPLIT else 1e-5) * P0 + 1e-9 * abs(p)
        cc = np.sqrt(R.c0sq(y.ρ, y.p, y.A, m))
        close(f"pressure of cell {i}", q.p, p, atol=e)
        close(f"velocity of cell {i}", q.v, y.v, rtol=1e-9, atol=e / P0 * c)
        close(f"density of cell {i}", q.ρ, y.ρ, rtol=1e-7 + 3 * e / (y.ρ * cc * cc))
    s.label(f"{int(abs(v[0]) * tf / dx)} cells", "split" if SPLIT else "ader")


# -- symmetries ------------------------------------------------------------------

def size(u, sc):
    return np.abs(u).max(tuple(range(u.ndim - 1))) + sc


def loose(m, SPLIT, steps):
    """The tolerance of a comparison: the relaxation of small strains loses half of
    the digits, and that of plastic materials may be of any steepness."""
    if rheology(m) == "plastic":
        raise Skip
    return (1e-6 if rheology(m) == "elastic" else 1e-4) + (0 if SPLIT else 1e-5 * (steps + 6))


VS = ("lset0", "n3", "thermal", "multi3")


def setup(s, G, relaxing=False, **kw):
    """Relaxing materials are left out where not just the same operations are compared:
    the approximate relaxation loses half of the digits of small strains, and parts
    stretches that are equal, in directions which depend on the frame."""
    SPLIT = s.bool(0.8) or opt(G).N > 2
    r = gen_run(s, G, CFLs=(0.02, 0.3), unstable=False,
                rheo=None if SPLIT and relaxing else "elastic", **kw)
    HALF = s.bool()
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf = r
    if s.notes["steps"] > 20:
        tf *= 20 / s.notes["steps"]
    low = min(CFL, 0.5 / (2 * o.N - 1))     # where rounding is not amplified
    tf *= low / CFL
    CFL = low
    s.label("split" if SPLIT else "ader")
    u[..., o.V - o.LSET:] = -1.0
    pars = lambda m: [m.par(G) for _ in range(o.LSET + 1)]
    return o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars


@L.law(quick={"lset0": 400, "n3": 100, "thermal": 150, "multi3": 60},
       thorough={"lset0": 10000, "n3": 3000, "thermal": 4000, "multi3": 2000}, variants=VS)
def mirrored(s, G):
    """Mirrored data give the mirrored run."""
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars = setup(s, G)
    if 4 in types:
        raise Skip
    d = s.int(0, len(nX) - 1)
    sg = mirror(d, o)
    t2 = list(types)
    t2[2 * d:2 * d + 2] = types[2 * d:2 * d + 2][::-1]
    m2 = R.M(**m.__dict__)
    m2.δp = m.δp * np.where(np.arange(3) == d, -1, 1)
    FLUX = pick_flux(s, P) if s.bool(0.2) else RUSANOV
    a = final(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, FLUX, pars(m))
    b = final(G, np.flip(u, d) * sg, tf, nX, dX, CFL, t2, SPLIT, HALF, FLUX, pars(m2))
    close("mirrored run", np.flip(b, d) * sg, a, rtol=0,
          atol=loose(m, SPLIT, s.notes["steps"]) * size(a, sc))


@L.law(quick={"lset0": 250, "n3": 60, "thermal": 100},
       thorough={"lset0": 8000, "n3": 2000, "thermal": 3000},
       variants=("lset0", "n3", "thermal"))
def reduced(s, G):
    """The run of a 2D grid whose rows are alike is the run of one row."""
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars = setup(s, G, nd=1)
    if 4 in types:
        types = [1, 1]
    ny = s.int(o.N, 4)
    flat = s.choice([0, 1])
    dy = dX[0] * 1e12                       # of no weight in the time step
    a = final(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars(m))
    v = np.repeat(u[:, None], ny, 1)
    if s.bool():
        s.label("along y")
        I = permute([1, 0, 2], o)
        m2 = R.M(**m.__dict__)
        m2.δp = m.δp[[1, 0, 2]]
        b = final(G, np.swapaxes(v, 0, 1)[..., I], tf, [ny, nX[0]], [dy, dX[0]], CFL,
                  [flat, flat] + types, SPLIT, HALF, RUSANOV, pars(m2))
        b = np.swapaxes(b, 0, 1)[..., I]
    else:
        s.label("along x")
        b = final(G, v, tf, [nX[0], ny], [dX[0], dy], CFL, types + [flat, flat], SPLIT, HALF,
                  RUSANOV, pars(m))
    tol = loose(m, SPLIT, s.notes["steps"]) * size(a, sc)
    for j in range(ny):
        close(f"row {j}", b[:, j], a, rtol=0, atol=tol)


@L.law(quick={"lset0": 300, "n3": 80, "thermal": 150, "corners": 150},
       thorough={"lset0": 8000, "n3": 2000, "thermal": 3000, "corners": 4000},
       variants=("lset0", "n3", "thermal", "corners"))
def plane(s, G):
    """A run beside a symmetric boundary is half of the run of the domain
    completed by its mirror image."""
    o = opt(G)
    nd = 1
    if VARIANT == "corners":
        nd = s.int(1, 2)
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars = setup(s, G, nd=nd)
    if 4 in types:
        raise Skip
    d = s.int(0, nd - 1)
    δ = np.ones(3)
    δ[d] = 0
    m.δp = m.δp * δ
    sg = mirror(d, o)
    right = s.bool()
    other = s.choice([0, 2, 3, 5])
    pair = [other, 5] if right else [5, other]
    types[2 * d:2 * d + 2] = pair
    image = np.flip(u, d) * sg
    w = np.concatenate([u, image] if right else [image, u], d)
    t2 = list(types)
    t2[2 * d:2 * d + 2] = [other, other]
    n2 = list(nX)
    n2[d] *= 2
    a = final(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars(m))
    b = final(G, w, tf, n2, dX, CFL, t2, SPLIT, HALF, RUSANOV, pars(m))
    k = np.arange(nX[d]) if right else np.arange(nX[d], 2 * nX[d])
    s.label(f"{nd}D", "right" if right else "left")
    close("run beside its mirror image", np.take(b, k, d), a, rtol=0,
          atol=loose(m, SPLIT, s.notes["steps"]) * size(a, sc))


@L.law(quick={"lset0": 200, "n3": 60, "corners": 100},
       thorough={"lset0": 6000, "n3": 2000, "corners": 3000},
       variants=("lset0", "n3", "corners"))
def shifted(s, G):
    """On periodic lines (and grids with corners) a shifted state gives the
    shifted run."""
    nd = 2 if VARIANT == "corners" else 1
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars = setup(s, G, True, nd=nd)
    types = [1, 1] * nd
    k = [s.int(0, n - 1) for n in nX]
    ax = tuple(range(nd))
    a = final(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars(m))
    b = final(G, np.roll(u, k, ax), tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars(m))
    if not any(k):
        s.trivial()
    close("shifted run", np.roll(b, [-i for i in k], ax), a, rtol=0,
          atol=loose(m, SPLIT, s.notes["steps"]) * size(a, sc))


@L.law(quick={"lset0": 400, "n3": 80, "thermal": 150, "multi3": 80},
       thorough={"lset0": 10000, "n3": 2000, "thermal": 4000, "multi3": 2000}, variants=VS)
def slowed(s, G):
    """In units of half the length and half the time a run is the same: only
    relaxation, reactions and forces have a time of their own."""
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf, SPLIT, HALF, pars = setup(s, G, True)
    if 4 in types:
        raise Skip
    f = s.choice([2.0, 4.0, 0.5])
    m2 = R.M(**m.__dict__)
    for k in ("κ", "τ0"):
        setattr(m2, k, getattr(m, k) * f)
    m2.μ = m.μ * (f**m.n if m.POWER_LAW else f)
    for k in ("Kc", "Bc", "I", "G1", "G2"):
        setattr(m2, k, getattr(m, k) / f)
    m2.δp = m.δp / f
    a = final(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, RUSANOV, pars(m))
    b = final(G, u, tf * f, nX, dX * f, CFL, types, SPLIT, HALF, RUSANOV, pars(m2))
    close("run in other units", b, a, rtol=0,
          atol=loose(m, SPLIT, s.notes["steps"]) * size(a, sc))
