"""Time steps, and the run of a simulation."""

import os

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import opt
from .fields import RUSANOV, base, ints, noise, pick_flux, sane

L = Laws("C20", 1)
ROTATE = os.environ.get("VERIF_VARIANT") == "rotate"
CORNERS = os.environ.get("VERIF_VARIANT") == "corners"
L.assumptions = [
    "Steps, boundaries, ghost cells, wave speeds and renormalisation are those of the code "
    "(C06, C12, C14, C15, C17, C26): the run of a simulation is put together from them anew.",
]


def step_model(G, grids, masks, dX, CFL, t, tf, count, pars, vac):
    lam = 0.0
    for k, (g, mk) in enumerate(zip(grids, masks)):
        if k in vac:
            continue
        for q, on in zip(g, mk):
            if on:
                x = sum(G.system.max_abs_eigs(q.copy(), d, pars[k]) / dX[d]
                        for d in range(len(dX)))
                lam = max(lam, x)
    dt = CFL / lam if lam > 0 else np.inf
    if count <= 5:
        dt *= 0.2
    return (tf - t) if t + dt > tf else dt


@L.law(quick={"default": 6000, "thermal": 2000, "lset3": 3000},
       thorough={"default": 100000, "thermal": 40000, "lset3": 50000},
       variants=("default", "thermal", "lset3"))
def timestep(s, G):
    """The time step is the CFL number over the largest sum of wave speeds per
    cell size, of the cells in use of every material but vacuum; a fifth of it in
    the first six steps; never past the end of the run."""
    o = opt(G)
    nmat = s.int(1, o.LSET + 1)
    nd = s.int(1, 3)
    n = s.int(1, 12)
    pars, grids, masks = [], [], []
    vac = {s.int(0, nmat - 1)} if nmat > 1 and s.bool(0.3) else set()
    for k in range(nmat):
        m, P, st, Q, sc = base(s, o)
        u = noise(s, Q, sc, [n], 0.1, o)
        sane(u, m, o)
        pars.append(R.vacuum(G) if k in vac else m.par(G))
        grids.append(u)
        masks.append(s.arr((n,), 0, 1) < s.choice([2.0, 0.7, 0.2]))
    dX = np.array([s.log(1e-3, 10, 1) for _ in range(nd)])
    CFL = s.log(0.01, 2, 0.8)
    count = s.choice([0, 4, 5, 6, 7, 100])
    free = step_model(G, grids, masks, dX, CFL, 0.0, np.inf, count, pars, vac)
    if not free < np.inf:
        raise Skip
    t = free * s.choice([0.0, s.log(0.1, 1e4)])
    tf = t + free * s.choice([s.log(0.01, 1), s.log(1, 1000), 0.5, 2.0])
    if not t < tf:
        raise Skip
    want = step_model(G, grids, masks, dX, CFL, t, tf, count, pars, vac)
    got = G.solvers.timestep(G.VectorVec([g.ravel() for g in grids]),
                             G.VectorbVec([k.copy() for k in masks]), dX.copy(), CFL, t, tf,
                             count, pars, nmat)
    s.label("last" if want == tf - t else "free", f"{nmat} materials")
    s.note(dX=dX, CFL=CFL, count=count, t=t, tf=tf, nmat=nmat)
    ensure(got > 0 and (t + got <= tf or got == tf - t), f"step {got} from {t} passes the end {tf}")
    close("time step", got, want, rtol=1e-12)


# -- whole runs ---------------------------------------------------------------

def upkeep(G, u, m, o, par, tol, count, rotate):
    """What is done to a single material's grid after each step."""
    u = u.ravel().copy()
    if o.MULTI:
        v = u.reshape(-1, o.V)
        v[:, o.mV] = np.maximum(np.minimum(v[:, o.mV], v[:, 0]), 0.0)
    G.solvers.renorm_distortion(u, [par])
    if rotate and count % 10 == 0:
        G.solvers.rotate_distortion(u, [par])
    if G.solvers.contorted(u, tol):
        v = u.reshape(-1, o.V)
        for q in v:
            A = q[5:14].reshape(3, 3)
            c = np.cbrt(q[0] / m.ρ0)
            q[1] -= q[0] * R.shear_energy(q[0], A, m)
            q[5:14] = 0.0
            q[5:14:4] = c
        return u, True
    return u, False


def run_model(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, STIFF, FLUX, m, o, tol, rotate, got,
              sc):
    """The frames of a run: a list of 100, None where there is none. Resets are
    not reproduced to the bit: the run goes on from the frame got after one."""
    par = m.par(G)
    u = u.ravel().copy()
    t, count, push = 0.0, 0, 0
    frames = [None] * 100
    ones = np.ones(int(np.prod(nX)), bool)
    resets = 0
    ext = [n + 2 * o.N for n in nX]
    mb = np.zeros(int(np.prod([n + 2 for n in nX])), bool)
    while t < tf:
        prev = u.copy()
        dt = G.solvers.timestep(G.VectorVec([u.copy()]), G.VectorbVec([ones.copy()]), dX.copy(),
                                CFL, t, tf, count, [par], 1)
        ub = np.zeros(int(np.prod(ext)) * o.V)
        G.boundaries(u.copy(), ub, ints(*nX), ints(*types))
        G.extend_mask(ones.copy(), mb, ints(*nX))
        if SPLIT:
            G.solvers.split_stepper(u, ub, ints(*nX), dt, dX.copy(), HALF, FLUX, par, mb.copy())
        else:
            G.solvers.ader_stepper(u, ub, ints(*nX), dt, dX.copy(), STIFF, FLUX, par, mb.copy())
        t += dt
        count += 1
        u, r = upkeep(G, u, m, o, par, tol, count, rotate)
        resets += r
        if t >= (push + 1) / 100 * tf:
            if r and got is not None and np.isfinite(u).all():
                sz = np.abs(u.reshape(-1, o.V)) + sc
                g = np.array(got[push])
                ensure(g.size == u.size, f"no frame {push}")
                close(f"reset in frame {push}", g.reshape(-1, o.V), u.reshape(-1, o.V),
                      atol=1e-10 * sz)
                u = g
            frames[push] = u.copy()
            push += 1
        elif r and got is not None:
            raise Skip
        if np.isnan(u).any():
            push = min(push, 98)
            frames[push] = prev
            frames[push + 1] = u
            return frames, count, resets, True, push
        if count > 600:
            raise Skip
    frames[99] = u
    return frames, count, resets, False, push


def gen_run(s, G, nmax=(6, 3), CFLs=(0.05, 0.8), unstable=True, nd=None, ader=False,
            rheo=None):
    o = opt(G)
    # the predictor is slow, and inexact, where it does not converge
    m, P, st, Q, sc = base(s, o, rheology=s.choice(["elastic", "newtonian"]) if ader else rheo)
    nd = nd or s.int(1, 2)
    nX = [s.int(o.N, max(o.N, nmax[nd - 1])) for _ in range(nd)]
    amp = s.choice([1e-3, 0.03, 0.1, 0.0])
    u = noise(s, Q, sc, nX, amp, o)
    if o.MULTI:
        u[..., o.mV] = np.clip(u[..., o.mV], 0, u[..., 0])
    sane(u, m, o)
    dX = np.array([s.log(1e-2, 10, 1) for _ in nX])
    if nd == 2:
        dX[1] = dX[0] * s.log(0.5, 2, 1)
    types = []
    for _ in nX:
        types += [1, 1] if s.bool() else [s.int(0, 5), s.int(0, 5)]
    CFL = s.log(*CFLs, 0.4) if not (unstable and s.bool(0.05)) else s.float(1.5, 4)
    par = m.par(G)
    ones = np.ones(int(np.prod(nX)), bool)
    dt = G.solvers.timestep(G.VectorVec([u.ravel().copy()]), G.VectorbVec([ones]), dX.copy(),
                            CFL, 0.0, np.inf, 10, [par], 1)
    if not 0 < dt < np.inf:
        raise Skip
    long = s.bool(0.1)
    n = s.float(60, 200) if long else s.choice([s.float(0, 1.2), s.float(1.2, 14)])
    s.label(f"{nd}D", "long" if long else "short")
    s.note(nX=nX, dX=dX, amp=amp, types=types, CFL=CFL, steps=n)
    return o, m, P, Q, sc, nX, u, dX, types, CFL, n * dt


def same_frames(got, want, size, steps):
    ensure(len(got) == 100, f"{len(got)} frames")
    for i in range(100):
        g = np.array(got[i])
        if want[i] is None:
            ensure(g.size == 0, f"frame {i} should be empty")
            continue
        ensure(g.size == size, f"frame {i} is missing ({steps} steps)")
        w = want[i]
        if not np.isfinite(w).all():
            ensure((np.isnan(g) == np.isnan(w)).all(), f"frame {i}: nan elsewhere")
            continue
        ensure((g == w).all(), lambda: f"frame {i} of {steps} steps differs by "
               f"{np.abs(g - w).max()}")


VS = ("lset0", "rotate", "multi3")


@L.law(quick={"lset0": 900, "rotate": 240, "multi3": 120},
       thorough={"lset0": 20000, "rotate": 6000, "multi3": 3000}, variants=VS)
def run(s, G):
    """A run is a sequence of steps of the chosen scheme, each followed by the
    upkeep of distortions and concentrations, up to the end; its frames are the
    first states at or after each hundredth of it (one for each step at most),
    and the last is the final state."""
    SPLIT = s.bool(0.8) or opt(G).N > 2
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf = gen_run(s, G, ader=not SPLIT, unstable=SPLIT)
    HALF = s.bool()
    FLUX = pick_flux(s, P) if s.bool(0.3) else RUSANOV
    tol = s.choice([1e3, s.log(1e-4, 1)])
    rotate = not o.MULTI and o.LSET == 0 and ROTATE
    STIFF = False
    # unstable runs can take ever smaller steps
    run_model(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, STIFF, FLUX, m, o, tol, rotate, None, sc)
    ret = G.solvers.iterator(u.ravel().copy(), tf, ints(*nX), dX.copy(), CFL, ints(*types),
                             SPLIT, HALF, STIFF, FLUX, [m.par(G)], tol)
    want, steps, resets, nan, push = run_model(G, u, tf, nX, dX, CFL, types, SPLIT, HALF, STIFF,
                                               FLUX, m, o, tol, rotate, ret, sc)
    s.label("split" if SPLIT else "ader", "nan" if nan else "finite",
            "resets" if resets else "no resets", f"{min(steps, 1000) // 20 * 20}+ steps")
    same_frames(ret, want, u.size, steps)


@L.law(quick={"lset0": 900, "thermal3": 240, "multi3": 120},
       thorough={"lset0": 20000, "thermal3": 6000, "multi3": 3000},
       variants=("lset0", "thermal3", "multi3"))
def totals(s, G):
    """Over a run on a periodic line the totals of mass, momentum and energy are
    kept. (In 2D, cells beyond the edges are reconstructed without the corners,
    and differ from the cells they stand for.)"""
    SPLIT = s.bool(0.8) or opt(G).MULTI
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf = gen_run(s, G, CFLs=(0.05, 0.6), unstable=False,
                                                        nd=1, ader=not SPLIT)
    types = [1, 1]
    m.δp = np.zeros(3)
    ret = G.solvers.iterator(u.ravel().copy(), tf, ints(*nX), dX.copy(), CFL, ints(*types),
                             SPLIT, s.bool(), False, RUSANOV, [m.par(G)], 1e9)
    got = np.array(ret[99])
    if got.size != u.size or not np.isfinite(got).all():
        raise Skip
    got = got.reshape(u.shape)
    ax = (0,)
    a, b = u.sum(ax), got.sum(ax)
    n = u.size // o.V
    sz = (np.abs(u).sum(ax) + np.abs(got).sum(ax) + n * sc)
    k = slice(0, 5)
    s.label("split" if SPLIT else "ader")
    tol = 1e-11 * sz
    if not SPLIT:
        # the cells at the ends and their images agree to the predictor's tolerance
        steps = max(6.0, s.notes["steps"] + 6)
        tol = tol + 6e-6 * (1 + sz / n) * CFL * steps * 2
    close("totals", b[k], a[k], atol=tol[k])


@L.law(quick={"lset0": 3000}, thorough={"lset0": 60000}, variants=("lset0",))
def blowup(s, G):
    """A run that becomes undefined, at whatever part of it, ends with the last
    state before, and the undefined one, as its last two frames."""
    o = opt(G)
    m, P, st, Q, sc = base(s, o)
    nX = [s.int(o.N, 8)]
    amp = s.log(1e-14, 0.1)
    u = noise(s, Q, sc, nX, amp, o)
    sane(u, m, o)
    dX = np.array([s.log(1e-2, 10, 1)])
    types = s.choice([[1, 1], [0, 0], [4, 5]])
    CFL = s.float(1.2, 4)
    HALF = s.bool()
    par = m.par(G)
    # where it ends, if run without end
    ones = np.ones(nX[0], bool)
    mb = np.ones(nX[0] + 2, bool)
    v, t, count = u.ravel().copy(), 0.0, 0
    while not np.isnan(v).any():
        dt = G.solvers.timestep(G.VectorVec([v.copy()]), G.VectorbVec([ones.copy()]), dX.copy(),
                                CFL, t, np.inf, count, [par], 1)
        if count > 400 or not 0 < dt < np.inf:
            raise Skip
        ub = np.zeros((nX[0] + 2 * o.N) * o.V)
        G.boundaries(v.copy(), ub, ints(*nX), ints(*types))
        G.solvers.split_stepper(v, ub, ints(*nX), dt, dX.copy(), HALF, RUSANOV, par, mb.copy())
        v, _ = upkeep(G, v, m, o, par, 1e9, 1, False)
        t += dt
        count += 1
    tf = t * (1 + s.choice([1e-3, 5e-3, s.log(1e-6, 3), 1e-9]))
    s.note(nX=nX, amp=amp, CFL=CFL, steps=count, tf=tf)
    got = G.solvers.iterator(u.ravel().copy(), tf, ints(*nX), dX.copy(), CFL, ints(*types),
                             True, HALF, False, RUSANOV, [par], 1e9)
    want, steps, resets, nan, push = run_model(G, u, tf, nX, dX, CFL, types, True, HALF, False,
                                               RUSANOV, m, o, 1e9, False, got, sc)
    if not nan:
        raise Skip
    s.label("long" if count > 100 else "short", f"{push // 10 * 10}+ frames",
            "last" if push == 98 else "not last")
    same_frames(got, want, u.size, steps)
