"""Parallel steps."""

import ctypes

import numpy as np

from pbt import Laws, ensure
from .c12 import gen
from .c20 import gen_run
from .common import opt
from .fields import RUSANOV, ints, pick_flux

L = Laws("C14")
L.retries = 10
L.assumptions = [
    "Steps are compared to the bit: one thread's share of the grid is stepped by the same "
    "operations in the same order as the whole grid.",
    "Threads are scheduled by the operating system; each case is run several times.",
]
omp = ctypes.CDLL("libgomp.so.1")


class threads:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        omp.omp_set_num_threads(self.n)

    def __exit__(self, *a):
        omp.omp_set_num_threads(1)


def masks(s, nX):
    """Masks of whole runs: all cells, or some."""
    m = np.ones([n + 2 for n in nX], bool)
    if s.bool(0.3):
        m &= s.arr(m.shape, 0, 1) < 0.8
        s.label("masked")
    if len(nX) == 2:
        m[0, 0] = m[0, -1] = m[-1, 0] = m[-1, -1] = False
    return m


def stepper(s, G, P, ader):
    S = G.solvers
    FLUX = pick_flux(s, P) if s.bool(0.3) else RUSANOV
    if ader:
        s.label("ader")
        return ("ader", S.ader_stepper, S.ader_stepper_para, False, FLUX)
    s.label("split")
    return ("split", S.split_stepper, S.split_stepper_para, s.bool(), FLUX)


def run_step(f, u, ub, nX, dt, dX, flag, FLUX, par, mb):
    v = u.ravel().copy()
    f(v, ub.ravel().copy(), ints(*nX), dt, dX.copy(), flag, FLUX, par, mb.ravel().copy())
    return v


VS = ("default", "n3", "thermal", "multi3", "corners")


@L.law(quick={"default": 1200, "n3": 500, "thermal": 300, "multi3": 200, "corners": 300},
       thorough={"default": 40000, "n3": 8000, "thermal": 10000, "multi3": 4000,
                 "corners": 20000}, variants=VS)
def step(s, G):
    """A step shared among any number of threads, more or fewer than rows, gives
    every cell what the step of the whole grid gives it."""
    # the predictor is slow where it does not converge
    big = opt(G).N == 2
    ader = s.bool(0.4 if big else 0.1)
    kw = dict(nmax=(16, 9 if big else 6))
    if ader:
        r = s.choice(["elastic"] * 7 + ["newtonian"])
        kw = dict(rheology=r, CFL=(0.005, 0.1), amps=(1e-3, 1e-5, 0.0),
                  nmax=(16, 3 if not big else 7 if r == "elastic" else 4))
    o, m, P, Q, sc, nX, u, ub, dX, dt, types = gen(s, G, **kw)
    name, serial, para, flag, FLUX = stepper(s, G, P, ader)
    mb = masks(s, nX)
    par = m.par(G)
    n = s.choice([2, 3, 4, 8, s.int(1, 9)])
    s.label(f"{n} threads", "idle threads" if n > nX[0] else "all busy")
    s.note(threads=n, scheme=name)
    want = run_step(serial, u, ub, nX, dt, dX, flag, FLUX, par, mb).reshape(u.shape)
    for rep in range(2):
        with threads(n):
            got = run_step(para, u, ub, nX, dt, dX, flag, FLUX, par, mb).reshape(u.shape)
        bad = ~((got == want) | (np.isnan(got) & np.isnan(want))).all(-1)
        ensure(not bad.any(), lambda: f"{name} step with {n} threads differs from that of one in "
               f"cells {np.argwhere(bad)[:5].tolist()} by {np.nanmax(np.abs(got - want)[bad])}")


@L.law(quick={"lset0": 300}, thorough={"lset0": 8000},
       variants=("lset0",))
def run(s, G):
    """A run gives the same frames, whatever the number of threads, time
    after time."""
    SPLIT = s.bool(0.7)
    o, m, P, Q, sc, nX, u, dX, types, CFL, tf = gen_run(s, G, nmax=(12, 4), ader=not SPLIT,
                                                        unstable=False)
    HALF = s.bool()
    n = s.int(2, 9)
    s.label("split" if SPLIT else "ader")
    s.note(threads=n)

    def go():
        r = G.solvers.iterator(u.ravel().copy(), tf, ints(*nX), dX.copy(), CFL, ints(*types),
                               SPLIT, HALF, False, RUSANOV, [m.par(G)], 1e3)
        return [np.array(x) for x in r]

    want = go()
    for rep in range(2):
        with threads(n):
            got = go()
        for i, (g, w) in enumerate(zip(got, want)):
            ensure(g.size == w.size and ((g == w) | (np.isnan(g) & np.isnan(w))).all(),
                   f"frame {i} differs with {n} threads")
