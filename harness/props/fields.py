"""Grids of states, shared by the properties of the solvers."""

import numpy as np

import gpr_ref as R
from pbt import Skip
from .common import case, physical, scales

RUSANOV, ROE, OSHER = 0, 1, 2


def pick_flux(s, P):
    """Roe's and Osher's fluxes are found from eigenvectors that are not scaled,
    and are ill-conditioned in units in which the variables differ greatly in
    size."""
    f = s.choice([RUSANOV, RUSANOV, ROE, OSHER])
    return f if P < 1e3 else RUSANOV


def base(s, o, **kw):
    """Material, pressure scale, mean state, its vector and the size of each
    variable."""
    m, P, st = case(s, o, **kw)
    return m, P, st, R.cons(st, m, o), scales(st, m, P, o)


def noise(s, Q, sc, shape, amp, o, A=True):
    """States about Q: shape + (V,)."""
    u = Q + amp * sc * s.arr(tuple(shape) + (o.V,))
    if not A:
        u[..., 5:14] = Q[5:14]
    return u


def sane(u, m, o):
    """Skips unless every state is physical."""
    for q in u.reshape(-1, o.V):
        physical(R.prim(q, m, o), m)


def mirror(d, o):
    """Signs of the variables under the reflection of axis d."""
    sg = np.ones(o.V)
    sg[2 + d] = -1
    A = np.ones((3, 3))
    A[:, d] *= -1
    A[d] *= -1
    sg[5:14] = A.ravel()
    if o.THERMAL:
        sg[14 + d] = -1
    return sg


def permute(perm, o):
    """Indices I such that u[..., I] are the variables with axis k taken from
    axis perm[k]."""
    I = np.arange(o.V)
    I[2:5] = 2 + np.array(perm)
    for i in range(3):
        for j in range(3):
            I[5 + 3 * i + j] = 5 + 3 * perm[i] + perm[j]
    if o.THERMAL:
        I[14:17] = 14 + np.array(perm)
    return I


def ints(*x):
    return np.array(x, dtype=np.int32)


def time_step(s, G, u, m, o, dX, cfl=0.4):
    """A stable time step for the states u, and the largest wave speed."""
    par = m.par(G)
    lam = 0.0
    for q in u.reshape(-1, o.V)[::max(1, u.size // o.V // 12)]:
        x = sum(G.system.max_abs_eigs(q.copy(), d, par) / dX[d]
                for d in range(len(dX)))
        if not np.isfinite(x):
            raise Skip
        lam = max(lam, x)
    if lam <= 0:
        raise Skip
    return cfl / lam, lam
