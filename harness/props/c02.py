"""Jacobians."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close
from .common import case, opt, scales

L = Laws("C02", 4)
VS = ("default", "thermal", "multi")


def prim_vec(Q, m, o):
    """Primitive variables in the code's (typical) order."""
    s = R.prim(Q, m, o)
    P = np.array(Q, dtype=np.result_type(Q, s.p))
    P[1] = s.p
    P[2:5] = s.v
    if o.THERMAL:
        P[14:17] = s.J
    if o.MULTI:
        P[o.mV] = s.λ
    return P


def cons_vec(P, m, o):
    return R.cons(R.S(P[0], P[1], P[2:5], P[5:14].reshape(3, 3),
                      P[14:17] if o.THERMAL else None,
                      P[o.mV] if o.MULTI else 0.0, P[o.V - o.LSET:]), m, o)


def nd(M, srow, scol):
    return M * scol / srow[:, None]


@L.law(quick={"default": 2500, "thermal": 2000, "multi": 2000},
       thorough={"default": 60000, "thermal": 50000, "multi": 50000}, variants=VS)
def system_matrix_is_the_jacobian(s, G):
    """The system matrix is dF/dQ + B, with dF/dQ by complex steps of the
    independent model's flux and B from its non-conservative product."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    Q = R.cons(st, m, o)
    sc = scales(st, m, P, o)
    got = nd(G.system.system_matrix(Q, d, m.par(G)), sc, sc)
    want = nd(R.jac(Q, d, m, o), sc, sc)
    close("system matrix", got, want, rtol=2e-9)


@L.law(quick={"default": 2000, "thermal": 1500, "multi": 1500},
       thorough={"default": 50000, "thermal": 40000, "multi": 40000}, variants=VS)
def jacobians_of_primitives(s, G):
    """dP/dQ against complex steps of the model's primitive variables, dF/dP
    against those of the model's flux of primitive variables."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    par = m.par(G)
    Q = R.cons(st, m, o)
    sc = scales(st, m, P, o)
    sp = sc.copy()
    c = np.sqrt(P / m.ρ0)
    sp[1], sp[2:5] = P, c
    if o.THERMAL:
        sp[14:17] = sc[14:17] / m.ρ0
    if o.MULTI:
        sp[o.mV] = 1
    want = R.cstep(lambda q: prim_vec(q, m, o), Q)
    close("dP/dQ", nd(G.system.dPdQ(Q, par), sp, sc), nd(want, sp, sc), rtol=2e-9)
    Pv = prim_vec(Q, m, o)
    want = R.cstep(lambda p: R.flux(cons_vec(p, m, o), d, m, o), Pv)
    sf = sc * c
    close("dF/dP", nd(G.system.dFdP(Q, d, par), sf, sp), nd(want, sf, sp), rtol=2e-9)


@L.law(quick={"default": 800, "thermal": 600, "multi": 600},
       thorough={"default": 20000, "thermal": 15000, "multi": 15000}, variants=VS)
def system_matrix_differentiates_the_code_flux(s, G):
    """Central differences of the code's own flux and non-conservative product
    along a random direction agree with the system matrix."""
    o = opt(G)
    m, P, st = case(s, o, mach=0.8)
    d = s.int(0, 2)
    par = m.par(G)
    Q = R.cons(st, m, o)
    sc = scales(st, m, P, o)
    X = sc * s.arr(o.V)
    X[5:14] *= 0.3
    X[0] *= 0.3
    h = 1e-5
    if m.EOS == R.SMG and abs(st.ρ - m.ρ0) < 2 * h * abs(X[0]):
        raise Skip              # the second derivative jumps at rho0

    def F(q):
        f = np.zeros(o.V)
        G.system.flux(f, q, d, par)
        return f
    D1 = (F(Q + h * X) - F(Q - h * X)) / (2 * h)
    D2 = (F(Q + 2 * h * X) - F(Q - 2 * h * X)) / (4 * h)
    D = (4 * D1 - D2) / 3
    b = np.zeros(o.V)
    G.system.Bdot(b, Q, X, d, par)
    M = G.system.system_matrix(Q, d, par)
    scale = np.abs(M) @ np.abs(X) + sc * np.sqrt(P / m.ρ0)
    mag = 1 + np.abs(F(Q)) / scale
    close("directional derivative", (M @ X) / scale, (D + b) / scale,
          rtol=2e-6, scale=mag)
