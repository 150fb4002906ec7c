"""The PDE operators: flux and non-conservative product."""

import numpy as np

import gpr_ref as R
from pbt import Laws, close, ensure
from .common import case, opt, scales

L = Laws("C03", 4)
VS = ("default", "thermal", "multi")


def code_flux(G, Q, d, par, o, start=None):
    f = np.zeros(o.V) if start is None else np.array(start, dtype=float)
    G.system.flux(f, Q, d, par)
    return f


def flux_scale(Q, d, m, o, sc, P):
    """Rounding unit of each entry of the flux."""
    c = np.sqrt(P / m.ρ0) + np.linalg.norm(Q[2:5]) / Q[0]
    s = R.prim(Q, m, o)
    F = sc * c + np.abs(R.flux(Q, d, m, o))
    pr = abs(s.p) + abs(R.p_ref(s.ρ, m)) + R.gamma(s.ρ, m) * (abs(Q[1]) + s.ρ * abs(
        R.e_ref(s.ρ, m)))
    pr += R.gamma(s.ρ, m) * s.ρ * abs(R.shear_energy(s.ρ, s.A, m))
    if m.EOS == R.CC:
        pr += s.ρ * R.gamma(s.ρ, m) * (m.A + m.B) / m.ρ0 / \
            min(abs(1 - m.R1), abs(1 - m.R2))
    G_ = np.linalg.norm(s.A.T @ s.A)
    pr += s.ρ * R.cs2(s.ρ, m) * G_ * G_
    F[2:5] += pr
    F[1] += (pr + abs(Q[1])) * np.linalg.norm(s.v)
    if o.THERMAL:
        T = pr / (s.ρ * R.gamma(s.ρ, m) * m.cv) + m.Tref
        F[14:17] += T
        F[1] += m.cα2 * T * np.linalg.norm(s.J)
    return F


@L.law(quick={"default": 4000, "thermal": 2500, "multi": 2500},
       thorough={"default": 120000, "thermal": 80000, "multi": 80000}, variants=VS)
def flux_is_the_models(s, G):
    """The physical flux in each direction is the model's: rho v, (E + p - sigma)
    v + heat, momentum with total stress, A v, J transport and temperature,
    reactant; the state is not changed."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    s.note(d=d)
    Q = R.cons(st, m, o)
    Q0 = Q.copy()
    F = code_flux(G, Q, d, m.par(G), o)
    ensure(np.array_equal(Q, Q0), "the state was changed")
    close("flux", F, R.flux(Q, d, m, o), rtol=1e-12,
          scale=flux_scale(Q, d, m, o, scales(st, m, P, o), P))


@L.law(quick={"default": 2000, "thermal": 1000, "multi": 1500},
       thorough={"default": 50000, "thermal": 30000, "multi": 30000}, variants=VS)
def flux_accumulates(s, G):
    """flux adds to its output, which is how the interface fluxes sum the two
    sides."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    Q = R.cons(st, m, o)
    F = code_flux(G, Q, d, m.par(G), o)
    X = s.arr(o.V) * (1 + np.abs(F)) * 3
    close("accumulated flux", code_flux(G, Q, d, m.par(G), o, X), X + F,
          rtol=1e-12, scale=np.abs(X) + np.abs(F) +
          flux_scale(Q, d, m, o, scales(st, m, P, o), P))


@L.law(quick={"default": 3000, "thermal": 1500, "multi": 1500},
       thorough={"default": 80000, "thermal": 40000, "multi": 40000}, variants=VS)
def nonconservative_product(s, G):
    """Bdot(Q, x) is the model's non-conservative product, is linear in x, and
    is the product with the matrix that block adds to its output."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    s.note(d=d)
    par = m.par(G)
    Q = R.cons(st, m, o)
    x = s.sparse(o.V) * s.choice([1.0, 1e3])
    s.note(x=x)
    b = s.arr(o.V)           # whatever was there before
    G.system.Bdot(b, Q, x, d, par)
    sc = (np.abs(x).max() + 1e-300) * (np.abs(st.v).max() + 1e-300)
    close("Bdot", b, R.ncp(Q, x, d, o), rtol=1e-13, scale=sc)
    start = np.zeros((o.V, o.V))
    G.system.block(start, Q, d)
    close("block x", start @ x, b, rtol=1e-13, scale=sc)
    other = np.ones(o.V, bool)
    other[5:14] = False
    other[o.V - o.LSET:] = False
    ensure(not start[other].any(), "block: a conserved quantity has a product")


@L.law(quick={"default": 2000, "thermal": 1500}, thorough={"default": 50000, "thermal": 30000},
       variants=("default", "thermal"))
def rotation_covariance(s, G):
    """Rotating the frame by an axis permutation or reflection O (v -> Ov, A ->
    A O^T, J -> OJ) carries the flux and the product in direction d into those
    in the direction O e_d, with the same relabelling."""
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    d = s.int(0, 2)
    perm = s.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1),
                     (2, 1, 0)])
    sg = [s.choice([1.0, -1.0]) for _ in range(3)]
    O = np.zeros((3, 3))
    for i, j in enumerate(perm):
        O[j, i] = sg[i]
    e, sign = perm[d], sg[d]

    def turn(q):
        q = q.copy()
        q[2:5] = O @ q[2:5]
        q[5:14] = (q[5:14].reshape(3, 3) @ O.T).ravel()
        if o.THERMAL:
            q[14:17] = O @ q[14:17]
        return q
    s.note(d=d, perm=perm, signs=sg)
    Q = R.cons(st, m, o)
    F = code_flux(G, Q, d, par, o)
    F2 = code_flux(G, turn(Q), e, par, o)
    sc = flux_scale(Q, d, m, o, scales(st, m, P, o), P)
    sc[2:5] = sc[2:5].max()
    close("flux in the other axes", sign * F2, turn(F), rtol=1e-11, scale=sc)
    x = s.arr(o.V)
    b, b2 = np.zeros(o.V), np.zeros(o.V)
    G.system.Bdot(b, Q, x, d, par)
    G.system.Bdot(b2, turn(Q), turn(x), e, par)
    close("product in the other axes", sign * b2, turn(b), rtol=1e-12,
          scale=np.abs(st.v).max() + 1e-300)


@L.law(quick={"default": 2000, "multi": 1000}, thorough={"default": 50000, "multi": 20000},
       variants=("default", "multi"))
def galilean(s, G):
    """Under a boost w the flux obeys F'(rho)=F+w rho, momentum and A by the
    same rule, and the energy by E' = E + w.m + rho w^2/2."""
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    d = s.int(0, 2)
    w = np.sqrt(P / m.ρ0) * s.arr(3)
    s.note(d=d, w=w)
    Q, Q2 = R.cons(st, m, o), R.cons(st.copy(v=st.v + w), m, o)
    F, F2 = code_flux(G, Q, d, par, o), code_flux(G, Q2, d, par, o)
    want = F.copy()
    want[0] += w[d] * Q[0]
    want[2:5] += w * F[0] + w[d] * (Q[2:5] + Q[0] * w)
    # F[1] is the energy flux in the moving frame: E v + Sigma v; after the
    # boost E' (v+w)_d + Sigma (v+w), Sigma_d.w = (F_m - v_d m).w
    v = st.v
    Sw = (F[2:5] - v[d] * Q[2:5]) @ w
    want[1] = F[1] - v[d] * Q[1] + (v[d] + w[d]) * Q2[1] + Sw
    A = st.A @ w
    for i in range(3):
        want[5 + 3 * i + d] += A[i]
    if o.MULTI:
        want[o.mV] += w[d] * Q[o.mV]
    if o.THERMAL:
        want[14:17] += w[d] * Q[14:17]
    sc = scales(st, m, P, o)
    close("flux after a boost", F2, want, rtol=1e-11,
          scale=flux_scale(Q, d, m, o, sc, P) + flux_scale(Q2, d, m, o, sc, P) +
          np.abs(w).max() * (np.abs(Q) + np.abs(Q2)))
