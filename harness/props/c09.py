"""Interface fluxes."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, hyperbolic, opt, physical, scales
from .fields import mirror, permute

L = Laws("C09", 2)
L.assumptions = [
    "Roe and Osher fluxes are compared with the model where the eigenvectors of "
    "the (averaged) system matrix are conditioned better than 1e5; elsewhere in "
    "consistency and symmetry only.",
]
VS = ("default", "n3", "thermal", "multi3")


def pair(s, G):
    """Two states of one material, and the states between them."""
    o = opt(G)
    m, P, a = case(s, o)
    kind = s.choice(["close", "far", "contact", "same A"])
    s.label(kind)
    if kind == "close":
        sc = scales(a, m, P, o)
        qL = R.cons(a, m, o)
        qR = qL + s.choice([0.05, 1e-3]) * sc * s.arr(o.V)
    else:
        b = R.gen_state(s, m, P, o)
        if kind == "contact":
            b = b.copy(p=a.p, v=a.v, A=a.A * (b.ρ / a.ρ)**(1 / 3))
        elif kind == "same A":
            b = b.copy(A=a.A)
        qL, qR = R.cons(a, m, o), R.cons(b, m, o)
    for t in np.linspace(0, 1, 6):
        physical(R.prim(qL + t * (qR - qL), m, o), m)
    d = s.int(0, 2)
    s.note(qL=qL, qR=qR, d=d)
    return o, m, P, a, qL, qR, d, scales(a, m, P, o)


def fluxscale(q, d, m, o, sc):
    """Sizes of what is summed in the flux."""
    s = R.prim(q, m, o)
    v = np.abs(s.v).max()
    sp = abs(s.p) + abs(R.p_ref(s.ρ, m)) + R.gamma(s.ρ, m) * (
        abs(q[1]) + s.ρ * (abs(R.e_ref(s.ρ, m)) + s.v @ s.v +
                           abs(R.shear_energy(s.ρ, s.A, m))))
    if m.EOS == R.CC:
        sp += s.ρ * R.gamma(s.ρ, m) * (m.A + m.B) / m.ρ0 / \
            min(abs(1 - m.R1), abs(1 - m.R2))
    sp += np.abs(R.stress(s.ρ, s.A, m)).max()
    f = v * np.maximum(np.abs(q), sc)
    f[1] += v * sp
    f[2:5] += sp
    f[5:14] += v * np.abs(s.A).max()
    if o.THERMAL:
        T = (sp + m.Tref * R.phi(s.ρ, m) * s.ρ * R.gamma(s.ρ, m) * m.cv) / (
            s.ρ * R.gamma(s.ρ, m) * m.cv)
        f[1] += m.cα2 * T * np.abs(s.J).max()
        f[14:17] += T
    return f


@L.law(quick={"default": 4000, "n3": 1000, "thermal": 3000, "multi3": 2000},
       thorough={"default": 120000, "n3": 40000, "thermal": 60000, "multi3": 60000},
       variants=VS)
def rusanov(s, G):
    """F(qL) + F(qR) + max|lambda| (qL - qR), of the model."""
    o, m, P, a, qL, qR, d, sc = pair(s, G)
    evL, evR = hyperbolic(qL, d, m, o, sc), hyperbolic(qR, d, m, o, sc)
    lam = max(np.abs(evL).max(), np.abs(evR).max())
    want = lam * (qL - qR) + R.flux(qL, d, m, o) + R.flux(qR, d, m, o)
    f = np.maximum(fluxscale(qL, d, m, o, sc), fluxscale(qR, d, m, o, sc))
    got = G.solvers.fv.D_RUS(qL.copy(), qR.copy(), d, m.par(G))
    close("flux", got, want, atol=1e-10 * f + 1e-6 * lam * np.abs(qL - qR))


@L.law(quick={"default": 5000, "n3": 1000, "thermal": 4000, "multi3": 3000},
       thorough={"default": 150000, "n3": 40000, "thermal": 80000, "multi3": 80000},
       variants=VS)
def jump_term(s, G):
    """The path-conservative jump term is the quadrature, along the segment, of
    the model's non-conservative product; it changes sign with the sides."""
    o, m, P, a, qL, qR, d, sc = pair(s, G)
    x, w = np.polynomial.legendre.leggauss(o.N)
    x, w = (x + 1) / 2, w / 2
    dq = qR - qL
    want = sum(wi * R.ncp(qL + xi * dq, dq, d, o) for xi, wi in zip(x, w))
    par = m.par(G)
    got = G.solvers.fv.Bint(qL.copy(), qR.copy(), d, par)
    v = max(np.abs(qL[2:5] / qL[0]).max(), np.abs(qR[2:5] / qR[0]).max())
    tol = 1e-12 * v * np.maximum(np.abs(dq).max(), 1) + 1e-300
    close("jump term", got, want, atol=tol)
    close("sides exchanged", G.solvers.fv.Bint(qR.copy(), qL.copy(), d, par), -want, atol=tol)


@L.law(quick={"default": 3000, "n3": 500, "thermal": 2000, "multi3": 1500},
       thorough={"default": 100000, "n3": 20000, "thermal": 50000, "multi3": 50000},
       variants=VS)
def consistency(s, G):
    """Of two equal states, every flux is twice the physical flux and the jump
    term is 0."""
    o = opt(G)
    m, P, a = case(s, o)
    q = R.cons(a, m, o)
    d = s.int(0, 2)
    sc = scales(a, m, P, o)
    s.note(q=q, d=d)
    par = m.par(G)
    want = 2 * R.flux(q, d, m, o)
    f = fluxscale(q, d, m, o, sc)
    for name in ("D_RUS", "D_ROE", "D_OSH"):
        got = getattr(G.solvers.fv, name)(q.copy(), q.copy(), d, par)
        close(name, got, want, atol=1e-10 * f)
    ensure(not np.any(G.solvers.fv.Bint(q.copy(), q.copy(), d, par)), "jump term")


def absolute(M, sc, v=None):
    """|M| by eigendecomposition, or Skip.  In the units of the code, whose
    eigenvectors are not scaled.  Where some eigenvalues are close to v, but
    are not v, as may be of the mean of distant states, M is near defective."""
    ev, X = np.linalg.eig(M)
    if v is not None:
        gap = np.abs(ev - v) / np.abs(ev).max()
        if ((gap > 1e-10) & (gap < 1e-5)).any():
            raise Skip
    if np.abs(ev.imag).max() > 1e-7 * np.abs(ev).max():
        raise Skip
    c = np.linalg.cond(X)
    if not c < 1e5:
        raise Skip
    r = (X * np.abs(ev)) @ np.linalg.inv(X)
    return np.real(r), c, np.abs(ev).max()


@L.law(quick={"default": 3000, "n3": 600, "thermal": 2000, "multi3": 1500},
       thorough={"default": 80000, "n3": 20000, "thermal": 40000, "multi3": 40000},
       variants=VS)
def roe_and_osher(s, G):
    """Roe: |integral of M| times the jump; Osher: the integral of |M|, times
    the jump; with the model's system matrix along the segment."""
    o, m, P, a, qL, qR, d, sc = pair(s, G)
    x, w = np.polynomial.legendre.leggauss(o.N)
    x, w = (x + 1) / 2, w / 2
    dq = qL - qR
    par = m.par(G)
    qs = [qR + xi * dq for xi in x]
    Ms = [R.jac(q, d, m, o) for q in qs]
    F = R.flux(qL, d, m, o) + R.flux(qR, d, m, o)
    f = np.maximum(fluxscale(qL, d, m, o, sc), fluxscale(qR, d, m, o, sc))
    jump = np.abs(dq / sc).max() * sc
    done = 0
    try:
        Ma, c, lam = absolute(sum(wi * M for wi, M in zip(w, Ms)), sc,
                            sum(wi * q[2 + d] / q[0] for wi, q in zip(w, qs)))
    except Skip:
        pass
    else:
        done += 1
        close("Roe", G.solvers.fv.D_ROE(qL.copy(), qR.copy(), d, par), Ma @ dq + F,
              atol=1e-10 * f + (1e-12 * c * c + 1e-5) * lam * jump.max())
    try:
        parts = [absolute(M, sc) for M in Ms]
    except Skip:
        pass
    else:
        done += 1
        want = sum(wi * p[0] for wi, p in zip(w, parts)) @ dq + F
        c, lam = max(p[1] for p in parts), max(p[2] for p in parts)
        close("Osher", G.solvers.fv.D_OSH(qL.copy(), qR.copy(), d, par), want,
              atol=1e-10 * f + (1e-12 * c * c + 1e-5) * lam * jump.max())
    if not done:
        raise Skip


@L.law(quick={"default": 3000, "n3": 600, "thermal": 2000, "multi3": 1500},
       thorough={"default": 80000, "n3": 20000, "thermal": 40000, "multi3": 40000},
       variants=VS)
def symmetry(s, G):
    """Mirrored (or relabelled) states on exchanged sides give the mirrored
    (relabelled) fluxes and jump term."""
    o, m, P, a, qL, qR, d, sc = pair(s, G)
    par = m.par(G)
    fv = G.solvers.fv
    f = np.maximum(fluxscale(qL, d, m, o, sc), fluxscale(qR, d, m, o, sc))
    jump = np.abs((qL - qR) / sc).max() * sc
    ev = hyperbolic(0.5 * (qL + qR), d, m, o, sc)
    evs = [hyperbolic(q, d, m, o, sc) for q in (qL, qR)]
    lam = max(np.abs(e).max() for e in evs + [ev])
    sg = mirror(d, o)
    perm = s.choice([(1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)])
    I = permute(perm, o)
    d2 = perm.index(d)
    names = ["D_RUS"]
    x, w = np.polynomial.legendre.leggauss(o.N)
    qs = [qR + (xi + 1) / 2 * (qL - qR) for xi in x]
    Ms = [R.jac(q, d, m, o) for q in qs]
    try:
        c = max(absolute(M, sc, q[2 + d] / q[0])[1] for M, q in zip(Ms, qs))
        c = max(c, absolute(sum(wi / 2 * M for wi, M in zip(w, Ms)), sc,
                            sum(wi / 2 * q[2 + d] / q[0] for wi, q in zip(w, qs)))[1])
        names += ["D_ROE", "D_OSH"]
    except Skip:
        c = 1
    tol = 1e-10 * f + (1e-12 * c * c + 1e-6) * lam * jump.max()
    for n in names:
        D = getattr(fv, n)
        ref = D(qL.copy(), qR.copy(), d, par)
        close(n + " mirrored", D(sg * qR, sg * qL, d, par), -sg * ref, atol=tol)
        close(n + " relabelled", D(qL[I], qR[I], d2, par), ref[I], atol=np.maximum(tol, tol[I]))
    ref = fv.Bint(qL.copy(), qR.copy(), d, par)
    close("jump term mirrored", fv.Bint(sg * qR, sg * qL, d, par), sg * ref, atol=tol)
    close("jump term relabelled", fv.Bint(qL[I], qR[I], d2, par), ref[I], atol=tol)
