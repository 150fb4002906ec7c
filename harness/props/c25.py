"""The Python package's closures of the model."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .c05 import near_switch
from .c24 import rounding
from .common import case, opt, rheology

L = Laws("C25")
L.assumptions = ["Functions of gpr.vars and gpr.misc; the prototypes in gpr.sys and gpr.multi "
                 "are not claimed."]
VS = ("default", "thermal", "multi")



def cstep(f, x):
    h = 1e-30 * max(abs(x), 1e-3)
    return np.imag(f(x + 1j * h)) / h


def digits(st, m):
    """Rounding of the differences within deviators, per unit of |G|^2."""
    return 1e-13 * np.linalg.norm(st.A)**4


@L.law(quick={"default": 900, "thermal": 700, "multi": 900},
       thorough={"default": 30000, "thermal": 25000, "multi": 30000}, variants=VS)
def state(s, G):
    """The quantities of a state of conserved variables are the model's: the
    primitive variables, strain, stresses and their derivatives, heat flux, energies'
    derivatives, relaxation and reaction."""
    from gpr.misc.structures import State
    o = opt(G)
    m, P, st = case(s, o)
    ρ, p, A, v = st.ρ, st.p, st.A, st.v
    Q = R.cons(st, m, o)
    Q0 = Q.copy()
    X = State(Q, m.par(G))
    r = rounding(st, m, o, Q)
    g = R.gamma(ρ, m)
    T = R.temp(ρ, p, m)
    rT = r / (ρ * g * m.cv) + 1e-12 * abs(T)
    c = R.cs2(ρ, m)
    dg = digits(st, m)
    close("density", X.ρ, ρ, rtol=1e-14)
    close("energy", X.E, Q[1] / ρ, rtol=1e-14)
    close("velocity", X.v, v, rtol=1e-14, atol=1e-300)
    ensure((X.A == A).all(), "distortion differs")
    close("strain", X.G(), A.T @ A, rtol=1e-13, atol=1e-13 * np.sum(A * A))
    close("pressure", X.p(), p, rtol=0, atol=4 * r)
    close("temperature", X.T(), T, rtol=0, atol=4 * rT)
    σ = R.stress(ρ, A, m)
    close("shear stress", X.σ(), σ, rtol=0, atol=ρ * c * dg)
    close("stress", X.Σ(), p * np.eye(3) - σ, rtol=0, atol=ρ * c * dg + 4 * r)
    dσ = np.array([[np.imag(R.stress(ρ * (1 + 1e-30j), A, m))[i, j] / (1e-30 * ρ)
                    for j in range(3)] for i in range(3)])
    close("derivative of stress by density", X.dσdρ(), dσ, rtol=1e-9,
          atol=c * dg * (2 + m.β))
    W = np.empty((3, 3, 3, 3))
    for a in range(3):
        for b in range(3):
            Z = A.astype(complex)
            Z[a, b] += 1e-30j
            W[:, :, a, b] = np.imag(R.stress(ρ, Z, m)) / 1e-30
    n4 = ρ * c * np.linalg.norm(A)**3
    close("derivative of stress by distortion", X.dσdA(), W, rtol=1e-9, atol=1e-12 * n4)
    D = R.dev(A.T @ A)
    close("energy by distortion", X.dEdA(), R.C0(ρ, m) * A @ D, rtol=1e-9,
          atol=abs(R.C0(ρ, m)) * 1e-13 * np.linalg.norm(A)**3)
    close("energy by distortion, isentropic", X.ψ(), c * A @ D, rtol=1e-9,
          atol=c * 1e-13 * np.linalg.norm(A)**3)
    E = lambda x, q: R.e_of_p(x, q, m) + R.shear_energy(x, A, m)
    er = (r / (ρ * g) + abs(R.e_ref(ρ, m))) / ρ
    k = max(1, m.β, m.R1, 10 * g)
    close("energy by density", X.dEdρ(), cstep(lambda x: E(x, p), ρ), rtol=1e-8,
          atol=1e-9 * k * er + 10 * k * r / (ρ * ρ * g))
    close("energy by pressure", X.dEdp(), 1 / (ρ * g), rtol=1e-12)
    close("temperature by density", X.dTdρ(), cstep(lambda x: R.temp(x, p, m), ρ), rtol=1e-8,
          atol=10 * k * (rT / ρ) + 1e-10 * k * m.Tref / ρ)
    close("temperature by pressure", X.dTdp(), 1 / (ρ * g * m.cv), rtol=1e-12)
    ensure((np.array(X.f_body()).ravel() == m.δp).all(), "body forces differ")
    relaxation(s, X, st, m)
    if m.SOLID and m.POWER_LAW:
        close("plasticity", X.plastic_deformation(), R.sig_eq(σ) / m.σY, rtol=1e-9,
              atol=2 * ρ * c * dg / m.σY)
    if o.THERMAL:
        close("impulse", X.J, st.J, rtol=1e-14, atol=1e-300)
        close("heat flux", X.q(), m.cα2 * st.J * T, rtol=1e-12,
              atol=m.cα2 * np.abs(st.J).max() * 4 * rT + 1e-300)
        close("energy by impulse", X.H(), m.cα2 * st.J, rtol=1e-13, atol=1e-300)
        close("heat relaxation", X.θ2_1(), T / (m.κ * ρ), rtol=1e-12, atol=4 * rT / (m.κ * ρ))
    if o.MULTI:
        close("fraction", X.λ, st.λ, rtol=1e-14, atol=1e-300)
        if m.REACTION > -1 and not near_switch(Q, m, o):
            if m.REACTION == 1 and (T < 100 * rT or m.Ea / m.Rc * rT / T**2 > 1e-8):
                return
            want = R.reaction(Q, m, o)
            s.label("reaction %d" % m.REACTION)
            if np.isfinite(want):
                close("reaction", X.K(), want, rtol=1e-7,
                      atol=reaction_rounding(st, m, r))
    ensure((Q == Q0).all(), "the state was changed by reading it")


def reaction_rounding(st, m, r):
    if m.REACTION < 2:
        return 0.0
    p = max(st.p, 0)
    dp = abs((p + 4 * r)**m.y - p**m.y) * m.G1 + abs((p + 4 * r)**m.z - p**m.z) * m.G2
    return 10 * dp + 1e-12 * m.I


def relaxation(s, X, st, m):
    ρ, A = st.ρ, st.A
    σ = R.stress(ρ, A, m)
    want = R.theta1inv(ρ, A, m)
    kind = rheology(m)
    sn = R.sig_eq(σ) if kind == "plastic" else np.linalg.norm(σ) / np.sqrt(2)
    dsn = 3 * ρ * R.cs2(ρ, m) * digits(st, m)
    if kind == "powerlaw" and (sn <= 1e3 * dsn or sn == 0):
        s.label("at rest")
        return
    if kind == "bingham" and abs(sn - m.σY) <= 1e3 * dsn + 1e-9 * sn:
        return
    rel, at = 1e-9, 0.0
    if kind == "plastic":
        if sn <= 1e3 * dsn:
            return
        rel += 10 * m.n * dsn / sn
    elif kind == "powerlaw":
        rel += 10 * abs((1 - m.n) / m.n) * dsn / sn
    elif kind == "bingham" and want:
        rel += 10 * dsn / (sn - m.σY) + 1e-13 * sn / (sn - m.σY)
    close("relaxation", X.θ1_1(), want, rtol=rel, atol=at)


@L.law(quick={"default": 2500}, thorough={"default": 80000})
def closure(s, G):
    """Energy, pressure and temperature of density and pressure, and their
    derivatives, are the model's for all equations of state; pressure inverts energy."""
    from gpr.vars import eos, mg, shear, state as stt
    m, P = R.gen_eos(s)
    m.b02, m.β = P / m.ρ0 * s.float(0.01, 1, 0.5), m.β or s.choice([0.0, 1.0, 2.5])
    s.label(R.EOS_NAMES[m.EOS])
    ρ = m.ρ0 * s.float(0.4, 2.0, 1.0)
    if s.bool(0.1):
        s.label("at reference density")
        ρ = m.ρ0
    if m.EOS == R.SMG and m.s * (1 - m.ρ0 / ρ) > 0.9:
        raise Skip
    p = P * s.float(-2, 10, 1)
    m.Tref = s.choice([0.0, 300.0, 1.0, 0.1])
    s.note(material=m.show(), ρ=ρ, p=p)
    MP = m.par(G)
    g = R.gamma(ρ, m)
    pr, er = R.p_ref(ρ, m), R.e_ref(ρ, m)
    big = abs(p) + abs(pr) + m.A + abs(m.B)
    k = max(1, m.R1, m.R2)
    close("Grüneisen's parameter", mg.Γ_MG(ρ, MP), g, rtol=1e-13)
    close("reference pressure", mg.p_ref(ρ, MP), pr, rtol=1e-12, atol=1e-13 * big)
    close("reference energy", mg.e_ref(ρ, MP), er, rtol=1e-12, atol=1e-12 * big / m.ρ0)
    d = lambda f: cstep(lambda x: f(x, m), ρ)
    smooth = m.EOS != R.SMG or ρ != m.ρ0
    if smooth:
        close("its derivative", mg.dp_ref(ρ, MP), d(R.p_ref), rtol=1e-9, atol=1e-11 * k * big / ρ)
        close("derivative of the reference energy", mg.de_ref(ρ, MP), d(R.e_ref), rtol=1e-9,
              atol=1e-11 * k * big / ρ**2)
    close("derivative of Grüneisen's parameter", mg.dΓ_MG(ρ, MP), d(R.gamma), rtol=1e-10,
          atol=1e-13 / ρ)
    e = R.e_of_p(ρ, p, m)
    a = 1e-12 * (abs(e) + big / (ρ * g) + big / m.ρ0)
    close("energy", mg.internal_energy(ρ, p, MP), e, rtol=0, atol=a)
    close("energy", eos.E_1(ρ, p, MP), e, rtol=0, atol=a)
    close("pressure", mg.pressure(ρ, e, MP), p, rtol=0, atol=a * ρ * g + 1e-12 * big)
    T = R.temp(ρ, p, m)
    aT = 1e-12 * (abs(T) + m.Tref * R.phi(ρ, m) + big / (ρ * g * m.cv))
    close("temperature", mg.temperature(ρ, p, MP), T, rtol=0, atol=aT)
    close("temperature", stt.temperature(ρ, p, MP), T, rtol=0, atol=aT)
    if smooth:
        close("energy by density", mg.dedρ(ρ, p, MP), cstep(lambda x: R.e_of_p(x, p, m), ρ),
              rtol=1e-9, atol=100 * k * a / ρ)
        close("temperature by density", mg.dTdρ(ρ, p, MP), cstep(lambda x: R.temp(x, p, m), ρ),
              rtol=1e-9, atol=100 * k * aT / ρ)
    close("energy by pressure", mg.dedp(ρ, MP), 1 / (ρ * g), rtol=1e-12)
    close("temperature by pressure", mg.dTdp(ρ, MP), 1 / (ρ * g * m.cv), rtol=1e-12)
    close("shear speed", shear.c_s2(ρ, MP), R.cs2(ρ, m), rtol=1e-13)
    close("its derivative", shear.dc_s2dρ(ρ, MP), d(R.cs2), rtol=1e-10, atol=1e-300)
    close("shear modulus", shear.C_0(ρ, MP), R.C0(ρ, m), rtol=1e-12,
          atol=1e-13 * R.cs2(ρ, m) * (1 + m.β / g))
    close("its derivative", shear.dC_0dρ(ρ, MP), d(R.C0), rtol=1e-10,
          atol=1e-12 * R.cs2(ρ, m) / ρ * (1 + m.β / g)**2 * 3)


@L.law(quick={"default": 800, "thermal": 800, "multi": 800},
       thorough={"default": 25000, "thermal": 25000, "multi": 25000}, variants=VS)
def energies(s, G):
    """The parts of the energy add up to the whole, which gives the pressure
    back, with or without shear, heat and reactions; speeds of waves are the model's."""
    from gpr.vars import eos, state as stt, wavespeeds as w
    o = opt(G)
    m, P, st = case(s, o)
    MP = m.par(G)
    A = None if s.bool(0.2) else st.A
    J = st.J if o.THERMAL and not s.bool(0.2) else None
    λ = st.λ if o.MULTI and m.REACTION > -1 and not s.bool(0.2) else None
    s.label("with " + " ".join(n for n, x in (("A", A), ("J", J), ("λ", λ)) if x is not None))
    Q = R.cons(st, m, o)
    r = rounding(st, m, o, Q) / (st.ρ * R.gamma(st.ρ, m))
    parts = [R.e_of_p(st.ρ, st.p, m), st.v @ st.v / 2]
    if A is not None:
        parts.append(R.shear_energy(st.ρ, A, m))
    if J is not None:
        parts.append(m.cα2 * (J @ J) / 2)
    if λ is not None:
        parts.append(m.Qc * (λ - 1))
    r += 1e-12 * sum(abs(x) for x in parts)
    E = eos.total_energy(st.ρ, st.p, st.v, A, J, λ, MP)
    close("energy", E, sum(parts), rtol=0, atol=r)
    close("pressure", stt.pressure(st.ρ, E, st.v, A, J, λ, MP), st.p, rtol=0,
          atol=4 * r * st.ρ * R.gamma(st.ρ, m))
    c2 = R.c0sq(st.ρ, st.p, st.A, m)
    k = max(1, m.R1, 10 * R.gamma(st.ρ, m))
    a = 1e3 * k * r * R.gamma(st.ρ, m)
    if c2 > 1e3 * a:
        close("speed of sound", w.c_0(st.ρ, st.p, st.A, MP)**2, c2, rtol=1e-8, atol=a)
        close("longitudinal speed", w.c_inf(st.ρ, st.p, st.A, MP)**2,
              c2 + 4 / 3 * R.cs2(st.ρ, m), rtol=1e-8, atol=a)
    T = R.temp(st.ρ, st.p, m)
    if o.THERMAL:
        close("speed of heat", w.c_h(st.ρ, T, MP), np.sqrt(m.cα2 * T / m.cv) / st.ρ, rtol=1e-12)


@L.law(quick={"default": 600}, thorough={"default": 20000})
def tensors(s, G):
    """Invariants, deviators, norms and Gram matrices of matrices; invariants
    do not change with the frame."""
    from gpr.misc import functions as f
    X = s.arr((3, 3), -2, 2) * s.choice([1, 1e-3, 1e3])
    s.note(X=X)
    n = np.linalg.norm(X)
    ev = np.linalg.eigvals(X)
    close("trace", f.tr(X), np.trace(X), rtol=0, atol=1e-14 * n)
    close("determinant", f.det3(X), np.linalg.det(X), rtol=0, atol=1e-13 * n**3)
    close("norm", f.L2_2D(X), n * n, rtol=1e-13)
    close("norm of a vector", f.L2_1D(X[0]), X[0] @ X[0], rtol=1e-13, atol=1e-300)
    S = X.T @ X
    close("Gram matrix", f.gram(X), S, rtol=0, atol=1e-14 * n**2)
    close("Gram matrix of rows", f.gram_rev(X), X @ X.T, rtol=0, atol=1e-14 * n**2)
    close("deviator", f.dev(X), R.dev(X), rtol=0, atol=1e-14 * n)
    close("A dev G", f.AdevG(X, S), X @ R.dev(S), rtol=0, atol=1e-13 * n**3)
    close("G dev G", f.GdevG(S), S @ R.dev(S), rtol=0, atol=1e-13 * n**4)
    e = np.linalg.eigvalsh(S)
    close("first invariant", f.I_1(S), e.sum(), rtol=0, atol=1e-13 * n**2)
    close("second invariant", f.I_2(S), e[0] * e[1] + e[1] * e[2] + e[2] * e[0], rtol=0,
          atol=1e-12 * n**4)
    close("third invariant", f.I_3(S), e.prod(), rtol=0, atol=1e-12 * n**6)
    Y = X + X.T
    close("equivalent stress", f.sigma_norm(Y), R.sig_eq(Y), rtol=1e-9, atol=1e-13 * n)
    U = R.gen_rotation(s)
    close("equivalent stress of a frame", f.sigma_norm(U @ Y @ U.T), R.sig_eq(Y), rtol=1e-9,
          atol=1e-12 * n)
    x = s.choice([0.0, 1e-12, 1.0]) * s.float(-2, 2, 1)
    y = f.lim(x)
    ensure(abs(y) >= 1e-11 and (y == x or abs(x) < 1e-11) and (x * y >= 0), f"lim({x}) is {y}")
    big = np.arange(17.0) if s.bool() else np.arange(14.0)
    y = f.reorder(big)
    order = [0, 1, "v0", "v1", "v2"]
    want = [0, 1, 11, 12, 13] + [2 + 3 * j + i for i in range(3) for j in range(3)]
    want += [14, 15, 16] if big.size == 17 else []
    ensure((y == np.array(want)).all(), "variables are reordered wrongly")


@L.law(quick={"default": 600}, thorough={"default": 20000})
def hyperelastic(s, G):
    """States of deformation, entropy and velocity: stress is the derivative of
    energy by deformation, temperature by entropy, entropy inverts energy, and the
    state is that of the solver's material of the same parameters."""
    from gpr.misc.objects import hyperelastic_params
    from gpr.vars import hyp
    si = s.bool(0.4)
    b0 = s.log(1000, 4000, 2000) if si else s.log(0.1, 3, 1)
    c0 = b0 * s.float(1.3, 3, 1.6)
    cv = s.log(100, 1000, 400) if si else s.log(0.1, 5, 1)
    T0 = 300.0 if si else s.log(0.1, 3, 1) * c0**2 / cv * 0.1
    ρ0 = s.log(1000, 20000) if si else s.log(0.5, 10, 1)
    α, β, γ = s.float(0.5, 2, 1), s.float(0, 4, 3), s.float(0.5, 3, 2)
    H = hyperelastic_params(ρ0, α, β, γ, cv, T0, b0, c0)
    m = R.M(EOS=R.GR, SOLID=True, ρ0=ρ0, c02=c0**2 - 4 / 3 * b0**2, α=α, β=β, γ=γ, cv=cv, Tref=T0,
            b02=b0**2)
    F = np.eye(3) + s.choice([0.3, 0.05, 0]) * s.sparse((3, 3))
    if np.linalg.det(F) < 0.3:
        F = np.eye(3)
    F = R.gen_rotation(s) @ F
    S = cv * s.choice([0.0, s.float(-0.5, 1, 0.1)])
    v = c0 * s.sparse(3)
    s.note(material=m.show(), F=F, S=S, v=v)
    Q = np.array(hyp.Cvec_hyp(F, S, v, H))
    A = np.linalg.inv(F)
    ρ = ρ0 * np.linalg.det(A)

    def energy(A, S):
        g = A.T @ A
        i3 = np.linalg.det(g)
        D = R.dev(g)
        return (H.K0 / (2 * α**2) * (i3**(α / 2) - 1)**2 +
                cv * T0 * i3**(γ / 2) * (np.exp(S / cv) - 1) +
                b0**2 / 4 * i3**(β / 2) * np.sum(D * D))
    e = energy(A, S)
    big = c0**2 + cv * T0 + e
    close("density", Q[0], ρ, rtol=1e-12)
    close("momentum", Q[2:5], ρ * v, rtol=1e-12, atol=1e-300)
    close("distortion", Q[5:14].reshape(3, 3), A, rtol=0, atol=1e-13 * np.abs(A).max())
    close("energy", Q[1] / ρ, e + v @ v / 2, rtol=1e-12, atol=1e-12 * big)
    Σ = np.empty((3, 3))
    W = np.empty((3, 3))
    for i in range(3):
        for j in range(3):
            Z = A.astype(complex)
            Z[i, j] += 1e-30j
            W[i, j] = np.imag(energy(Z, S)) / 1e-30
    # stress of matter whose density is that of its deformation
    want = -ρ * A.T @ W
    got = hyp.Sigma_hyp(ρ, A, S, H)
    close("stress", got, want, rtol=1e-9, atol=1e-11 * ρ * big)
    T = np.imag(energy(A, S + 1e-30j)) / 1e-30
    close("temperature", hyp.temperature_hyp(S, A, H), T, rtol=1e-10)
    close("entropy", hyp.entropy_hyp(Q[1] / ρ, A, v, H) / cv, S / cv, rtol=0,
          atol=1e-11 * (big + v @ v) / (cv * T0 * min(1, np.exp(S / cv)) *
                                        min(1, (ρ / ρ0)**γ)))
    # the solver's material
    o = opt(G)
    full = np.zeros(o.V)
    full[:14] = Q
    par = m.par(G)
    p = G.system.variables.pressure(full.copy(), par)
    a = 1e-11 * ρ * (big + v @ v) * max(1, γ)
    close("pressure of the solver", p, hyp.pressure_hyp(ρ, A, S, H), rtol=1e-9, atol=a)
    close("stress of the solver", p * np.eye(3) - R.stress(ρ, A, m), -got, rtol=1e-9, atol=a)
    # its temperature is of density and pressure, where those of shear count
    D = R.dev(A.T @ A)
    T = T + β * R.cs2(ρ, m) / 4 * np.sum(D * D) / (γ * cv)
    close("temperature of the solver", G.system.variables.temperature(full.copy(), par), T,
          rtol=1e-9, atol=a / (ρ * γ * cv))
