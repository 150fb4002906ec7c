"""Thermodynamic closure."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, opt

L = Laws("C01", 4)
VS = ("default", "thermal", "multi")


@L.law(quick={"default": 4000, "thermal": 2500, "multi": 2500},
       thorough={"default": 150000, "thermal": 80000, "multi": 80000}, variants=VS)
def pressure_inverts_energy(s, G):
    """Energy of a generated (rho,p,v,A,J,lambda) from the model's closure; the
    code's pressure and temperature of it are p and T."""
    o = opt(G)
    m, P, st = case(s, o)
    Q = R.cons(st, m, o)
    par = m.par(G)
    V = G.system.variables
    # rounding of the energy, seen through Gamma
    sp = 1e-12 * (abs(st.p) + abs(R.p_ref(st.ρ, m)) + R.gamma(st.ρ, m) *
                  (abs(Q[1]) + st.ρ * (abs(R.e_ref(st.ρ, m)) + st.v @ st.v +
                                       abs(R.shear_energy(st.ρ, st.A, m)))))
    if m.EOS == R.CC:      # e_ref is a difference of two much larger powers
        sp += 1e-12 * st.ρ * R.gamma(st.ρ, m) * (m.A + m.B) / m.ρ0 / \
            min(abs(1 - m.R1), abs(1 - m.R2))
    Q0 = Q.copy()
    close("pressure", V.pressure(Q, par), st.p, atol=sp, rtol=0)
    T = R.temp(st.ρ, st.p, m)
    close("temperature", V.temperature(Q, par), T,
          atol=sp / (st.ρ * R.gamma(st.ρ, m) * m.cv) + 1e-12 * abs(T))
    ensure(np.array_equal(Q, Q0), "the state was changed by reading it")


@L.law(quick={"default": 3000}, thorough={"default": 100000})
def temperature_of_density_and_pressure(s, G):
    """The temperature at given density and pressure against the model, for
    every equation of state, including reference states away from rho0."""
    m, P = R.gen_eos(s)
    s.label(R.EOS_NAMES[m.EOS])
    ρ = m.ρ0 * s.float(0.4, 2.0, 1.0)
    if m.EOS == R.SMG and m.s * (1 - m.ρ0 / ρ) > 0.9:
        raise Skip
    p = P * s.float(-2, 10, 1)
    m.Tref = s.choice([0.0, 300.0, 1.0, 0.1])
    s.note(material=m.show(), ρ=ρ, p=p)
    T = R.temp(ρ, p, m)
    tol = 1e-12 * (abs(T) + m.Tref * R.phi(ρ, m) +
                   (abs(p) + abs(R.p_ref(ρ, m)) + m.A + m.B) /
                   (ρ * R.gamma(ρ, m) * m.cv))
    close("temperature", G.system.variables.temperature_mg(ρ, p, R.params(G, m)), T,
          atol=tol)


@L.law(quick={"default": 2500, "thermal": 1500},
       thorough={"default": 80000, "thermal": 50000}, variants=("default", "thermal"))
def energy_derivative(s, G):
    """dE/drho at constant p and A is the derivative of the model's energy."""
    o = opt(G)
    m, P, st = case(s, o)
    h = 1e-30
    f = lambda ρ: R.e_of_p(ρ, st.p, m) + R.shear_energy(ρ, st.A, m)
    want = np.imag(f(st.ρ * (1 + 1j * h))) / (h * st.ρ)
    Γ = R.gamma(st.ρ, m)
    tol = 1e-10 * ((abs(st.p) + abs(R.p_ref(st.ρ, m)) + P) / (st.ρ**2 * Γ) +
                   (1 + m.β / Γ) * (1 + m.β) * R.cs2(st.ρ, m) *
                   np.sum(R.dev(st.A.T @ st.A)**2) / st.ρ)
    if m.EOS in (R.JWL, R.CC):
        tol += 1e-10 * (abs(m.A) + abs(m.B)) / m.ρ0**2 / Γ
    close("dE/drho", G.system.variables.dEdρ(R.cons(st, m, o), m.par(G)), want,
          atol=tol)


@L.law(quick={"default": 2000, "multi": 1000}, thorough={"default": 60000, "multi": 30000},
       variants=("default", "multi"))
def frame_indifference(s, G):
    """Pressure and temperature do not change under a rotation of the frame
    (v -> Rv, A -> A R^T or R A R^T), nor with a Galilean boost that also
    changes the kinetic energy."""
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    V = G.system.variables
    Q = R.cons(st, m, o)
    p = V.pressure(Q, par)
    O, O2 = R.gen_rotation(s), R.gen_rotation(s)
    w = np.sqrt(P / m.ρ0) * s.arr(3)
    st2 = st.copy(v=O @ st.v + w, A=O2 @ st.A @ O.T, J=O @ st.J)
    Q2 = Q.copy()
    Q2[1] += st.ρ * (st2.v @ st2.v - st.v @ st.v) / 2
    Q2[2:5] = st.ρ * st2.v
    Q2[5:14] = st2.A.ravel()
    if o.THERMAL:
        Q2[14:17] = st.ρ * st2.J
    tol = 1e-11 * (abs(p) + (1 + R.gamma(st.ρ, m)) * (abs(Q[1]) + abs(Q2[1])))
    close("pressure", V.pressure(Q2, par), p, atol=tol)
    close("temperature", V.temperature(Q2, par), V.temperature(Q, par),
          atol=tol / (st.ρ * R.gamma(st.ρ, m) * m.cv))
