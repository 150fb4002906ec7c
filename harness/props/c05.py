"""Source terms."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, opt

L = Laws("C05", 4)
VS = ("default", "thermal", "multi")
L.assumptions = [
    "The temperature of a discrete-ignition material is not generated within "
    "1e-9 of the ignition temperature, nor the fractions of an ignition-and-"
    "growth material at its stage boundaries.",
]


def near_switch(Q, m, o):
    s = R.prim(Q, m, o)
    if m.REACTION == 0:
        T = R.temp(s.ρ, s.p, m)
        return abs(T - m.Ti) <= 1e-8 * (abs(T) + (abs(s.p) + abs(Q[1]) + abs(R.p_ref(s.ρ, m))) /
                                         (s.ρ * R.gamma(s.ρ, m) * m.cv))
    if m.REACTION == 2:
        f = 1 - s.λ
        return min(abs(f - x) for x in (m.φI, m.φG1, m.φG2, 0, 1)) < 1e-9
    return False


def gen(s, G, **kw):
    o = opt(G)
    m, P, st = case(s, o, **kw)
    Q = R.cons(st, m, o)
    if m.REACTION > -1:
        s.label("reaction %d" % m.REACTION)
        s.note(λ=st.λ, reaction=m.REACTION)
        if near_switch(Q, m, o):
            raise Skip
        # a fractional power of a negative compression is not defined
        if m.REACTION == 2 and m.x != int(m.x):
            raise Skip
    return o, m, P, st, Q


def code_source(G, Q, par, o, fill=7.0):
    r = np.full(o.V, fill)
    G.system.source(r, Q, par)
    return r


def rounding(Q, m, o, P):
    """Uncertainty of the pressure of Q."""
    s = R.prim(Q, m, o)
    Γ = R.gamma(s.ρ, m)
    e = abs(s.p) + abs(R.p_ref(s.ρ, m)) + Γ * (abs(Q[1]) + s.ρ * (
        abs(R.e_ref(s.ρ, m)) + s.v @ s.v + abs(R.shear_energy(s.ρ, s.A, m))))
    if m.EOS == R.CC:
        e += s.ρ * Γ * (m.A + m.B) / m.ρ0 / min(abs(1 - m.R1), abs(1 - m.R2))
    return 1e-13 * e


@L.law(quick={"default": 4000, "thermal": 2500, "multi": 4000},
       thorough={"default": 120000, "thermal": 60000, "multi": 100000}, variants=VS)
def source_is_the_models(s, G):
    """The source is the model's: body force, -psi/theta_1, -alpha^2 rho J T /
    (kappa rho), -rho K; zero in every other variable, whatever its output
    held."""
    o, m, P, st, Q = gen(s, G)
    Q0 = Q.copy()
    got = code_source(G, Q, m.par(G), o)
    want = R.source(Q, m, o)
    ensure(np.array_equal(Q, Q0), "the state was changed")
    close("body force", got[2:5], m.δp, rtol=0)
    # rounding of sigma in a strained state: 1e-16 / strain
    D = R.dev(st.A.T @ st.A)
    n = np.trace(st.A.T @ st.A)
    δ = np.linalg.norm(D) / n
    k = max(m.n, 1 / m.n) + 3
    rel = 1e-13 * k * (1 + 1 / max(δ, 1e-3))
    if m.BINGHAM:
        sn = np.linalg.norm(R.stress(st.ρ, st.A, m)) / np.sqrt(2)
        rel *= 1 + m.σY / max(abs(sn - m.σY), 1e-12 * m.σY)
    if δ > 1e-9 or not m.POWER_LAW:
        top = np.abs(want[5:14]).max() if δ > 1e-9 else \
            R.theta1inv(st.ρ, st.A, m) * R.cs2(st.ρ, m) * n**1.5
        close("distortion", got[5:14], want[5:14], atol=rel * top, rtol=0)
    else:
        ensure(np.isfinite(got[5:14]).all(), "the relaxation of an unstressed "
               "state is not finite")
    rest = np.ones(o.V, bool)
    rest[2:14] = False
    dp = rounding(Q, m, o, P)
    dT = dp / (st.ρ * R.gamma(st.ρ, m) * m.cv) + 1e-13 * m.Tref
    if o.THERMAL:
        T = R.temp(st.ρ, st.p, m)
        close("thermal impulse", got[14:17], want[14:17], rtol=1e-12,
              atol=10 * dT * m.cα2 / m.κ * np.abs(Q[14:17] / st.ρ).max())
        rest[14:17] = False
    if o.MULTI:
        tol = 1e-9 * abs(want[o.mV])
        if m.REACTION == 1:
            T = R.temp(st.ρ, st.p, m)
            tol += abs(want[o.mV]) * m.Ea / (m.Rc * T * T) * 10 * dT
        if m.REACTION == 2:
            f = 1 - st.λ
            tol += 10 * dp * st.ρ * (
                (m.G1 * m.y * max(st.p, dp)**(m.y - 1) if f < m.φG1 else 0) +
                (m.G2 * m.z * max(st.p, dp)**(m.z - 1) if f > m.φG2 else 0))
        close("reactant", got[o.mV], want[o.mV], atol=tol, rtol=0)
        rest[o.mV] = False
    ensure(not got[rest].any(), lambda: f"source in other variables: {got}")


@L.law(quick={"default": 3000, "thermal": 1500}, thorough={"default": 100000, "thermal": 40000},
       variants=("default", "thermal"))
def second_law(s, G):
    """Relaxation only takes out mesoscale energy: psi : S_A <= 0 and J . S_J <=
    0, while tr(A^-1 S_A) = 0, so that det A = rho/rho0 is kept."""
    o, m, P, st, Q = gen(s, G)
    S = code_source(G, Q, m.par(G), o)
    SA = S[5:14].reshape(3, 3)
    ψ = R.C0(st.ρ, m) * st.A @ R.dev(st.A.T @ st.A)
    ensure(np.isfinite(S).all(), "the source is not finite")
    if R.C0(st.ρ, m) > 0 and np.abs(R.dev(st.A.T @ st.A)).max() > \
            1e-9 * np.sum(st.A**2):
        ensure(np.sum(ψ * SA) <= 1e-12 * np.abs(ψ).max() * np.abs(SA).max(),
               lambda: f"relaxation adds energy: {np.sum(ψ * SA)}")
    X = np.linalg.solve(st.A, SA)
    close("rate of det A", np.trace(X), 0, rtol=1e-9, scale=np.abs(X).max() +
          1e-4 * R.theta1inv(st.ρ, st.A + 1e-9 * np.diag([1., 0, 0]), m) *
          R.cs2(st.ρ, m) * np.linalg.norm(st.A)**2)
    if o.THERMAL:
        T = R.temp(st.ρ, st.p, m)
        ensure(st.J @ S[14:17] <= 0, "thermal impulse grows")
        close("along J", np.cross(st.J, S[14:17]), np.zeros(3), rtol=1e-10,
              scale=np.linalg.norm(st.J) * np.linalg.norm(S[14:17]))


@L.law(quick=2500, thorough=80000)
def yield_and_rest(s, G):
    """Unstressed states do not relax; Bingham fluids do not below their yield
    stress, and elastic solids never; the relaxation is finite in all."""
    o = opt(G)
    r = s.choice(["bingham", "elastic", "powerlaw", "plastic", "newtonian"])
    m, P, st = case(s, o, rheology=r)
    par = m.par(G)
    if s.bool() and r != "elastic":
        st.A = R.gen_rotation(s) * (st.ρ / m.ρ0)**(1 / 3)
        if s.bool():
            st.A = np.eye(3) * (st.ρ / m.ρ0)**(1 / 3)
    S = code_source(G, R.cons(st, m, o), par, o)[5:14]
    s.note(A=st.A.ravel())
    ensure(np.isfinite(S).all(), lambda: f"relaxation is not finite: {S}")
    if r == "elastic":
        ensure(not S.any(), "an elastic solid relaxes")
        return
    D = R.dev(st.A.T @ st.A)
    if r == "bingham":
        sn = np.linalg.norm(R.stress(st.ρ, st.A, m)) / np.sqrt(2)
        s.label("above" if sn > m.σY else "below")
        if sn < m.σY * (1 - 1e-9):
            ensure(not S.any(), "a Bingham fluid flows below its yield stress")
        elif sn > m.σY * (1 + 1e-6):
            ensure(S.any(), "a Bingham fluid does not flow above its yield stress")
    if np.abs(D).max() <= 1e-14 * np.sum(st.A**2):
        # rounding, at most what a strain of 1e-9 gives
        B = st.A @ np.diag([1 + 1e-9, 1, 1])
        top = R.theta1inv(st.ρ, B, m) * R.cs2(st.ρ, m) * 1e-9 * np.sum(st.A**2)**1.5
        ensure(np.abs(S).max() <= 10 * top, "an unstressed state relaxes")
        s.label("unstressed")


@L.law(quick={"multi": 4000}, thorough={"multi": 120000}, variants=("multi",))
def reaction(s, G):
    """Reaction rates are never negative, vanish without reactant, do not depend
    on the frame, and are the model's, also for fractions outside [0, 1]."""
    o, m, P, st, Q = gen(s, G)
    if m.REACTION < 0:
        raise Skip
    par = m.par(G)
    Q = Q.copy()
    λ = s.choice([st.λ, 0.0, -0.1, 1.0, 1.05])
    e = Q[1] / st.ρ - m.Qc * (st.λ - 1)
    Q[o.mV] = st.ρ * λ
    Q[1] = st.ρ * (e + m.Qc * (λ - 1))
    s.note(λ=λ)
    s.label("λ=%s" % (λ if λ != st.λ else "inside"))
    r = G.system.reaction_rate(Q, par)
    ensure(np.isfinite(r) and r >= 0, f"reaction rate {r}")
    if λ <= 0:
        b = m.REACTION == 2 and min(m.b, m.c, m.e) <= 0
        ensure(r == 0 or b, f"reaction without reactant: {r}")
    if m.REACTION == 2 and min(abs(1 - min(max(λ, 0), 1) - x)
                               for x in (m.φI, m.φG1, m.φG2)) < 1e-9:
        return
    if near_switch(Q, m, o) and m.REACTION == 0:
        return
    want = R.reaction(Q, m, o)
    dp = rounding(Q, m, o, P)
    T = R.temp(st.ρ, st.p, m)
    tol = 1e-9 * want
    if m.REACTION == 1:
        tol += want * m.Ea / (m.Rc * T * T) * 10 * dp / (st.ρ * R.gamma(st.ρ, m) * m.cv)
    if m.REACTION == 2:
        p = max(st.p, dp)
        tol += 10 * dp * (m.G1 * m.y * p**(m.y - 1) + m.G2 * m.z * p**(m.z - 1))
    close("reaction rate", r, want, atol=tol, rtol=0)
