"""Relaxation over a finite time step (the split scheme's source half)."""

import numpy as np
from scipy.integrate import solve_ivp

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, opt, rheology

L = Laws("C07", 4)
L.assumptions = [
    "The analytic distortion solver linearises the equations of the invariants "
    "about equilibrium by design: it is held to the ODE to within 0.2 strain^2 "
    "(Newtonian) or 0.25 strain (power laws), and exactly in what the "
    "linearisation keeps (det A, frame, identity, composition).",
    "Plastic flow is compared below the stress of 1e8 at which the source is "
    "clipped.",
    "The analytic thermal impulse is compared with the ODE for ideal gases, for "
    "which it is exact; otherwise in direction and decay.",
]


def invariants(A):
    """det A, mean and spread of the eigenvalues of A^T A / det(A)^(2/3)."""
    d = np.linalg.det(A)
    x = np.linalg.svd(A)[1]**2 / d**(2 / 3)
    return d, x.mean() - 1, ((x[:, None] - x)**2).sum() / 6, x


def tol_values(u):
    """The solver recovers the singular values from a cubic: rounding, and the
    branch taken at |Delta| < 1e-12, are amplified near a double root."""
    u = max(u, 1e-30)
    return 4 * (min(np.sqrt(u), 1e-12 / u) + min(np.sqrt(u), 1e-8 * u**-.25)) + \
        1e-6


def rate(m, st):
    return R.theta1inv(st.ρ, st.A, m) * R.cs2(st.ρ, m)


def relax(G, Q, dt, par):
    q = Q.copy()
    G.solvers.split.analyticSolver_distortion(q, dt, par)
    return q


def gen(s, G, **kw):
    o = opt(G)
    m, P, st = case(s, o, strain=s.choice([0.3, 0.1, 0.03, 0.01, 1e-3, 0.0]), **kw)
    if m.BINGHAM:
        m.BINGHAM, m.σY = False, 0.0
    th = rate(m, st)
    dt = s.log(1e-3, 30, 0.3) / th if th > 0 and np.isfinite(th) else s.log(1e-3, 10)
    s.note(dt=dt)
    return o, m, P, st, dt


@L.law(quick={"default": 4000, "thermal": 1000}, thorough={"default": 150000, "thermal": 30000},
       variants=("default", "thermal"))
def structure(s, G):
    """The step changes the distortion only, keeps det A, moves it within its
    own singular frame, keeps the order of the stretches and never increases
    the shear energy; isotropic and elastic states stay as they are."""
    o, m, P, st, dt = gen(s, G)
    par = m.par(G)
    Q = R.cons(st, m, o)
    q = relax(G, Q, dt, par)
    mask = np.ones(o.V, bool)
    mask[5:14] = False
    ensure(np.array_equal(q[mask], Q[mask]), "another variable changed")
    A1 = q[5:14].reshape(3, 3)
    ensure(np.isfinite(A1).all(), "the distortion is not finite")
    d0, m0, u0, x0 = invariants(st.A)
    d1, m1, u1, x1 = invariants(A1)
    close("det A", d1, d0, rtol=1e-9)
    n = d0**(2 / 3)
    for B, what in ((st.A.T @ A1, "A^T A'"), (st.A @ A1.T, "A A'^T")):
        close(what + " symmetric", B / n, B.T / n, atol=1e-9)
        ensure(np.linalg.eigvalsh((B + B.T) / 2).min() > 0, what + " positive")
    G0, G1 = st.A.T @ st.A / n, A1.T @ A1 / n
    close("stretches along the same axes", G0 @ G1, G1 @ G0, atol=1e-9)
    w, X = np.linalg.eigh(G0)
    y = np.diag(X.T @ G1 @ X)
    if np.diff(w).min() > 1e-6:
        ensure(np.diff(y).min() > -2 * tol_values(u1), lambda: f"order of stretches {w} -> {y}")
    ensure(u1 <= u0 * (1 + 1e-6) + 1e-11, lambda: f"shear energy grew: {u0} -> {u1}")
    if m.SOLID and not m.POWER_LAW:
        ensure(np.array_equal(q, Q), "an elastic solid relaxed")
    if u0 < 1e-13:
        s.trivial()
        close("isotropic state", A1, st.A, atol=1e-6)


@L.law(quick=3000, thorough=100000)
def identity_and_objectivity(s, G):
    """A step of 0 is the identity; relaxing A R or R A is relaxing A and then
    rotating."""
    o, m, P, st, dt = gen(s, G)
    par = m.par(G)
    Q = R.cons(st, m, o)
    n = np.linalg.det(st.A)**(1 / 3)
    q = relax(G, Q, 0.0, par)
    A1 = q[5:14].reshape(3, 3)
    d0, m0, u0, x0 = invariants(st.A)
    close("no time", A1 / n, st.A / n, atol=tol_values(u0))
    if 0 < u0 and abs(np.diff(x0)).min() < 1e-6:
        # the linearisation may split equal stretches, along axes of the plane
        # that the decomposition chose
        s.label("equal stretches")
        return
    a = relax(G, Q, dt, par)[5:14].reshape(3, 3)
    O1, O2 = R.gen_rotation(s), R.gen_rotation(s)
    Q2 = Q.copy()
    Q2[5:14] = (O1 @ st.A @ O2).ravel()
    b = relax(G, Q2, dt, par)[5:14].reshape(3, 3)
    close("rotated frame", b / n, O1 @ a @ O2 / n, atol=4 * tol_values(invariants(a)[2]))


@L.law(quick=900, thorough=25000)
def follows_the_ode(s, G):
    """The invariants of A^T A after the step are those of dA/dt = -psi/theta
    of the model, integrated by an independent solver to 1e-9."""
    o, m, P, st, dt = gen(s, G)
    par = m.par(G)
    s0 = np.linalg.svd(st.A)[1]
    ε = s0[0] / s0[2] - 1
    if ε < 3e-4 or ε > 2 or (m.SOLID and not m.POWER_LAW):
        raise Skip
    if m.SOLID and R.sig_eq(R.stress(st.ρ, st.A, m)) > 1e8:
        raise Skip
    ρ = s0.prod() * m.ρ0

    def f(t, l):
        x = np.exp(2 * l)
        return -R.cs2(ρ, m) * R.theta1inv(ρ, np.diag(np.exp(l)), m) * (x - x.mean())
    T = dt
    if m.POWER_LAW and not m.SOLID and m.n > 1:
        # the stress vanishes in a finite time; stop the reference short of it
        r = rate(m, st) * dt
        if r > 0.05:
            raise Skip
    sol = solve_ivp(f, (0, T), np.log(s0), method="LSODA", rtol=1e-9, atol=1e-12)
    if not sol.success:
        raise Skip
    q = relax(G, R.cons(st, m, o), dt, par)
    _, m0, u0, _ = invariants(np.diag(s0))
    _, m1, u1, _ = invariants(np.diag(np.exp(sol.y[:, -1])))
    _, m2, u2, _ = invariants(q[5:14].reshape(3, 3))
    s.label("strain 1e%d" % np.floor(np.log10(ε)), rheology(m))
    s.note(strain=ε, m=[m0, m1, m2], u=[u0, u1, u2])
    # the mean is 1 + O(strain^2): it is known to rounding / strain^2
    tol = (0.25 * ε if m.POWER_LAW else 0.2 * ε**2) + 1e-6
    close("mean of the squared stretches", m2, m1, rtol=0, atol=tol * m0 + 2e-13)
    close("their spread", u2, u1, rtol=0, atol=tol * u0 + 1e-12)


@L.law(quick=1500, thorough=50000)
def composition(s, G):
    """For Newtonian fluids two steps are one step of the total length, and
    long steps end at the isotropic state of the same density."""
    o, m, P, st, dt = gen(s, G, rheology="newtonian")
    par = m.par(G)
    Q = R.cons(st, m, o)
    h = s.float(0.05, 0.95, 0.5)
    a = relax(G, Q, dt, par)
    b = relax(G, relax(G, Q, h * dt, par), (1 - h) * dt, par)
    d, m0, u0, _ = invariants(st.A)
    _, m1, u1, _ = invariants(a[5:14].reshape(3, 3))
    _, m2, u2, _ = invariants(b[5:14].reshape(3, 3))
    ε = np.sqrt(max(u0, 0))
    # where the linearised invariants are clipped to admissible ones the two
    # differ at the order of the linearisation
    close("spread", u2, u1, rtol=0, atol=2e-2 * ε**2 * u0 + 4e-12)
    close("mean", m2, m1, rtol=0, atol=2e-2 * ε**2 * m0 + 4e-12)
    q = relax(G, Q, 1e3 / rate(m, st), par)
    B = q[5:14].reshape(3, 3) / d**(1 / 3)
    close("the end state", B.T @ B, np.eye(3), atol=1e-5)


@L.law(quick=1500, thorough=50000)
def launcher(s, G):
    """The launcher relaxes every cell of an array by itself: distortion as
    above, momentum by the body force times dt, nothing else."""
    o, m, P, st, dt = gen(s, G)
    m.δp = P * s.arr(3)
    par = m.par(G)
    n = s.int(1, 5)
    cells = []
    for _ in range(n):
        x = R.gen_state(s, m, P, o)
        cells.append(R.cons(x, m, o))
    s.note(cells=n)
    u = np.array(cells).ravel()
    G.solvers.split.ode_launcher(u, dt, par)
    u = u.reshape(n, o.V)
    for i in range(n):
        want = relax(G, cells[i], dt, par)
        want[2:5] += m.δp * dt
        bad = ~np.isclose(u[i], want, rtol=1e-12, atol=0) & (u[i] != want)
        ensure(not bad.any(), lambda: f"cell {i}, variable {np.argmax(bad)}: "
               f"{u[i][np.argmax(bad)]!r} instead of {want[np.argmax(bad)]!r}")


@L.law(quick={"thermal": 1200}, thorough={"thermal": 40000}, variants=("thermal",))
def thermal_impulse(s, G):
    """The thermal impulse keeps its direction and decays; for an ideal gas it
    follows dJ/dt = -alpha^2 T J / (kappa rho) at constant total energy."""
    o = opt(G)
    m, P, st = case(s, o)
    if m.EOS == R.SG and s.bool(0.8):
        m.pINF = 0.0
    par = m.par(G)
    Q = R.cons(st, m, o)
    T = R.temp(st.ρ, st.p, m)
    k = m.cα2 / (m.κ * st.ρ)
    dt = s.log(1e-3, 10, 0.3) / (k * T)
    s.note(dt=dt)
    if m.POWER_LAW or m.BINGHAM:
        pass
    q = Q.copy()
    G.solvers.split.analyticSolver_thermal(q, dt, par)
    mask = np.ones(o.V, bool)
    mask[14:17] = False
    ensure(np.array_equal(q[mask], Q[mask]), "another variable changed")
    J0, J1 = Q[14:17], q[14:17]
    n0, n1 = np.linalg.norm(J0), np.linalg.norm(J1)
    if n0 == 0:
        s.trivial()
        ensure(n1 == 0, "a thermal impulse appeared")
        return
    ideal = m.EOS == R.SG and m.pINF == 0 and m.Tref == 0
    if not ideal:
        # the thermal energy enters with the elastic (reference) energy
        c1 = Q[1] / st.ρ - st.v @ st.v / 2 - R.shear_energy(st.ρ, st.A, m)
        if c1 <= m.cα2 * (st.J @ st.J) / 2:
            raise Skip
    if n1 > 1e-140:
        close("direction", J1 / n1, J0 / n0, atol=1e-12)
    ensure(0 <= J1 @ J0 and n1 <= n0 * (1 + 1e-12), f"thermal impulse grew {n0} -> {n1}")
    if ideal:
        s.label("ideal")
        E = T * m.cv + m.cα2 * (st.J @ st.J) / 2
        j0 = np.linalg.norm(st.J)
        # w = ln |J|
        f = lambda t, w: -k * (E - m.cα2 * j0**2 * np.exp(2 * w) / 2) / m.cv
        sol = solve_ivp(f, (0, dt), [0.0], method="LSODA", rtol=1e-10, atol=1e-12)
        if not sol.success:
            raise Skip
        if n1 < 1e-30 * n0 or n1 < 1e-140:
            ensure(sol.y[0, -1] < -60, "the thermal impulse vanished")
            return
        close("decay", np.log(n1 / n0), sol.y[0, -1], atol=1e-7, rtol=1e-7)


@L.law(quick={"thermal": 300}, thorough={"thermal": 10000}, variants=("thermal",))
def thermal_launcher(s, G):
    """With heat conduction, the launcher applies body force, distortion and
    thermal impulse, in that order, to each cell."""
    o, m, P, st, dt = gen(s, G, kinds=(R.SG,))
    m.pINF = 0.0
    par = m.par(G)
    n = s.int(1, 4)
    cells = [R.cons(R.gen_state(s, m, P, o), m, o) for _ in range(n)]
    u = np.array(cells).ravel()
    G.solvers.split.ode_launcher(u, dt, par)
    for i, q in enumerate(cells):
        q = q.copy()
        q[2:5] += m.δp * dt
        q = relax(G, q, dt, par)
        G.solvers.split.analyticSolver_thermal(q, dt, par)
        got = u[i * o.V:(i + 1) * o.V]
        if not np.isfinite(q).all():
            raise Skip
        close(f"cell {i}", got, q, rtol=1e-12, scale=np.abs(q))


def known(dirs, env, spawn):
    return []
