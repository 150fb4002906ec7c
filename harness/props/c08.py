"""Ordinary differential equations: the integrators, and reactions."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .c05 import near_switch
from .common import case, opt

L = Laws("C08")
L.assumptions = [
    "Rates of reactions are those of the reference model (checked by C05).",
    "The error of a reaction step is that of its order: steps in which nearly all burns are only "
    "bounded and compared with the same method.",
]


def rk4(f, tf, y, n):
    h = tf / n
    for _ in range(n):
        a = h * f(y)
        b = h * f(y + a / 2)
        c = h * f(y + b / 2)
        d = h * f(y + c)
        y += (a + 2 * b + 2 * c + d) / 6
    return y


def equation(s):
    """An equation dy/dt = f(y), its solution from y, and a Lipschitz bound."""
    kind = s.choice(["linear", "logistic", "constant", "quadratic", "sine"])
    s.label(kind)
    k = s.log(0.01, 100, 1) * s.choice([-1, 1])
    y0 = s.float(-3, 3, 1)
    b = 0.0
    if kind == "linear":
        b = s.float(-2, 2)
        f = lambda y: k * (y - b)
        exact = lambda t: b + (y0 - b) * np.exp(k * t)
    elif kind == "logistic":
        y0 = s.float(0.01, 0.99, 0.5)
        f = lambda y: k * y * (1 - y)
        exact = lambda t: 1 / (1 + (1 / y0 - 1) * np.exp(-k * t))
    elif kind == "constant":
        f = lambda y: k
        exact = lambda t: y0 + k * t
    elif kind == "quadratic":
        k, y0 = -abs(k), abs(y0)
        f = lambda y: k * y * y
        exact = lambda t: y0 / (1 - k * y0 * t)
        k = k * max(y0, 1)
    else:
        f = lambda y: k * np.sin(y)
        exact = lambda t: 2 * np.arctan(np.tan(y0 / 2) * np.exp(k * t))
    s.note(k=k, y0=y0, b=b)
    return kind, k, y0, b, f, exact


@L.law(quick={"multi": 1500}, thorough={"multi": 40000}, variants=("multi",))
def runge_kutta(s, G):
    """The explicit integrator has the error of a fourth order method of as many
    steps; a solution that comes to nothing is sought again in twice as many
    steps, as long as those before were at most 64."""
    n = s.int(1, 16)
    if s.bool(0.3):
        s.label("roots")
        k = s.log(0.1, 100, 1)
        y0 = s.log(0.1, 10, 1)
        f = lambda y: -k * np.sqrt(y) if y >= 0 else np.nan
        tf = s.log(0.1, 100, 2) * np.sqrt(y0) / k / 4
        m = n
        want = rk4(f, tf, y0, m)
        while np.isnan(want):
            m *= 2
            want = rk4(f, tf, y0, m)
            if m > 64:
                break
        s.note(n=n, tf=tf, y0=y0, k=k)
        s.label("nan" if np.isnan(want) else "again" if m > n else "at once")
        got = G.solvers.split.runge_kutta_launcher(f, tf, y0, n)
        if np.isnan(want):
            ensure(np.isnan(got), f"got {got}, not nan")
            return
        exact = max(0, np.sqrt(y0) - k * tf / 2)**2
        close("solution", got, exact, 0, 3 * abs(want - exact) + 1e-9 * y0)
        return
    kind, k, y0, b, f, exact = equation(s)
    tf = s.log(0.01, 1, 0.5) * n / abs(k)
    want = exact(tf)
    s.note(n=n, tf=tf)
    got = G.solvers.split.runge_kutta_launcher(f, tf, y0, n)
    e = abs(rk4(f, tf, y0, n) - want)
    size = abs(want) + abs(y0) + abs(b)
    close("solution", got, want, 0, 2 * e + 1e-12 * size * np.exp(max(0, k * tf)))


def radau(n, z):
    """The growth of dy/dt = z y over the unit of time by a discontinuous
    Galerkin method of n points: the Padé approximant (n - 1, n) of exp."""
    from math import factorial as F
    p, q = n - 1, n
    num = sum(F(p + q - j) * F(p) / (F(p + q) * F(j) * F(p - j)) * z**j for j in range(p + 1))
    den = sum(F(p + q - j) * F(q) / (F(p + q) * F(j) * F(q - j)) * (-z)**j for j in range(q + 1))
    return num / den


VS = ("multi", "n3", "n4")


@L.law(quick={"multi": 800, "n3": 400, "n4": 300},
       thorough={"multi": 20000, "n3": 10000, "n4": 8000}, variants=VS)
def stiff(s, G):
    """The implicit integrator is the discontinuous Galerkin method in time: of
    linear equations it has the Padé approximant, however stiff; of
    others, the error of its order."""
    o = opt(G)
    kind, k, y0, b, f, exact = equation(s)
    if kind == "linear" and s.bool(0.7):
        z = -s.log(0.01, 1e4, 1)
        s.label("stiff" if z < -10 else "linear")
        k = abs(k)
        g = lambda y: -k * (y - b)
        tf = -z / k
        got = G.solvers.split.stiff_ode_solve(y0, tf, g)
        want = b + (y0 - b) * radau(o.N, z)
        s.note(tf=tf, z=z)
        close("solution", got, want, 0, 1e-4 * (1 + abs(y0) + abs(b)))
        return
    h = s.log(0.01, 0.5, 0.2)
    tf = h / abs(k)
    s.note(tf=tf)
    got = G.solvers.split.stiff_ode_solve(y0, tf, f)
    close("solution", got, exact(tf), 0, 1e-4 * (1 + abs(y0)) + (1 + abs(y0)) * h**(2 * o.N))


@L.law(quick={"multi": 900, "multi3": 400}, thorough={"multi": 30000, "multi3": 12000},
       variants=("multi", "multi3"))
def reaction(s, G):
    """A reaction step solves the equation of the reactant: the error is that of
    a fourth order method of four steps, the fraction of reactant decreases and
    stays positive, and nothing else changes."""
    o = opt(G)
    m, P, st = case(s, o)
    if m.REACTION < 0:
        m.REACTION = s.int(0, 2)
        m.Qc = P / m.ρ0 * s.float(0, 3, 1)
        R.gen_reaction(s, m, P)
    λ0 = s.choice([st.λ, 0.0, 1.0, s.log(1e-6, 1, 0.1)])
    st.λ = λ0
    if m.REACTION == 2:
        m.x = round(m.x)
        # finite slopes
        m.b, m.c, m.d, m.e, m.g = [1 + x for x in (m.b, m.c, m.d, m.e, m.g)]
    Q = R.cons(st, m, o)
    par = m.par(G)
    s.label("reaction %d" % m.REACTION)
    s.note(λ=λ0, reaction=m.REACTION)

    def rate(λ):
        q = Q.copy()
        q[o.mV] = st.ρ * λ
        return -R.reaction(q, m, o)

    def T(λ):
        q = Q.copy()
        q[o.mV] = st.ρ * λ
        x = R.prim(q, m, o)
        return R.temp(x.ρ, x.p, m)
    λs = λ0 * np.linspace(0, 1, 9)
    k = max(abs(rate(λ)) for λ in λs) / λ0 if λ0 > 0 else 0.0
    dt = s.log(0.001, s.choice([0.5, 0.5, 100]), 0.1) / k if k > 0 else s.log(0.01, 100, 1)
    s.note(dt=dt, k=k)
    q = Q.copy()
    G.system.ode_stepper_numerical(q, dt, par)
    same = np.delete(np.arange(o.V), o.mV)
    ensure((q[same] == Q[same]).all(), "a reaction step changes more than the reactant")
    λ = q[o.mV] / st.ρ
    ensure(0 <= λ <= λ0 * (1 + 1e-12), f"fraction of reactant {λ}, was {λ0}")
    if λ0 <= 0 or k == 0:
        s.label("inert")
        if λ0 > 0 and near_switch(Q, m, o):
            return
        close("fraction of reactant", λ, λ0, rtol=1e-14)
        return
    if m.REACTION == 0:
        if near_switch(Q, m, o) or (T(λ0) > m.Ti) != (T(0) > m.Ti):
            s.label("switch")
            return
    if m.REACTION == 2 and any((1 - λ0 <= x + 1e-9) != (1 - λ * 0.9 <= x)
                               for x in (m.φI, m.φG1, m.φG2, 0)):
        s.label("switch")
        return
    if m.REACTION < 2 and min(T(0), T(λ0)) <= 0 or not np.isfinite([rate(x) for x in λs]).all():
        raise Skip
    fine = rk4(rate, dt, λ0, 32)
    e = abs(rk4(rate, dt, λ0, 4) - fine)
    # rounding of the energy
    x = R.prim(Q, m, o)
    r = 1e-14 * abs(Q[1]) / abs(st.ρ * R.gamma(st.ρ, m)) / max(P, 1e-300)
    close("fraction of reactant", λ, fine, 0, 2 * e + (1e-8 + r) * (λ0 - fine) + 1e-14)
    s.label("burnt %.0e" % max(1 - fine / λ0, 1e-9))


@L.law(quick={"multi": 150, "default": 150}, thorough={"multi": 3000, "default": 3000},
       variants=("multi", "default"))
def inert(s, G):
    """Materials that do not react are not changed."""
    o = opt(G)
    m, P, st = case(s, o)
    m.REACTION = -1
    Q = R.cons(st, m, o)
    q = Q.copy()
    G.system.ode_stepper_numerical(q, s.log(1e-3, 1e3, 1), m.par(G))
    ensure((q == Q).all(), "a material that does not react changed")

