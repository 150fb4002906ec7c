"""Eigenvectors, and the star states of interfaces between materials."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import EOS_ALL, case, hyperbolic, opt, scales

L = Laws("C18")
L.assumptions = [
    "The star states of materials whose tractions, velocities and temperatures"
    " differ by a few per cent at most: for larger jumps the iteration of the"
    " code is not claimed to converge.",
]
SLIP = ("default", "thermal", "multi", "lset3")
ALL = SLIP + ("stick", "tstick")
STICK = ("stick", "tstick")


def traction(s, m):
    """Traction and normal heat flux on planes of normal e0, and temperature."""
    Σ = -R.stress(s.ρ, s.A, m)[0]
    Σ = Σ + np.array([s.p, 0, 0])
    T = R.temp(s.ρ, s.p, m)
    return Σ, T, m.cα2 * T * s.J[0]


def stretch(s, ρ, m, δ):
    """Distortion of principal axes e0, e1, e2 up to δ."""
    D = np.eye(3) + np.diag(s.choice([0, 0.05, 0.3]) * s.arr(3)) + \
        δ * s.sparse((3, 3))
    d = np.linalg.det(D)
    if d < 0.1:
        raise Skip
    A = D * (ρ / m.ρ0 / d)**(1 / 3)
    return A if s.bool(0.3) else R.gen_rotation(s) @ A


def impedance(st, m):
    return st.ρ * np.sqrt(abs(R.c0sq(st.ρ, st.p, st.A, m)))


def pair(s, o, δ, vac=False, elastic=0.5):
    """Two materials (or one and a vacuum) whose states almost meet at a
    plane of normal e0."""
    kinds = (R.SG, R.SMG, R.CC, R.GR) if vac else EOS_ALL
    elastic = "elastic" if s.bool(elastic) else None
    m, P, st = case(s, o, kinds=kinds, strain=0.0, mach=1.0, rheology=elastic)
    c = np.sqrt(P / m.ρ0)
    S = S2 = max(P, m.ρ0 * m.b02)
    if not vac:
        m2, P2 = R.gen_material(s, kinds=EOS_ALL, opt=o, rheology=elastic)
        S2 = max(P2, m2.ρ0 * m2.b02)
    # shear tractions jump by the fraction δ of the weaker material's scale
    st.A = stretch(s, st.ρ, m, δ * min(1, S2 / S))
    if vac:
        st.p = -traction(st.copy(p=0.0), m)[0][0] + δ * P * s.float(-1, 1, 1)
    if o.THERMAL:
        m.Tref = 0.0
        T = R.temp(st.ρ, st.p, m)
        if T <= 0:
            raise Skip
        m.T0 = T
        m.cα2 *= s.log(0.1, 10, 1)
        st.J = δ * np.sqrt(m.cv * T / m.cα2) * s.sparse(3)
    soft = sane(st, m, P, o)
    if vac:
        if np.abs(traction(st, m)[0]).max() > 0.01 * soft:
            raise Skip
        return (m, st, P), None
    lo, hi = R.rho_range(m2)
    ρ = m2.ρ0 * s.float(lo, hi, 1.0)
    A = stretch(s, ρ, m2, δ * min(1, S / S2))
    ε = δ * s.sparse(6)
    t = R.S(ρ, 0.0, st.v + c * min(1, np.sqrt(P2 / m2.ρ0) / c) * ε[:3], A,
            λ=s.float(0, 1, 0.5) if o.MULTI else 0.0,
            ls=s.sparse(o.LSET, -1, 1))
    t.p = traction(st, m)[0][0] - traction(t, m2)[0][0] + min(P, P2) * ε[3]
    if o.THERMAL:
        m2.Tref = 0.0
        T2 = T * (1 + ε[4])
        cv = m2.cv
        m2.cv = (t.p - R.p_ref(ρ, m2)) / (ρ * R.gamma(ρ, m2) * T2)
        if m2.cv <= 0:
            raise Skip
        # alike thermal impedances
        m2.cα2, m2.κ = m.cα2 * s.log(0.3, 3, 1), m.κ
        m2.T0 = T2
        q = m.cα2 * T * st.J[0]
        t.J = δ * np.sqrt(m2.cv * T2 / m2.cα2) * s.sparse(3)
        t.J[0] = t.J[0] + q / (m2.cα2 * T2)
        if t.p - R.p_ref(ρ, m2) > 100 * P2:
            raise Skip
    soft = min(soft, sane(t, m2, P2, o))
    jump = np.abs(traction(st, m)[0] - traction(t, m2)[0]).max()
    if jump > 0.01 * soft:
        raise Skip
    z = impedance(st, m) / impedance(t, m2)
    if not 1e-3 < z < 1e3:
        raise Skip
    s.label(R.EOS_NAMES[m2.EOS])
    s.note(right=m2.show(), ρR=t.ρ, pR=t.p, vR=t.v, AR=t.A.ravel())
    return (m, st, P), (m2, t, P2)


def sane(st, m, P, o):
    """Skips states without 2 n1 waves that move relative to the material;
    returns the modulus of the slowest."""
    T = R.temp(st.ρ, st.p, m)
    c2 = R.c0sq(st.ρ, st.p, st.A, m)
    if not (st.ρ > 0 and T > 0 and c2 > 0):
        raise Skip
    for x in (0.95, 1.05):    # far from a loss of hyperbolicity
        c2x = R.c0sq(x * st.ρ, st.p + (x - 1) * st.ρ * c2, st.A * np.cbrt(x), m)
        if not 0.5 * c2 < c2x < 2 * c2:
            raise Skip
    Q = R.cons(st, m, o)
    ev = np.sort(hyperbolic(Q, 0, m, o, scales(st, m, P, o))) - st.v[0]
    k = 4 if o.THERMAL else 3
    slow = 0.3 * np.sqrt(m.b02)
    if not (ev[k - 1] < -slow and ev[-k] > slow):
        raise Skip
    return st.ρ * min(ev[k - 1]**2, ev[-k]**2)


def turned(X, F):
    """A state in the frame whose axes are the rows of F."""
    st = X.copy()
    st.v, st.A, st.J = F.T @ X.v, F.T @ X.A @ F, F.T @ X.J
    return st


def stars(G, l, r, o, F, dt=0.0):
    """Star states of both sides of an interface of normal F[0], in the frame
    of F."""
    n = F[0].copy()
    m, st, _ = l
    p = m.par(G)
    QL = R.cons(turned(st, F), m, o)
    if r is None:
        out = G.system.multi.left_star_state(QL, np.zeros(o.V), p, R.vacuum(G),
                                             dt, n)
        return turned(R.prim(np.array(out), m, o), F.T), None
    m2, t, _ = r
    p2 = m2.par(G)
    QR = R.cons(turned(t, F), m2, o)
    f = G.system.multi.left_star_state
    a = turned(R.prim(np.array(f(QL, QR, p, p2, dt, n)), m, o), F.T)
    b = turned(R.prim(np.array(f(QR, QL, p2, p, dt, -n)), m2, o), F.T)
    return a, b


def frame(s):
    if s.bool(0.3):
        s.label("normal e0")
        return np.eye(3)
    s.label("general normal")
    return R.gen_rotation(s)


def relaxing(*ms):
    """Tractions of the rounding errors of the solver of distortions, which runs
    (for no time) at every iteration: it may lose half the digits of a small
    strain."""
    return sum(3e-5 * m.ρ0 * m.b02 for m in ms if not m.SOLID or m.POWER_LAW)


def extra(st, new, o):
    """Level sets and mass fractions do not change across the waves."""
    if o.LSET:
        close("level sets of the star state", new.ls, st.ls, 0, 0)
    if o.MULTI:
        close("mass fraction of the star state", new.λ, st.λ, 1e-12, 1e-12)


def dedup(s, o, G, vac):
    δ = s.choice([1e-4, 1e-3, 1e-2])
    s.note(δ=δ)
    l, r = pair(s, o, δ, vac)
    return l, r, δ


def meeting(s, G, stick):
    """The star states of both sides of an interface."""
    o = opt(G)
    δ = s.choice([1e-4, 1e-3, 1e-2])
    s.note(δ=δ)
    l, r = pair(s, o, δ)
    F = frame(s)
    a, b = stars(G, l, r, o, F)
    m, st, P = l
    m2, t, P2 = r
    extra(st, a, o)
    extra(t, b, o)
    ΣL, TL, qL = traction(a, m)
    ΣR, TR, qR = traction(b, m2)
    S = min(m.ρ0 * m.b02, m2.ρ0 * m2.b02)
    ε = relaxing(m, m2)
    tol = 1e-6 * S + 1e-9 * max(P, P2, abs(st.p), abs(t.p)) + ε
    c = 1e-6 * np.sqrt(min(m.b02, m2.b02)) + 1e-9 * (
        np.sqrt(P / m.ρ0) + np.sqrt(P2 / m2.ρ0)) + \
        ε / min(impedance(st, m), impedance(t, m2))
    if stick:
        close("tractions at a stick interface", ΣR, ΣL, 0, tol)
        close("velocities at a stick interface", b.v, a.v, 0, c)
    else:
        close("normal tractions at a slip interface", ΣR[0], ΣL[0], 0, tol)
        close("normal velocities at a slip interface", b.v[0], a.v[0], 0, c)
        close("tangential traction at a slip interface", ΣL[1:], 0 * ΣL[1:], 0, 10 * tol)
        close("tangential traction at a slip interface", ΣR[1:], 0 * ΣL[1:], 0, 10 * tol)
    if o.THERMAL:
        close("temperatures at an interface", TR, TL, 1e-6, 0)
        q0 = min(x.cα2 / x.ρ0 * x.T0 * np.sqrt(x.T0 / x.cv) for x in (m, m2))
        q1 = max(x.cα2 * T * np.sqrt(x.cv * T / x.cα2)
                 for x, T in ((m, TL), (m2, TR)))
        close("heat fluxes at an interface", qR, qL, 0, 1e-6 * q0 + 1e-9 * q1)
    if np.abs(ΣL - traction(st, m)[0]).max() < 1e-3 * δ * S:
        s.trivial()


@L.law(quick={"default": 500, "thermal": 300, "multi": 100, "lset3": 60},
       thorough={"default": 20000, "thermal": 10000, "multi": 4000, "lset3": 2000},
       variants=SLIP)
def slip(s, G):
    """The star states of both sides of a slip interface meet: normal
    tractions, normal velocities, temperatures and normal heat fluxes are
    equal, and tangential tractions are zero."""
    meeting(s, G, False)


@L.law(quick={"stick": 400, "tstick": 300},
       thorough={"stick": 15000, "tstick": 10000}, variants=STICK)
def stick(s, G):
    """The star states of both sides of a stick interface meet: tractions,
    velocities, temperatures and normal heat fluxes are equal."""
    meeting(s, G, True)


@L.law(quick={"default": 800, "thermal": 800, "stick": 400},
       thorough={"default": 20000, "thermal": 20000, "stick": 10000},
       variants=("default", "thermal", "stick"))
def vacuum(s, G):
    """The star state of a material next to a vacuum is without traction, and
    no heat flows out of it."""
    o = opt(G)
    δ = s.choice([1e-4, 1e-3, 1e-2])
    s.note(δ=δ)
    l, _ = pair(s, o, δ, True)
    m, st, P = l
    a, _ = stars(G, l, None, o, frame(s))
    extra(st, a, o)
    Σ, T, q = traction(a, m)
    close("traction next to a vacuum", Σ, 0 * Σ, 0,
          1e-6 * m.ρ0 * m.b02 + 1e-9 * max(P, abs(st.p)) + relaxing(m))
    if o.THERMAL:
        q0 = m.cα2 / m.ρ0 * m.T0 * np.sqrt(m.T0 / m.cv)
        close("heat flux into a vacuum", q, 0, 0,
              1e-6 * q0 + 1e-8 * m.cα2 * T * np.sqrt(m.cv * T / m.cα2))


def response(st, m, o):
    """Tractions, velocities, temperature and heat flux of a conserved state."""
    def f(Q):
        x = R.prim(Q, m, o)
        Σ, T, q = traction(x, m)
        return np.concatenate([Σ, x.v] + ([[T, q]] if o.THERMAL else []))
    return f


def waves(st, m, o, P, sgn):
    """Eigenvectors of the waves that move along sgn * e0 in the material."""
    Q = R.cons(st, m, o)
    sc = scales(st, m, P, o)
    w, X = np.linalg.eig(R.jac(Q, 0, m, o) * sc / sc[:, None])
    i = np.argsort(sgn * w.real)[::-1][:4 if o.THERMAL else 3]
    return Q, (X[:, i].real * sc[:, None]), sc


def flat(x, o):
    return np.concatenate([[x.ρ, x.p], x.v, x.A.ravel()] + ([x.J] if o.THERMAL else []))


def linear(s, G, stick, vac):
    o = opt(G)
    l, r = pair(s, o, 1e-4, vac, 1)
    m, st, P = l
    F = frame(s)
    a, b = stars(G, l, r, o, F)
    QL, XL, scL = waves(st, m, o, P, -1)
    f = response(st, m, o)
    kL = 3 + int(o.THERMAL)
    rows, rhs = [], []
    JL, hL = R.cstep(f, QL) @ XL, f(QL)
    unit = np.concatenate([3 * [m.ρ0 * m.b02], 3 * [np.sqrt(m.b02)]])
    if o.THERMAL:
        T = R.temp(st.ρ, st.p, m)
        unit = np.append(unit, [T, m.cα2 * T * np.sqrt(m.cv * T / m.cα2)])
    if vac:
        idx = [0, 1, 2] + ([7] if o.THERMAL else [])
        M, h = JL[idx], -hL[idx]
        u = unit[idx]
    else:
        m2, t, P2 = r
        QR, XR, scR = waves(t, m2, o, P2, 1)
        g = response(t, m2, o)
        JR, hR = R.cstep(g, QR) @ XR, g(QR)
        Z = np.zeros_like(JL)
        both = np.hstack([JL, -JR]), hR - hL
        i = list(range(6)) if stick else [0, 3]
        if o.THERMAL:
            i += [6, 7]
        M, h, u = both[0][i], both[1][i], unit[i]
        if not stick:
            M = np.vstack([M, np.hstack([JL, Z])[1:3], np.hstack([Z, JR])[1:3]])
            h = np.concatenate([h, -hL[1:3], -hR[1:3]])
            u = np.concatenate([u, unit[1:3], unit[1:3]])
    M, h = M / u[:, None], h / u
    if np.linalg.cond(M / np.abs(M).max(0)) > 1e6:
        raise Skip
    c = np.linalg.solve(M, h)
    pert = [(a, m, o, QL, XL @ c[:kL], scL)]
    if not vac:
        pert.append((b, m2, o, QR, XR @ c[kL:], scR))
    for x, mm, _, Q, dQ, sc in pert:
        if 1e-14 * abs(Q[1]) > 1e-8 * mm.ρ0 * mm.b02:   # of rounding errors
            raise Skip
        h = 1e-20
        y0 = flat(R.prim(Q, mm, o), o)
        sc = np.concatenate([[mm.ρ0, mm.ρ0 * mm.b02 + sc[1]], 3 * [sc[2] / sc[0]],
                             np.ones(9), 3 * [sc[-1 - o.LSET - int(o.MULTI)] / sc[0]]])
        sc = sc[:y0.size]
        want = flat(R.prim(Q + 1j * h * dQ, mm, o), o).imag / h / sc
        got = (flat(x, o) - y0) / sc
        size = np.abs(want).max()
        if size > 3e-2:
            raise Skip
        close("change of the state across the waves", got, want, 0,
              0.03 * size + 100 * size * size + 1e-6)
    if size < 1e-5:
        s.trivial()


@L.law(quick={"default": 500, "thermal": 500, "multi": 200},
       thorough={"default": 20000, "thermal": 10000, "multi": 4000},
       variants=("default", "thermal", "multi"))
def slip_waves(s, G):
    """For small jumps the star states of a slip interface differ from the
    states by the waves (eigenvectors of the system) that leave the interface,
    of the amplitudes that make them meet."""
    linear(s, G, False, s.bool(0.2))


@L.law(quick={"stick": 500, "tstick": 500},
       thorough={"stick": 20000, "tstick": 10000}, variants=STICK)
def stick_waves(s, G):
    """For small jumps the star states of a stick interface differ from the
    states by the waves (eigenvectors of the system) that leave the interface,
    of the amplitudes that make them meet."""
    linear(s, G, True, s.bool(0.1))


def compare(x, y, m, P, ε, what):
    c = np.sqrt(P / m.ρ0)
    z = np.sqrt(m.b02) * m.ρ0
    S = max(P, m.ρ0 * m.b02)
    η = 1e-7 + 3 * ε / (m.ρ0 * m.b02)
    close(f"density {what}", x.ρ, y.ρ, η, 0)
    close(f"pressure {what}", x.p, y.p, 0, 1e-7 * S + 1e-9 * abs(y.p) + 10 * ε)
    close(f"velocity {what}", x.v, y.v, 1e-9, 1e-7 * c + 10 * ε / z)
    close(f"distortion {what}", x.A, y.A, η, 0)
    close(f"thermal impulse {what}", x.J, y.J, 1e-6,
          1e-7 * np.sqrt(m.cv * R.temp(y.ρ, y.p, m) / max(m.cα2, 1e-300)) *
          (1 + 10 * ε / (m.ρ0 * m.b02)) if m.cα2 else 0)


@L.law(quick={"default": 500, "thermal": 300, "stick": 500, "tstick": 300},
       thorough={"default": 20000, "thermal": 10000, "stick": 20000,
                 "tstick": 10000},
       variants=("default", "thermal", "stick", "tstick"))
def frames(s, G):
    """Star states turn (and are mirrored, and moved) with the interface, its
    materials and their body forces."""
    o = opt(G)
    l, r = pair(s, o, s.choice([1e-4, 1e-3, 1e-2]), s.bool(0.15), 0.8)
    ms = [x for x in (l, r) if x is not None]
    force = all(m.SOLID and not m.POWER_LAW for m, _, _ in ms) and s.bool()
    dt = 0.0
    if force:
        s.label("body force")
        v = l[1].v.copy()     # (the solver of forces leaves the energy alone)
        for _, st, _ in ms:
            st.v = st.v - v
        dt = s.log(1e-5, 1e-3, 1e-4)
        # of the same acceleration, or the velocities would never meet
        g = np.sqrt(min(P / m.ρ0 for m, _, P in ms)) * s.arr(3)
        for m, st, P in ms:
            m.δp = st.ρ * g
    ε = sum(relaxing(m) for m, _, _ in ms)
    want = stars(G, l, r, o, np.eye(3), dt)
    F = R.gen_rotation(s)
    if s.bool():
        s.label("mirrored")
        F = np.diag(s.choice([[-1, 1, 1], [1, -1, 1], [1, 1, -1], [-1, -1, -1]])) @ F
    if s.bool(0.3):
        F = F @ np.eye(3)[[1, 2, 0]]
    w = 0 if force else np.sqrt(l[2] / l[0].ρ0) * s.sparse(3)
    moved = []
    for m, st, P in ms:
        m2 = R.M(**m.__dict__)
        m2.δp = F.T @ m.δp
        moved.append((m2, st.copy(v=st.v + w), P))
    got = stars(G, moved[0], moved[1] if r else None, o, F, dt)
    for x, y, (m, st, P) in zip(got, want, ms):
        x.v = x.v - w
        if force:
            # one half step of the force per iteration, whose number may differ
            a = g * dt / 2
            k = np.round(((x.v - y.v) @ a) / max(a @ a, 1e-300))
            ensure(abs(k) < 10, "a turned star state has another acceleration")
            close("velocity of a turned star state with a body force",
                  x.v - k * a, y.v, 0, 0.1 * np.linalg.norm(a) +
                  1e-6 * np.sqrt(P / m.ρ0) + 1e-9 * np.abs(y.v).max())
            continue
        compare(x, y, m, P, ε,
                "of a turned star state")


@L.law(quick={"default": 200, "thermal": 150, "stick": 200, "multi": 50},
       thorough={"default": 5000, "thermal": 5000, "stick": 5000, "multi": 2000},
       variants=("default", "thermal", "stick", "multi"))
def rest(s, G):
    """A state that meets the one at the other side is its own star state, for
    different materials or for the same one (over any time)."""
    o = opt(G)
    l, r = pair(s, o, 0.0)
    m, st, P = l
    m2, t, P2 = r
    dt = 0.0
    if s.bool(0.3):
        m2, t, P2 = m, st, P
        s.label("same material")
        dt = s.choice([0, 1e-3, 10])
    else:
        t.p = t.p + traction(st, m)[0][0] - traction(t, m2)[0][0]
        t.v = st.v.copy()
    F = frame(s)
    a, b = stars(G, (m, st, P), (m2, t, P2), o, F, dt)
    for x, y, mm, p in ((a, st, m, P), (b, t, m2, P2)):
        compare(x, y, mm, max(P, P2), 0, "of a star state at rest")


@L.law(quick={"default": 600, "thermal": 400, "multi": 100, "lset0": 60},
       thorough={"default": 20000, "thermal": 20000, "multi": 4000, "lset0": 2000},
       variants=("default", "thermal", "multi", "lset0"))
def eigenvectors(s, G):
    """The columns of eigen() are independent eigenvectors of the system: first
    the waves that move forward in the material, then those that move
    backward and, without heat conduction, those that move with it."""
    o = opt(G)
    m, P, st = case(s, o, mach=1.0)
    if o.THERMAL:
        T = R.temp(st.ρ, st.p, m)
        st.J = st.J * 0.0
        if T <= 0:
            raise Skip
    sane(st, m, P, o)
    n1 = 3 + int(o.THERMAL)
    Q = R.cons(st, m, o)
    X = np.array(G.system.multi.eigen(Q, 0, m.par(G)))
    J = R.jac(Q, 0, m, o)

    def turn(P_):                      # primitive (by columns of A) to cons
        x = R.S(P_[0], P_[1], P_[11:14], P_[2:11].reshape(3, 3).T)
        k = 14
        if o.THERMAL:
            x.J, k = P_[14:17], 17
        if o.MULTI:
            x.λ, k = P_[k], k + 1
        x.ls = P_[k:]
        return R.cons(x, m, o)

    y = np.concatenate([[st.ρ, st.p], st.A.T.ravel(), st.v] +
                       ([st.J] if o.THERMAL else []) +
                       ([[st.λ]] if o.MULTI else []) + [st.ls])
    K = R.cstep(turn, y)
    cols = 2 * n1 if o.THERMAL else o.V
    Y = K @ X[:, :cols]
    sc = scales(st, m, P, o)
    Y = Y / sc[:, None]
    Js = J * sc / sc[:, None]
    size = np.abs(Y).max(0)
    ensure(np.all(size > 0) and np.all(np.isfinite(size)),
           "an eigenvector that is zero or not finite")
    Y = Y / size
    size = np.abs(Js).max()
    for k in range(cols):
        y_ = Y[:, k]
        z = Js @ y_
        λ = (y_ @ z) / (y_ @ y_)
        close(f"column {k} of the eigenvectors", z, λ * y_, 0, 1e-6 * size)
        rel = λ - st.v[0]
        tol = 1e-6 * size
        if k < n1:
            ensure(rel > tol, f"column {k} does not move forward")
        elif k < 2 * n1:
            ensure(rel < -tol, f"column {k} does not move backward")
        else:
            ensure(abs(rel) <= tol, f"column {k} does not move with the material")
    rank = np.linalg.svd(Y / np.linalg.norm(Y, axis=0), compute_uv=False)
    ensure(rank[-1] > 1e-12, lambda: f"eigenvectors are dependent: {rank[-1]:.3g}")


def dirty(k):
    """Leaves freed memory full of a number."""
    keep = [np.full(n, x) for x in (float(k), 10.0**k, -3.0 * k) for n in range(3, 34)
            for _ in range(3)]
    del keep


@L.law(quick={"default": 600, "thermal": 300, "stick": 300},
       thorough={"default": 20000, "thermal": 10000, "stick": 10000},
       variants=("default", "thermal", "stick"))
def undefined(s, G):
    """Whatever the states, also those without star states or waves, results are
    a function of them; star states that come to nothing are the state itself."""
    o = opt(G)
    m, P, st = case(s, o, mach=1.0)
    m2, P2, t = case(s, o, mach=1.0)
    Q = [R.cons(st, m, o), R.cons(t, m2, o)]
    for q in Q:
        kind = s.choice(["big", "nan", "far", "sane"])
        s.label(kind)
        if kind == "big":
            x = 10.0**s.float(10, 160)
            if s.bool():
                q[5:14] *= x
            else:
                q[s.int(0, 13)] *= x
        elif kind == "nan":
            q[s.int(0, 13)] = s.choice([np.nan, np.inf, -np.inf, 0.0])
        elif kind == "far":
            q[:14] = q[:14] * (1 + s.arr((14,), -3, 3))
    n = s.arr((3,), -1, 1) + np.array([1.5, 0, 0])
    n /= np.linalg.norm(n)
    d = s.int(0, 2)
    p, p2 = m.par(G), m2.par(G)

    def both(k):
        dirty(k)
        E = np.array(G.system.multi.eigen(Q[0].copy(), d, p))
        dirty(-k)
        return E, np.array(G.system.multi.left_star_state(Q[0].copy(), Q[1].copy(), p, p2,
                                                          0.0, n))
    E, X = both(1)
    for k in (2, 3):
        E2, X2 = both(k)
        ensure(np.array_equal(E, E2, equal_nan=True), "eigenvectors differ from call to call")
        ensure(np.array_equal(X, X2, equal_nan=True), "star states differ from call to call")
    if np.isfinite(E).all() and np.isfinite(X).all() and not np.array_equal(X, Q[0]):
        s.label("star")
    ensure(np.array_equal(X, Q[0], equal_nan=True) or not np.isnan(X).any(),
           "an undefined star state was not replaced by the state")
