"""Wave speeds."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, hyperbolic, opt, scales

L = Laws("C06", 4)
VS = ("default", "thermal", "multi")


@L.law(quick={"default": 2500, "thermal": 2000, "multi": 1500},
       thorough={"default": 60000, "thermal": 50000, "multi": 40000}, variants=VS)
def spectral_radius(s, G):
    """The wave speed is the largest |eigenvalue| of the model's quasilinear
    matrix, in each direction, for strained, moving states."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    s.note(d=d)
    Q = R.cons(st, m, o)
    ev = hyperbolic(Q, d, m, o, scales(st, m, P, o))
    got = G.system.max_abs_eigs(Q, d, m.par(G))
    s.label("leftward" if st.v[d] < 0 else "rightward")
    close("largest wave speed", got, np.abs(ev).max(), rtol=1e-6)


@L.law(quick={"default": 1500, "thermal": 1000}, thorough={"default": 40000, "thermal": 20000},
       variants=("default", "thermal"))
def acoustic_tensor(s, G):
    """The square roots of the acoustic tensor's eigenvalues are the speeds,
    relative to the fluid, of the waves of the model's quasilinear matrix."""
    o = opt(G)
    m, P, st = case(s, o)
    d = s.int(0, 2)
    Q = R.cons(st, m, o)
    ev = np.sort(hyperbolic(Q, d, m, o, scales(st, m, P, o)) - st.v[d])
    Ξ = G.system.thermo_acoustic_tensor(Q, d, m.par(G))
    n = 4 if o.THERMAL else 3
    ensure(Ξ.shape == (n, n), f"acoustic tensor of shape {Ξ.shape}")
    # thermal units differ from mechanical ones: balance before solving
    D = np.ones(n)
    if o.THERMAL:
        a, b = np.abs(Ξ[3, :3]).max(), np.abs(Ξ[:3, 3]).max()
        if a > 0 and b > 0:
            D[3] = np.sqrt(a / b)
    w = np.linalg.eigvals(Ξ * D / D[:, None])
    c = np.sort(np.sqrt(np.maximum(w.real, 0)))
    top = np.abs(ev).max()
    # double roots are known to half the digits
    close("fast waves", c, ev[-n:], atol=3e-6 * (top + abs(st.v[d])) +
          1e-7 * (top + abs(st.v[d]))**2 / np.maximum(ev[-n:], 1e-3 * top))


@L.law(quick={"default": 1500, "multi": 800}, thorough={"default": 40000, "multi": 20000},
       variants=("default", "multi"))
def symmetries(s, G):
    """Relabelling the axes carries the wave speed from one direction to the
    other; mirroring keeps it; a boost w along the direction replaces |v| by
    |v + w|; level sets do not matter."""
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    d = s.int(0, 2)
    f = lambda x, e: G.system.max_abs_eigs(R.cons(x, m, o), e, par)
    a = f(st, d)
    if not np.isfinite(a):
        raise Skip
    perm = s.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1),
                     (2, 1, 0)])
    Pm = np.zeros((3, 3))
    for i, j in enumerate(perm):
        Pm[j, i] = 1
    sg = np.diag([s.choice([1.0, -1.0]) for _ in range(3)])
    O = Pm @ sg
    st2 = st.copy(v=O @ st.v, A=R.gen_rotation(s) @ st.A @ O.T, J=O @ st.J)
    close("wave speed in other axes", f(st2, perm[d]), a, rtol=1e-6)
    w = np.sqrt(P / m.ρ0) * s.sym(2)
    v = st.v.copy()
    v[d] += w
    close("wave speed after a boost", f(st.copy(v=v), d) - abs(v[d]),
          a - abs(st.v[d]), rtol=1e-6, scale=a + abs(w))
    close("wave speed with other level sets",
          f(st.copy(ls=-np.asarray(st.ls) + 1), d), a, rtol=1e-13)


@L.law(quick={"default": 600, "thermal": 400}, thorough={"default": 20000, "thermal": 10000},
       variants=("default", "thermal"))
def undefined(s, G):
    """A state without a sound speed has no wave speed: nan, whatever was
    computed before."""
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    d = s.int(0, 2)
    good = R.cons(st, m, o)
    bad = good.copy()
    p = st.p
    for _ in range(60):
        p -= P
        c2 = R.c0sq(st.ρ, p, st.A, m)
        if c2 < 0:
            break
        P *= 1.5
    else:
        raise Skip
    # well away from zero
    bad = R.cons(st.copy(p=p - P), m, o)
    st2 = R.prim(bad, m, o)
    if not R.c0sq(st2.ρ, st2.p, st2.A, m) < 0.1 * c2:
        raise Skip
    s.note(p=st2.p, d=d)
    for _ in range(3):
        G.system.max_abs_eigs(good.copy(), d, par)
        x = G.system.max_abs_eigs(bad.copy(), d, par)
        ensure(np.isnan(x), f"wave speed {x} of a state without a sound speed")
