"""Upkeep of the distortion between steps: renormalisation, rotation, the test
for contorted cells."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import opt
from .fields import base, noise, sane

L = Laws("C26", 2)
L.assumptions = ["Distortions have a positive determinant."]
VS = ("default", "thermal", "lset3")


def rot(s):
    """A rotation."""
    q = s.arr((4,))
    n = np.linalg.norm(q)
    if n < 1e-3:
        return np.eye(3)
    a, b, c, d = q / n
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
                     [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                     [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def distortions(s, n):
    """n distortions of all kinds of strain, in all frames."""
    out = []
    for _ in range(n):
        k = s.log(1e-3, 2, 1e-3)
        e = k * s.arr((3,))
        if s.bool(0.2):
            e[:] = e[0]
        elif s.bool(0.2):
            e[1] = e[0]
        out.append(rot(s) @ np.diag(np.exp(e)) @ rot(s).T)
    return np.array(out)


def grid(s, G):
    """Cells of one or more materials, some of them vacuum."""
    o = opt(G)
    nmat = o.LSET + 1 if o.LSET and s.bool(0.8) else 1
    ms, n = [], s.int(1, 8)
    u = np.zeros((n, o.V))
    mats = [s.int(0, nmat - 1) for _ in range(n)]
    cells = []
    scs = []
    for k in range(nmat):
        m, P, st, Q, sc = base(s, o)
        ms.append(m)
        cells.append(Q)
        scs.append(sc)
    vac = s.int(0, nmat - 1) if nmat > 1 and s.bool(0.3) else -1
    As = distortions(s, n)
    for i, k in enumerate(mats):
        u[i] = cells[k] + 0.1 * scs[k] * s.arr((o.V,))
        u[i, 5:14] = As[i].ravel()
        if o.LSET:
            # material k: k of the level sets are not negative
            ls = -s.arr((o.LSET,), 0.1, 1)
            ls[:k] *= -1
            if s.bool(0.2) and k:
                ls[0] = 0.0
            if s.bool(0.3):
                ls = ls[::-1]
            u[i, o.V - o.LSET:] = ls
        if s.bool(0.1):
            u[i, 0] = 0.0
    pars = [R.vacuum(G) if k == vac else ms[k].par(G) for k in range(nmat)]
    s.label(f"{nmat} materials", "vacuum" if vac >= 0 else "no vacuum")
    s.note(mats=mats, vacuum=vac, ρ=u[:, 0], A=u[:, 5:14])
    return o, ms, pars, vac, mats, u


def changed(o):
    k = np.zeros(o.V, bool)
    k[5:14] = True
    return k


@L.law(quick={"default": 6000, "thermal": 3000, "lset3": 3000},
       thorough={"default": 100000, "thermal": 50000, "lset3": 50000}, variants=VS)
def renormalise(s, G):
    """The distortion of every cell with matter becomes the multiple of itself
    whose determinant is the density over its material's reference density;
    nothing else changes, nor does it change again."""
    o, ms, pars, vac, mats, u = grid(s, G)
    got = u.ravel().copy()
    G.solvers.renorm_distortion(got, pars)
    got = got.reshape(u.shape)
    want = u.copy()
    for i, k in enumerate(mats):
        if k != vac and u[i, 0] > 0:
            A = u[i, 5:14].reshape(3, 3)
            want[i, 5:14] *= np.cbrt(u[i, 0] / ms[k].ρ0 / np.linalg.det(A))
    c = changed(o)
    ensure((got[:, ~c] == u[:, ~c]).all(), "another variable changed")
    close("distortion", got[:, c], want[:, c], rtol=1e-11,
          scale=np.abs(want[:, c]).max(1, keepdims=True))
    again = got.ravel().copy()
    G.solvers.renorm_distortion(again, pars)
    close("again", again.reshape(u.shape)[:, c], got[:, c], rtol=1e-12,
          scale=np.abs(want[:, c]).max(1, keepdims=True))


@L.law(quick={"default": 6000, "thermal": 3000, "lset3": 3000},
       thorough={"default": 100000, "thermal": 50000, "lset3": 50000}, variants=VS)
def rotate(s, G):
    """Rotating the distortions keeps the strains and the volumes, so that no
    flux of mass, momentum or energy changes, nor any other variable."""
    o, ms, pars, vac, mats, u = grid(s, G)
    got = u.ravel().copy()
    G.solvers.rotate_distortion(got, pars)
    got = got.reshape(u.shape)
    c = changed(o)
    ensure((got[:, ~c] == u[:, ~c]).all(), "another variable changed")
    for i, k in enumerate(mats):
        A, B = u[i, 5:14].reshape(3, 3), got[i, 5:14].reshape(3, 3)
        if k == vac:
            ensure((A == B).all(), "vacuum was rotated")
            continue
        sc = np.linalg.norm(A, 2)**2
        close("strain", B.T @ B, A.T @ A, atol=1e-13 * sc)
        close("volume", np.linalg.det(B), np.linalg.det(A), atol=1e-13 * sc**1.5)


@L.law(quick={"default": 6000, "thermal": 2000}, thorough={"default": 100000, "thermal": 30000},
       variants=("default", "thermal"))
def contorted(s, G):
    """A grid is contorted just if in some cell the mean square stretch, at unit
    volume, is more than 1 by the tolerance; rotations and changes of scale of
    either side have no part in it."""
    o = opt(G)
    n = s.int(1, 6)
    As = distortions(s, n)
    u = s.arr((n, o.V))
    u[:, 5:14] = As.reshape(n, 9)
    x = []
    for A in As:
        sv = np.linalg.svd(A)[1]
        x.append((sv**2).mean() / np.prod(sv)**(2 / 3) - 1)
    x = max(x)
    if s.bool():
        tol = x * (1 + s.choice([-1, 1]) * 10.0**-s.int(2, 8)) + s.choice([-1, 1]) * 1e-13
    else:
        tol = s.log(1e-3, 10)
    if abs(tol - x) < 1e-13 * (1 + np.abs(As).max()**2):
        raise Skip
    got = G.solvers.contorted(u.ravel().copy(), tol)
    s.label("contorted" if x > tol else "not contorted")
    s.note(x=x, tol=tol)
    ensure(got == (x > tol), f"contorted is {got} with stretch {x!r} and tolerance {tol!r}")


@L.law(quick=3000, thorough=50000, variants=("lset0",))
def reset(s, G):
    """When the distortion of any cell is contorted, all are reset to isotropic
    ones of the same volume, and their shear energies leave the cells; density,
    momentum and pressure stay."""
    o = opt(G)
    # no flow: mean state, distortion that no gradient or source acts on
    m, P, st, Q, sc = base(s, o, rheology="elastic")
    m.δp = np.zeros(3)
    n = s.int(o.N, 4)
    A = distortions(s, 1)[0]
    A *= np.cbrt(st.ρ / m.ρ0 / np.linalg.det(A))
    a = st.copy(A=A)
    q = R.cons(a, m, o)
    u = np.repeat(q[None], n, 0)
    sane(u, m, o)
    tol = s.log(1e-3, 3)
    sv = np.linalg.svd(A)[1]
    x = (sv**2).mean() / np.prod(sv)**(2 / 3) - 1
    if abs(x - tol) < 1e-9:
        raise Skip
    lam = G.system.max_abs_eigs(q.copy(), 0, m.par(G))
    if not lam > 0:
        raise Skip
    ret = G.solvers.iterator(u.ravel().copy(), 0.01 / lam, np.array([n], dtype=np.int32),
                             np.array([1.0]), 0.8, np.array([1, 1], dtype=np.int32), True,
                             s.bool(), False, 0, [m.par(G)], tol)
    got = np.array(ret[99]).reshape(u.shape)
    s.label("reset" if x > tol else "kept")
    want = u.copy()
    if x > tol:
        b = a.copy(A=np.cbrt(st.ρ / m.ρ0) * np.eye(3))
        want = np.repeat(R.cons(b, m, o)[None], n, 0)
    E = st.ρ * abs(R.shear_energy(st.ρ, A, m))
    close("state", got, want, atol=1e-10 * (np.abs(want) + sc + np.where(np.arange(o.V) == 1, E, 0)))
    if x > tol:
        p = G.system.variables.pressure(got[0].copy(), m.par(G))
        close("pressure", p, st.p, atol=1e-9 * (abs(E) + abs(got[0, 1]) + sc[1]))
