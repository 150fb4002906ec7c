"""WENO reconstruction."""

import numpy as np
from numpy.polynomial import Polynomial as P

import gpr_ref as R
from pbt import Laws, close, ensure
from .common import opt

L = Laws("C10", 2)
VS = ("default", "n3", "n4", "n5")

_mem = {}


class Basis:
    """Nodes, stencils and oscillation indicator from exact polynomials."""

    def __init__(self, N):
        self.N = N
        x, w = np.polynomial.legendre.leggauss(N)
        self.x, self.w = (x + 1) / 2, w / 2
        psi = []
        for i in range(N):
            p = P([1.0])
            for j in range(N):
                if j != i:
                    p = p * P([-self.x[j], 1]) / (self.x[i] - self.x[j])
            psi.append(p)
        self.psi = psi
        self.SIG = np.zeros((N, N))
        for i in range(N):
            for j in range(N):
                for a in range(1, N):
                    q = (psi[i].deriv(a) * psi[j].deriv(a)).integ()
                    self.SIG[i, j] += q(1) - q(0)
        # stencil: first row (of the 2N-1 around the cell), weight
        f, c = (N - 1) // 2, N // 2
        st = [(0, 1.0), (N - 1, 1.0)]
        if N > 2:
            st.append((f, 1e5))
            if N % 2 == 0:
                st.append((c, 1e5))
        self.st = []
        for k, lam in st:
            M = np.zeros((N, N))
            for i in range(N):
                a = k - (N - 1) + i
                for j in range(N):
                    I = psi[j].integ()
                    M[i, j] = I(a + 1) - I(a)
            self.st.append((k, lam, np.linalg.inv(M)))

    def line(self, u, corner=0):
        """Reconstruction along a line of cells u (n + 2(N-1), V) -> (n, N, V).
        The first and last `corner` cells of the line are not to be used."""
        N = self.N
        n = len(u) - 2 * (N - 1)
        out = np.full((n, N) + u.shape[1:], np.nan)
        for i in range(n):
            num = den = 0
            for k, lam, Mi in self.st:
                if i + k < corner or i + k + N > len(u) - corner:
                    continue
                w = Mi @ u[i + k:i + k + N]
                o = lam / (np.einsum("iv,ij,jv->v", w, self.SIG, w) + 1e-14)**8
                num, den = num + w * o, den + o
            if np.ndim(den):
                out[i] = num / den
        return out


def basis(N):
    if N not in _mem:
        _mem[N] = Basis(N)
    return _mem[N]


def weno(G, ub, nX):
    o = opt(G)
    N, V = o.N, o.V
    nX = list(nX)
    shape = [n + 2 for n in nX] + [N] * len(nX) + [V]
    wh = np.full(int(np.prod(shape)), 1.7e300)
    keep = ub.copy().ravel()
    u = ub.ravel().copy()
    G.solvers.weno.weno_launcher(wh, u, np.array(nX, dtype=np.int32),
                                 R.M().par(G))
    ensure(np.array_equal(u, keep), "the cell averages were changed")
    return wh.reshape(shape)


def gen_data(s, shape):
    """Cell averages: smooth, rough, with jumps, or constant; each variable by
    itself."""
    V = shape[-1]
    kind = s.choice(["random", "smooth", "jump", "steps", "constant"])
    s.label(kind)
    u = np.zeros(shape)
    if kind == "random":
        u = s.arr(shape)
    elif kind == "steps":
        u = np.round(2 * s.arr(shape)) / 2
    elif kind == "constant":
        u = u + s.arr(V)
    else:
        grid = np.meshgrid(*[np.arange(n) for n in shape[:-1]], indexing="ij")
        for v in range(V):
            k = s.block(len(shape) - 1)
            ph = sum(2 * (k[d] - 0.5) * grid[d] for d in range(len(grid)))
            u[..., v] = np.sin(ph + v)
            if kind == "jump":
                u[..., v] += 2.0 * (grid[0] > k[0] * shape[0])
                if len(grid) > 1:
                    u[..., v] -= (grid[1] > k[1] * shape[1])
    return u * s.choice([1.0, 10.0, 0.1])


def tol(u, N):
    D = np.abs(u).max()
    return 10.0**(N - 2) * 1e-6 * (D + D * D) + 1e-13


def corners(ub, N, fill):
    u = ub.copy()
    for a in (slice(None, N), slice(-N, None)):
        for b in (slice(None, N), slice(-N, None)):
            u[a, b] = fill
    return u


def size2(s, N):
    return s.int(2 * N - 2, 2 * N + 4), s.int(1, 2 * N + 3)


@L.law(quick={"default": 1500, "n3": 1000, "n4": 700, "n5": 500},
       thorough={"default": 40000, "n3": 30000, "n4": 20000, "n5": 15000}, variants=VS)
def means_are_kept(s, G):
    """The mean of the reconstruction over each cell, ghost cells included, is
    the cell's average, in 1 and 2 dimensions, for any data."""
    o = opt(G)
    N, V = o.N, o.V
    b = basis(N)
    if s.bool():
        n = s.int(1, 12)
        ub = gen_data(s, (n + 2 * N, V))
        s.note(n=n, variable0=ub[:, 0])
        wh = weno(G, ub, [n])
        got, want = np.einsum("inv,n->iv", wh, b.w), ub[N - 1:len(ub) - N + 1]
    else:
        nx, ny = size2(s, N)
        ub = gen_data(s, (nx + 2 * N, ny + 2 * N, V))
        s.note(nx=nx, ny=ny)
        wh = weno(G, ub, [nx, ny])
        got = np.einsum("ijabv,a,b->ijv", wh, b.w, b.w)
        want = ub[N - 1:nx + N + 1, N - 1:ny + N + 1]
        # corner cells have no reconstruction that is used
        for a in (0, -1):
            for c in (0, -1):
                got[a, c] = want[a, c]
    close("cell mean", got, want, rtol=1e-12 * 5**(N - 2), scale=np.abs(ub).max() + 1e-300)


@L.law(quick={"default": 1200, "n3": 900, "n4": 700, "n5": 500},
       thorough={"default": 40000, "n3": 30000, "n4": 20000, "n5": 15000}, variants=VS)
def polynomials_are_reproduced(s, G):
    """Averages of a polynomial of degree N-1 (in each coordinate) give back
    its nodal values in every cell."""
    o = opt(G)
    N, V = o.N, o.V
    b = basis(N)
    if s.bool():
        n = s.int(1, 10)
        ps = [P(s.arr(N)) for _ in range(V)]
        c = np.arange(-N, n + N)
        ub = np.array([p.integ()(c + 1) - p.integ()(c) for p in ps]).T
        x = (np.arange(-1, n + 1)[:, None] + b.x).ravel()
        want = np.array([p(x) for p in ps]).T.reshape(n + 2, N, V)
        s.note(n=n, coefficients=ps[0].coef)
        got = weno(G, ub, [n])
    else:
        nx, ny = size2(s, N)
        C = s.arr((V, N, N))

        def ave(n):
            c = np.arange(-N, n + N)
            return np.array([(float(1) * (c + 1)**(k + 1) - (c * 1.0)**(k + 1)) / (k + 1)
                             for k in range(N)])

        def val(n):
            x = (np.arange(-1, n + 1)[:, None] + b.x)
            return np.array([x**k for k in range(N)])
        ub = np.einsum("vkl,ki,lj->ijv", C, ave(nx), ave(ny))
        want = np.einsum("vkl,kia,ljb->ijabv", C, val(nx), val(ny))
        s.note(nx=nx, ny=ny)
        got = weno(G, ub, [nx, ny])
        for a in (0, -1):
            for c in (0, -1):
                got[a, c] = want[a, c]
    close("nodal values", got, want, rtol=1e-11 * 8**(N - 2), scale=np.abs(ub).max())


@L.law(quick={"default": 700, "n3": 500, "n4": 300, "n5": 200},
       thorough={"default": 20000, "n3": 12000, "n4": 8000, "n5": 6000}, variants=VS)
def is_the_weighted_reconstruction(s, G):
    """The nonlinearly weighted combination of the left, right and central
    stencils of the model; in 2D along x and then along y, without the corner
    cells beyond both edges."""
    o = opt(G)
    N, V = o.N, o.V
    b = basis(N)
    if s.bool(0.7):
        n = s.int(1, 10)
        ub = gen_data(s, (n + 2 * N, V))
        s.note(n=n, variable0=ub[:, 0])
        close("reconstruction", weno(G, ub, [n]), b.line(ub), atol=tol(ub, N))
        return
    nx, ny = size2(s, N)
    ub = gen_data(s, (nx + 2 * N, ny + 2 * N, V))
    s.note(nx=nx, ny=ny)
    got = weno(G, ub, [nx, ny])
    ux = np.array([b.line(ub[:, j], N if j < N or j >= ny + N else 0)
                   for j in range(ny + 2 * N)])        # (j, i, a, v)
    for i in range(1, nx + 1):
        for a in range(N):
            want = b.line(ux[:, i, a])
            close("reconstruction", got[i, :, a], want, atol=3 * tol(ub, N))


@L.law(quick={"default": 800, "n3": 600, "n4": 400, "n5": 300},
       thorough={"default": 30000, "n3": 15000, "n4": 12000, "n5": 10000}, variants=VS)
def symmetries(s, G):
    """Reversing an axis reverses the reconstruction; exchanging or negating
    variables exchanges or negates it; in 2D, data that do not vary along one
    axis give the 1D reconstruction along the other."""
    o = opt(G)
    N, V = o.N, o.V
    perm = np.argsort(s.block(V))
    sgn = np.where(s.block(V) < 0.5, -1.0, 1.0)
    if s.bool():
        n = s.int(1, 10)
        ub = gen_data(s, (n + 2 * N, V))
        w = weno(G, ub, [n])
        close("reversed", weno(G, ub[::-1], [n]), w[::-1, ::-1], atol=tol(ub, N))
        close("variables exchanged", weno(G, ub[:, perm] * sgn, [n]), w[..., perm] * sgn,
              atol=1e-9 * tol(ub, N))
        return
    nx, ny = size2(s, N)
    ub = gen_data(s, (nx + 2 * N, ny + 2 * N, V))
    s.note(nx=nx, ny=ny)
    w = weno(G, ub, [nx, ny])
    t = 3 * tol(ub, N)

    def same(name, a, b):
        for i in (0, -1):
            for j in (0, -1):
                a[i, j] = b[i, j]
        close(name, a, b, atol=t)
    same("x reversed", weno(G, ub[::-1], [nx, ny]), w[::-1, :, ::-1].copy())
    same("y reversed", weno(G, ub[:, ::-1], [nx, ny]), w[:, ::-1, :, ::-1].copy())
    x = gen_data(s, (nx + 2 * N, V))
    w1 = weno(G, x, [nx])
    w2 = weno(G, np.repeat(x[:, None], ny + 2 * N, 1), [nx, ny])
    j = s.int(0, ny + 1)
    if N <= j < ny + 2 - N:      # clear of the rows next to the y edges, which
        # reconstruct from fewer stencils near the x edges
        for c in range(N):
            close("constant along y", w2[:, j, :, c], w1, atol=3 * tol(x, N))
    y = gen_data(s, (ny + 2 * N, V))
    w1 = weno(G, y, [ny])
    w2 = weno(G, np.repeat(y[None], nx + 2 * N, 0), [nx, ny])
    i = s.int(1, nx)
    for a in range(N):
        close("constant along x", w2[i, :, a], w1, atol=3 * tol(y, N))


@L.law(quick={"default": 800, "n3": 600, "n4": 400, "n5": 300},
       thorough={"default": 30000, "n3": 15000, "n4": 12000, "n5": 10000}, variants=VS)
def locality(s, G):
    """A cell's reconstruction depends on the cells within N-1 of it only, and
    in 2D not on the corner cells beyond both edges."""
    o = opt(G)
    N, V = o.N, o.V
    if s.bool():
        n = s.int(2, 12)
        ub = gen_data(s, (n + 2 * N, V))
        k = s.int(0, n + 2 * N - 1)
        u2 = ub.copy()
        u2[k] += s.arr(V) * 3
        a, b = weno(G, ub, [n]), weno(G, u2, [n])
        far = [i for i in range(n + 2) if abs(i + N - 1 - k) > N - 1]
        s.note(n=n, changed=k)
        ensure(np.array_equal(a[far], b[far]), lambda: f"cell {k} changed the "
               f"reconstruction at {[i for i in far if not np.array_equal(a[i], b[i])]}")
        return
    nx, ny = size2(s, N)
    ub = gen_data(s, (nx + 2 * N, ny + 2 * N, V))
    s.note(nx=nx, ny=ny)
    a = weno(G, ub, [nx, ny])[1:-1]
    b = weno(G, corners(ub, N, 5 + 3 * s.block(V)), [nx, ny])[1:-1]
    bad = (a != b).any(axis=(2, 3, 4))
    ensure(not bad.any(), lambda: "corner cells changed the reconstruction at "
           f"{np.argwhere(bad).tolist()[:6]}")
    k, l = s.int(0, nx + 2 * N - 1), s.int(0, ny + 2 * N - 1)
    u2 = ub.copy()
    u2[k, l] += s.arr(V) * 3
    a, b = weno(G, ub, [nx, ny]), weno(G, u2, [nx, ny])
    for i in range(nx + 2):
        for j in range(ny + 2):
            if max(abs(i + N - 1 - k), abs(j + N - 1 - l)) > N - 1 and \
                    not (i in (0, nx + 1) and j in (0, ny + 1)):
                ensure(np.array_equal(a[i, j], b[i, j]),
                       f"cell {k, l} changed the reconstruction of {i, j}")


@L.law(quick={"prim": 400}, thorough={"prim": 10000}, variants=("prim",))
def primitive_reconstruction(s, G):
    """With PRIM_RECONSTRUCT, the primitive variables are reconstructed: data
    with uniform pressure and velocity keep them uniform, and each primitive
    variable is the model's reconstruction."""
    o = opt(G)
    N, V = o.N, o.V
    b = basis(N)
    m, p0 = R.gen_material(s, (R.SG,), opt=o)
    m.pINF = 0.0
    n = s.int(1, 8)
    sts = []
    uni = s.bool()
    v0 = s.arr(3)
    for _ in range(n + 2 * N):
        st = R.gen_state(s, m, p0, o, strain=0.05)
        st.ρ = m.ρ0 * s.float(0.8, 1.2, 1)
        if uni:
            st = st.copy(p=p0, v=v0, A=np.eye(3))
        sts.append(st)
    s.label("uniform" if uni else "general")
    ub = np.array([R.cons(x, m, o) for x in sts])
    par = m.par(G)
    wh = np.zeros((n + 2) * N * V)
    G.solvers.weno.weno_launcher(wh, ub.ravel().copy(), np.array([n], dtype=np.int32), par)
    wh = wh.reshape((n + 2) * N, V)
    pr = [R.prim(q, m, o) for q in wh]
    if uni:
        close("pressure", [q.p for q in pr], p0 * np.ones(len(pr)), rtol=1e-9)
        close("velocity", [q.v for q in pr], np.tile(v0, (len(pr), 1)), atol=1e-9)
    rho = b.line(np.array([[x.ρ] for x in sts]))
    close("density", wh[:, 0], rho.ravel(), atol=tol(rho, N))
    vel = b.line(np.array([x.v for x in sts])).reshape(-1, 3)
    close("velocity", wh[:, 2:5] / wh[:, :1], vel, atol=tol(vel, N))
    p = b.line(np.array([[x.p / p0] for x in sts])).ravel()
    if p0 < 100:
        close("pressure", [q.p / p0 for q in pr], p, atol=20 * tol(p, N))
