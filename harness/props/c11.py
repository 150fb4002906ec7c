"""Polynomial basis and quadrature."""

import numpy as np
from numpy.polynomial import Polynomial as P

from pbt import Laws, close, ensure

L = Laws("C11", 4)
VS = ("default", "n3", "n4", "n5")
EACH = {v: 1200 for v in VS}
DEEP = {v: 30000 for v in VS}


def gen_poly(s, deg):
    """A polynomial of the degree, with its natural size on [-1, 2]."""
    c = s.sparse(deg + 1)
    return P(c * s.choice([1.0, 1e3, 1e-3]))


def mag(p, lo, hi):
    return np.sum(np.abs(p.coef) * max(abs(lo), abs(hi), 1)**np.arange(len(p.coef))) + 1e-300


@L.law(quick=EACH, thorough=DEEP, variants=VS)
def quadrature(s, G):
    """The N nodes lie inside (0, 1), ascending and symmetric, the weights are
    positive, and they integrate every polynomial of degree 2N-1 exactly."""
    N = G.options.N()
    x, w = G.solvers.common.scaled_nodes(), G.solvers.common.scaled_weights()
    ensure(x.shape == w.shape == (N,), "number of nodes")
    ensure((x > 0).all() and (x < 1).all() and (np.diff(x) > 0).all(), f"nodes {x}")
    ensure((w > 0).all(), f"weights {w}")
    close("symmetric nodes", x + x[::-1], np.ones(N), rtol=1e-14)
    close("symmetric weights", w, w[::-1], rtol=1e-14)
    p = gen_poly(s, s.int(0, 2 * N - 1))
    s.note(coefficients=p.coef)
    if not p.coef.any():
        s.trivial()
    I = p.integ()
    close("quadrature", w @ p(x), I(1) - I(0), rtol=2e-14, scale=mag(p, 0, 1))


@L.law(quick=EACH, thorough=DEEP, variants=VS)
def interpolation(s, G):
    """Nodal values of a polynomial of degree N-1 give it back through the
    basis at every point, at the ends of the cell and in its derivative."""
    N = G.options.N()
    C = G.solvers.common
    x = C.scaled_nodes()
    b = C.basis_polys()
    ensure(len(b) == N, "size of the basis")
    p = gen_poly(s, N - 1)
    y = s.float(-1, 2)
    s.note(coefficients=p.coef, at=y)
    c = p(x)
    K = 1e-12 * 10**(N - 2 if N > 2 else 0)
    m = mag(p, -1, 2)
    close("value", sum(c[i] * b[i].eval(y) for i in range(N)), p(y), atol=K * m)
    close("ends", C.end_values(b) @ c, [p(0), p(1)], atol=K * m)
    close("derivative", C.derivative_values(b, x) @ c, p.deriv()(x) + 0 * x, atol=10 * K * m)
    for i in range(N):
        ensure(len(b[i].coef) == N, "degree of the basis")
        close("cardinal", [b[i].eval(t) for t in x], np.eye(N)[i], atol=K)


@L.law(quick=EACH, thorough=DEEP, variants=VS)
def polynomials(s, G):
    """The polynomial class: evaluation, derivatives and integrals against
    numpy's."""
    n = s.int(1, 8)
    c = s.sparse(n) * s.choice([1.0, 1e3])
    y = s.float(-3, 3)
    s.note(coefficients=c, at=y)
    q = G.classes.poly(c)
    p = P(c)
    top = np.sum(np.abs(c) * 3.0**np.arange(n)) + 1e-300
    close("value", q.eval(y), p(y), rtol=1e-13, scale=top)
    close("integral", q.intt().eval(y), p.integ()(y), rtol=1e-13, scale=9 * top)
    close("integral from 0", q.intt().eval(0.0), 0, atol=0)
    k = s.int(0, n - 1)
    close("derivative", q.diff(k).eval(y), (p.deriv(k) if k else p)(y), rtol=1e-12,
          scale=top * 8.0**k)
    close("derivative of the integral", q.intt().diff(1).coef, c, rtol=1e-13, scale=top)
    close("left unchanged", q.coef, c, rtol=0)


@L.law(quick=EACH, thorough=DEEP, variants=VS)
def stencils(s, G):
    """The reconstruction systems turn nodal values of a polynomial into its
    averages over the cells of the left, right and central stencils."""
    N = G.options.N()
    b = G.solvers.common.basis_polys()
    x = G.solvers.common.scaled_nodes()
    p = gen_poly(s, N - 1)
    s.note(coefficients=p.coef)
    I = p.integ()
    f, c = (N - 1) // 2, N // 2
    M = G.solvers.weno.coefficient_matrices(b)
    for name, m, first in zip(("left", "right", "centre left", "centre right"), M,
                              (-(N - 1), 0, -c, -f)):
        cells = first + np.arange(N)
        close(name, m @ p(x), I(cells + 1) - I(cells), rtol=1e-11,
              scale=mag(I, -N, N + 1))


@L.law(quick=EACH, thorough=DEEP, variants=VS)
def oscillation(s, G):
    """The oscillation indicator of a polynomial is the sum of the integrals
    over the cell of its squared derivatives: never negative, 0 for constants."""
    N = G.options.N()
    b = G.solvers.common.basis_polys()
    S = G.solvers.weno.oscillation_indicator(b)
    p = gen_poly(s, N - 1)
    s.note(coefficients=p.coef)
    c = p(G.solvers.common.scaled_nodes())
    want = 0.0
    for a in range(1, N):
        q = (p.deriv(a)**2).integ()
        want += q(1) - q(0)
    top = np.abs(S).max() * np.sum(np.abs(c))**2 + 1e-300
    close("indicator", c @ S @ c, want, rtol=1e-11, scale=top)
    close("constants", S @ np.ones(N), np.zeros(N), rtol=1e-11, scale=np.abs(S).max() + 1e-300)
    close("symmetric", S, S.T, rtol=1e-11, scale=np.abs(S).max() + 1e-300)
