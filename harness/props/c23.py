"""Iterative solvers of linear and nonlinear systems."""

import numpy as np

from pbt import Laws, Skip, close, ensure

L = Laws("C23")
EPS = np.finfo(float).eps


def matrix(s, n, spread):
    """A matrix whose symmetric part is positive: the identity and a
    perturbation of norm at most 1 - 1 / spread, times a scale."""
    kind = s.choice(["identity", "symmetric", "skew", "general", "low rank", "sparse"])
    s.label(kind)
    X = s.arr((n, n), -1, 1)
    if kind == "identity":
        X = np.zeros((n, n))
    elif kind == "symmetric":
        X = X + X.T
    elif kind == "skew":
        X = X - X.T
    elif kind == "low rank":
        X = np.outer(X[0], X[-1])
    elif kind == "sparse":
        X = X * (np.abs(X) > 0.7)
    nm = np.linalg.norm(X, 2)
    if nm > 0:
        X = X / nm * s.float(0, 1 - 1 / spread, 0.5)
    return np.eye(n) + X


@L.law(quick={"default": 3000}, thorough={"default": 100000})
def linear(s, G):
    """Well-conditioned linear systems of any size, scale and right side are
    solved to the tolerance, from any first guess and with any
    preconditioner, also if fewer vectors are kept than there are unknowns; a
    first guess that is good enough is returned as it is."""
    n = s.int(1, 40)
    A = matrix(s, n, 5)
    size = s.log(1e-3, 1e3, 1)
    b = s.sparse(n) * s.log(1e-3, 1e3, 1)
    kw = {}
    tol = kw["tol"] = s.log(1e-10, 1e-2, 1e-5)
    M = np.eye(n)
    if s.bool(0.4):
        kind = s.choice(["inverse", "diagonal", "rough"])
        s.label("preconditioner: " + kind)
        if kind == "inverse":
            M = np.linalg.inv(A)
        elif kind == "diagonal":
            M = np.diag(1 / np.diag(A))
        else:
            M = np.linalg.inv(A + 0.1 * np.diag(s.arr(n, -1, 1)))
        kw["M"] = M / size
    A = A * size
    x = np.linalg.solve(A, b)
    guess = s.choice(["none", "zero", "any", "exact", "near"])
    s.label("guess: " + guess)
    x0 = np.zeros(n)
    if guess != "none":
        if guess == "any":
            x0 = (1 + np.abs(x).max()) * s.arr(n, -1, 1)
        elif guess == "exact":
            x0 = x.copy()
        elif guess == "near":
            x0 = x + np.abs(x).max() * tol * 0.01 / np.sqrt(n) * s.arr(n, -1, 1)
        kw["x0"] = x0
    kw["inner_m"] = s.choice([30, 5, 2, 60, n, n + 1, 1])
    kw["outer_k"] = s.choice([3, 0, 1, 10])
    if s.bool(0.2):
        s.label("vectors to start with")
        kw["outer_v"] = G.VectorVec([v / np.linalg.norm(v) for v in
                                     (s.arr(n, -1, 1) for _ in range(2))
                                     if np.linalg.norm(v) > 0.1])
    s.note(n=n, A=A, b=b, inner_m=kw["inner_m"], outer_k=kw["outer_k"], tol=tol)
    got = np.array(G.scipy.lgmres_wrapper(A, b, **kw))
    nb = np.linalg.norm(b)
    top = tol * max(nb, 1 if nb else 0) if nb else tol
    top = max(tol * nb, tol)
    res = np.linalg.norm(A @ got - b)
    rounding = 1e-13 * n * (np.abs(A).max() * np.abs(got).max() + np.abs(b).max())
    ensure(np.isfinite(got).all(), "the solution is not finite")
    ensure(res <= top * (1 + 1e-6) + rounding,
           lambda: f"residual {res:.3g}, tolerance {top:.3g}")
    r0 = np.linalg.norm(A @ x0 - b)
    if r0 < 0.9 * top:
        s.label("good guess")
        ensure((got == x0).all(), "a first guess that is good enough was changed")


@L.law(quick={"default": 300}, thorough={"default": 10000})
def repeated(s, G):
    """A solution depends on what is passed and not on the systems solved before;
    vectors that are passed are used and those that are found are left in
    them, at most as many as are to be kept."""
    def one(n):
        A = matrix(s, n, 5)
        return A, s.arr(n, -1, 1), dict(tol=s.log(1e-8, 1e-2, 1e-5), inner_m=s.int(1, 6))
    n = s.int(2, 12)
    other = [one(s.choice([n, s.int(2, 12)])) for _ in range(s.int(1, 3))]
    A, b, kw = one(n)
    run = lambda A, b, kw: np.array(G.scipy.lgmres_wrapper(A, b, **kw))
    first = run(A, b, kw)
    for p in other:
        run(*p)
    ensure((run(A, b, kw) == first).all(), "a solution depends on those before")
    k = s.int(0, 4)
    V = G.VectorVec([])
    got = np.array(G.scipy.lgmres_wrapper(A, b, outer_k=k, outer_v=V, **kw))
    if k == 3:
        ensure((got == first).all(), "passing no vectors changes the solution")
    ensure(len(V) <= k, f"{len(V)} vectors kept instead of {k}")
    V = [np.array(v) for v in V]
    ensure(all(abs(np.linalg.norm(v) - 1) < 1e-9 for v in V), "vectors are not normed")
    if not len(V):
        s.trivial() if k else None
        return
    s.label("kept")
    if k > 1 and len(V) == 1:
        # One cycle: the vector that is kept is the direction of the solution
        W = G.VectorVec([v.copy() for v in V])
        again = np.array(G.scipy.lgmres_wrapper(A, 2 * b, outer_k=k, outer_v=W, tol=kw["tol"],
                                                inner_m=1, maxiter=1))
        r = np.linalg.norm(A @ again - 2 * b)
        top = 2 * kw["tol"] * max(np.linalg.norm(b), 1)
        ensure(r <= 2 * np.linalg.norm(A @ first - b) + top + 1e-9,
               f"vectors that are kept are not used: residual {r}")


@L.law(quick={"default": 500}, thorough={"default": 20000})
def limited(s, G):
    """Without time for it, a solution is not made worse: the residual after any
    number of cycles is at most that of the first guess."""
    n = s.int(2, 30)
    A = matrix(s, n, 20) * s.log(1e-2, 1e2, 1)
    b = s.arr(n, -1, 1)
    x0 = s.arr(n, -1, 1) * s.choice([0, 1, 10])
    k = s.choice([1, 2, 0, 5])
    m = s.int(1, 6)
    got = np.array(G.scipy.lgmres_wrapper(A, b, x0=x0.copy(), tol=1e-12, maxiter=k, inner_m=m,
                                          outer_k=s.int(0, 3)))
    s.note(n=n, A=A, b=b, x0=x0, maxiter=k, inner_m=m)
    r0, r = np.linalg.norm(A @ x0 - b), np.linalg.norm(A @ got - b)
    ensure(r <= r0 * (1 + 1e-9) + 1e-12, f"residual grew from {r0} to {r}")
    if k == 0:
        ensure((got == x0).all(), "changed in no cycles")


def system(s, n):
    """A monotone system F(x) = M (x - c) + e (g(x) - g(c)) of one root c."""
    M = matrix(s, n, 3)
    e = s.choice([0.0, 0.1, 0.3])
    kind = s.choice(["sin", "tanh", "cubic", "mixed"])
    s.label("linear" if e == 0 else kind)
    c = s.arr(n, -1, 1) * s.choice([1, 0, 0.1])
    g = {"sin": np.sin, "tanh": np.tanh, "cubic": lambda x: x**3 / 3,
         "mixed": lambda x: np.sin(x + 0.3 * np.roll(x, 1))}[kind]
    if kind == "mixed":
        e = e / 2
    return (lambda x: M @ (x - c) + e * (g(x) - g(c))), c, M, e


@L.law(quick={"default": 800}, thorough={"default": 30000})
def nonlinear(s, G):
    """Systems of nonlinear equations that are close to linear are solved to the
    tolerance, from guesses at some distance; the root is the root; a root is
    returned as it is."""
    n = s.int(1, 30)
    F, c, M, e = system(s, n)
    scale = s.choice([1.0, 1.0, s.log(0.03, 30, 1)])
    calls = [0]

    def f(x):
        calls[0] += 1
        return scale * F(np.array(x))
    d = s.choice([0.3, 0.0, 1e-3])
    x0 = c + d * s.arr(n, -1, 1)
    kw = {}
    tol = 2.220446049250313e-16**(1 / 3)
    if s.bool():
        tol = kw["f_tol"] = s.log(1e-9, 1e-2, 1e-6)
    rt = None
    if s.bool(0.2):
        rt = kw["f_rtol"] = s.log(1e-4, 1e-1, 0.01)
        s.label("relative")
    f0 = np.abs(scale * F(x0)).max()
    s.note(n=n, M=M, e=e, c=c, x0=x0, scale=scale, tol=tol)
    got = np.array(G.scipy.newton_krylov(f, x0.copy(), **kw))
    r = np.abs(scale * F(got)).max()
    top = tol if rt is None else min(tol, rt * f0)
    s.label("%d calls" % (10 * (calls[0] // 10)))
    ensure(r <= top + 1e-14 * scale, f"left over {r:.3g}, tolerance {top:.3g}")
    err = np.abs(got - c).max()
    lim = (top + 1e-14 * scale) / scale * np.sqrt(n) * 6
    ensure(err <= lim + 1e-15, f"{err:.3g} from the root, tolerance {lim:.3g}")
    if f0 == 0:
        s.label("at the root")
        ensure((got == x0).all(), "the root was changed")
        ensure(calls[0] <= 2, f"{calls[0]} calls for a root")
