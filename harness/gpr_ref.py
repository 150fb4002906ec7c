"""An independent model of the GPR system, written from the equations
(Mie-Gruneisen closures, E = E1(rho,p) + c^2/4 |dev G|^2 + alpha^2/2 |J|^2 +
|v|^2/2 + Qc (lambda - 1), Cauchy stress from dE/dA) rather than from the code.
Every function is plain arithmetic, so that it can be differentiated by a
complex step."""

import numpy as np

SG, SMG, JWL, CC, GR = 0, 1, 2, 3, 4
EOS_NAMES = ["sg", "smg", "jwl", "cc", "gr"]


class Opt:
    """The compile-time options of a build."""

    def __init__(self, G):
        o = G.options
        self.N, self.V = o.N(), o.NV()
        self.THERMAL, self.MULTI = o.THERMAL(), o.MULTI()
        self.LSET = o.LSET()
        self.mV = 14 + 3 * int(self.THERMAL)


class M:
    """Material parameters; the fields of Par that are not given are 0."""

    def __init__(self, **kw):
        self.__dict__.update(
            EOS=0, SOLID=False, POWER_LAW=False, BINGHAM=False, MULTI=False,
            ρ0=1.0, T0=300.0, Tref=0.0, cv=1.0, pINF=0.0, Γ0=0.0, c02=0.0,
            s=0.0, α=0.0, β=0.0, γ=0.0, A=0.0, B=0.0, R1=0.0, R2=0.0, b02=0.0,
            μ=0.0, τ0=0.0, σY=0.0, n=1.0, cα2=0.0, κ=0.0, δp=np.zeros(3),
            MP2=None, REACTION=-1, Qc=0.0, Kc=0.0, Ti=0.0, Bc=0.0, Ea=0.0,
            Rc=0.0, I=0.0, G1=0.0, G2=0.0, a=0.0, b=0.0, c=0.0, d=0.0, e=0.0,
            g=0.0, x=0.0, y=0.0, z=0.0, φI=0.0, φG1=0.0, φG2=0.0)
        self.__dict__.update(kw)

    def par(self, G):
        P = G.classes.Par()
        for k, v in self.__dict__.items():
            if k == "MP2":
                if v is not None:
                    P.MP2 = params(G, v)
            else:
                setattr(P, k, v)
        return P

    def show(self):
        keep = ("EOS", "SOLID", "POWER_LAW", "BINGHAM", "REACTION")
        return {k: (v.show() if isinstance(v, M) else v)
                for k, v in self.__dict__.items()
                if k in keep or (isinstance(v, M)) or
                (np.any(v) if v is not None else False)}


PARAMS = ("EOS", "ρ0", "Tref", "cv", "pINF", "Γ0", "c02", "s", "α", "β", "γ",
          "A", "B", "R1", "R2", "b02", "μ", "τ0", "σY", "n", "cα2", "κ")


def params(G, m):
    """m as the smaller parameter struct."""
    P = G.classes.Params()
    for f in PARAMS:
        setattr(P, f, getattr(m, f))
    return P


def vacuum(G):
    P = G.classes.Par()
    P.EOS = -1
    P.REACTION = -1
    return P


# -- equation of state -----------------------------------------------------------

def gamma(ρ, m):
    if m.EOS == SG:
        return m.γ - 1 + 0 * ρ
    if m.EOS == SMG:
        return m.Γ0 * m.ρ0 / ρ
    if m.EOS == GR:
        return m.γ + 0 * ρ
    return m.Γ0 + 0 * ρ


def p_ref(ρ, m):
    r = ρ / m.ρ0
    if m.EOS == SG:
        return -m.pINF + 0 * ρ
    if m.EOS == SMG:
        if np.real(ρ) > m.ρ0:
            η = 1 - 1 / r                       # 1 - v/v0
            return m.ρ0 * m.c02 * η / (1 - m.s * η)**2
        return m.c02 * (ρ - m.ρ0)
    if m.EOS == GR:
        t = r**m.α
        return m.c02 * ρ / m.α * (t - 1) * t
    if m.EOS == JWL:
        return m.A * np.exp(-m.R1 / r) + m.B * np.exp(-m.R2 / r)
    return m.A * r**m.R1 - m.B * r**m.R2


def e_ref(ρ, m):
    r = ρ / m.ρ0
    if m.EOS == SG:
        return m.pINF / ρ
    if m.EOS == SMG:
        if np.real(ρ) > m.ρ0:
            return p_ref(ρ, m) / 2 * (1 / m.ρ0 - 1 / ρ)
        return 0 * ρ
    if m.EOS == GR:
        return m.c02 / (2 * m.α**2) * (r**m.α - 1)**2
    if m.EOS == JWL:
        return (m.A / m.R1 * np.exp(-m.R1 / r) +
                m.B / m.R2 * np.exp(-m.R2 / r)) / m.ρ0
    return (-m.A / (1 - m.R1) * (r**(m.R1 - 1) - 1) +
            m.B / (1 - m.R2) * (r**(m.R2 - 1) - 1)) / m.ρ0


def phi(ρ, m):
    r = ρ / m.ρ0
    if m.EOS == SMG:
        return np.exp(m.Γ0 * (1 - 1 / r))
    return r**gamma(ρ, m)


def e_of_p(ρ, p, m):
    return e_ref(ρ, m) + (p - p_ref(ρ, m)) / (ρ * gamma(ρ, m))


def p_of_e(ρ, e, m):
    return p_ref(ρ, m) + ρ * gamma(ρ, m) * (e - e_ref(ρ, m))


def temp(ρ, p, m):
    return phi(ρ, m) * m.Tref + (p - p_ref(ρ, m)) / (ρ * gamma(ρ, m) * m.cv)


def cs2(ρ, m):
    return m.b02 * (ρ / m.ρ0)**m.β


def C0(ρ, m):
    return (1 - m.β / gamma(ρ, m)) * cs2(ρ, m)


# -- states ------------------------------------------------------------------------

def dev(S):
    return S - np.trace(S) / 3 * np.eye(3)


def shear_energy(ρ, A, m):
    D = dev(A.T @ A)
    return C0(ρ, m) / 4 * np.sum(D * D)


class S:
    """A primitive state."""

    def __init__(self, ρ, p, v, A, J=None, λ=0.0, ls=()):
        self.ρ, self.p, self.v, self.A = ρ, p, v, A
        self.J = np.zeros(3) if J is None else J
        self.λ, self.ls = λ, np.asarray(ls)

    def copy(self, **kw):
        d = dict(ρ=self.ρ, p=self.p, v=self.v, A=self.A, J=self.J, λ=self.λ,
                 ls=self.ls)
        d.update(kw)
        return S(**d)


def energy(s, m, o):
    """Specific total energy."""
    E = e_of_p(s.ρ, s.p, m) + s.v @ s.v / 2 + shear_energy(s.ρ, s.A, m)
    if o.THERMAL:
        E = E + m.cα2 * (s.J @ s.J) / 2
    if m.REACTION > -1:
        E = E + m.Qc * (s.λ - 1)
    return E


def cons(s, m, o):
    """Conserved vector of a primitive state."""
    dt = np.result_type(*[np.asarray(x).dtype for x in
                          (s.ρ, s.p, s.v, s.A, s.J, s.λ, 1.0)])
    Q = np.zeros(o.V, dtype=dt)
    Q[0] = s.ρ
    Q[1] = s.ρ * energy(s, m, o)
    Q[2:5] = s.ρ * s.v
    Q[5:14] = s.A.ravel()
    if o.THERMAL:
        Q[14:17] = s.ρ * s.J
    if o.MULTI:
        Q[o.mV] = s.ρ * s.λ
    if o.LSET:
        Q[o.V - o.LSET:] = s.ls
    return Q


def prim(Q, m, o):
    ρ = Q[0]
    v = Q[2:5] / ρ
    A = Q[5:14].reshape(3, 3)
    e = Q[1] / ρ - v @ v / 2 - shear_energy(ρ, A, m)
    J = Q[14:17] / ρ if o.THERMAL else np.zeros(3)
    if o.THERMAL:
        e = e - m.cα2 * (J @ J) / 2
    λ = Q[o.mV] / ρ if o.MULTI else 0.0
    if m.REACTION > -1:
        e = e - m.Qc * (λ - 1)
    return S(ρ, p_of_e(ρ, e, m), v, A, J, λ, Q[o.V - o.LSET:])


# -- the PDE -------------------------------------------------------------------------

def stress(ρ, A, m):
    """Viscous stress -rho A^T dE/dA|_s = -rho c_s^2 G dev G."""
    Gm = A.T @ A
    return -ρ * cs2(ρ, m) * Gm @ dev(Gm)


def flux(Q, d, m, o):
    s = prim(Q, m, o)
    ρ, p, v, A = s.ρ, s.p, s.v, s.A
    Σ = -stress(ρ, A, m)
    Σ = Σ + p * np.eye(3)
    F = np.zeros(o.V, dtype=Q.dtype)
    F[0] = ρ * v[d]
    F[1] = v[d] * Q[1] + Σ[d] @ v
    F[2:5] = ρ * v[d] * v + Σ[d]
    Av = A @ v
    for i in range(3):
        F[5 + 3 * i + d] = Av[i]
    if o.THERMAL:
        T = temp(ρ, p, m)
        F[1] = F[1] + m.cα2 * T * s.J[d]
        F[14:17] = Q[14:17] * v[d]
        F[14 + d] = F[14 + d] + T
    if o.MULTI:
        F[o.mV] = Q[o.mV] * v[d]
    return F


def ncp(Q, X, d, o):
    """B_d(Q) X: v_k (d_k A_ij - d_j A_ik) and v . grad(phi), for a gradient X
    in direction d only."""
    v = Q[2:5] / Q[0]
    R = np.zeros(o.V, dtype=np.result_type(Q.dtype, X.dtype))
    XA = X[5:14].reshape(3, 3)
    RA = np.zeros((3, 3), dtype=R.dtype)
    for i in range(3):
        for j in range(3):
            RA[i, j] = v[d] * XA[i, j]
            if j == d:
                RA[i, j] = RA[i, j] - v @ XA[i]
    R[5:14] = RA.ravel()
    if o.LSET:
        R[o.V - o.LSET:] = v[d] * X[o.V - o.LSET:]
    return R


def cstep(f, x, h=1e-30):
    """Jacobian of f at x by complex steps."""
    x = np.asarray(x, dtype=float)
    cols = []
    for j in range(x.size):
        z = x.astype(complex)
        z[j] += 1j * h * max(abs(x[j]), 1e-3)
        cols.append(np.imag(f(z)) / (h * max(abs(x[j]), 1e-3)))
    return np.array(cols).T


def jac(Q, d, m, o):
    J = cstep(lambda q: flux(q, d, m, o), Q)
    B = np.array([ncp(Q, e, d, o) for e in np.eye(o.V)]).T
    return J + B


def c0sq(ρ, p, A, m):
    """dp/drho at constant entropy and A: (p/rho^2 - E_rho) / E_p."""
    h = 1e-30
    E = lambda r, q: e_of_p(r, q, m) + shear_energy(r, A, m)
    Eρ = np.imag(E(ρ + 1j * h * ρ, p + 0j)) / (h * ρ)
    Ep = 1 / (ρ * gamma(ρ, m))
    return (p / ρ**2 - Eρ) / Ep


# -- sources ---------------------------------------------------------------------------

def sig_eq(σ):
    """von Mises equivalent stress."""
    D = dev(σ)
    return np.sqrt(1.5 * np.sum(D * D))


def theta1inv(ρ, A, m):
    A53 = np.linalg.det(A)**(5 / 3)
    c = cs2(ρ, m)
    if m.SOLID:
        if not m.POWER_LAW:
            return 0.0
        sn = min(sig_eq(stress(ρ, A, m)), 1e8)
        return 3 * A53 / (c * m.τ0) * (sn / m.σY)**m.n
    sn = np.linalg.norm(stress(ρ, A, m)) / np.sqrt(2)
    if m.BINGHAM:
        return A53 * m.ρ0 / (2 * m.μ) * (1 - m.σY / sn) if sn > m.σY else 0.0
    k = A53 * m.ρ0 / (2 * m.μ**(1 / m.n))
    if m.POWER_LAW:
        return k * sn**((1 - m.n) / m.n)
    return k


def reaction(Q, m, o):
    s = prim(Q, m, o)
    λ = max(0.0, s.λ)
    T = temp(s.ρ, s.p, m)
    if m.REACTION == 0:
        return m.Kc * λ if T > m.Ti else 0.0
    if m.REACTION == 1:
        return m.Bc * np.exp(-m.Ea / (m.Rc * T)) * λ
    λ = min(λ, 1.0)
    p = max(s.p, 0.0)
    f = 1 - λ
    r = 0.0
    if f < m.φI:
        r += m.I * λ**m.b * np.float64(s.ρ / m.ρ0 - 1 - m.a)**m.x
    if f < m.φG1:
        r += m.G1 * λ**m.c * f**m.d * p**m.y
    if f > m.φG2:
        r += m.G2 * λ**m.e * f**m.g * p**m.z
    return max(r, 0.0)


def source(Q, m, o):
    s = prim(Q, m, o)
    R = np.zeros(o.V)
    R[2:5] = m.δp
    ψ = cs2(s.ρ, m) * s.A @ dev(s.A.T @ s.A)
    R[5:14] = (-ψ * theta1inv(s.ρ, s.A, m)).ravel()
    if o.THERMAL:
        T = temp(s.ρ, s.p, m)
        R[14:17] = -m.cα2 * s.J * T / m.κ
    if m.REACTION > -1:
        R[o.mV] = -s.ρ * reaction(Q, m, o)
    return R


# -- generators --------------------------------------------------------------------------

def gen_eos(s, kinds=(SG, SMG, JWL, CC, GR)):
    """EOS parameters: non-dimensional, and of the size of the repository's
    SI parameter sets."""
    k = s.choice(kinds)
    si = s.bool(0.35)
    if k == SG:
        γ = s.float(1.1, 4.5, 1.4)
        if si:
            return M(EOS=SG, ρ0=s.log(0.2, 2000, 1), γ=γ, cv=s.log(300, 4000, 718),
                     pINF=s.log(1e3, 1e9) if s.bool() else 0.0), 1e5
        return M(EOS=SG, ρ0=s.log(0.2, 5, 1), γ=γ, cv=s.log(0.2, 5, 1),
                 pINF=s.log(0.01, 10) if s.bool() else 0.0), 1.0
    if k == SMG:
        m = M(EOS=SMG, Γ0=s.float(0.5, 2.5, 2), s=s.float(1, 1.8, 1.3))
        if si:
            m.ρ0, m.c02, m.cv = s.log(1000, 20000), s.log(2000, 6000)**2, s.log(100, 1000)
            m.Tref = 300.0 if s.bool() else 0.0
            return m, m.ρ0 * m.c02 * 0.01
        m.ρ0, m.c02, m.cv = s.log(0.5, 10, 1), s.log(0.3, 5, 1)**2, s.log(0.2, 5, 1)
        m.Tref = s.float(0.1, 2) if s.bool() else 0.0
        return m, m.ρ0 * m.c02 * 0.1
    if k == GR:
        m = M(EOS=GR, α=s.float(0.5, 2, 1), β=s.float(0, 4), γ=s.float(0.5, 3, 2))
        if si:
            m.ρ0, m.c02, m.cv = s.log(1000, 20000), s.log(2000, 6000)**2, s.log(100, 1000)
            m.Tref = 300.0
            return m, m.ρ0 * m.c02 * 0.01
        m.ρ0, m.c02, m.cv = s.log(0.5, 10, 1), s.log(0.3, 5, 1)**2, s.log(0.2, 5, 1)
        m.Tref = s.float(0.1, 2) if s.bool() else 0.0
        return m, m.ρ0 * m.c02 * 0.1
    m = M(EOS=k, Γ0=s.float(0.2, 2, 1), R1=s.float(2, 12, 4.5), R2=s.float(1.1, 4, 1.4))
    f = 1.0
    if si:
        m.ρ0, m.cv, f = s.log(800, 2000), s.log(300, 2000), 1e9
    else:
        m.ρ0, m.cv = s.log(0.5, 5, 1), s.log(0.2, 5, 1)
    if k == JWL:
        m.A, m.B = f * s.log(1, 800, 100), f * s.float(-2, 20, 1)
        return m, f
    m.A, m.B = f * s.float(0.5, 2, 1), f * s.float(0.5, 2, 1)
    return m, f


def gen_material(s, kinds=(SG, SMG, JWL, CC, GR), rheology=None, opt=None):
    """A material and the scale of its pressure."""
    m, P = gen_eos(s, kinds)
    r = rheology or s.choice(["newtonian", "elastic", "plastic", "powerlaw",
                              "bingham"])
    c2 = max(P / m.ρ0, 1e-12)
    m.b02 = c2 * s.log(0.01, 2, 0.5)
    if m.EOS != GR and s.bool(0.25):
        m.β = s.float(0, 2)
    t = 1 / np.sqrt(c2)                    # of a cell of size 1
    if r == "newtonian":
        m.μ = m.ρ0 * m.b02 * t * s.log(1e-3, 10, 0.1) / 6
    elif r == "powerlaw":
        m.POWER_LAW, m.n = True, s.float(0.3, 1.7, 0.7)
        # so that the relaxation time at a stress of rho0 b02 is of order t
        S0 = m.ρ0 * m.b02
        m.μ = S0 * (t * s.log(0.01, 10, 0.1) / 6)**m.n
    elif r == "bingham":
        m.BINGHAM = True
        m.μ = m.ρ0 * m.b02 * t * s.log(1e-3, 10, 0.1) / 6
        m.σY = m.ρ0 * m.b02 * s.log(1e-3, 0.3, 0.01)
    elif r == "plastic":
        m.SOLID = m.POWER_LAW = True
        m.n = s.float(0.5, 10, 4)
        m.σY = m.ρ0 * m.b02 * s.log(1e-3, 0.3, 0.05)
        m.τ0 = t * s.log(0.1, 10, 1)
    else:
        m.SOLID = True
    if opt is not None and opt.THERMAL:
        m.cα2 = c2 * s.log(0.01, 1, 0.5) * m.cv * m.cv * m.ρ0**2 / (c2 * 1.0) \
            * 0.1
        m.κ = s.log(0.01, 10, 1) * m.cα2 * t * m.ρ0 * 0.1
        m.T0 = 300.0 if P > 100 else 1.0
    if opt is not None and opt.MULTI:
        m.REACTION = s.int(-1, 2)
        if m.REACTION > -1:
            m.Qc = c2 * s.float(0, 3, 1)
            gen_reaction(s, m, P)
    m.δp = P * s.arr(3) * s.choice([0, 0.1])
    return m, P


def gen_reaction(s, m, P):
    t = 1 / np.sqrt(P / m.ρ0)
    T = P / (m.ρ0 * m.cv)
    if m.REACTION == 0:
        m.Kc, m.Ti = s.log(0.1, 100, 1) / t, T * s.log(0.1, 10, 1)
    elif m.REACTION == 1:
        m.Rc = s.log(0.5, 10, 1)
        m.Ea, m.Bc = m.Rc * T * s.log(0.1, 10, 1), s.log(0.1, 100, 1) / t
    else:
        m.I, m.G1, m.G2 = [f / t * s.log(0.1, 10, 1) for f in (10, 1, 1)]
        m.a = s.float(-0.2, 0.1, 0)
        m.b, m.c, m.d, m.e, m.g = [s.float(0.2, 1.2, 2 / 3) for _ in range(5)]
        m.x = float(s.choice([7, 4, 2, 1]))
        m.y, m.z = [float(s.choice([1, 2])) for _ in range(2)]
        m.G1, m.G2 = m.G1 / P**m.y, m.G2 / P**m.z
        m.φI, m.φG1, m.φG2 = s.float(0.02, 0.5), s.float(0.5, 1.01, 1), s.float(0, 0.6)


def gen_rotation(s):
    q = s.arr(4) + np.array([1.2, 0, 0, 0]) * s.choice([1, 0, 1])
    n = np.linalg.norm(q)
    if n < 1e-3:
        q, n = np.array([1.0, 0, 0, 0]), 1.0
    w, x, y, z = q / n
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def gen_A(s, ρ, m, strain=None):
    """Distortion with det A = rho / rho0: rotation times stretch."""
    ε = s.choice([0.3, 0.05, 1e-3, 0.0]) if strain is None else strain
    X = np.eye(3) + ε * s.sparse((3, 3))
    A = X if s.bool() else gen_rotation(s) @ X
    d = np.linalg.det(A)
    if d <= 0.1:
        A, d = np.eye(3), 1.0
    return A * (ρ / m.ρ0 / d)**(1 / 3)


def rho_range(m):
    if m.EOS == SG:
        return 0.2, 3.0
    if m.EOS in (SMG, GR):
        return 0.85, 1.3
    return 0.7, 1.5


def gen_state(s, m, P, o, strain=None, ls=None, mach=1.5):
    """A hyperbolic state of material m: positive rho, temperature and sound
    speed."""
    lo, hi = rho_range(m)
    ρ = m.ρ0 * s.float(lo, hi, 1.0)
    A = gen_A(s, ρ, m, strain)
    c = np.sqrt(P / m.ρ0)
    v = mach * c * s.sparse(3)
    # p above the reference curve, so that e_thermal > 0
    pth = P * s.log(0.05, 5, 1)
    if m.EOS == SG:
        p = pth
    else:
        p = p_ref(ρ, m) + pth
    J = np.zeros(3)
    if o.THERMAL:
        T = temp(ρ, p, m)
        J = 0.2 * s.sparse(3) * np.sqrt(abs(m.cv * T) / max(m.cα2, 1e-300))
    λ = s.float(0, 1, 0.5) if o.MULTI else 0.0
    lsv = s.sparse(o.LSET, -1, 1) if ls is None and o.LSET else \
        (ls if ls is not None else ())
    return S(ρ, p, v, A, J, λ, lsv)
