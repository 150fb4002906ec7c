"""Materials and states that are made by the Python package."""

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .common import case, opt, physical, rheology

L = Laws("C24")
L.assumptions = ["Parameters are given as the problems of the repository give them: those of the "
                 "equation of state and the rheology that are meant, and no others."]


def rounding(st, m, o, Q):
    """Rounding of the pressure: that of the energy, seen through Gamma."""
    r = 1e-12 * (abs(st.p) + abs(R.p_ref(st.ρ, m)) + R.gamma(st.ρ, m) *
                 (abs(Q[1]) + st.ρ * (abs(R.e_ref(st.ρ, m)) + st.v @ st.v +
                                      abs(R.shear_energy(st.ρ, st.A, m)))))
    if m.EOS == R.CC:      # e_ref is a difference of two much larger powers
        r += 1e-12 * st.ρ * R.gamma(st.ρ, m) * (m.A + m.B) / m.ρ0 / \
            min(abs(1 - m.R1), abs(1 - m.R2))
    return r


KEYS = {R.SG: ("γ",), R.SMG: ("Γ0", "s"), R.GR: ("α", "β", "γ"),
        R.JWL: ("Γ0", "A", "B", "R1", "R2"), R.CC: ("Γ0", "A", "B", "R1", "R2")}
RATES = {0: ("Kc", "Ti"), 1: ("Bc", "Ea", "Rc"),
         2: ("I", "G1", "G2", "a", "b", "c", "d", "e", "g", "x", "y", "z", "φI", "φG1", "φG2")}


def asked(s, m):
    """The arguments that ask for a material."""
    kw = dict(EOS=R.EOS_NAMES[m.EOS], ρ0=m.ρ0, cv=m.cv)
    for k in KEYS[m.EOS]:
        kw[k] = getattr(m, k)
    if m.EOS == R.SG and (m.pINF or s.bool()):
        kw["pINF"] = m.pINF
    if m.EOS in (R.SMG, R.GR):
        kw["c0"] = np.sqrt(m.c02)
    if m.Tref or s.bool():
        kw["Tref"] = m.Tref
    kw["b0"] = np.sqrt(m.b02)
    if m.β or s.bool():
        kw["β"] = m.β
    r = rheology(m)
    if r in ("newtonian", "bingham", "powerlaw"):
        kw["μ"] = m.μ
    if r in ("powerlaw", "plastic"):
        kw["n"] = m.n
    if r in ("bingham", "plastic"):
        kw["σY"] = m.σY
    if r == "plastic":
        kw["τ0"] = m.τ0
    if m.cα2:
        kw["cα"] = np.sqrt(m.cα2)
        if m.EOS == R.SG and m.μ and s.bool():
            s.label("Prandtl")
            kw["Pr"] = m.μ * m.γ * m.cv / m.κ
        else:
            kw["κ"] = m.κ
    if m.REACTION > -1:
        kw.update(REACTION="dai"[m.REACTION], Qc=m.Qc)
        for k in RATES[m.REACTION]:
            kw[k] = getattr(m, k)
    if m.δp.any() or s.bool():
        kw["δp"] = m.δp.copy()
    return kw


FIELDS = ("EOS", "SOLID", "POWER_LAW", "BINGHAM", "MULTI", "ρ0", "Tref", "cv", "β", "b02", "μ",
          "σY", "τ0", "cα2", "κ", "REACTION", "Qc")


def fields(m):
    out = FIELDS + KEYS[m.EOS]
    if m.EOS in (R.SMG, R.GR):
        out += ("c02",)
    if m.EOS == R.SG:
        out += ("pINF",)
    return out + RATES.get(m.REACTION, ()) + ("n",) * bool(m.POWER_LAW)


@L.law(quick={"default": 600, "thermal": 500, "multi": 900},
       thorough={"default": 20000, "thermal": 15000, "multi": 30000},
       variants=("default", "thermal", "multi"))
def materials(s, G):
    """The parameters of a material are those that were asked for, with the
    rheology that they imply, and the material behaves as the model says: its pressure,
    temperature, flux and sources."""
    from gpr.misc.objects import material_params
    o = opt(G)
    m, P, st = case(s, o)
    kw = asked(s, m)
    s.note(asked=sorted(kw))
    for _ in range(s.int(0, 1)):        # one made before, of other parameters
        other, _ = R.gen_material(s, opt=o)
        material_params(**asked(s, other))
    MP = material_params(**kw)
    ref = m.par(G)
    for f in fields(m):
        got, want = getattr(MP, f), getattr(m, f)
        if isinstance(want, (bool, int)) or f in ("EOS", "REACTION"):
            ensure(got == want, f"{f} is {got}, not {want}")
        else:
            close(f, got, want, rtol=1e-14)
    ensure((np.array(MP.δp).ravel() == m.δp).all(), "body forces differ")
    Q = R.cons(st, m, o)
    V, sy = G.system.variables, G.system
    for name, f in (("pressure", lambda p: V.pressure(Q.copy(), p)),
                    ("temperature", lambda p: V.temperature(Q.copy(), p))):
        a, b = f(MP), f(ref)
        close(name, a, b, rtol=1e-9, atol=4 * rounding(st, m, o, Q) *
              (1 if name == "pressure" else 1 / (st.ρ * R.gamma(st.ρ, m) * m.cv)))
    s0 = s.int(0, 2)
    for name, f in (("flux", lambda F, p: sy.flux(F, Q.copy(), s0, p)),
                    ("source", lambda F, p: sy.source(F, Q.copy(), p))):
        A, B = np.zeros(o.V), np.zeros(o.V)
        f(A, MP)
        f(B, ref)
        if not np.isfinite(B).all():
            raise Skip
        k = 1e-6 * np.abs(B) + 1e-9 * np.abs(B).max()
        d = np.abs(A - B) - k
        if name == "source" and m.REACTION == 0 and \
                abs(R.temp(st.ρ, st.p, m) / m.Ti - 1) < 1e-6:
            continue
        ensure((d <= 0).all(), lambda: f"the {name} differs: {A} and {B}")


@L.law(quick={"multi": 700}, thorough={"multi": 20000}, variants=("multi",))
def mixtures(s, G):
    """The second material of a mixture has the parameters that were asked for
    it, whichever equation of state each has."""
    from gpr.misc.objects import material_params
    o = opt(G)
    m, P = R.gen_material(s, opt=o)
    n, _ = R.gen_material(s, rheology="newtonian", opt=o)
    n.ρ0 = m.ρ0
    s.label(R.EOS_NAMES[m.EOS] + " and " + R.EOS_NAMES[n.EOS])
    kw = asked(s, m)
    two = asked(s, n)
    if n.EOS == R.SG:
        two["pINF"] = n.pINF
    for k in ("ρ0", "REACTION", "Qc", "δp") + RATES.get(n.REACTION, ()):
        two.pop(k, None)
    kw.update({k + "_2": v for k, v in two.items()})
    MP = material_params(MULTI=True, **kw)
    s.note(asked=sorted(kw))
    ensure(MP.MULTI is True, "not a mixture")
    for f in fields(m):
        if f != "MULTI":
            got, want = getattr(MP, f), getattr(m, f)
            close(f, float(got), float(want), rtol=1e-14)
    n.REACTION = -1
    for f in fields(n):
        if f in R.PARAMS and f not in ("σY", "τ0"):
            close(f + " of the second", float(getattr(MP.MP2, f)), float(getattr(n, f)), rtol=1e-14)
    ρ = m.ρ0 * s.float(0.9, 1.1, 1)
    p = P * s.log(0.1, 10, 1)
    T = R.temp(ρ, p, n)
    tol = 1e-12 * (abs(T) + n.Tref * R.phi(ρ, n) +
                   (abs(p) + abs(R.p_ref(ρ, n)) + n.A + n.B) / (ρ * R.gamma(ρ, n) * n.cv))
    close("temperature of the second", G.system.variables.temperature_mg(ρ, p, MP.MP2), T,
          atol=100 * tol)


@L.law(quick={"default": 20}, thorough={"default": 100})
def vacuum(s, G):
    """Vacuum is what the solver takes for it."""
    from gpr.misc.objects import material_params
    MP = material_params("vac", s.choice([0, None, 1.0]))
    ensure(MP.EOS == -1 and MP.REACTION == -1 and not MP.MULTI, "not a vacuum")
    ensure((np.array(MP.δp) == 0).all(), "forces on a vacuum")


@L.law(quick={"default": 1200, "thermal": 900, "multi": 900},
       thorough={"default": 40000, "thermal": 30000, "multi": 30000},
       variants=("default", "thermal", "multi"))
def states(s, G):
    """The conserved variables of a primitive state are the model's, with those
    parts only that are given, and the solver finds the state in them again."""
    from gpr.misc.structures import Cvec
    o = opt(G)
    m, P, st = case(s, o)
    par = m.par(G)
    A, J, λ, v = st.A.copy(), None, None, st.v.copy()
    if o.THERMAL:
        J = st.J.copy()
    if o.MULTI:
        λ = st.λ
    Q = np.array(Cvec(st.ρ, st.p, v, par, A, J, λ))
    want = R.cons(st, m, o)
    n = o.V - o.LSET
    ensure(Q.shape == (n,), f"{Q.shape} variables, not {n}")
    if m.REACTION < 0 and λ is not None:
        ensure(par.Qc == 0, "heat of no reaction")
    r = rounding(st, m, o, want)
    close("state", np.delete(Q, 1), np.delete(want[:n], 1), rtol=1e-14)
    close("energy", Q[1], want[1], rtol=1e-13, atol=r / min(R.gamma(st.ρ, m), 1))
    ensure((A == st.A).all() and (v == st.v).all(), "what was given is changed")
    full = want.copy()
    full[:n] = Q
    V = G.system.variables
    close("pressure", V.pressure(full.copy(), par), st.p, rtol=0, atol=4 * r)
    T = R.temp(st.ρ, st.p, m)
    close("temperature", V.temperature(full.copy(), par), T,
          atol=4 * r / (st.ρ * R.gamma(st.ρ, m) * m.cv) + 1e-12 * abs(T))
    if s.bool(0.3):
        s.label("without shear")
        q = np.array(Cvec(st.ρ, st.p, v, par))
        e = st.ρ * (R.e_of_p(st.ρ, st.p, m) + v @ v / 2)
        ensure(q.shape == (5,), f"{q.shape} variables of a state of no shear")
        close("state without shear", np.delete(q, 1), np.delete(want[:5], 1), rtol=1e-14)
        close("energy without shear", q[1], e, rtol=1e-13, atol=r / min(R.gamma(st.ρ, m), 1))
    if s.bool(0.3) and not o.THERMAL:
        s.label("fraction without heat")
        y = s.float(0, 1, 0.5)
        q = np.array(Cvec(st.ρ, st.p, v, par, A, None, y))
        ensure(q.shape == (15,) and abs(q[14] - st.ρ * y) <= 1e-14 * st.ρ, "fraction is misplaced")
