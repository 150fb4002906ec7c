"""Helpers shared by the properties."""

import numpy as np

import gpr_ref as R
from pbt import Skip

EOS_ALL = (R.SG, R.SMG, R.JWL, R.CC, R.GR)

_opt = {}


def opt(G):
    if "o" not in _opt:
        _opt["o"] = R.Opt(G)
    return _opt["o"]


def case(s, o, **kw):
    """A material, its pressure scale and a physical state of it."""
    gs = {k: kw.pop(k) for k in ("strain", "ls", "mach") if k in kw}
    m, P = R.gen_material(s, opt=o, **kw)
    st = R.gen_state(s, m, P, o, **gs)
    s.label(R.EOS_NAMES[m.EOS], rheology(m))
    s.note(material=m.show(), ρ=st.ρ, p=st.p, v=st.v, A=st.A.ravel())
    if o.THERMAL:
        s.note(J=st.J)
    if o.MULTI:
        s.note(λ=st.λ)
    physical(st, m)
    return m, P, st


def rheology(m):
    if m.SOLID:
        return "plastic" if m.POWER_LAW else "elastic"
    if m.BINGHAM:
        return "bingham"
    return "powerlaw" if m.POWER_LAW else "newtonian"


def physical(st, m):
    """Skips states without a positive temperature and sound speed."""
    T = R.temp(st.ρ, st.p, m)
    if not (st.ρ > 0 and T > 0 and R.c0sq(st.ρ, st.p, st.A, m) > 0):
        raise Skip


def scales(st, m, P, o):
    """Typical size of each conserved variable."""
    c = np.sqrt(P / m.ρ0)
    q = np.ones(o.V)
    q[0] = m.ρ0
    q[1] = max(P, m.ρ0 * c * c)
    q[2:5] = m.ρ0 * c
    if o.THERMAL:
        q[14:17] = m.ρ0 * c / np.sqrt(max(m.cα2, 1e-300))
    if o.MULTI:
        q[o.mV] = m.ρ0
    return q


def hyperbolic(Q, d, m, o, sc):
    """Eigenvalues of F'(Q) + B(Q), if they are real."""
    J = R.jac(Q, d, m, o)
    ev = np.linalg.eigvals(J * sc / sc[:, None])
    if not np.all(np.isfinite(ev)) or \
            np.abs(ev.imag).max() > 1e-6 * np.abs(ev).max():
        raise Skip
    return ev.real
