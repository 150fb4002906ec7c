"""Ghost cells of multimaterial grids, and the grid made of its materials."""

import ctypes

import numpy as np

import gpr_ref as R
from pbt import Laws, Skip, close, ensure
from .c16 import bodies, interface_cells, neighbours
from .common import opt
from .fields import base, ints, noise, permute, sane

L = Laws("C17")
L.retries = 10
L.assumptions = [
    "Star states of interfaces are those of the code (C18); level set distances are C16's.",
]
VS = ("lset1", "default", "lset3")
omp = ctypes.CDLL("libgomp.so.1")


def scene(s, G, nd=None, big=8, vacuum=0.25, amp=0.02, alike=False):
    """Cells of LSET + 1 materials on a grid."""
    o = opt(G)
    nd = nd or s.int(1, 2)
    nX = [s.int(4, 30) if nd == 1 else s.int(4, big) for _ in range(nd)]
    dX = np.full(nd, s.log(1e-2, 10, 1))
    ls = np.stack([bodies(s, nX, dX) for _ in range(o.LSET)], -1)
    if o.LSET > 1 and s.bool(0.8):
        ls = -np.sort(-ls, -1)
    nmat = o.LSET + 1
    vac = {s.int(0, nmat - 1)} if s.bool(vacuum) else set()
    ms, states = [], []
    Ps = []
    for k in range(nmat):
        m, P, st, Q, sc = base(s, o)
        Ps.append(P)
        ms.append(m)
        states.append((Q, sc))
    if alike and max(Ps) > 1e4 * min(Ps):
        raise Skip
    index = (ls >= 0).sum(-1)
    u = np.zeros(tuple(nX) + (o.V,))
    for k in range(nmat):
        v = noise(s, states[k][0], states[k][1], nX, amp, o)
        if o.MULTI:
            v[..., o.mV] = np.clip(v[..., o.mV], 0, v[..., 0])
        if k not in vac:
            sane(v[index == k], ms[k], o)
            u[index == k] = v[index == k]
    u[..., o.V - o.LSET:] = ls
    pars = [R.vacuum(G) if k in vac else m.par(G) for k, m in enumerate(ms)]
    s.label(f"{nd}D", "vacuum" if vac else "no vacuum")
    s.note(nX=nX, dX=dX, ls=ls if ls.size < 40 else None)
    return o, ms, pars, vac, nX, dX, u


def fill(G, u, nX, dX, dt, pars):
    """Level sets, grids and masks after the ghost cells are filled."""
    v = u.ravel().copy()
    n = len(pars)
    grids = G.VectorVec([np.full(v.size, 0.0) for _ in range(n)])
    masks = G.VectorbVec([np.ones(int(np.prod(nX)), bool) for _ in range(n)])
    G.multi.fill_ghost_cells(grids, masks, v, ints(*nX), dX.copy(), dt, pars)
    return (v.reshape(u.shape), [np.array(g).reshape(u.shape) for g in grids],
            [np.array(k).reshape(nX) for k in masks])


def geometry(G, v, mat, dX):
    """Indicator of a material, its interface cells and normals."""
    nX = v.shape[:-1]
    n = int(np.prod(nX))
    φ = np.zeros(n)
    flat = v.reshape(n, -1)
    nmat = opt(G).LSET + 1
    G.multi.material_indicator(φ, flat.copy(), mat, nmat, dX.copy(), ints(*nX))
    d = np.zeros((n, len(nX)))
    G.multi.finite_difference(d, φ.copy(), dX.copy(), ints(*nX))
    size = np.linalg.norm(d, axis=1)
    d[size == 0] = np.eye(len(nX))[0]
    d /= np.linalg.norm(d, axis=1)[:, None]
    φ = φ.reshape(nX)
    return φ, interface_cells(φ), d.reshape(tuple(nX) + (len(nX),))


@L.law(quick={"lset1": 500, "default": 500, "lset3": 250},
       thorough={"lset1": 20000, "default": 20000, "lset3": 10000}, variants=VS)
def ghosts(s, G):
    """Every material's grid keeps the states of the material's own cells, has the
    renormalised level sets, and has as its mask those cells and the ghosts next to
    them, but no lone cells; the ghosts further off are copies of nearer ones;
    grids of vacuums are left alone, with empty masks."""
    o, ms, pars, vac, nX, dX, u = scene(s, G)
    dt = s.choice([0.0, 1e-4, 1e-2]) * dX[0] / max(1.0, np.abs(u[..., 0]).max())
    v, grids, masks = fill(G, u, nX, dX, dt, pars)
    want = u.reshape(-1, o.V).copy()
    G.multi.renormalize_levelsets(want, dX.copy(), ints(*nX))
    same = want.reshape(u.shape)
    ensure((v == same).all(), "more of u than its level sets changed, or these are not "
           "renormalised")
    p = o.V - o.LSET
    index = (v[..., p:] >= 0).sum(-1)
    ghosts = 0
    for k in range(o.LSET + 1):
        g = grids[k]
        if k in vac:
            ensure((g == 0).all() and not masks[k].any(), f"grid of vacuum {k} changed")
            continue
        φ, side, n = geometry(G, v, k, dX)
        mask = ((φ <= 0) & (side != -2)) | (side == 1)
        bad = masks[k] != mask
        ensure(not bad.any(), lambda: f"mask of material {k} wrong in {np.argwhere(bad)[:4]}")
        ensure((g[..., p:] == v[..., p:]).all(), f"level sets of grid {k} differ from u's")
        own = (φ <= 0) & (side != -2) & (index == k)
        bad = own & (g[..., :p] != v[..., :p]).any(-1)
        ensure(not bad.any(), lambda: f"cells {np.argwhere(bad)[:4]} of material {k} changed")
        # further ghosts
        edge = side == 1
        ghosts += int(edge.sum())
        far = ((side == 0) & (φ > 0)) | (side == -2)
        layer = np.where(edge, 1, 10**6)
        for r in range(2, 10 * o.N + 1):
            for i in zip(*np.nonzero(far & (layer > 10**5))):
                if len(nX) == 1 and side[i] != 0:
                    continue
                if any(layer[j] == r - 1 and side[j] != -2 for _, j in neighbours(i, nX)):
                    layer[i] = r
        src = {g[i][:p].tobytes() for i in zip(*np.nonzero(edge))}
        for i in zip(*np.nonzero(far)):
            if layer[i] > 10**5:
                if len(nX) == 1 or not edge.any():
                    ensure((g[i][:p] == v[i][:p]).all(), f"cell {i} of grid {k}, far from "
                           "any interface, changed")
                continue
            ensure(g[i][:p].tobytes() in src, f"ghost {i} of grid {k} is the state of no ghost "
                   "next to the material")
            near = (side == -2).any()
            for j in np.ndindex(*[3] * len(nX)):
                j = tuple(np.add(i, j) - 1)
                if j != i and all(0 <= a < b for a, b in zip(j, nX)) and \
                        layer[j] <= layer[i] and (g[j][:p] == g[i][:p]).all():
                    near = True
            ensure(near, f"ghost {i} of grid {k} is the copy of no neighbour")
        if len(nX) == 1:
            at = np.nonzero(edge)[0]
            for i in np.nonzero(far)[0]:
                d = np.abs(at - i)
                if layer[i] < 10**5 and (d == d.min()).sum() == 1:
                    j = at[d.argmin()]
                    if all(layer[min(i, j):max(i, j) + 1] < 10**5):
                        ensure((g[i][:p] == g[j][:p]).all(), f"ghost {i} of grid {k} is not "
                               "that of the nearest interface")
    s.label("ghosts" if ghosts else "no ghosts")
    if not ghosts:
        s.trivial()


@L.law(quick={"lset1": 500, "default": 500, "lset3": 250},
       thorough={"lset1": 20000, "default": 20000, "lset3": 10000}, variants=VS)
def stars(s, G):
    """The ghost next to a material has the star state, by the Riemann problem
    along the normal, of the material's cell at (or one cell behind) the interface
    and the cell a cell's width beyond it."""
    o, ms, pars, vac, nX, dX, u = scene(s, G, big=7)
    dt = s.choice([0.0, 1e-4, 1e-2]) * dX[0] / max(1.0, np.abs(u[..., 0]).max())
    v, grids, masks = fill(G, u, nX, dX, dt, pars)
    p = o.V - o.LSET
    index = (v[..., p:] >= 0).sum(-1)
    top = np.array(nX) - 1
    checked = 0
    for k in range(o.LSET + 1):
        if k in vac:
            continue
        φ, side, n = geometry(G, v, k, dX)
        plan = {}
        written = {}
        for i in zip(*np.nonzero(side == 1)):
            x = (np.array(i) + 0.5) * dX
            xi = x - φ[i] * n[i]
            pts = [xi / dX, (xi - dX * n[i]) / dX, (xi + dX * n[i]) / dX]
            tie = any((np.abs(q - np.round(q)) < 1e-9).any() for q in pts)
            at = [tuple(np.clip(np.trunc(q).astype(int), 0, top)) for q in pts]
            nn = n[i]
            if index[at[0]] == k:
                left = at[0]
            elif index[at[1]] == k:
                left = at[1]
            elif len(nX) == 1:
                # the neighbour on the material's side
                js = [j for _, j in neighbours(i, nX) if side[j] == -1]
                left, tie = js[0], tie or len(js) > 1
            else:
                order = (0, 1) if abs(nn[0]) > abs(nn[1]) else (1, 0)
                tie |= abs(abs(nn[0]) - abs(nn[1])) < 1e-9 or (np.abs(nn) < 1e-9).any()
                left = None
                for d in order:
                    j = list(i)
                    j[d] = min(max(j[d] - int(np.sign(nn[d])), 0), top[d])
                    if index[tuple(j)] == k and left is None:
                        left = tuple(j)
                        e = np.zeros(2)
                        e[d] = np.sign(nn[d])
                        nn = e
                s.label("neighbour along the grid" if left else "no neighbour found")
                if left is None:
                    tie = True
            plan[i] = (tie, left, at[2], at[0], nn)
            for j in {i} | ({at[0]} if index[at[0]] != k else set()):
                written.setdefault(j, set()).add(i)
        for i, (tie, left, right, mid, nn) in plan.items():
            if tie or any(written.get(j, {i}) != {i} for j in (i, left, right, mid)):
                s.label("ambiguous")
                continue
            checked += 1
            mr = index[right]
            want = np.array(G.system.multi.left_star_state(
                v[left].copy(), v[right].copy(), pars[k], pars[mr], dt, nn.copy()))
            got = grids[k][i]
            s.label("by vacuum" if mr in vac else "by itself" if mr == k else "by another")
            if not np.isfinite(want[:p]).all():
                s.label("overflow")
                continue
            close(f"ghost {i} of material {k}", got[:p], want[:p], rtol=1e-9,
                  atol=1e-9 * scale(want[:p], v[left][:p], v[right][:p]))
            if mid != i and index[mid] != k and side[mid] not in (0, -2):
                ensure((grids[k][mid][:p] == got[:p]).all(),
                       f"the interface's cell {mid} lacks the state of its ghost {i}")
    if not checked:
        s.trivial()


def scale(*Q):
    return np.max(np.abs(Q), 0) + 1e-300


@L.law(quick={"lset1": 1500, "default": 1500}, thorough={"lset1": 50000, "default": 50000},
       variants=VS[:2])
def rows(s, G):
    """In 2D, set-ups whose level sets vary in one direction only have in every
    line that way the ghosts of that line alone, in 1D."""
    o, ms, pars, vac, nX, dX, u = scene(s, G, nd=2, big=9, alike=True)
    ax = s.int(0, 1)
    p = o.V - o.LSET
    line = u.take(0, 1 - ax)
    u[..., p:] = np.expand_dims(line[..., p:], 1 - ax)
    # states by the line's materials
    index = (u[..., p:] >= 0).sum(-1)
    first = (line[..., p:] >= 0).sum(-1)
    for i in range(u.shape[ax]):
        j = s.int(0, 2)
        cells = u.take(i, ax)
        cells[..., :p] = line[i, :p]
        if j and first[i] not in vac:
            cells[1:, 0] *= 1 + 0.01 * j
        if ax == 0:
            u[i] = cells
        else:
            u[:, i] = cells
    dt = s.choice([0.0, 1e-3]) * dX[0] / max(1.0, np.abs(u[..., 0]).max())
    v, grids, masks = fill(G, u, nX, dX, dt, pars)
    if (v[..., p:] == 0).any():
        raise Skip  # interfaces on cells' centres: the order of filling matters
    s.label(f"along {ax}")
    # where interfaces are a few cells from each other and not on an edge of a cell,
    # ghosts do not depend on the order of filling
    for k in range(o.LSET + 1):
        if k not in vac:
            φ, side, n = geometry(G, v, k, dX)
            at = np.nonzero(side.take(0, 1 - ax) == 1)[0]
            q = φ.take(0, 1 - ax)[at] / dX[0]
            if np.diff(at).min(initial=9) < 4 or \
                    np.abs(2 * q - np.round(2 * q)).min(initial=1) < 1e-6:
                raise Skip
    I = np.r_[permute([1, 0, 2], o)] if ax == 1 else np.arange(o.V)
    for k in range(o.LSET + 1):
        if k not in vac:
            φ, side, n = geometry(G, v, k, dX)
            if (side == -2).any():
                raise Skip
            if (n[..., 1 - ax][side == 1] != 0).any():
                raise Skip  # a normal may be any where interfaces are equally far
    turned = pars
    if ax == 1:
        turned = []
        for k, m in enumerate(ms):
            m.δp = np.asarray(m.δp)[[1, 0, 2]]
            turned.append(pars[k] if k in vac else m.par(G))
    some = False
    for j in sorted({0, s.int(0, u.shape[1 - ax] - 1)}):
        w = u.take(j, 1 - ax)[..., I]
        _, g1, m1 = fill(G, w, [nX[ax]], dX[:1], dt, turned)
        e = np.ones(o.V)
        e[1:p] += 1e-10 * s.arr((p - 1,))
        _, g2, _ = fill(G, w * e, [nX[ax]], dX[:1], dt, turned)
        for k in range(o.LSET + 1):
            if k in vac:
                continue
            a = grids[k].take(j, 1 - ax)[..., I]
            mk = masks[k].take(j, 1 - ax)
            ensure((mk == m1[k]).all(), f"mask of material {k} differs from the line's")
            some |= bool((g1[k] != w).any())
            b = g1[k]
            tol = 1e-6 * scale(*w.reshape(-1, o.V))[:p]
            if not (np.abs(g2[k] - b)[mk, :p] <= 1e-2 * tol).all():
                s.label("ill-conditioned")
                continue
            close(f"grid of material {k}", a[mk, :p], b[mk, :p], rtol=1e-6, atol=tol)
    if not some:
        s.trivial()


@L.law(quick={"lset1": 150, "default": 150}, thorough={"lset1": 4000, "default": 4000},
       variants=VS[:2])
def threads(s, G):
    """Ghosts do not depend on the number of threads."""
    o, ms, pars, vac, nX, dX, u = scene(s, G, nd=2, big=14)
    dt = s.choice([0.0, 1e-3]) * dX[0] / max(1.0, np.abs(u[..., 0]).max())
    v, a, ma = fill(G, u, nX, dX, dt, pars)
    n = s.int(2, 8)
    s.note(threads=n)
    try:
        for _ in range(3):
            omp.omp_set_num_threads(n)
            w, b, mb = fill(G, u, nX, dX, dt, pars)
            ensure((v == w).all(), "level sets depend on threads")
            for k in range(o.LSET + 1):
                ensure((ma[k] == mb[k]).all(), f"mask of material {k} depends on threads")
                ensure(np.array_equal(a[k], b[k], equal_nan=True),
                       f"grid of material {k} depends on the threads used")
    finally:
        omp.omp_set_num_threads(1)


@L.law(quick={"lset1": 800, "default": 800, "lset3": 400},
       thorough={"lset1": 30000, "default": 30000, "lset3": 20000},
       variants=VS)
def made(s, G):
    """The grid made of its materials has in each cell the mean level sets of the
    materials it is masked for, or those it had, and by these one material's
    state, or zeros for vacuums."""
    o = opt(G)
    nX = [s.int(1, 12)] if s.bool() else [s.int(1, 5), s.int(1, 5)]
    n = int(np.prod(nX))
    nmat = o.LSET + 1
    m = base(s, o)[0]
    vac = set(k for k in range(nmat) if s.bool(0.2))
    pars = [R.vacuum(G) if k in vac else m.par(G) for k in range(nmat)]
    u = s.arr((n, o.V))
    grids = [s.arr((n, o.V)) for _ in range(nmat)]
    if s.bool(0.3):
        for g in grids:
            g[:, o.V - o.LSET:] = np.round(g[:, o.V - o.LSET:])
    masks = [s.arr((n,), 0, 1) < 0.6 for _ in range(nmat)]
    p = o.V - o.LSET
    want = u.copy()
    safe = np.ones(n, bool)
    for i in range(n):
        ls = [g[i, p:] for g, k in zip(grids, masks) if k[i]]
        if ls:
            want[i, p:] = np.mean(ls, 0)
            if len(ls) > 1 and (np.abs(want[i, p:]) < 1e-12).any():
                safe[i] = False
        k = int((want[i, p:] >= 0).sum())
        want[i, :p] = 0 if k in vac else grids[k][i, :p]
    w = u.ravel().copy()
    G.solvers.make_u(w, G.VectorVec([g.ravel().copy() for g in grids]),
                     G.VectorbVec([k.copy() for k in masks]), pars)
    w = w.reshape(n, o.V)
    s.label("vacuum" if vac else "no vacuum")
    close("level sets", w[:, p:], want[:, p:], rtol=1e-13, atol=1e-15)
    bad = safe & (w[:, :p] != want[:, :p]).any(-1)
    ensure(not bad.any(), lambda: f"cells {np.argwhere(bad)[:4].ravel()} have the wrong state")
