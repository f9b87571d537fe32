"""Workload generators and independent geometry/topology oracles."""

from __future__ import annotations

from itertools import permutations, product

import numpy as np
import refio
from lib import HexaData, Violation, need

# face number -> (local axis, side); local axes: 0 = r (ix), 1 = s (iy), 2 = t (iz)
FACES = [(1, 0), (0, 1), (1, 1), (0, 0), (2, 0), (2, 1)]
FACE_OF = {v: k for k, v in enumerate(FACES)}
# edge number -> its two end points (iz, iy, ix)
EDGES = [
    ((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (0, 1, 1)), ((0, 1, 1), (0, 1, 0)), ((0, 1, 0), (0, 0, 0)),
    ((1, 0, 0), (1, 0, 1)), ((1, 0, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 0)), ((1, 1, 0), (1, 0, 0)),
    ((0, 0, 0), (1, 0, 0)), ((0, 0, 1), (1, 0, 1)), ((0, 1, 1), (1, 1, 1)), ((0, 1, 0), (1, 1, 0)),
]
TAGS = ["W", "v", "O", "SYM", "mv", "ON", "I", "t", "f", "A", "int", "shl", "V", "o", "sym", "T", "F", "msi", "EL", "EXO", "Pr", "e", "p"]


# ------------------------------------------------------------------ field files
def values(rng, shape, wdsz, special=True):
    """Floats of the given precision (returned in float64), of several kinds."""
    k = rng.integers(0, 7 if special else 3)
    if k == 0:
        a = rng.standard_normal(shape)
    elif k == 1:
        a = rng.standard_normal(shape) * 10.0 ** rng.integers(-12, 12)
    elif k == 2:
        a = rng.integers(-1000, 1000, shape).astype(float)
    elif k == 3:
        e = rng.uniform(-36, 37, shape) if wdsz == 4 else rng.uniform(-300, 300, shape)
        a = rng.uniform(1, 9, shape) * 10.0**e * rng.choice([-1, 1], shape)
    elif k == 4:
        sp = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1e-40, 1.0, -1.0, 3.4e38, 1.7e308])
        if wdsz == 4:
            sp = sp.astype("f4").astype("f8")
        a = rng.choice(sp, shape)
    elif k == 5:
        a = np.full(shape, rng.standard_normal())
    else:  # bit patterns
        if wdsz == 4:
            a = rng.integers(0, 2**32, shape, dtype=np.uint64).astype(np.uint32).view("f4").astype("f8")
        else:
            a = rng.integers(0, 2**64 - 1, shape, dtype=np.uint64).view("f8").copy()
        a[np.isnan(a)] = 0.5
    if wdsz == 4:
        a = a.astype("f4").astype("f8")
    return np.asarray(a, dtype="f8")


def rand_lr1(rng, ndim, big=0.1):
    hi = 13 if rng.random() < big else 6
    l = [int(x) for x in rng.integers(2, hi + 1, 3)]
    if rng.random() < 0.3:
        l = [l[0]] * 3
    if hi == 13:
        l[int(rng.integers(0, ndim))] = int(rng.integers(10, 14))
        l[(int(rng.integers(0, 3)))] = 2
    if ndim == 2:
        l[2] = 1
    return l


def rand_time(rng):
    k = rng.integers(0, 6)
    return float([0.0, rng.uniform(0, 1000), 10.0 ** rng.integers(-9, 9), -rng.uniform(0, 10), rng.uniform(1, 9.9) * 10.0 ** rng.integers(-80, 80), float(rng.integers(0, 100))][k])


def rand_field(rng, ndim=None, nel=None, lr1=None, var=None, wdsz=None, endian=None, special=True, need_var=None, maxscal=5):
    ndim = ndim or ((3 if lr1[2] > 1 else 2) if lr1 else int(rng.integers(2, 4)))
    nel = nel or int(rng.choice([1, 2, 3, 5, 7, 12]))
    lr1 = lr1 or rand_lr1(rng, ndim)
    wdsz = wdsz or int(rng.choice([4, 8]))
    endian = endian or str(rng.choice(["little", "big"]))
    if var is None:
        while True:
            ns = int(rng.integers(0, maxscal + 1)) if rng.random() < 0.6 else 0
            if rng.random() < 0.03:
                ns = int(rng.integers(10, 16))
            var = [ndim * int(rng.random() < 0.7), ndim * int(rng.random() < 0.7), int(rng.random() < 0.6), int(rng.random() < 0.6), ns]
            if any(var) and (need_var is None or var[need_var]):
                break
    sh = (nel,)
    blk = tuple(lr1[::-1])

    def f(n):
        # every component gets its own kind of values
        return np.stack([values(rng, sh + blk, wdsz, special) for _ in range(n)], axis=1) if n else np.zeros(sh + (0,) + blk)

    elmap = np.arange(1, nel + 1)
    if rng.random() < 0.7:
        elmap = rng.permutation(elmap)
    return dict(
        ndim=ndim, nel=nel, lr1=lr1, wdsz=wdsz, endian=endian, var=var, time=rand_time(rng),
        istep=int(rng.choice([0, 1, 17, 123456, 999999999])), elmap=[int(x) for x in elmap],
        pos=f(var[0]), vel=f(var[1]), pres=f(var[2]), temp=f(var[3]), scal=f(var[4]),
    )


def wide_field(rng):
    """A field that is large in one respect: number of elements, order, number of scalars."""
    k = int(rng.integers(0, 4))
    if k == 0:
        return rand_field(rng, nel=int(rng.choice([33, 64, 100, 128, 255, 256, 257, 300])), lr1=[2, 2, 2 if rng.random() < 0.5 else 1], ndim=None)
    if k == 1:
        nd = int(rng.integers(2, 4))
        lr1 = [int(x) for x in rng.choice([2, 3, 5, 9, 16, 17, 20], 3)]
        if rng.random() < 0.3:
            lr1 = [2, 2, 2]
            lr1[int(rng.integers(0, nd))] = int(rng.choice([65, 99]))
        if nd == 2:
            lr1[2] = 1
        return rand_field(rng, ndim=nd, nel=int(rng.integers(1, 4)), lr1=lr1, maxscal=2)
    nd = int(rng.integers(2, 4))
    var = [nd * int(rng.random() < 0.5), nd * int(rng.random() < 0.5), int(rng.random() < 0.5), int(rng.random() < 0.5), int(rng.choice([9, 10, 11, 19, 30, 60, 98, 99]))]
    return rand_field(rng, ndim=nd, nel=int(rng.integers(1, 6)), lr1=[2, 2, nd - 1], var=var)


def big_field(rng, nel=None, var=None):
    """More elements than two bytes can count."""
    nel = nel or int(rng.integers(32768, 34000))
    return rand_field(rng, ndim=2, nel=nel, lr1=[2, 2, 1], var=var or [2, 2, 1, 0, 1], special=False)


def to_hexa(f, dtype="float64", seq=list):
    d = HexaData(f["ndim"], f["nel"], seq(f["lr1"]), seq(f["var"]), 0, dtype)
    d.time, d.istep, d.wdsz, d.endian = f["time"], f["istep"], f["wdsz"], f["endian"]
    d.elmap = np.array(f["elmap"], dtype=np.int32)
    for e, el in enumerate(d.elem):
        el.pos[: f["var"][0]] = f["pos"][e]
        el.vel[: f["var"][1]] = f["vel"][e]
        el.pres[:] = f["pres"][e]
        el.temp[:] = f["temp"][e]
        el.scal[:] = f["scal"][e]
    return d


def describe_field(f):
    return f"field ndim={f['ndim']} nel={f['nel']} lr1={f['lr1']} var={f['var']} wdsz={f['wdsz']} endian={f['endian']} elmap={f['elmap'] if f['nel'] < 40 else '...'} time={f['time']!r} istep={f['istep']}"


# ------------------------------------------------------------ structured meshes
def rotations(ndim):
    """Orientation-preserving signed permutations: list of (perm, flip)."""
    out = []
    for p in permutations(range(ndim)):
        for s in product((0, 1), repeat=ndim):
            m = np.zeros((ndim, ndim))
            for a in range(ndim):
                m[p[a], a] = -1 if s[a] else 1
            if np.linalg.det(m) > 0:
                out.append((p, s))
    return out


ROT = {2: rotations(2), 3: rotations(3)}


def spacing(rng, n, kind=None):
    k = rng.integers(0, 4) if kind is None else kind
    if k == 0:
        d = np.ones(n)
    elif k == 1:
        d = rng.uniform(0.3, 1.0, n)
    elif k == 2:
        d = min(1.6, 40.0 ** (1.0 / n)) ** np.arange(n)
    else:
        d = 10.0 ** rng.uniform(-1.0, 0.3, n)
    d = d * 10.0 ** rng.uniform(-1, 1)
    return np.concatenate(([0.0], np.cumsum(d)))


class SMesh:
    """A mesh with a known topology: link[e][f] = (kind, e2, f2, side), kind in E, P, B."""


def rand_nbc(rng, lo, hi):
    """A number of fields with boundary conditions, now and then larger than usual."""
    return int(rng.integers(lo, hi + 1)) if rng.random() < 0.9 else int(rng.choice([4, 5, 6, 7, 9, 12]))


def struct_mesh(rng, ndim=2, n=None, nbc=None, internal=True, periodic=None, rot=True, shuffle=True,
                warp=None, curved=0.0, blank=0.0, params=True, curv_kinds="mC", offset=None, maxn=4, tags=None, scale=None):
    """Build a HexaData without pymech's generators, together with its topology."""
    if n is None:
        n = [int(x) for x in rng.integers(1, maxn + 1, ndim)]
    n = list(n) + [1] * (3 - len(n))
    nbc = int(rng.integers(1, 4)) if nbc is None else nbc
    if periodic is None:
        periodic = [rng.random() < 0.35 for _ in range(ndim)]
    periodic = list(periodic) + [False] * (3 - len(periodic))
    nel = n[0] * n[1] * (n[2] if ndim == 3 else 1)
    ax = [spacing(rng, n[d]) for d in range(ndim)]
    lens = [a[-1] for a in ax]
    warp = rng.integers(0, 4) if warp is None else warp
    # node coordinates indexed [iz, iy, ix]
    g = np.meshgrid(ax[0], ax[1], ax[2] if ndim == 3 else [0.0], indexing="ij")
    X = np.stack([np.transpose(c, (2, 1, 0)) for c in g]).astype(float)  # (3, nz+1, ny+1, nx+1)
    if warp in (1, 3):  # smooth deformation that keeps the orientation
        ph = rng.uniform(0, 6, 3)
        U = [X[d] / lens[d] for d in range(ndim)]
        Y = X.copy()
        for d in range(ndim):
            o = [q for q in range(ndim) if q != d]
            s = np.sin(2.0 * U[o[0]] + ph[d])
            if len(o) > 1:
                s = s * np.cos(1.5 * U[o[1]] + ph[d])
            Y[d] = X[d] + 0.12 * lens[d] * s
        X = Y
    if warp in (2, 3):
        if ndim == 2:
            th = rng.uniform(0, 6.28)
            R = np.array([[np.cos(th), -np.sin(th), 0], [np.sin(th), np.cos(th), 0], [0, 0, 1]])
        else:
            q, _ = np.linalg.qr(rng.standard_normal((3, 3)))
            R = q * np.sign(np.linalg.det(q))
        X = np.einsum("ab,bzyx->azyx", R, X)
    if scale is not None:
        X = X * scale
    off = np.zeros(3)
    if offset is None:
        if rng.random() < 0.5:
            off[:ndim] = rng.uniform(-2, 2, ndim)
    else:
        off[: len(offset)] = offset
    X = X + off[:, None, None, None]

    cells = list(product(range(n[2] if ndim == 3 else 1), range(n[1]), range(n[0])))
    order = rng.permutation(nel) if shuffle else np.arange(nel)
    cell_of = [cells[int(c)] for c in order]
    el_of = {c: e for e, c in enumerate(cell_of)}
    rots = [ROT[ndim][int(rng.integers(0, len(ROT[ndim])))] if rot else (tuple(range(ndim)), (0,) * ndim) for _ in range(nel)]

    lr1 = [2, 2, ndim - 1]
    mesh = HexaData(ndim, nel, lr1, [ndim, 0, 0, 0, 0], nbc)
    sides = {(a, s): [str(rng.choice(tags or TAGS)) for _ in range(nbc)] for a in range(ndim) for s in (0, 1)}
    link = []
    for e in range(nel):
        k, j, i = cell_of[e]
        perm, flip = rots[e]
        el = mesh.elem[e]

        def logical(loc):
            """local (r, s, t) -> logical corner offset"""
            c = [0, 0, 0]
            for a in range(ndim):
                c[perm[a]] = (1 - loc[a]) if flip[a] else loc[a]
            return c

        for t, s, r in product(range(ndim - 1), range(2), range(2)):
            c = logical((r, s, t))
            el.pos[:, t, s, r] = X[:, k + c[2] if ndim == 3 else 0, j + c[1], i + c[0]]
        row = []
        for f in range(2 * ndim):
            a, sd = FACES[f]
            A, S = perm[a], sd ^ flip[a]
            idx = [i, j, k]
            tgt = idx[A] + (1 if S else -1)
            wrap = not (0 <= tgt < n[A])
            if wrap and not periodic[A]:
                row.append(("B", -1, -1, (A, S)))
                continue
            idx[A] = tgt % n[A]
            e2 = el_of[idx[2], idx[1], idx[0]]
            p2, fl2 = rots[e2]
            a2 = p2.index(A)
            s2 = (1 - S) ^ fl2[a2]
            row.append(("P" if wrap else "E", e2, FACE_OF[a2, s2], (A, S)))
        link.append(row)
    for e, el in enumerate(mesh.elem):
        for f, (kind, e2, f2, side) in enumerate(link[e]):
            for ib in range(nbc):
                bc = el.bcs[ib, f]
                if kind == "E" and not internal:
                    continue
                if kind == "B":
                    if rng.random() < blank:
                        continue
                    bc[0], bc[1], bc[2] = sides[side][ib], e + 1, f + 1
                    if params and rng.random() < 0.5:
                        for q in range(3, 8):
                            bc[q] = float(rng.choice([0.0, rng.standard_normal(), rng.integers(-9, 9), 1e-3]))
                else:
                    bc[0], bc[1], bc[2], bc[3], bc[4] = kind, e + 1, f + 1, e2 + 1, f2 + 1
        if curved:
            nedge = 4 if ndim == 2 else 12
            for ed in range(nedge):
                if rng.random() < curved:
                    set_curv(rng, el, ed, str(rng.choice(list(curv_kinds))))
    mesh.ncurv = count_curv(mesh)
    mesh.time = 0.0
    m = SMesh()
    m.mesh, m.ndim, m.n, m.nel, m.nbc, m.link, m.periodic, m.sides, m.X, m.axes, m.off = mesh, ndim, n, nel, nbc, link, periodic, sides, X, ax, off
    m.cell_of, m.el_of, m.rots, m.internal = cell_of, el_of, rots, internal
    return m


def set_curv(rng, el, ed, kind):
    p, q = EDGES[ed]
    a, b = el.pos[(slice(None),) + p], el.pos[(slice(None),) + q]
    L = np.linalg.norm(b - a)
    el.ccurv[ed] = kind
    if kind == "m":
        d = b - a
        nrm = np.array([d[1], -d[0], 0.0])
        el.curv[ed, :3] = 0.5 * (a + b) + nrm * rng.uniform(-0.15, 0.15)
    elif kind == "C":
        el.curv[ed, 0] = rng.choice([-1, 1]) * L * rng.uniform(0.6, 5)
    elif kind == "s":
        el.curv[ed, :3] = 0.5 * (a + b) + np.array([1.0, 1.0, 0]) * L * rng.uniform(1, 3)
        el.curv[ed, 4] = np.linalg.norm(el.curv[ed, :3] - a)
    else:
        el.curv[ed, :] = rng.standard_normal(5)


def count_curv(mesh):
    return sum(c != "" for el in mesh.elem for c in el.ccurv)


def describe_mesh(m):
    return f"struct_mesh ndim={m.ndim} n={m.n} nel={m.nel} nbc={m.nbc} periodic={m.periodic} internal={m.internal} ncurv={m.mesh.ncurv} sides={m.sides}"


# ------------------------------------------------------------------- geometry
def face_points(el, f):
    """Corner points of a face, (4, 3) in 3D and (2, 3) in 2D."""
    a, s = FACES[f]
    i = 0 if s == 0 else -1
    lz = el.pos.shape[1]
    rng3 = [(0, -1)] * 3
    if lz == 1:
        rng3[2] = (0,)
    rng3[a] = (i,)
    return np.array([el.pos[:, t, s_, r] for t in rng3[2] for s_ in rng3[1] for r in rng3[0]])


def face_center(el, f):
    return face_points(el, f).mean(axis=0)


def corner(el, c):
    """c = (iz, iy, ix) with 1 meaning the last point"""
    return el.pos[:, -1 if c[0] else 0, -1 if c[1] else 0, -1 if c[2] else 0]


def edge_lengths(el, ndim):
    return np.array([np.linalg.norm(corner(el, q) - corner(el, p)) for p, q in EDGES[: 4 if ndim == 2 else 12]])


def smallest_edge(el):
    return float(edge_lengths(el, 3 if el.pos.shape[1] > 1 else 2).min())


_G = [0.5 - 0.5 / np.sqrt(3), 0.5 + 0.5 / np.sqrt(3)]


def jac(P, r, s, t=None):
    """Jacobian matrix of the (bi/tri)linear map with corners P[(iz, iy, ix)]."""
    if t is None:
        dr = (1 - s) * (P[0, 0, 1] - P[0, 0, 0]) + s * (P[0, 1, 1] - P[0, 1, 0])
        ds = (1 - r) * (P[0, 1, 0] - P[0, 0, 0]) + r * (P[0, 1, 1] - P[0, 0, 1])
        return np.array([dr[:2], ds[:2]])
    w = lambda x, k: x if k else 1 - x  # noqa: E731
    dr = sum(w(t, k) * w(s, j) * (P[k, j, 1] - P[k, j, 0]) for k in (0, 1) for j in (0, 1))
    ds = sum(w(t, k) * w(r, i) * (P[k, 1, i] - P[k, 0, i]) for k in (0, 1) for i in (0, 1))
    dt = sum(w(s, j) * w(r, i) * (P[1, j, i] - P[0, j, i]) for j in (0, 1) for i in (0, 1))
    return np.array([dr, ds, dt])


def corners_of(el, ndim):
    return {c: corner(el, c) for c in product((0, 1) if ndim == 3 else (0,), (0, 1), (0, 1))}


def volume(el, ndim):
    P = corners_of(el, ndim)
    if ndim == 2:
        return sum(0.25 * np.linalg.det(jac(P, r, s)) for r in _G for s in _G)
    return sum(0.125 * np.linalg.det(jac(P, r, s, t)) for r in _G for s in _G for t in _G)


def min_corner_jac(el, ndim):
    P = corners_of(el, ndim)
    if ndim == 2:
        return min(np.linalg.det(jac(P, r, s)) for r in (0, 1) for s in (0, 1))
    return min(np.linalg.det(jac(P, r, s, t)) for r in (0, 1) for s in (0, 1) for t in (0, 1))


def total_volume(mesh):
    return sum(volume(el, mesh.ndim) for el in mesh.elem)


def same_points(a, b, tol):
    """Whether two sets of points are the same (any order)."""
    b = list(b)
    if len(a) != len(b):
        return False
    for p in a:
        d = [np.linalg.norm(p - q) for q in b]
        k = int(np.argmin(d))
        if d[k] > tol:
            return False
        b.pop(k)
    return True


def contacts(mesh, rtol=1e-6):
    """Pairs of faces that have the same corners: {(e, f): (e2, f2)}."""
    cs, fp = [], []
    sc = [smallest_edge(el) for el in mesh.elem]
    for e, el in enumerate(mesh.elem):
        for f in range(2 * mesh.ndim):
            p = face_points(el, f)
            fp.append(((e, f), p))
            cs.append(p.mean(axis=0))
    cs = np.array(cs)
    out = {}
    o = np.argsort(cs[:, 0], kind="stable")
    xs = cs[o, 0]
    for a in range(len(o)):
        ia = int(o[a])
        (e, f), p = fp[ia]
        b = a + 1
        tol = rtol * sc[e]
        while b < len(o) and xs[b] - xs[a] <= tol:
            ib = int(o[b])
            (e2, f2), q = fp[ib]
            if e2 != e and np.linalg.norm(cs[ia] - cs[ib]) <= tol and same_points(p, q, tol):
                need_single(out, (e, f), (e2, f2))
            b += 1
    return out


def need_single(out, a, b):
    if a in out or b in out:
        raise Violation(f"three faces at the same place: {a}, {b}, {out.get(a) or out.get(b)}")
    out[a], out[b] = b, a


def audit(mesh, what, rtol=1e-6, complete=True, periodic_shift=False, fields=None, own_index=True):
    """Independent verdict on the connectivity of a mesh: raises Violation."""
    n = 0
    con = contacts(mesh, rtol)
    for ib in range(mesh.nbc) if fields is None else fields:
        for e, el in enumerate(mesh.elem):
            for f in range(2 * mesh.ndim):
                bc = el.bcs[ib, f]
                tag = str(bc[0])
                if own_index and tag != "":
                    need((int(bc[1]), int(bc[2])) == (e + 1, f + 1),
                         lambda: f"{what}: condition {tag!r} of field {ib}, element {e + 1}, face {f + 1} is labelled as element {bc[1]}, face {bc[2]}")
                if tag in ("E", "P"):
                    e2, f2 = int(bc[3]) - 1, int(bc[4]) - 1
                    need(0 <= e2 < mesh.nel and 0 <= f2 < 2 * mesh.ndim, lambda: f"{what}: field {ib} element {e + 1} face {f + 1} '{tag}' is connected to element {e2 + 1} face {f2 + 1} of {mesh.nel}")
                    b2 = mesh.elem[e2].bcs[ib, f2]
                    need((str(b2[0]), int(b2[3]), int(b2[4])) == (tag, e + 1, f + 1),
                         lambda: f"{what}: field {ib} element {e + 1} face {f + 1} '{tag}' -> {e2 + 1},{f2 + 1} which has '{b2[0]}' -> {int(b2[3])},{int(b2[4])}")
                    if tag == "E":
                        need(con.get((e, f)) == (e2, f2), lambda: f"{what}: field {ib} element {e + 1} face {f + 1} is connected to {e2 + 1},{f2 + 1} but the face in contact is {con.get((e, f))} (0-based)")
                    elif periodic_shift:
                        p, q = face_points(el, f), face_points(mesh.elem[e2], f2)
                        need(same_points(p - p.mean(0), q - q.mean(0), 1e-6 * max(smallest_edge(el), 1e-300)), lambda: f"{what}: periodic faces {e + 1},{f + 1} and {e2 + 1},{f2 + 1} do not have the same shape")
                    n += 1
                elif complete and (e, f) in con:
                    need(False, lambda: f"{what}: field {ib} element {e + 1} face {f + 1} touches {con[e, f]} (0-based) but has condition '{tag}'")
    return n


# ---------------------------------------------------------------- mesh records
def mesh_record(mesh):
    """Independent record of a mesh for the file oracles: dict as in refio."""
    nd = mesh.ndim
    xyz = np.array([refio.verts_of(el.pos, nd) for el in mesh.elem])
    curves = [(e + 1, k + 1, tuple(float(x) for x in el.curv[k]), el.ccurv[k]) for e, el in enumerate(mesh.elem) for k in range(12) if el.ccurv[k] != ""]
    full = []
    for ib in range(mesh.nbc):
        full.append({(e + 1, f + 1): (str(el.bcs[ib, f][0]), tuple(float(el.bcs[ib, f][q]) for q in range(3, 8))) for e, el in enumerate(mesh.elem) for f in range(2 * nd)})
    return dict(ndim=nd, nel=mesh.nel, xyz=xyz, curves=curves, bcs=full)


# -------------------------------------------------------------- curved edges
def pkey(p):
    return np.asarray(p, "f8").tobytes()


def edge_points(el, ed):
    p, q = EDGES[ed]
    return corner(el, p), corner(el, q)


def arc_mid(a, b, radius):
    """Middle of the arc from a to b (in the plane of x and y): the centre is on the left for a positive radius."""
    m = 0.5 * (a + b)
    d = (b - a)[:2]
    L = np.hypot(*d)
    nrm = np.array([d[1], -d[0]]) / L  # to the right of a -> b
    sag = abs(radius) - np.sqrt(radius**2 - L**2 / 4)
    out = m.copy()
    out[:2] += np.sign(radius) * sag * nrm
    return out


def edge_middle(el, ed):
    """Independent position of the middle of an edge, with its curvature."""
    a, b = edge_points(el, ed)
    c = el.ccurv[ed]
    if c == "":
        return 0.5 * (a + b)
    if c == "m":
        return np.array(el.curv[ed, :3], "f8")
    if c == "C":
        return arc_mid(a, b, float(el.curv[ed, 0]))
    if c == "s":
        x = np.array(el.curv[ed, :3], "f8")
        d = 0.5 * (a + b) - x
        return x + d * float(el.curv[ed, 4]) / np.linalg.norm(d)
    raise AssertionError(c)


def curve_2d(rng, mesh, prob, kinds="mC", which=None):
    """Curve edges of a 2D mesh consistently: both elements at an edge agree."""
    pick = {}
    for e, el in enumerate(mesh.elem):
        for ed in range(4):
            a, b = edge_points(el, ed)
            if which is not None and not which(e, ed):
                continue
            k, kr = (pkey(a), pkey(b)), (pkey(b), pkey(a))
            if k not in pick:
                if rng.random() < prob:
                    L = np.linalg.norm(b - a)
                    kind = str(rng.choice(list(kinds)))
                    if kind == "m":
                        d = b - a
                        mid = 0.5 * (a + b) + np.array([d[1], -d[0], 0.0]) * rng.uniform(-0.12, 0.12)
                        pick[k] = pick[kr] = ("m", mid)
                    else:
                        r = float(rng.choice([-1, 1]) * L * rng.uniform(1.5, 6))
                        pick[k], pick[kr] = ("C", r), ("C", -r)
                else:
                    pick[k] = pick[kr] = ("", None)
            kind, v = pick[k]
            if kind:
                el.ccurv[ed] = kind
                if kind == "m":
                    el.curv[ed, :3] = v
                else:
                    el.curv[ed, 0] = v
    mesh.ncurv = count_curv(mesh)


def audit_curved_edges(mesh, what, tol=1e-6):
    """All the elements at an edge agree on where its middle is."""
    def q(p):
        return tuple(int(round(float(x) / sc)) for x in p)

    sc = tol * min(smallest_edge(el) for el in mesh.elem)
    pts = {}

    def pid(p):
        k = q(p)
        for d in ((x, y, z) for x in (0, -1, 1) for y in (0, -1, 1) for z in (0, -1, 1)):
            t = (k[0] + d[0], k[1] + d[1], k[2] + d[2])
            if t in pts:
                return pts[t]
        pts[k] = len(pts)
        return pts[k]

    seen, n = {}, 0
    for e, el in enumerate(mesh.elem):
        for ed in range(4 if mesh.ndim == 2 else 12):
            a, b = edge_points(el, ed)
            k = tuple(sorted((pid(a), pid(b))))
            m = edge_middle(el, ed)
            L = np.linalg.norm(b - a)
            if k in seen:
                e2, ed2, m2 = seen[k]
                need(np.linalg.norm(m - m2) <= 1e-5 * L + 1e-9,
                     lambda: f"{what}: element {e} edge {ed} ({el.ccurv[ed]!r}) and element {e2} edge {ed2} ({mesh.elem[e2].ccurv[ed2]!r}) are the same edge, but its middle is at {m.tolist()} for one and at {m2.tolist()} for the other")
                n += 1
            else:
                seen[k] = (e, ed, m)
    return n


# ------------------------------------------------- meshes of more elements than two bytes can count
def big_box(nx, ny, nbc=1, periodic_y=True):
    """A box of nx times ny elements, W on the left, O on the right: (mesh, expected arrays)."""
    nel = nx * ny
    m = HexaData(2, nel, [2, 2, 1], [2, 0, 0, 0, 0], nbc)
    j, i = np.divmod(np.arange(nel), nx)
    pos = np.zeros((nel, 3, 1, 2, 2))
    pos[:, 0, 0, :, 0], pos[:, 0, 0, :, 1] = i[:, None], i[:, None] + 1
    pos[:, 1, 0, 0, :], pos[:, 1, 0, 1, :] = 2 * j[:, None], 2 * j[:, None] + 2
    bcs = np.zeros((nel, nbc, 6), dtype=m.elem[0].bcs.dtype)
    e = np.arange(nel)
    for f, (di, dj) in enumerate(((0, -1), (1, 0), (0, 1), (-1, 0))):
        ii, jj = i + di, j + dj
        inside = (ii >= 0) & (ii < nx) & (jj >= 0) & (jj < ny)
        wrap = (not di) & ~inside & bool(periodic_y)
        tag = np.where(inside, "E", np.where(wrap, "P", {0: "SYM", 1: "O", 2: "v", 3: "W"}[f]))
        con = inside | wrap
        bcs["f0"][:, :, f] = tag[:, None]
        bcs["f1"][:, :, f] = (e + 1)[:, None]
        bcs["f2"][:, :, f] = f + 1
        bcs["f3"][:, :, f] = np.where(con, (jj % ny) * nx + ii % nx + 1, 0)[:, None]
        bcs["f4"][:, :, f] = np.where(con, (f + 2) % 4 + 1, 0)[:, None]
    for el, p, b in zip(m.elem, pos, bcs):
        el.pos[:] = p
        el.bcs[:] = b
    return m, pos, bcs


def shift_mesh(m, pos, dx, dy=0.0):
    """Move a mesh of big_box."""
    for a in [pos] + [el.pos[None] for el in m.elem]:
        a[:, 0] += dx
        a[:, 1] += dy


def arrays(mesh):
    """Positions and conditions of all elements."""
    return np.stack([el.pos for el in mesh.elem]), np.stack([el.bcs for el in mesh.elem])


def same_bcs(what, got, exp, fields=range(8)):
    """Conditions equal, with the first difference in the report."""
    if got.shape != exp.shape:
        raise Violation(f"{what}: conditions of shape {got.shape}, expected {exp.shape}")
    for q in fields:
        bad = np.argwhere(got[f"f{q}"] != exp[f"f{q}"])
        if len(bad):
            i = tuple(int(k) for k in bad[0])
            raise Violation(f"{what}: condition of element {i[0]}, field {i[1]}, face {i[2]} (one of {len(bad)} that differ): {got[i]}, expected {exp[i]}")
