"""extrude_refine: conforming refined extrusion, connections, conditions, volume, curvature."""
import gen
import numpy as np
from lib import close, meta_invariants, need, snap, snap_diff, unchanged
from props.C16 import ends, rand_z
from pymech.meshtools import extrude, extrude_refine

LEVEL = "exploration"
CASES = dict(quick=500, thorough=6000)
RULE = "distinct (shape, mid columns, finest zone, layers, ends, curvature, internal) refined extrusions"
REQUIRED = dict(three_levels=20, refined=60, faces_classified=10000, edges_conforming=10000, split_edges_checked=200, rejections_observed=15, plain_extrusions=5, volumes=20, two_levels=8, lines_along_edges=15, inserted_edges_checked=500, inserted_curved=100)
CASE_TIMEOUT = 180


def split_mesh(rng, nsplit, curved, on_line=False, wide=None):
    ax = int(rng.integers(0, 2))
    n = [0, 0]
    n[ax] = int(rng.integers(max(2, nsplit), nsplit + 4))
    n[1 - ax] = int(rng.integers(1, 3 if nsplit == 1 else 2))
    if wide:
        n[ax], n[1 - ax] = nsplit + 1, wide
    per = [False, False]
    per[1 - ax] = bool(rng.random() < 0.5) and not curved  # periodic faces have to be alike
    nbc = gen.rand_nbc(rng, 1, 2) if rng.random() < 0.93 else 0
    m = gen.struct_mesh(rng, 2, n, nbc=nbc, periodic=per, internal=bool(rng.random() < 0.9), warp=0)
    cols = sorted(int(x) for x in rng.choice(n[ax], nsplit, replace=False))
    x = m.axes[ax] + m.off[ax]
    mid = [x[c] + (x[c + 1] - x[c]) * rng.uniform(0.05, 0.95) for c in cols]
    sign = 1
    if rng.random() < 0.5:
        sign, cols, mid = -1, cols[::-1], mid[::-1]
    # a map from the box to the plane, with its inverse, that keeps edges along `ax` straight
    kind = str(rng.choice(["box", "affine", "polar"]))
    if kind == "polar" and per[1 - ax]:
        kind = "affine"
    if on_line and kind == "box" and rng.random() < 0.6:
        # the line runs exactly along the side of its column that faces the internal part
        kind = "on-line"
        mid = []
        for c in cols:
            side, h = (x[c], x[c + 1] - x[c]) if sign > 0 else (x[c + 1], x[c + 1] - x[c])
            v = np.concatenate([el.pos[ax].ravel() for el in m.mesh.elem])
            v = v[np.abs(v - side) < 1e-6 * h]  # the same but for rounding
            mid.append((np.max if sign > 0 else np.min)(v))
    if kind in ("box", "on-line"):
        fwd, inv = (lambda x, y: (x, y)), (lambda x, y: (x, y))
    elif kind == "affine":
        th, sh = rng.uniform(0, 6.28), rng.uniform(-0.4, 0.4)
        A = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.array([[1, sh], [0, 1]])
        B = np.linalg.inv(A)
        fwd = lambda x, y: (A[0, 0] * x + A[0, 1] * y, A[1, 0] * x + A[1, 1] * y)  # noqa: E731
        inv = lambda x, y: (B[0, 0] * x + B[0, 1] * y, B[1, 0] * x + B[1, 1] * y)  # noqa: E731
    else:  # x is the angle, y the radius, or the other way round: right-handed
        o = m.off.copy()
        lx, ly = m.axes[0][-1], m.axes[1][-1]
        a0, da = rng.uniform(0, 6.28), rng.uniform(0.5, 2.0)
        r0 = rng.uniform(0.5, 2) * ly

        def fwd(x, y):
            t, r = a0 - da * (x - o[0]) / lx, r0 + (y - o[1])
            return r * np.cos(t), r * np.sin(t)

        def inv(x, y):
            t = np.arctan2(y, x)
            t = a0 - np.mod(a0 - t + 1.0, 2 * np.pi) + 1.0
            return o[0] + (a0 - t) * lx / da, np.hypot(x, y) - r0 + o[1]

    for el in m.mesh.elem:
        el.pos[0], el.pos[1] = fwd(el.pos[0].copy(), el.pos[1].copy())
    if curved:
        gen.curve_2d(rng, m.mesh, curved)
    # every line has its own way to use its parameter
    unit = [float(rng.choice([1.0, 1.0, -2.0, 0.5, 8.0])) for _ in mid]
    par = [float(v) * u for v, u in zip(mid, unit)]

    def mk(u):
        def fun(x, y, p):
            return sign * (inv(x, y)[ax] - p / u)

        return fun

    return m, ax, cols, sign, [mk(u) for u in unit], par, kind


def params(bc):
    return tuple(float(bc[q]) for q in range(3, 8))


def arc_through(a, b, m):
    """Middle of the arc from a to b through m (None if it is too long to be described by its radius)."""
    (x1, y1), (x2, y2), (x3, y3) = a[:2], b[:2], m[:2]
    d = 2 * (x1 * (y2 - y3) + x2 * (y3 - y1) + x3 * (y1 - y2))
    L = np.hypot(x2 - x1, y2 - y1)
    if abs(d) < 1e-9 * L**2:
        return 0.5 * (a + b)
    c = np.array([(x1**2 + y1**2) * (y2 - y3) + (x2**2 + y2**2) * (y3 - y1) + (x3**2 + y3**2) * (y1 - y2),
                  (x1**2 + y1**2) * (x3 - x2) + (x2**2 + y2**2) * (x1 - x3) + (x3**2 + y3**2) * (x2 - x1)]) / d
    mid = 0.5 * (a + b)
    r = np.linalg.norm(a[:2] - c)
    if np.dot(m[:2] - mid[:2], c - mid[:2]) >= 0 or r < 0.6 * L:
        return None
    u = mid[:2] - c
    out = mid.copy()
    out[:2] = c + u * r / np.linalg.norm(u)
    return out


def many(ctx, rng):
    """More elements along the line, and in the mesh, than fit one byte."""
    refine(ctx, rng, 1, 0.0, 33)
    ctx.ev("many_elements")


def case(ctx, rng):
    if rng.random() < 0.12:
        return plain(ctx, rng)
    nsplit = int(rng.choice([1, 2, 3], p=[0.7, 0.2, 0.1]))
    curved = float(rng.choice([0, 0, 0.5]))
    refine(ctx, rng, nsplit, curved, int(rng.integers(4, 14)) if rng.random() < 0.02 else None)


def refine(ctx, rng, nsplit, curved, wide):
    m, ax, cols, sign, fun, par, kind = split_mesh(rng, nsplit, curved, True, wide)
    mesh, nbc = m.mesh, m.nbc
    # (the finest part is inside: with the line along their side, columns that go from coarse to fine are refused)
    ih = int(rng.integers(0, nsplit + 1)) if rng.random() < 0.7 and kind != "on-line" else 0
    base = 2 ** max(ih + 1, nsplit - ih + 1)
    nz = base * int(rng.choice([1, 1, 2, 3, 4, 5, 6], p=[0.2, 0.2, 0.2, 0.2, 0.1, 0.06, 0.04]) if base < 8 else rng.choice([1, 1, 1, 2]))
    if wide:
        nz = base
    z = rand_z(rng, nz)
    b1, b2, t1, t2 = ends(rng, nbc)
    internal = bool(rng.random() < 0.75)
    ctx.note(gen.describe_mesh(m), f"map {kind} axis {ax} columns {cols} sign {sign} imesh_high {ih} z={list(z)} bc1={b1} bc2={b2} internal={internal} curved={curved}")
    kw = dict(fun=fun, funpar=par, imesh_high=ih)
    if ih == 0 and rng.random() < 0.5:
        del kw["imesh_high"]
    if not internal or rng.random() < 0.5:
        kw["internal_bcs"] = internal
    a = () if b1 is None and rng.random() < 0.5 else (b1, b2)
    if rng.random() < 0.25:
        reject(ctx, rng, m, z, kw, t1, t2, ax)
    with unchanged(ctx, "extrude_refine", mesh):
        res = extrude_refine(mesh, z, *a, **kw)
    ctx.ev("refined")
    ctx.ev("two_levels", int(nsplit == 2))
    ctx.ev("three_levels", int(nsplit == 3))
    ctx.ev("lines_along_edges", int(kind == "on-line"))
    zz = [float(x) for x in z]
    # number of elements: z-layers of every column
    cnt = 0
    order = sorted(range(nsplit), key=lambda k: cols[k] * sign)
    need(order == list(range(nsplit)), "harness: order of the splits")
    for e in range(m.nel):
        c = m.cell_of[e][2 - ax] * sign
        cc = [v * sign for v in cols]
        if c in cc:
            k = cc.index(c)
            cnt += 6 * ((nz // 2 ** (k - ih) if k >= ih else nz // 2 ** (ih - k - 1)) // 4)
        else:
            k = sum(v < c for v in cc)
            cnt += nz // 2 ** abs(k - ih)
    need((res.nel, res.ndim, res.nbc, [int(x) for x in res.lr1], [int(x) for x in res.var]) == (cnt, 3, nbc, [2, 2, 2], [3, 0, 0, 0, 0]),
         lambda: f"refined mesh: nel {res.nel} (expected {cnt}), ndim {res.ndim}, nbc {res.nbc}, lr1 {res.lr1}, var {res.var}")
    meta_invariants(res, "refined mesh")
    # the corners of elements are where the 2D mesh has corners, or in the middle of the edges that are split
    lateral = {}  # corners of a 2D edge that is split -> middle
    for e, el in enumerate(mesh.elem):
        for ed in range(4):
            A, B = gen.edge_points(el, ed)
            if m.cell_of[e][2 - ax] in cols and m.link[e][ed][3][0] != ax:
                lateral[gen.pkey(A), gen.pkey(B)] = gen.edge_middle(el, ed)
    straight = not any(mesh.elem[e].ccurv[ed] != "" for e in range(m.nel) for ed in range(4) if m.link[e][ed][3][0] != ax and m.cell_of[e][2 - ax] in cols)
    if straight:
        area = sum(gen.volume(el, 2) for el in mesh.elem)
        close("volume of the refined mesh", gen.total_volume(res), area * (zz[-1] - zz[0]), rtol=1e-8)
        ctx.ev("volumes")
        for e, el in enumerate(res.elem):
            need(gen.min_corner_jac(el, 3) > 0, lambda: f"element {e} of the refined mesh is inverted or flat at a corner")
    # conforming: every face touches exactly one other, or is part of the boundary of the domain
    con = gen.contacts(res)
    bnd = []
    for e, el in enumerate(mesh.elem):
        for f in range(4):
            if m.link[e][f][0] != "E":
                A, B = gen.edge_points(el, f)
                bnd.append((A, B, gen.edge_middle(el, f), [str(el.bcs[ib, f][0]) for ib in range(nbc)], [params(el.bcs[ib, f]) for ib in range(nbc)]))
    tol = 1e-6 * min(gen.smallest_edge(el) for el in res.elem)
    for e, el in enumerate(res.elem):
        for f in range(6):
            tags = [str(el.bcs[ib, f][0]) for ib in range(nbc)]
            if (e, f) in con:
                want = ["E"] * nbc if internal and m.internal else None
                if not internal:
                    want = [""] * nbc
                need(want is None or tags == want, lambda: f"refined mesh: faces {e},{f} and {con[e, f]} are in contact but have conditions {tags}")
                need(want is not None or all(t in ("E", "") for t in tags), lambda: f"refined mesh: internal face {e},{f} has conditions {tags}")
            else:
                P = gen.face_points(el, f)
                par = [(0.0,) * 5] * nbc
                if np.ptp(P[:, 2]) <= tol and abs(P[0, 2] - zz[0]) <= tol:
                    want = t1
                elif np.ptp(P[:, 2]) <= tol and abs(P[0, 2] - zz[-1]) <= tol:
                    want = t2
                else:
                    want = [w for A, B, M, *w in bnd if all(min(np.linalg.norm(p[:2] - q[:2]) for q in (A, B, M)) <= tol for p in P)]
                    need(len(want) == 1, lambda: f"refined mesh: face {f} of element {e} touches nothing and is not on the boundary (the mesh does not conform): {P.tolist()}")
                    want, par = want[0]
                need(tags == want, lambda: f"refined mesh: boundary face {f} of element {e} has conditions {tags}, expected {want}")
                for ib in range(nbc):
                    if tags[ib] not in ("P", ""):
                        got = params(el.bcs[ib, f])
                        need(got == par[ib], lambda: f"refined mesh: condition {tags[ib]!r} of boundary face {f} of element {e} has parameters {got}, expected {par[ib]}")
            ctx.ev("faces_classified")
    if nbc:
        gen.audit(res, "refined mesh", complete=internal and m.internal, periodic_shift=True)
        need(res.check_connectivity() is True, "connectivity of the refined mesh")
        for ib in range(nbc):  # periodic ends: straight above each other
            if t1[ib] == "P":
                for e, el in enumerate(res.elem):
                    for f in range(6):
                        P = gen.face_points(el, f)
                        if np.ptp(P[:, 2]) <= tol and (abs(P[0, 2] - zz[0]) <= tol or abs(P[0, 2] - zz[-1]) <= tol):
                            bc = el.bcs[ib, f]
                            Q = gen.face_points(res.elem[int(bc[3]) - 1], int(bc[4]) - 1)
                            need(gen.same_points(P[:, :2], Q[:, :2], tol) and np.ptp(Q[:, 2]) <= tol and abs(abs(Q[0, 2] - P[0, 2]) - (zz[-1] - zz[0])) <= tol,
                                 lambda: f"refined mesh: periodic end face {f} of element {e} is matched with a face that is not straight above or below it")
    # curvature
    ctx.ev("edges_conforming", gen.audit_curved_edges(res, "refined mesh"))
    whole, halves = {}, {}
    for e, el in enumerate(mesh.elem):
        for ed in range(4):
            A, B = gen.edge_points(el, ed)
            M = gen.edge_middle(el, ed)
            c = el.ccurv[ed]
            whole[gen.pkey(A[:2]), gen.pkey(B[:2])] = M
            whole[gen.pkey(B[:2]), gen.pkey(A[:2])] = M
            if (gen.pkey(A), gen.pkey(B)) in lateral:
                # quarter points of the curve
                if c == "C":
                    r = float(el.curv[ed, 0])
                    q = [gen.arc_mid(A, M, r), gen.arc_mid(M, B, r)]
                else:
                    q = [0.375 * A + 0.75 * M - 0.125 * B, -0.125 * A + 0.75 * M + 0.375 * B]
                for p, h in ((A, q[0]), (B, q[1])):
                    halves.setdefault(gen.pkey(p[:2]), []).append((M, h))
    inserted = {}
    for e, el in enumerate(mesh.elem):
        if m.cell_of[e][2 - ax] in cols:
            across = [ed for ed in range(4) if m.link[e][ed][3][0] == ax]
            along = [ed for ed in range(4) if ed not in across]
            A, B = (gen.edge_middle(el, ed) for ed in along)
            M = 0.5 * (A + B)
            for ed in across:
                M = M + 0.5 * (gen.edge_middle(el, ed) - 0.5 * np.sum(gen.edge_points(el, ed), axis=0))
            kinds = {el.ccurv[ed] for ed in across}
            kind = "m" if "m" in kinds else "C" if "C" in kinds else ""
            if kind == "C":
                M = arc_through(A, B, M)
            for a, b in ((A, B), (B, A)):
                inserted[gen.pkey(a[:2]), gen.pkey(b[:2])] = (kind, M)
    for e, el in enumerate(res.elem):
        for ed in range(12):
            a, b = gen.edge_points(el, ed)
            if np.linalg.norm(a[:2] - b[:2]) <= tol:
                need(el.ccurv[ed] == "", lambda: f"refined mesh: the straight vertical edge {ed} of element {e} is curved")
                continue
            mid = gen.edge_middle(el, ed)
            L = np.linalg.norm(a - b)
            need(abs(mid[2] - 0.5 * (a[2] + b[2])) <= 1e-9 * (1 + abs(a[2]) + abs(b[2])), lambda: f"refined mesh: the middle of edge {ed} of element {e} is at z = {mid[2]}, its ends at {a[2]} and {b[2]}")
            k = (gen.pkey(a[:2]), gen.pkey(b[:2]))
            want = None
            if k in whole:
                want = whole[k]
            else:
                for p, o in ((a, b), (b, a)):
                    for M, h in halves.get(gen.pkey(p[:2]), ()):
                        if np.linalg.norm(o[:2] - M[:2]) <= tol:
                            want = h
            if k in inserted and k not in whole:
                kind_in, M = inserted[k]
                if M is not None:
                    need(kind_in == el.ccurv[ed] or kind_in == "C", lambda: f"refined mesh: edge {ed} of element {e} across a split element has curvature {el.ccurv[ed]!r}, expected {kind_in!r}")
                    need(np.linalg.norm(mid[:2] - M[:2]) <= (1e-4 if kind_in == "C" else 1e-6) * L,
                         lambda: f"refined mesh: edge {ed} of element {e} ({el.ccurv[ed]!r}) across a split element has its middle at {mid[:2].tolist()}, expected {M[:2].tolist()}")
                    ctx.ev("inserted_edges_checked")
                    ctx.ev("inserted_curved", int(kind_in != ""))
            if want is not None:
                need(np.linalg.norm(mid[:2] - want[:2]) <= 1e-6 * L, lambda: f"refined mesh: edge {ed} of element {e} ({el.ccurv[ed]!r}) has its middle at {mid[:2].tolist()}, the curve it is on has {want[:2].tolist()}")
                ctx.ev("split_edges_checked", int(k not in whole))
    ctx.distinct(tuple(m.n), ax, tuple(cols), sign, ih, nz, tuple(t1), tuple(t2), curved, internal, kind)


FIXED = [many]


def reject(ctx, rng, m, z, kw, t1, t2, ax):
    k = int(rng.integers(0, 5))
    mesh = m.mesh
    kw = dict(kw)
    a = (t1, t2)
    if k == 0:
        z = list(z)[:-1]
    elif k == 1:
        kw["funpar"] = kw["funpar"] + [0.0]
    elif k == 2:
        if not m.nbc:
            return
        a = (["P"] + list(t1[1:]), ["W"] + list(t2[1:]))
    elif k == 3:
        mesh = extrude(mesh, [0.0, 1.0])
    else:  # the line cuts a corner off an element
        p = gen.face_points(mesh.elem[0], 0)[0]
        d = gen.smallest_edge(mesh.elem[0]) * 0.3
        kw["fun"] = [lambda x, y, q: d - np.hypot(x - p[0], y - p[1])] * len(kw["fun"])
    with unchanged(ctx, "refused refined extrusion", mesh):
        ctx.raises(ValueError, f"unsuitable refined extrusion ({k})", extrude_refine, mesh, z, *a, **kw)


def plain(ctx, rng):
    m = gen.struct_mesh(rng, 2, maxn=3, nbc=gen.rand_nbc(rng, 0, 2), curved=0.2)
    z = rand_z(rng, int(rng.integers(1, 5)))
    b1, b2, _, _ = ends(rng, m.nbc)
    internal = bool(rng.random() < 0.7)
    ctx.note(gen.describe_mesh(m), f"no splitting function, z={list(z)} internal={internal}")
    with unchanged(ctx, "extrude_refine", m.mesh):
        x = extrude_refine(m.mesh, z, b1, b2, internal_bcs=internal)
    y = extrude(m.mesh, z, b1, b2, internal_bcs=internal)
    d = snap_diff(snap(y), snap(x))
    need(d is None, f"extrude_refine without a splitting function differs from extrude: {d}")
    ctx.ev("plain_extrusions")
