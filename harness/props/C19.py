"""gen_circle: a connected disc of the requested radius, around a square, with a circular boundary."""
import math

import gen
import numpy as np
from lib import close, meta_invariants, need
from pymech.meshtools import gen_circle

LEVEL = "exploration"
CASES = dict(quick=1500, thorough=20000)
RULE = "distinct (ns, no, decade of r, s, functions, fields, internal) discs"
REQUIRED = dict(fine=40, discs=250, boundary_faces=2000, internal_faces=10000, vertices_checked=10000, without_internal=40, default_functions=60, layers_placed=300, default_layers=40, straight_rings=40, round_rings=40, other_units=100, near_uniform=40)

CF = dict(default=None, sin=lambda x: math.sin(0.5 * math.pi * x), sq=lambda x: x * x, lin=lambda x: x, smooth=lambda x: x * x * (3 - 2 * x), sin2=lambda x: math.sin(0.5 * math.pi * x) ** 2,
          straight=lambda x: float(x > 1 - 1e-6), round=lambda x: float(x > 1e-9))
BF = dict(default=None, lin=lambda x: x, sqrt=lambda x: x**0.5, pow=lambda x: x**1.5, mix=lambda x: 0.5 * x + 0.5 * x**2)


def case(ctx, rng):
    r, s = float(10.0 ** rng.uniform(-1.3, 1.3)), float(rng.uniform(0.1, 0.85))
    if rng.random() < 0.4:
        r = float(10.0 ** rng.uniform(-12, 12))
        ctx.ev("other_units")
    ns, no = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    if ns * no > 12:
        no = 2
    if rng.random() < 0.06:
        ns, no = (int(rng.integers(1, 3)), int(rng.integers(5, 20))) if rng.random() < 0.6 else (int(rng.integers(6, 14)), 1)
        ctx.ev("fine")
    cf, bf = str(rng.choice(list(CF))), str(rng.choice(list(BF)))
    if rng.random() < 0.4:
        cf = bf = "default"
    if bf == "default" and cf in ("straight", "round"):
        bf = "mix"
    if bf == "default" and 2 * s / ns >= 0.95 * (1 - s):
        # the elements of the square are longer than the O mesh is wide: no spacing to start from
        bf = "lin"
    if rng.random() < 0.15:  # the elements of the square and of the O mesh nearly fit: growth close to 1
        cf = bf = "default"
        no = max(no, 2)
        ns = int(rng.choice([2, 4]))
        eta = math.sin(0.5 * math.pi / no) ** 2
        s = ((1 - eta) * math.sqrt(0.5) + eta) / (math.sqrt(2) * (no / ns + 0.5))
        s *= 1 + float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-5, -2))
        ctx.ev("near_uniform")
    nbc = gen.rand_nbc(rng, 1, 3) if rng.random() < 0.9 else 0
    bc = [str(t) for t in rng.choice(gen.TAGS, nbc)]
    var = [2, 2, 1, int(rng.random() < 0.5), int(rng.integers(0, 3))]
    internal = bool(rng.random() < 0.75)
    kw = dict()
    if CF[cf]:
        kw["curvature_fun"] = CF[cf]
    if BF[bf]:
        kw["bl_fun"] = BF[bf]
    if bc == ["W"] and rng.random() < 0.5:
        pass
    else:
        kw["bc"] = list(bc)
    if rng.random() < 0.6:
        kw["var"] = list(var)
    else:
        var = [2, 2, 1, 0, 0]
    if not internal or rng.random() < 0.3:
        kw["internal_bcs"] = internal
    ctx.note(f"gen_circle r={r} s={s} ns={ns} no={no} curvature={cf} spacing={bf} bc={bc} var={var} internal={internal}")
    mesh = gen_circle(r, s, ns, no, **kw)
    need(kw.get("bc", bc) == bc and [int(x) for x in kw.get("var", var)] == var, "gen_circle changed its arguments")
    nel = ns * ns + 4 * ns * no
    need((mesh.ndim, mesh.nel, mesh.nbc, [int(x) for x in mesh.lr1], [int(x) for x in mesh.var]) == (2, nel, nbc, [2, 2, 1], var),
         lambda: f"disc: ndim {mesh.ndim} nel {mesh.nel} (expected {nel}) nbc {mesh.nbc} lr1 {mesh.lr1} var {mesh.var}")
    meta_invariants(mesh, "disc")
    con = gen.contacts(mesh)
    outer = 0
    tol = 1e-8 * r
    ang = []
    for e, el in enumerate(mesh.elem):
        need(gen.min_corner_jac(el, 2) > 0, lambda: f"disc: element {e} is inverted or flat at a corner: {el.pos[:2].tolist()}")
        need(not el.pos[2].any(), "disc out of the plane")
        for n, v in (("vel", 3), ("pres", var[2]), ("temp", var[3]), ("scal", var[4])):
            need(getattr(el, n).shape == (v, 1, 2, 2), lambda: f"disc element {e}: {n} has shape {getattr(el, n).shape}")
        need(np.hypot(el.pos[0], el.pos[1]).max() <= r + tol, lambda: f"disc: element {e} sticks out of the disc: {np.hypot(el.pos[0], el.pos[1]).max()!r} > {r!r}")
        for f in range(4):
            tags = [str(x[0]) for x in mesh.elem[e].bcs[:, f]]
            if (e, f) in con:
                need(tags == ["E" if internal else ""] * nbc, lambda: f"disc: internal face {e},{f} has conditions {tags}")
                need(el.ccurv[f] == "", lambda: f"disc: internal edge {e},{f} has curvature {el.ccurv[f]!r}")
                ctx.ev("internal_faces")
            else:
                need(tags == bc, lambda: f"disc: boundary face {e},{f} has conditions {tags}, expected {bc}")
                P = gen.face_points(el, f)
                d = np.hypot(P[:, 0], P[:, 1])
                need(np.all(np.abs(d - r) <= tol), lambda: f"disc: boundary face {e},{f} has its ends at {d.tolist()} from the centre, the radius is {r}")
                need(el.ccurv[f] == "C", lambda: f"disc: boundary edge {e},{f} has curvature {el.ccurv[f]!r}")
                close("radius of the boundary", el.curv[f, 0], r, rtol=1e-12)
                m = gen.edge_middle(el, f)
                need(abs(np.hypot(m[0], m[1]) - r) <= 1e-7 * r, lambda: f"disc: the arc of boundary face {e},{f} is not on the circle: its middle is at {np.hypot(m[0], m[1])!r}")
                ang += [math.atan2(p[1], p[0]) for p in P]
                outer += 1
                ctx.ev("boundary_faces")
    need(outer == 4 * ns, f"disc: {outer} boundary faces, expected {4 * ns}")
    # the boundary is cut at regular angles
    a = np.sort(np.mod(np.array(ang) + 0.25 * math.pi + 1e-7, 2 * math.pi))
    close("angles of the boundary vertices", a, np.repeat(np.arange(4 * ns), 2) * (0.5 * math.pi / ns) + 1e-7, rtol=0, atol=1e-8)
    close("area of the disc", gen.total_volume(mesh), 0.5 * 4 * ns * r * r * math.sin(0.5 * math.pi / ns), rtol=1e-8)
    if nbc:
        gen.audit(mesh, "disc", complete=internal)
        need(mesh.check_connectivity() is True, "connectivity of the disc")
        if internal:
            need(mesh.check_bcs_present() is True, "conditions of the disc")
    # symmetry: the set of vertices is unchanged by a quarter turn, and holds the square
    V = np.unique(np.round(np.concatenate([el.pos[:2].reshape(2, -1).T for el in mesh.elem]) / r, 7) + 0.0, axis=0)
    W = np.unique(np.round(np.stack([-V[:, 1], V[:, 0]], 1), 7) + 0.0, axis=0)
    for w in W:
        need(np.min(np.abs(V - w).max(axis=1)) <= 3e-7, lambda: f"disc: vertex {(w * r).tolist()} has no image by a quarter turn")
    ctx.ev("vertices_checked", len(V))
    h = s * math.sqrt(0.5)
    for i in range(ns + 1):
        for j in range(ns + 1):
            w = np.array([h * (2 * i / ns - 1), h * (2 * j / ns - 1)])
            need(np.min(np.abs(V - w).max(axis=1)) <= 3e-7, lambda: f"disc: the square has no vertex at {(w * r).tolist()}")
    layers(ctx, mesh, r, s, ns, no, cf, bf)
    ctx.ev("discs")
    ctx.ev("default_functions", int(cf == bf == "default"))
    ctx.ev("without_internal", int(not internal and nbc > 0))
    ctx.distinct(ns, no, round(math.log10(r)), round(s, 1), cf, bf, tuple(bc), internal)


def layers(ctx, mesh, r, s, ns, no, cf, bf):
    """Where the layers around the square are."""
    P = np.concatenate([el.pos[:2].reshape(2, -1).T for el in mesh.elem]) / r
    R = np.hypot(P[:, 0], P[:, 1])
    diag = np.sort(R[(np.abs(P[:, 0] - P[:, 1]) < 1e-9) & (P[:, 0] > 0) & (R > s + 1e-9)])
    # every vertex there belongs to two elements of two quarters, twice inside and once at the end
    diag = diag[np.concatenate(([True], np.diff(diag) > 1e-9))]
    need(len(diag) == no, lambda: f"disc: {len(diag)} layers along the diagonal, expected {no}")
    step = np.diff(np.concatenate(([s], diag))) / (1 - s)
    half = math.sqrt(0.5) * (s + (1 - s) * np.concatenate(([0.0], np.cumsum(step))))  # half side of the straight rings
    if bf != "default":
        close("position of the layers along the diagonal", (diag - s) / (1 - s), [BF[bf](i / no) for i in range(1, no + 1)], rtol=0, atol=1e-7)
        ctx.ev("layers_placed", no)
    elif no > 1:
        q = step[1:] / step[:-1]
        close("growth of the default layers", q, np.full(no - 1, q[0]), rtol=1e-5)
        if cf == "default" and ns % 2 == 0:
            x = np.sort(P[(np.abs(P[:, 1]) < 1e-9) & (P[:, 0] > 0), 0])
            x = x[np.concatenate(([True], np.diff(x) > 1e-9))][ns // 2 - 1 :]
            need(len(x) == no + 1, lambda: f"disc: {len(x)} vertices outside the square along the axis")
            close("size of the first default layer, in elements of the square", (x[1] - x[0]) / (s * math.sqrt(2) / ns), 1.0, rtol=1e-6)
            ctx.ev("default_layers")
    if cf == "straight":
        for i in range(1, no):
            on = np.abs(np.abs(P).max(axis=1) - half[i]) < 1e-8
            need(len(np.unique(np.round(P[on], 7) + 0.0, axis=0)) == 4 * ns, lambda: f"disc: ring {i} without curvature does not have {4 * ns} vertices on a square")
            ctx.ev("straight_rings")
    if cf == "round":
        V = np.unique(np.round(P, 8) + 0.0, axis=0)
        for i, eta in enumerate(np.cumsum(step)[: no - 1]):
            for j in range(ns + 1):
                a = 0.5 * math.pi * (j / ns - 0.5)
                l = s * math.sqrt(0.5) / math.cos(a)
                w = (l + eta * (1 - l)) * np.array([math.cos(a), math.sin(a)])
                need(np.min(np.abs(V - w).max(axis=1)) <= 1e-7, lambda: f"disc: round ring {i + 1} has no vertex at {(w * r).tolist()}")
            ctx.ev("round_rings")
