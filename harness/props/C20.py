"""map2D: vertices and middles of the edges go where the transformation sends them."""
import math

import gen
import numpy as np
from lib import close, meta_invariants, need, same, snap, snap_diff, unchanged
from pymech.meshtools import map2D

LEVEL = "exploration"
CASES = dict(quick=2500, thorough=60000)
RULE = "distinct (shape, fields, transformation, curvature options, curved edges) maps"
REQUIRED = dict(maps=1500, midpoints_compared=10000, arcs_mapped=500, spheres_mapped=300, midpoints_mapped=500, straight_edges_kept=2000, boundary_edges_curved=500, frame_conditions_checked=1000, large_meshes=1)


def transformation(rng):
    k = int(rng.integers(0, 5))
    a = rng.uniform(-0.3, 0.3, 8)
    th, sc = rng.uniform(0, 6.28), 10.0 ** rng.uniform(-1, 1)
    c, s = math.cos(th) * sc, math.sin(th) * sc

    def t(x, y):
        x, y = float(x), float(y)
        if k == 0:
            return x, y
        if k == 1:
            return c * x - s * y + a[0], s * x + c * y + a[1]
        if k == 2:
            return sc * x + a[0] * y, y * 1.5 + a[1] * x * 0.1
        if k == 3:
            return x + 0.05 * math.sin(y + a[2]), y + 0.05 * math.cos(1.3 * x + a[3])
        r = math.exp(0.1 * x)
        return r * math.cos(0.1 * y), r * math.sin(0.1 * y)

    ret = int(rng.integers(0, 3))
    return k, (t if ret == 0 else (lambda x, y: list(t(x, y))) if ret == 1 else (lambda x, y: np.array(t(x, y))))


def case(ctx, rng):
    m = gen.struct_mesh(rng, 2, maxn=4, nbc=gen.rand_nbc(rng, 1, 3), internal=bool(rng.random() < 0.7), blank=float(rng.choice([0, 0.2])), offset=rng.uniform(-2, 2, 2))
    mesh = m.mesh
    if rng.random() < 0.3:
        mesh = m.mesh = gen.struct_mesh(rng, 2, maxn=4, nbc=m.nbc, curved=0.4, curv_kinds="mCs").mesh
    else:
        gen.curve_2d(rng, mesh, float(rng.choice([0, 0.5])))
    k, t = transformation(rng)
    curv = bool(rng.random() < 0.4)
    bnd = bool(rng.random() < 0.5)
    kw = {}
    if not curv or rng.random() < 0.5:
        kw["curvature"] = curv
    if not bnd or rng.random() < 0.5:
        kw["boundary_curvature"] = bnd
    ctx.note(f"map2D nel={mesh.nel} nbc={mesh.nbc} ncurv={mesh.ncurv} transformation {k} curvature={curv} boundary={bnd}")
    before = snap(mesh)
    with unchanged(ctx, "map2D", mesh):
        res = map2D(mesh, t, **kw)
    need(res is not mesh, "map2D returned its argument")
    meta_invariants(res, "mapped mesh")
    after = snap(res)
    for d in (before, after):
        d.pop("ncurv")
        for el in d["elem"]:
            for q in ("pos", "curv", "ccurv"):
                el.pop(q)
    d = snap_diff(before, after)
    need(d is None, f"map2D changed something else than the shape of the mesh: {d}")
    for e, (a, b) in enumerate(zip(mesh.elem, res.elem)):
        for j in range(2):
            for i in range(2):
                same(f"corner {i, j} of element {e}", b.pos[:2, 0, j, i], np.array(t(a.pos[0, 0, j, i], a.pos[1, 0, j, i]), "f8"))
        same(f"z of element {e}", b.pos[2], a.pos[2])
        for ed in range(4):
            tag = str(a.bcs[0, ed][0])
            B = bnd and tag not in ("", "E")
            if curv or B or a.ccurv[ed] != "":
                mid = gen.edge_middle(a, ed)
                w = np.array(t(mid[0], mid[1]), "f8")
                need(b.ccurv[ed] == "m", lambda: f"edge {ed} of element {e} (was {a.ccurv[ed]!r}, condition {tag!r}) has curvature {b.ccurv[ed]!r}, expected a midpoint")
                p, q = gen.edge_points(a, ed)
                sc = np.linalg.norm(q - p) + np.abs(mid).max()
                p, q = gen.edge_points(b, ed)
                sc += np.linalg.norm(q - p) + np.abs(w).max()
                close(f"midpoint of edge {ed} of element {e} (was {a.ccurv[ed]!r})", b.curv[ed, :2], w, rtol=0, atol=1e-9 * sc)
                ctx.ev("midpoints_compared")
                ctx.ev("arcs_mapped", int(a.ccurv[ed] == "C"))
                ctx.ev("spheres_mapped", int(a.ccurv[ed] == "s"))
                ctx.ev("midpoints_mapped", int(a.ccurv[ed] == "m"))
                ctx.ev("boundary_edges_curved", int(B and not curv and a.ccurv[ed] == ""))
            else:
                need(b.ccurv[ed] == "", lambda: f"straight edge {ed} of element {e} (condition {tag!r}) became {b.ccurv[ed]!r}")
                ctx.ev("straight_edges_kept")
        need(all(c == "" for c in b.ccurv[4:]), "curvature on edges that a 2D element does not have")
    ctx.ev("maps")
    ctx.distinct(tuple(m.n), m.nbc, k, curv, bnd, mesh.ncurv)


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 181 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny)
    ctx.note(f"box {nx} x {ny}")
    r = map2D(m, lambda x, y: (2 * x + 1, y - x))
    p, b = gen.arrays(r)
    same("positions", p, np.stack((2 * pos[:, 0] + 1, pos[:, 1] - pos[:, 0], pos[:, 2]), axis=1))
    gen.same_bcs("mapped mesh", b, bcs)
    ctx.ev("large_meshes")


FIXED = [big]
