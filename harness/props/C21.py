"""rotate_2d, edge_mid, edge_circle."""
import math

import gen
import numpy as np
from lib import close, meta_invariants, need, same, snap, snap_diff, unchanged
from pymech.meshtools import edge_circle, edge_mid, extrude, rotate_2d

LEVEL = "exploration"
CASES = dict(quick=3000, thorough=80000)
RULE = "distinct (ndim, shape or lr1, centre, angle, curvature) rotations, and (edge, kind) edges"
REQUIRED = dict(rotations=1500, vertices_rotated=10000, midpoints_rotated=500, edge_middles=5000, circles=1000, straight=1000, returned=1000, off_centre=500, large_meshes=1)


def rand_mesh(rng):
    k = rng.random()
    if k < 0.4:
        m = gen.struct_mesh(rng, 2, maxn=3, nbc=1, curved=0.4).mesh
    elif k < 0.7:
        m = gen.struct_mesh(rng, 3, maxn=2, nbc=1, curved=0.3, curv_kinds="m").mesh
    elif k < 0.85:
        m = extrude(gen.struct_mesh(rng, 2, maxn=2, nbc=1, curved=0.5).mesh, [0.0, 0.7, 1.5])
    else:
        f = gen.rand_field(rng, special=False, nel=2, var=[3, 3, 1, 0, 0], ndim=3)
        f["pos"] = rng.standard_normal(f["pos"].shape)
        m = gen.to_hexa(f)
    return m


def case(ctx, rng):
    mesh = rand_mesh(rng)
    x0, y0 = (0.0, 0.0) if rng.random() < 0.3 else (float(x) for x in rng.uniform(-3, 3, 2))
    th = float(rng.choice([0.0, 0.5 * math.pi, math.pi, -0.5 * math.pi, rng.uniform(-7, 7), rng.uniform(-7, 7)]))
    ctx.note(f"ndim={mesh.ndim} nel={mesh.nel} lr1={list(mesh.lr1)} ncurv={mesh.ncurv} rotate about {x0}, {y0} by {th}")
    import copy

    old = copy.deepcopy(mesh)
    rotate_2d(mesh, x0, y0, th)
    meta_invariants(mesh, "rotated mesh")
    c, s = math.cos(th), math.sin(th)
    sc = max(float(np.abs(el.pos[:2]).max()) for el in old.elem) + abs(x0) + abs(y0)

    def rot(p):
        x, y = p[0] - x0, p[1] - y0
        return np.array([x0 + c * x - s * y, y0 + s * x + c * y])

    for e, (a, b) in enumerate(zip(old.elem, mesh.elem)):
        close(f"rotated positions of element {e}", b.pos[:2], rot(a.pos), rtol=0, atol=1e-12 * sc)
        same(f"z of element {e}", b.pos[2], a.pos[2])
        ctx.ev("vertices_rotated", a.pos[0].size)
        for ed in range(12):
            if a.ccurv[ed] == "m":
                close(f"rotated midpoint of element {e} edge {ed}", b.curv[ed, :2], rot(a.curv[ed]), rtol=0, atol=1e-11 * sc)
                same(f"rest of the curvature of element {e} edge {ed}", b.curv[ed, 2:], a.curv[ed, 2:])
                ctx.ev("midpoints_rotated")
            else:
                same(f"curvature of element {e} edge {ed}", b.curv[ed], a.curv[ed])
    x, y = snap(old), snap(mesh)
    for d in (x, y):
        for el in d["elem"]:
            el.pop("pos"), el.pop("curv")
    d = snap_diff(x, y)
    need(d is None, f"rotate_2d changed something else than positions: {d}")
    ctx.ev("rotations")
    if [int(v) for v in mesh.lr1] == [2, 2, mesh.ndim - 1]:
        edges(ctx, rng, mesh)
    rotate_2d(mesh, x0, y0, -th)
    for e, (a, b) in enumerate(zip(old.elem, mesh.elem)):
        close(f"element {e} rotated forth and back", b.pos, a.pos, rtol=0, atol=1e-11 * sc)
    ctx.ev("returned")
    ctx.distinct(mesh.ndim, mesh.nel, tuple(mesh.lr1), round(x0, 2), round(th, 2), mesh.ncurv)


def edges(ctx, rng, mesh):
    nd = mesh.ndim
    for e in rng.choice(mesh.nel, min(2, mesh.nel), replace=False):
        el = mesh.elem[int(e)]
        for ed in range(4 if nd == 2 else 12):
            a, b = gen.edge_points(el, ed)
            L = np.linalg.norm(b - a)
            flat = abs(b[2] - a[2]) < 1e-12 * L
            if rng.random() < 0.3:
                kind = str(rng.choice(list("mCs" if flat else "ms")))
                el.curv[ed] = 0
                if kind == "s":  # a sphere through both ends
                    h = rng.standard_normal(3)
                    h -= h.dot(b - a) * (b - a) / L**2
                    h *= L * (rng.uniform(0.3, 3) if rng.random() < 0.7 else 10 ** rng.uniform(0, 3)) / np.linalg.norm(h)
                    el.curv[ed, :3] = 0.5 * (a + b) + h
                    el.curv[ed, 4] = np.linalg.norm(el.curv[ed, :3] - a)
                    el.ccurv[ed] = "s"
                else:
                    gen.set_curv(rng, el, ed, kind)
                    if kind == "m" and rng.random() < 0.6:  # somewhere along the edge
                        el.curv[ed, :3] += rng.uniform(-0.4, 0.4) * (b - a)
                        ctx.ev("off_centre")
                mesh.ncurv = gen.count_curv(mesh)
            kind = el.ccurv[ed]
            if kind == "C" and not flat:
                continue
            with unchanged(ctx, "edge_mid", mesh):
                mid = np.array(edge_mid(el, ed), "f8")
            sc = L + np.abs(mid).max()
            close(f"middle of edge {ed} ({kind!r})", mid, gen.edge_middle(el, ed), rtol=0, atol=1e-10 * sc)
            if kind in ("C", "s"):
                need(abs(np.linalg.norm(mid - a) - np.linalg.norm(mid - b)) <= 1e-9 * sc, lambda: f"the middle of edge {ed} ({kind}) is not at the same distance from both ends")
            ctx.ev("edge_middles")
            with unchanged(ctx, "edge_circle", mesh):
                r = np.array(edge_circle(el, ed, mid), "f8")
            need(r.shape == (4,), f"edge_circle returned {r!r}")
            # what edge_circle takes for straight: the area of the triangle against the product of its short sides
            bulge = 0.5 * np.linalg.norm(np.cross(b - a, mid - a)) / (np.linalg.norm(mid - a) * np.linalg.norm(b - mid))
            if kind == "":
                need(not r.any(), lambda: f"edge_circle of a straight edge returned {r.tolist()}")
                ctx.ev("straight")
            elif bulge > 2.4e-4:
                R, x = abs(r[0]), r[1:4]
                for q in (a, b, mid):
                    need(abs(np.linalg.norm(x - q) - R) <= 1e-6 * R, lambda: f"edge_circle of edge {ed} ({kind}): centre {x.tolist()} radius {R}, but the distance to {q.tolist()} is {np.linalg.norm(x - q)}")
                # in the plane of the three points
                n = np.cross(b - a, mid - a)
                need(abs((x - a).dot(n)) <= 1e-6 * R * np.linalg.norm(n), lambda: f"edge_circle of edge {ed}: the centre is out of the plane of the arc")
                if flat and ed < 8 and np.linalg.norm(b[:2] - a[:2]) > 0.5 * L and abs(mid[2] - a[2]) < 1e-9 * L:
                    # bulging to the right of the edge is a positive radius
                    side = (b[0] - a[0]) * (mid[1] - a[1]) - (b[1] - a[1]) * (mid[0] - a[0])
                    need((r[0] > 0) == (side < 0), lambda: f"edge_circle of edge {ed} ({kind}): radius {r[0]} has the wrong sign")
                    if kind == "C":
                        close(f"radius of edge {ed}", r[0], el.curv[ed, 0], rtol=1e-6)
                ctx.ev("circles")


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 181 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny)
    ctx.note(f"box {nx} x {ny}")
    rotate_2d(m, 1.0, 2.0, 0.5 * math.pi)
    p, b = gen.arrays(m)
    close("positions", p, np.stack((3.0 - pos[:, 1], 1.0 + pos[:, 0], pos[:, 2]), axis=1), rtol=1e-12, atol=1e-9)
    gen.same_bcs("rotated mesh", b, bcs)
    ctx.ev("large_meshes")


FIXED = [big]
