"""What a mesh says about itself: limits, centroids, face centres, smallest edge, point list."""
import gen
import numpy as np
from lib import close, need, same, unchanged

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=100000)
RULE = "distinct (ndim, nel, lr1, var, storage dtype) meshes interrogated"
REQUIRED = dict(asked_again_after_change=2000, limits_compared=5000, faces_compared=10000, points_compared=10000, edges_compared=3000, single_element=200, reprs=1000, large_meshes=1)


def rand_mesh(rng):
    if rng.random() < 0.4:
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=2, nbc=1, curved=0.2)
        return m.mesh
    f = gen.rand_field(rng, special=False, nel=int(rng.choice([1, 1, 2, 3, 4, 6])))
    if f["var"][0] == 0:
        f["var"][0] = f["ndim"]
        f["pos"] = gen.values(rng, (f["nel"], f["ndim"]) + tuple(f["lr1"][::-1]), 8, False)
    return gen.to_hexa(f, "float32" if rng.random() < 0.2 else "float64")


def case(ctx, rng):
    mesh = rand_mesh(rng)
    ask(ctx, mesh)
    # the answers follow the mesh: change it in place, or its elements, and ask again
    k = int(rng.integers(0, 4))
    if k == 0:
        e = int(rng.integers(0, mesh.nel))
        mesh.elem[e].pos += 1.5 * (1 + np.abs(mesh.elem[e].pos).max())
        mesh.elem[e].pres -= 7.0
    elif k == 1:
        for el in mesh.elem:
            el.pos *= 1.25
            el.vel *= -2.0
    elif k == 2 and mesh.nel > 1:
        mesh.elem.pop(int(rng.integers(0, mesh.nel)))
        mesh.nel -= 1
        mesh.elmap = np.arange(1, mesh.nel + 1, dtype=np.int32)
    else:
        e = int(rng.integers(0, mesh.nel))
        el = mesh.elem[e]
        el.pos = el.pos[:, ::-1, ::-1, :] + 100.0
        if rng.random() < 0.5:
            el.pos = np.asfortranarray(el.pos)
        el.temp = el.temp + 3.0
    ask(ctx, mesh)
    ctx.ev("asked_again_after_change")
    ctx.distinct(mesh.ndim, mesh.nel, tuple(mesh.lr1), tuple(mesh.var), str(mesh.elem[0].pos.dtype), k)


def ask(ctx, mesh):
    nd, lr1 = mesh.ndim, [int(x) for x in mesh.lr1]
    ctx.note(f"ndim={nd} nel={mesh.nel} lr1={lr1} var={list(mesh.var)}")
    with unchanged(ctx, "a query", mesh):
        lims = mesh.lims
        for name, n in zip(("pos", "vel", "pres", "temp", "scal"), (3, 3, *mesh.var[2:])):
            a = np.array([getattr(el, name) for el in mesh.elem]).astype("f8")
            exp = tuple((float(a[:, c].min()), float(a[:, c].max())) for c in range(n))
            got = getattr(lims, name)
            need(tuple(tuple(x) for x in got) == exp, lambda: f"limits of {name}: {got}, expected {exp}")
            need(all(isinstance(v, (float, np.floating)) for x in got for v in x), lambda: f"limits of {name} are not plain numbers")
            ctx.ev("limits_compared", n)
        ctx.raises(AttributeError, "setting a limit", setattr, lims, "pos", ())
        r = repr(mesh)
        need(f"nel:       {mesh.nel}" in r and f"Dimensions:    {nd}" in r and f"Precision:     {mesh.wdsz} bytes" in r, lambda: f"repr: {r}")
        ctx.ev("reprs")
        pts = mesh.get_points()
        npt = lr1[0] * lr1[1] * lr1[2]
        need(pts.shape == (mesh.nel, npt, 3), lambda: f"get_points has shape {pts.shape}")
        ctx.ev("single_element", int(mesh.nel == 1))
        for e, el in enumerate(mesh.elem):
            same(f"points of element {e}", pts[e].astype("f8"), np.array([[el.pos[c, k, j, i] for c in range(3)] for k in range(lr1[2]) for j in range(lr1[1]) for i in range(lr1[0])], "f8"))
            ctx.ev("points_compared", npt)
            eps = 3e-6 if el.pos.dtype == np.float32 else 1e-12
            sc = float(np.abs(el.pos.astype("f8")).max()) + 1e-300
            close(f"centroid of element {e}", el.centroid, pts[e].mean(axis=0), rtol=eps, atol=eps * sc)
            for f in range(2 * nd):
                close(f"centre of face {f} of element {e}", el.face_center(f), gen.face_center(el, f), rtol=eps, atol=eps * sc)
                ctx.ev("faces_compared")
            close(f"smallest edge of element {e}", el.smallest_edge(), gen.smallest_edge(el), rtol=10 * eps, atol=10 * eps * sc)
            ctx.ev("edges_compared")


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 181 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny)
    at = [int(x) for x in rng.choice(nx * ny, 2, replace=False)]
    m.elem[at[0]].pos[1, 0, 1, 0] = pos[at[0], 1, 0, 1, 0] = -7.0
    m.elem[at[1]].pos[0, 0, 0, 1] = pos[at[1], 0, 0, 0, 1] = 9e3
    ctx.note(f"box {nx} x {ny}, extremes at {at}")
    need(m.lims.pos == ((0.0, 9e3), (-7.0, 2.0 * ny), (0.0, 0.0)), lambda: f"limits {m.lims.pos}")
    same("points", m.get_points(), pos.reshape(nx * ny, 3, 4).transpose(0, 2, 1))
    ctx.ev("large_meshes")


FIXED = [big]
