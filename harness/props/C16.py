"""extrude: every 2D element becomes one element per layer, with conditions, curvature and connections."""
import gen
import numpy as np
from lib import close, meta_invariants, need, same, unchanged
from pymech.meshtools import extrude

LEVEL = "exploration"
CASES = dict(quick=2500, thorough=60000)
RULE = "distinct (shape, layers, fields, end conditions, internal, periodic) extrusions"
REQUIRED = dict(many_layers=50, large_meshes=1, extrusions=1200, elements_compared=10000, rejections_observed=150, curved_edges=2000, periodic_ends=300, audited=500, frame_conditions_checked=1000, without_internal=200)


def rand_z(rng, n):
    z = gen.spacing(rng, n) + (rng.uniform(-3, 3) if rng.random() < 0.6 else 0.0)
    if rng.random() < 0.1:  # layers of different sizes far from the origin
        z = z * 10.0 ** rng.uniform(-6, 6) + float(rng.choice([0, 1e5]))
        if np.any(np.diff(z) < 1e-7 * np.abs(z).max()):
            z = gen.spacing(rng, n)
    return [np.array(z), [float(x) for x in z], tuple(float(x) for x in z)][int(rng.integers(0, 3))]


def ends(rng, nbc):
    """End conditions: (argument 1, argument 2, value 1, value 2)."""
    if rng.random() < 0.25:
        return None, None, ["P"] * nbc, ["P"] * nbc
    a, b = [], []
    for _ in range(nbc):
        if rng.random() < 0.3:
            a.append("P"), b.append("P")
        else:
            a.append(str(rng.choice(gen.TAGS))), b.append(str(rng.choice(gen.TAGS)))
    return a, b, list(a), list(b)


def key(x):
    return np.asarray(x, "f8").tobytes()


def plain(bc):
    return (str(bc[0]),) + tuple(float(bc[q]) for q in (3, 4, 5, 6, 7))


def reject(ctx, rng, m):
    nbc = m.nbc
    k = int(rng.integers(0, 4))
    z = [0.0, 1.0, 2.0]
    if k == 0:
        bad, a = gen.struct_mesh(rng, 3, [1, 2, 1], nbc=nbc).mesh, ()
    elif k == 1:
        bad, a = gen.to_hexa(gen.rand_field(rng, ndim=2, nel=2, lr1=[3, 3, 1], var=[2, 0, 0, 0, 0])), ()
    elif k == 2:
        bad, a = gen.to_hexa(gen.rand_field(rng, ndim=2, nel=2, lr1=[2, 2, 1], var=[0, 2, 0, 0, 0])), ()
    else:
        if nbc == 0:
            return
        bad = m.mesh
        x, y = ["W"] * nbc, ["v"] * nbc
        (x if rng.random() < 0.5 else y)[int(rng.integers(0, nbc))] = "P"
        a = (x, y)
    with unchanged(ctx, "refused extrusion", bad):
        ctx.raises(ValueError, f"extrusion of an unsuitable mesh ({k})", extrude, bad, z, *a)


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny, nz = 76 + int(rng.integers(0, 9)), 75, 6
    m, pos, bcs = gen.big_box(nx, ny)
    n = nx * ny
    z = np.cumsum(rng.uniform(0.5, 1, nz + 1))
    ctx.note(f"box {nx} x {ny}, {nz} layers")
    r = extrude(m, z, ["W"], ["O"])
    need(r.nel == len(r.elem) == n * nz, lambda: f"{r.nel} elements, expected {n * nz}")
    p, b = gen.arrays(r)
    i, k = p[:, 0, 0, 0, 0].astype(int), np.searchsorted(z, p[:, 2, 0, 0, 0])
    src = (p[:, 1, 0, 0, 0] / 2).astype(int) * nx + i
    at = np.zeros((n, nz), dtype=int)
    at[src, k] = np.arange(1, n * nz + 1)
    need((at > 0).all(), "elements are missing")
    exp = bcs[src]
    con = np.isin(exp["f0"], ("E", "P"))
    exp["f3"] = np.where(con, at[exp["f3"].astype(int) - 1, k[:, None, None]], exp["f3"])
    exp["f1"] = np.arange(1, n * nz + 1)[:, None, None]
    for f, d, fo, t in ((4, -1, 6, "W"), (5, 1, 5, "O")):
        ins = (k + d >= 0) & (k + d < nz)
        exp["f0"][:, 0, f] = np.where(ins, "E", t)
        exp["f2"][:, 0, f] = f + 1
        exp["f3"][:, 0, f] = np.where(ins, at[src, np.clip(k + d, 0, nz - 1)], 0)
        exp["f4"][:, 0, f] = np.where(ins, fo, 0)
    gen.same_bcs("extruded mesh", b, exp)
    same("element map", r.elmap, np.arange(1, n * nz + 1))
    ctx.ev("large_meshes")


FIXED = [big]


def case(ctx, rng):
    m = gen.struct_mesh(rng, 2, [int(x) for x in rng.integers(1, 5, 2)], nbc=gen.rand_nbc(rng, 0, 3), internal=bool(rng.random() < 0.8),
                        curved=float(rng.choice([0, 0.3])), blank=float(rng.choice([0, 0, 0.2])))
    mesh, nbc = m.mesh, m.nbc
    mesh.var = [2, int(rng.choice([0, 2])), 0, 0, 0]
    if rng.random() < 0.2:
        mesh.lr1 = (2, 2, 1)
    if rng.random() < 0.3:
        mesh.elmap = rng.permutation(mesh.nel).astype("i4") + 1
    nz = int(rng.choice([1, 1, 2, 3, 4, 7]))
    if m.nel <= 4 and rng.random() < 0.15:
        nz = int(rng.choice([32, 33, 64, 65, 100, 130]))
        ctx.ev("many_layers")
    z = rand_z(rng, nz)
    b1, b2, t1, t2 = ends(rng, nbc)
    internal = bool(rng.random() < 0.75)
    ctx.note(gen.describe_mesh(m), f"z={list(z)} bc1={b1} bc2={b2} internal={internal}")
    if rng.random() < 0.15:
        reject(ctx, rng, m)
    kw = {} if internal and rng.random() < 0.5 else dict(internal_bcs=internal)
    zz, c1, c2 = [float(x) for x in z], None if b1 is None else list(b1), None if b2 is None else list(b2)
    with unchanged(ctx, "extrude", mesh):
        res = extrude(mesh, z, b1, b2, **kw) if b1 is not None or rng.random() < 0.5 else extrude(mesh, z, **kw)
    need([float(x) for x in z] == zz and b1 == c1 and b2 == c2, "extrude modified its arguments")
    n2 = m.nel
    need((res.ndim, res.nel, res.nbc, [int(x) for x in res.lr1], [int(x) for x in res.var]) == (3, n2 * nz, nbc, [2, 2, 2], [3, 0, 0, 0, 0]),
         lambda: f"extruded mesh: ndim {res.ndim}, nel {res.nel}, nbc {res.nbc}, lr1 {res.lr1}, var {res.var}")
    meta_invariants(res, "extruded mesh")
    # which element is which, by position
    ref = {}
    for i, el in enumerate(mesh.elem):
        for k in range(nz):
            P = np.zeros((3, 2, 2, 2))
            P[:2] = el.pos[:2]
            P[2, 0], P[2, 1] = zz[k], zz[k + 1]
            ref[key(P)] = (i, k)
    at, who = {}, []
    for e, el in enumerate(res.elem):
        need(key(el.pos) in ref, lambda: f"element {e} of the extruded mesh is not an extruded element: {el.pos.tolist()}")
        i, k = ref[key(el.pos)]
        need((i, k) not in at, f"element {i} layer {k} appears twice")
        at[i, k] = e
        who.append((i, k))
    for e, el in enumerate(res.elem):
        i, k = who[e]
        src = mesh.elem[i]
        for ed in range(12):
            s = src.ccurv[ed % 4] if ed < 8 else ""
            need(el.ccurv[ed] == s, lambda: f"element {e} (2D element {i}, layer {k}) edge {ed}: curvature {el.ccurv[ed]!r}, expected {s!r}")
            if s != "":
                c = np.array(src.curv[ed % 4], "f8")
                if s == "m":
                    c[2] = zz[k] if ed < 4 else zz[k + 1]
                same(f"curvature of element {e} edge {ed} ({s})", el.curv[ed], c)
                ctx.ev("curved_edges")
        for ib in range(nbc):
            for f in range(4):
                x = plain(src.bcs[ib, f])
                if x[0] in ("E", "P"):
                    x = (x[0], float(at[int(x[1]) - 1, k] + 1)) + x[2:]
                if x[0] == "E" and not internal:
                    x = ("",) + (0.0,) * 5
                got = plain(el.bcs[ib, f])
                need(got == x, lambda: f"field {ib} element {e} (2D element {i}, layer {k}) face {f}: {got}, expected {x}")
            for f, d, fo, t, o in ((4, -1, 6, t1, nz - 1), (5, 1, 5, t2, 0)):
                if 0 <= k + d < nz:
                    x = ("E", at[i, k + d] + 1, fo) if internal else ("", 0, 0)
                elif t[ib] == "P":
                    x = ("P", at[i, o] + 1, fo)
                else:
                    x = (t[ib], 0, 0)
                x += (0.0, 0.0, 0.0)
                got = plain(el.bcs[ib, f])
                need(got == x, lambda: f"field {ib} element {e} (2D element {i}, layer {k} of {nz}) face {f}: {got}, expected {x}")
            for f in range(6):
                bc = el.bcs[ib, f]
                if str(bc[0]) != "":
                    need((int(bc[1]), int(bc[2])) == (e + 1, f + 1), lambda: f"field {ib} element {e} face {f} labelled {bc[1]}, {bc[2]}")
        ctx.ev("elements_compared")
    if nbc:
        gen.audit(res, "extruded mesh", complete=internal and m.internal, rtol=1e-6)
        need(res.check_connectivity() is True, "connectivity of the extruded mesh")
        ctx.ev("audited")
    area = sum(gen.volume(el, 2) for el in mesh.elem)
    close("volume of the extruded mesh", gen.total_volume(res), area * (zz[-1] - zz[0]), rtol=1e-9)
    ctx.ev("extrusions")
    ctx.ev("periodic_ends", int("P" in t1))
    ctx.ev("without_internal", int(not internal and nbc > 0))
    ctx.distinct(tuple(m.n), nz, nbc, tuple(t1), tuple(t2), internal, m.internal, tuple(m.periodic))
