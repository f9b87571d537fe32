"""generate_internal_bcs / delete_internal_bcs against the known topology."""
import copy

import gen
import numpy as np
from lib import meta_invariants, need, same, snap, snap_diff
from pymech.meshtools import delete_internal_bcs, generate_internal_bcs

LEVEL = "exploration"
CASES = dict(quick=1600, thorough=40000)
RULE = "distinct (ndim, shape, fields, mode) meshes connected or disconnected"
REQUIRED = dict(thin_walls=300, unused_parameters=200, generated=500, deleted=500, connections_checked=8000, gaps_left_open=200, gaps_closed=60, squeezed=100, rejections_observed=40, restored=150, exact=15, far_neighbours=4, large_meshes=1)


def conditions(mesh):
    return {(ib, e, f): tuple(mesh.elem[e].bcs[ib, f])[:1] + tuple(float(x) for x in list(mesh.elem[e].bcs[ib, f])[3:]) for ib in range(mesh.nbc) for e in range(mesh.nel) for f in range(2 * mesh.ndim)}


def exact(ctx, rng):
    """Coordinates without rounding satisfy any tolerance, including none."""
    nx, ny = int(rng.integers(1, 7)), int(rng.integers(2, 7))
    if rng.random() < 0.3:  # neighbours with numbers far from each other
        nx = int(rng.choice([40, 100, 257, 300]))
        ny = max(2, 600 // nx)
        ctx.ev("far_neighbours")
    m = gen.big_box(nx, ny, nbc=int(rng.integers(1, 3)))[0]
    ctx.note(f"box {nx} x {ny}")
    before = snap(m)
    n = delete_internal_bcs(m)
    need(2 * int(generate_internal_bcs(m, tol=0)) == int(n), "not every pair of faces with the same centre is connected with tol=0")
    d = snap_diff(before, snap(m))
    need(d is None, f"deleting and regenerating the internal conditions does not restore the mesh: {d}")
    ctx.ev("exact")


def squeeze(ctx, rng, m):
    """Squeeze the mesh by layers along a line: x -> g(x), increasing, with very different slopes."""
    u = rng.standard_normal(3)
    u[m.ndim:] = 0
    if rng.random() < 0.5:
        u = np.eye(3)[int(rng.integers(0, m.ndim))]
    u /= np.linalg.norm(u)
    P = np.concatenate([el.pos.reshape(3, -1).T for el in m.mesh.elem]) @ u
    n = int(rng.integers(2, 5))
    at = np.linspace(P.min(), P.max(), n + 1)
    to = np.concatenate(([at[0]], at[0] + np.cumsum(np.diff(at) * 10.0 ** rng.uniform(-2, 0.5, n))))
    keep = [el.pos.copy() for el in m.mesh.elem]
    for el in m.mesh.elem:
        x = np.einsum("a,azyx->zyx", u, el.pos)
        el.pos += u[:, None, None, None] * (np.interp(x, at, to) - x)
    if slivers(m):
        for el, p in zip(m.mesh.elem, keep):
            el.pos[:] = p
        return
    ctx.ev("squeezed")


def slivers(m):
    """Whether faces that are not in contact are close at the scale of their elements."""
    fs = [(e, f) for e in range(m.nel) for f in range(2 * m.ndim)]
    C = np.array([gen.face_center(m.mesh.elem[e], f) for e, f in fs])
    se = np.array([gen.smallest_edge(m.mesh.elem[e]) for e, f in fs])
    D = np.linalg.norm(C[:, None] - C[None], axis=2) / np.minimum(se[:, None], se[None])
    E = np.array([e for e, f in fs])
    D[E[:, None] == E[None]] = np.inf
    for i, (e, f) in enumerate(fs):
        if m.link[e][f][0] == "E":
            D[i, m.link[e][f][1] * 2 * m.ndim + m.link[e][f][2]] = np.inf
    return D.min() < 0.4


def case(ctx, rng):
    if rng.random() < 0.02:
        return exact(ctx, rng)
    while True:
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3 if rng.random() < 0.8 else 4, nbc=gen.rand_nbc(rng, 1, 3), curved=0.1)
        if not slivers(m):
            break
    mesh = m.mesh
    ctx.note(gen.describe_mesh(m))
    junk = rng.random() < 0.3
    if junk:  # parameters that internal conditions do not use
        for el in mesh.elem:
            for ib in range(mesh.nbc):
                for f in range(2 * m.ndim):
                    if str(el.bcs[ib, f][0]) == "E" and rng.random() < 0.5:
                        for q in (5, 6, 7):
                            el.bcs[ib, f][q] = float(rng.choice([0.0, 1.5, -2.0]))
        ctx.ev("unused_parameters")
    if rng.random() < 0.25:  # elements of very different sizes
        squeeze(ctx, rng, m)
    full = copy.deepcopy(mesh)
    ref = conditions(full)
    nE = sum(v[0] == "E" for v in ref.values())
    n = delete_internal_bcs(mesh)
    need(int(n) == nE, f"delete_internal_bcs reports {n} conditions, there were {nE}")
    for k, v in conditions(mesh).items():
        e = ("",) + (0.0,) * 5 if ref[k][0] == "E" else ref[k]
        need(v == e, lambda: f"after deletion, (field, element, face) {k} has {v}, expected {e}")
    meta_invariants(mesh, "after deletion")
    ctx.ev("deleted")
    need(int(delete_internal_bcs(mesh)) == 0, "a second deletion found conditions")
    mode = str(rng.choice(["plain", "plain", "tol", "gap", "partial", "blocked", "zero"]))
    kw = {}
    if mode == "tol":
        kw["tol"] = float(rng.choice([1e-2, 1e-4, 1e-3, 0.1]))
        # vertices jitter within the tolerance
        se = min(gen.smallest_edge(el) for el in mesh.elem)
        for el in mesh.elem:
            d = rng.standard_normal(3)
            d[m.ndim:] = 0
            el.pos += (d / np.linalg.norm(d) * se * kw["tol"] * 0.2)[:, None, None, None]
    elif mode == "gap":  # pull one element away: it must stay unconnected
        g = int(rng.integers(0, m.nel))
        if rng.random() < 0.5:
            kw["tol"] = float(rng.choice([1e-2, 1e-4, 1e-3, 0.03]))
        # relative to what the tolerance allows between two elements, which depends on the smaller of them
        se = [gen.smallest_edge(el) for el in mesh.elem]
        near = sorted({x for x, row in enumerate(m.link) for kd, e2, _, _ in row if kd == "E" and e2 == g} | {g})
        o = near[int(rng.integers(0, len(near)))]
        d = rng.standard_normal(3)
        d[m.ndim:] = 0
        gap = min(se[g], se[o]) * kw.get("tol", 1e-3) * float(rng.choice([0.4, 2.5, 10]))
        gap = min(gap, 0.1 * se[g])
        d *= gap / np.linalg.norm(d)
        mesh.elem[g].pos += d[:, None, None, None]
    elif mode == "partial":  # some connections are already there
        for (ib, e, f), v in ref.items():
            if v[0] == "E" and ib == 0 and (e < v[1] - 1) and rng.random() < 0.4:
                e2, f2 = int(v[1]) - 1, int(v[2]) - 1
                for jb in range(mesh.nbc):
                    for (x, y) in ((e, f), (e2, f2)):
                        for q in range(8):
                            mesh.elem[x].bcs[jb, y][q] = full.elem[x].bcs[jb, y][q]
    elif mode == "blocked":  # thin walls: a condition on one or both of the faces in contact
        for (ib, e, f), v in list(ref.items()):
            if v[0] == "E" and ib == 0 and e < v[1] - 1 and rng.random() < 0.3:
                e2, f2 = int(v[1]) - 1, int(v[2]) - 1
                both = rng.random() < 0.5
                put = [(e, f), (e2, f2)] if both else [[(e, f), (e2, f2)][int(rng.integers(0, 2))]]
                for jb in range(mesh.nbc):
                    for x, y in ((e, f), (e2, f2)):
                        t = str(rng.choice(gen.TAGS)) if (x, y) in put else ""
                        ref[jb, x, y] = (t,) + ((0.0, 0.0, float(rng.integers(0, 3)), 0.0, 1.0) if t else (0.0,) * 5)
                        if t:
                            for q, w in enumerate((t, x + 1, y + 1) + ref[jb, x, y][1:]):
                                mesh.elem[x].bcs[jb, y][q] = w
                ctx.ev("thin_walls")
    elif mode == "zero":
        bad = copy.deepcopy(mesh)
        e = int(rng.integers(0, m.nel))
        p, q = gen.EDGES[int(rng.integers(0, 4 if m.ndim == 2 else 12))]
        bad.elem[e].pos[:, p[0], p[1], p[2]] = bad.elem[e].pos[:, q[0], q[1], q[2]]
        ctx.raises(ValueError, "edge of zero length", generate_internal_bcs, bad)
    if junk:  # what is generated has none
        for k, v in list(ref.items()):
            if v[0] == "E" and conditions(mesh)[k][0] != "E":
                ref[k] = v[:3] + (0.0,) * 3
    have = sum(v[0] == "E" for v in conditions(mesh).values())
    pos = snap(mesh)
    n = generate_internal_bcs(mesh, **kw)
    exp = dict(ref)
    if mode == "gap":
        for k, v in ref.items():
            if v[0] == "E" and (k[1] == g or int(v[1]) - 1 == g):
                lim = kw.get("tol", 1e-3) * min(se[k[1]], se[int(v[1]) - 1])
                if gap > 1.5 * lim:
                    exp[k] = ("",) + (0.0,) * 5
                    ctx.ev("gaps_left_open")
                elif gap > 0.6 * lim:  # too close to call
                    exp[k] = conditions(mesh)[k]
                else:
                    ctx.ev("gaps_closed")
    got = conditions(mesh)
    for k in exp:
        need(got[k] == exp[k], lambda: f"after generation ({mode}), (field, element, face) {k} has {got[k]}, expected {exp[k]}")
        if exp[k][0] == "E":
            bc = mesh.elem[k[1]].bcs[k[0], k[2]]
            need((int(bc[1]), int(bc[2])) == (k[1] + 1, k[2] + 1), lambda: f"generated condition {k} labelled {bc[1]}, {bc[2]}")
        ctx.ev("connections_checked")
    need(int(n) == (sum(v[0] == "E" for v in exp.values()) - have) // 2, lambda: f"generate_internal_bcs reports {n} connections, made {(sum(v[0] == 'E' for v in exp.values()) - have) // 2}")
    after = snap(mesh)
    for x, y in zip(pos["elem"], after["elem"]):
        x.pop("bcs"), y.pop("bcs")
    d = snap_diff(pos, after)
    need(d is None, f"generate_internal_bcs changed something else: {d}")
    mesh.check_connectivity(**({"tol": kw["tol"]} if kw else {}))
    ctx.ev("generated")
    need(int(generate_internal_bcs(mesh, **kw)) == 0, "a second generation found new connections")
    if mode in ("plain", "partial") and not junk:
        d = snap_diff(snap(full), snap(mesh))
        need(d is None, f"deleting and regenerating the internal conditions does not restore the mesh: {d}")
        ctx.ev("restored")
    ctx.distinct(m.ndim, tuple(m.n), m.nbc, mode, tuple(m.periodic))


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx = int(rng.integers(1, 4))
    ny = 32768 // nx + int(rng.integers(1, 30))
    m, pos, bcs = gen.big_box(nx, ny)
    ctx.note(f"box {nx} x {ny}")
    keep = bcs["f0"] != "E"
    n = delete_internal_bcs(m)
    need(int(n) == int((~keep).sum()), f"delete_internal_bcs reports {n} conditions, there were {int((~keep).sum())}")
    gone = np.where(keep, bcs, np.zeros_like(bcs))
    gen.same_bcs("after deletion", gen.arrays(m)[1], gone, (0, 3, 4, 5, 6, 7))
    need(2 * int(generate_internal_bcs(m)) == int(n), "not all connections were generated")
    p, b = gen.arrays(m)
    gen.same_bcs("after generation", b, bcs)
    same("positions", p, pos)
    ctx.ev("large_meshes")


big.timeout = 600  # however it looks for the neighbours


FIXED = [big]
