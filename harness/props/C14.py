"""keep_elements: the selected elements, renumbered, with consistent connections."""
import gen
import numpy as np
from lib import meta_invariants, need, same, unchanged

LEVEL = "exploration"
CASES = dict(quick=3000, thorough=80000)
RULE = "distinct (ndim, shape, fields, number kept, replacement tag, order given) selections"
REQUIRED = dict(large_meshes=1, selections=1500, connections_kept=5000, connections_cut=5000, rejections_observed=50, unsorted_selections=300, empty_selections=20, repeated_elements=100)


def case(ctx, rng):
    m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, curved=0.2, nbc=gen.rand_nbc(rng, 0, 3), internal=bool(rng.random() < 0.8), blank=float(rng.choice([0, 0.2])))
    mesh = m.mesh
    ctx.note(gen.describe_mesh(m))
    k = int(rng.integers(0, m.nel + 1))
    if k == 0 and rng.random() < 0.7:
        k = m.nel
    keep = [int(x) for x in rng.choice(m.nel, k, replace=False)]
    if rng.random() < 0.5:
        keep.sort()
    if k and rng.random() < 0.1:  # mentioned more than once
        keep = [int(x) for x in rng.permutation(keep + [int(x) for x in rng.choice(keep, int(rng.integers(1, 4)))])]
        ctx.ev("repeated_elements")
    arg = [keep, tuple(keep), np.array(keep, dtype=int)][int(rng.integers(0, 3))] if k else keep
    tag = str(rng.choice(["", "W", "con", "O"]))
    src = gen.struct_mesh  # noqa: F841
    import copy

    old = copy.deepcopy(mesh)
    if rng.random() < 0.05:
        bad = [[0, m.nel + int(rng.integers(0, 5))], [-1 - int(rng.integers(0, m.nel))], [0, -1]][int(rng.integers(0, 3))]
        w = copy.deepcopy(mesh)
        with unchanged(ctx, "refused selection", w):
            ctx.raises(ValueError, f"element numbers {bad} out of range", gen_keep, w, bad)
    ctx.note(f"keep {keep} external_bc {tag!r}")
    before = list(keep)
    if rng.random() < 0.3 and tag == "":
        gen_keep(mesh, arg)
    else:
        gen_keep(mesh, arg, external_bc=tag)
    need([int(x) for x in arg] == before, lambda: f"the list of elements was changed to {list(arg)}")
    order = sorted(set(keep))
    new = {e: i for i, e in enumerate(order)}
    need(mesh.nel == len(order) == len(mesh.elem), lambda: f"nel = {mesh.nel}, kept {len(order)}")
    meta_invariants(mesh, "reduced mesh")
    for e, i in new.items():
        a, b = old.elem[e], mesh.elem[i]
        same(f"positions of element {e} -> {i}", b.pos, a.pos)
        same(f"curvature of element {e} -> {i}", b.curv, a.curv)
        need(b.ccurv == a.ccurv, f"curvature types of element {e} -> {i}")
        for ib in range(mesh.nbc):
            for f in range(2 * m.ndim):
                x, y = a.bcs[ib, f], b.bcs[ib, f]
                t, p3, p4 = str(x[0]), float(x[3]), float(x[4])
                if t in ("E", "P"):
                    if int(p3) - 1 in new:
                        p3 = new[int(p3) - 1] + 1
                        ctx.ev("connections_kept")
                    else:
                        t, p3, p4 = tag, 0, 0
                        ctx.ev("connections_cut")
                got = (str(y[0]), float(y[3]), float(y[4]))
                need(got == (t, p3, p4), lambda: f"field {ib} element {e} -> {i} face {f}: {got}, expected {(t, p3, p4)} (was {x})")
                same(f"parameters of field {ib} element {i} face {f}", [float(y[q]) for q in (5, 6, 7)], [float(x[q]) for q in (5, 6, 7)])
                if t != "":
                    need((int(y[1]), int(y[2])) == (i + 1, f + 1), lambda: f"field {ib} element {i} face {f} labelled {y[1]}, {y[2]}")
    if mesh.nbc and mesh.nel:
        gen.audit(mesh, "reduced mesh", complete=False)
        mesh.check_connectivity()
    ctx.ev("selections")
    ctx.ev("unsorted_selections", int(keep != order))
    ctx.ev("empty_selections", int(k == 0))
    ctx.distinct(m.ndim, tuple(m.n), m.nbc, k, tag, keep == order)


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 181 + int(rng.integers(0, 9)), 183
    m, pos, bcs = gen.big_box(nx, ny, nbc=2)
    keep = np.sort(rng.permutation(nx * ny)[: nx * ny - int(rng.integers(5, 60))])
    ctx.note(f"box {nx} x {ny}, keep {len(keep)}")
    gen_keep(m, [int(x) for x in keep[::-1]], external_bc="W")
    new = np.zeros(nx * ny + 1, dtype=int)
    new[keep + 1] = np.arange(1, len(keep) + 1)
    exp = bcs[keep]
    con = np.isin(exp["f0"], ("E", "P"))
    cut = con & (new[exp["f3"].astype(int)] == 0)
    exp["f0"][cut] = "W"
    exp["f4"][cut] = 0
    exp["f3"][con] = new[exp["f3"][con].astype(int)]
    exp["f1"][:, :, :4] = np.arange(1, len(keep) + 1)[:, None, None]
    need(m.nel == len(m.elem) == len(keep), lambda: f"{m.nel} elements, kept {len(keep)}")
    same("element map", m.elmap, np.arange(1, len(keep) + 1))
    p, b = gen.arrays(m)
    same("positions", p, pos[keep])
    gen.same_bcs("reduced mesh", b, exp)
    ctx.ev("large_meshes")


FIXED = [big]


def gen_keep(*a, **k):
    from pymech.meshtools import keep_elements

    return keep_elements(*a, **k)
