"""merge: a mesh cut in two and merged again is the original mesh."""
import copy

import gen
import numpy as np
from lib import meta_invariants, need, same, snap, snap_diff, unchanged

LEVEL = "exploration"
CASES = dict(quick=3000, thorough=40000)
RULE = "distinct (ndim, shape, cut, mode, periodicity, fields, gap) merges"
REQUIRED = dict(merges=600, faces_glued=2000, periodic_seams=60, periodic_on_one_side=30, ignored=80, gaps_kept_apart=40, gaps_decided_apart_and_together=20, rejections_observed=100, empty_faces_glued=60, chains=60, half_empty=100, frame_conditions_checked=600, large_meshes=1, exact=30)


def split(m, part, tag, empty=()):
    """Sub-mesh of the elements `part` of the mesh m, as an independent extraction.

    Connections that are cut get the tag, or nothing if they are in `empty`."""
    src = m.mesh
    new = {e: i for i, e in enumerate(part)}
    mesh = gen.HexaData(src.ndim, len(part), list(src.lr1), list(src.var), src.nbc)
    cut = []
    for e, i in new.items():
        a, b = src.elem[e], mesh.elem[i]
        b.pos[:] = a.pos
        b.curv[:] = a.curv
        b.ccurv = list(a.ccurv)
        for f in range(2 * m.ndim):
            kind, e2, f2, side = m.link[e][f]
            for ib in range(src.nbc):
                bc = b.bcs[ib, f]
                for q in range(8):
                    bc[q] = a.bcs[ib, f][q]
                if str(bc[0]) != "":
                    bc[1] = i + 1
                if kind in ("E", "P"):
                    if e2 in new:
                        if str(bc[0]) in ("E", "P"):
                            bc[3] = new[e2] + 1
                    else:
                        for q in range(3, 8):
                            bc[q] = 0
                        bc[0], bc[1], bc[2] = (tag[ib], i + 1, f + 1) if tag and (e, f) not in empty else ("", 0, 0)
            if kind in ("E", "P") and e2 not in new:
                cut.append((i, f, e, f, e2, f2))
    mesh.ncurv = gen.count_curv(mesh)
    return mesh, new, cut


def close_faces(a, b, cut, nb, tol):
    """Whether faces that were never in contact are within reach of the tolerance (in slivers)."""
    C, S = [], []
    for m in (a, b):
        C.append(np.array([gen.face_center(el, f) for el in m.elem for f in range(2 * m.ndim)]))
        S.append(np.repeat([gen.smallest_edge(el) for el in m.elem], 2 * m.ndim))
    D = np.linalg.norm(C[0][:, None] - C[1][None], axis=2) / np.minimum(S[0][:, None], S[1][None])
    for i, f, _, _, e2, f2 in cut:
        D[i * 2 * a.ndim + f, nb[e2] * 2 * a.ndim + f2] = np.inf
    return D.min() < 2 * tol


def compare(ctx, mesh, parts, glue, nbc, what):
    """parts: list of the original sub-meshes in order; glue: {(e, f): (e2, f2)} in merged numbering;
    overrides: same for periodic seams."""
    glued, over = glue
    off = 0
    need(mesh.nel == sum(p.nel for p in parts) == len(mesh.elem), lambda: f"{what}: nel = {mesh.nel}")
    for p in parts:
        for e, el in enumerate(p.elem):
            g = mesh.elem[off + e]
            same(f"{what}: positions of element {off + e}", g.pos, el.pos)
            same(f"{what}: curvature of element {off + e}", g.curv, el.curv)
            need(g.ccurv == el.ccurv, f"{what}: curvature types of element {off + e}")
            need(g.bcs.shape == el.bcs.shape, f"{what}: bcs shape")
            for ib in range(nbc):
                for f in range(2 * mesh.ndim):
                    a, b = el.bcs[ib, f], g.bcs[ib, f]
                    k = (off + e, f)
                    tag, p3, p4 = str(a[0]), float(a[3]), float(a[4])
                    if tag in ("E", "P"):
                        p3 += off
                    if k in over:
                        tag, p3, p4 = "P", over[k][0] + 1, over[k][1] + 1
                    if k in glued:
                        tag, p3, p4 = "E", glued[k][0] + 1, glued[k][1] + 1
                    got = (str(b[0]), float(b[3]), float(b[4]))
                    need(got == (tag, p3, p4), lambda: f"{what}: field {ib} element {off + e} face {f}: {got}, expected {(tag, p3, p4)}")
                    if str(a[0]) != "" and int(a[1]) == e + 1:
                        need((int(b[1]), int(b[2])) == (off + e + 1, int(a[2])), lambda: f"{what}: field {ib} element {off + e} face {f} labelled {b[1]}, {b[2]}")
                    if k not in glued and k not in over:
                        same(f"{what}: parameters of field {ib} element {off + e} face {f}", [float(b[q]) for q in (5, 6, 7)], [float(a[q]) for q in (5, 6, 7)])
        off += p.nel


def case(ctx, rng):
    if rng.random() < 0.02:  # coordinates without rounding satisfy any tolerance
        return big(ctx, rng, int(rng.integers(1, 6)), int(rng.integers(2, 6)), "exact", tol=float(rng.choice([0.0, 1e-12])))
    nd = int(rng.integers(2, 4))
    seam = rng.random() < 0.2  # two periodic boxes joined through their periodic faces
    n = [int(x) for x in rng.integers(1, 4, nd)]
    axis = int(rng.integers(0, nd))
    n[axis] = int(rng.integers(2, 5))
    per = [rng.random() < 0.3 for _ in range(nd)]
    per[axis] = seam
    nbc = gen.rand_nbc(rng, 1, 3) if rng.random() < 0.9 else 0
    internal = bool(rng.random() < 0.7)
    m = gen.struct_mesh(rng, nd, n, nbc=nbc, periodic=per, internal=internal, curved=0.15, warp=0 if seam else None)
    ctx.note(gen.describe_mesh(m))
    mode = "normal"
    tags = [str(rng.choice(["con", "W", "J"])) for _ in range(nbc)]
    c = int(rng.integers(1, n[axis]))
    lg = [m.cell_of[e][2 - axis] for e in range(m.nel)]
    if seam:
        mode = "seam"
        A = [e for e in range(m.nel) if lg[e] < c]
        B = [e for e in range(m.nel) if lg[e] >= c]
    else:
        r = rng.random()
        if r < 0.5:
            A = [e for e in range(m.nel) if lg[e] < c]
            B = [e for e in range(m.nel) if lg[e] >= c]
        else:  # an arbitrary partition
            pick = rng.random(m.nel) < 0.5
            A, B = [e for e in range(m.nel) if pick[e]], [e for e in range(m.nel) if not pick[e]]
            if not A or not B:
                A, B = list(range(m.nel - 1)), [m.nel - 1]
            # periodic connections must not be cut
            if any(m.link[e][f][0] == "P" and (m.link[e][f][1] in set(A)) != (e in set(A)) for e in range(m.nel) for f in range(2 * nd)):
                A = [e for e in range(m.nel) if lg[e] < c]
                B = [e for e in range(m.nel) if lg[e] >= c]
        mode = str(rng.choice(["normal", "normal", "normal", "ignore", "empty", "gap", "chain", "reject"]))
    other_tags = list(tags) if rng.random() < 0.5 else [str(rng.choice(["con", "W", "O"])) for _ in range(nbc)]
    if mode == "empty":
        tags = other_tags = None
    # some of the faces to be joined have conditions on one side only, or on none
    empty, join_empty = set(), mode == "empty"
    if mode in ("normal", "gap", "chain") and rng.random() < 0.3:
        empty = {(e, f) for e in range(m.nel) for f in range(2 * nd) if rng.random() < 0.3}
        ctx.ev("half_empty")
    if mode in ("normal", "gap", "chain") and rng.random() < 0.3:
        join_empty = True
    A, B = [list(map(int, rng.permutation(x))) for x in (A, B)]
    a, na, cuta = split(m, A, tags, empty)
    b, nb, cutb = split(m, B, other_tags, empty)
    nA = a.nel
    a.elmap, b.elmap = rng.permutation(a.nel).astype("i4") + 1, rng.permutation(b.nel).astype("i4") + 1
    glued, over = {}, {}
    for i, f, e, _, e2, f2 in cuta:
        if m.link[e][f][0] == "E":
            if not join_empty and {(e, f), (e2, f2)} & empty:
                continue
            glued[i, f] = (nA + nb[e2], f2)
            glued[nA + nb[e2], f2] = (i, f)
        else:
            over[i, f] = (nA + nb[e2], f2)
            over[nA + nb[e2], f2] = (i, f)
    if seam:
        # make each half periodic by itself across the axis
        halves = [(a, na, set(A)), (b, nb, set(B))]
        if rng.random() < 0.35:  # or one of them only: a periodic face meets one that is not, and has nothing to be reconnected to
            del halves[int(rng.integers(0, 2))]
            mode, over = "half", {}
        for mesh, num, part in halves:
            ends = {}
            for e in part:
                for f in range(2 * nd):
                    kind, e2, f2, (ax, sd) = m.link[e][f]
                    if ax == axis and e2 not in part:
                        cell = list(m.cell_of[e])
                        cell[2 - axis] = 0
                        ends.setdefault(tuple(cell), {})[sd] = (num[e], f)
                    elif ax == axis and kind == "P":
                        cell = list(m.cell_of[e])
                        cell[2 - axis] = 0
                        ends.setdefault(tuple(cell), {})[sd] = (num[e], f)
            for d in ends.values():
                (i0, f0), (i1, f1) = d[0], d[1]
                for (x, y), (u, v) in (((i0, f0), (i1, f1)), ((i1, f1), (i0, f0))):
                    for ib in range(nbc):
                        t = mesh.elem[x].bcs[ib, y]
                        t[0], t[1], t[2], t[3], t[4] = "P", x + 1, y + 1, u + 1, v + 1
        if any(m.link[e][f][0] == "P" and m.link[e][f][3][0] == axis and m.link[e][f][1] == e for e in range(m.nel) for f in range(2 * nd)):
            return
        ctx.ev("periodic_seams" if mode == "seam" else "periodic_on_one_side", int(nbc > 0))
    kw = {}
    if join_empty:
        kw["ignore_empty"] = False
    if mode == "ignore":
        kw["ignore_all_bcs"] = True
    if mode == "gap" and nbc:
        # a pair is in contact if it is closer than tol times its own smallest edge: the shift can lie in between for different pairs
        sa, sb = [gen.smallest_edge(el) for el in a.elem], [gen.smallest_edge(el) for el in b.elem]
        tol = float(rng.choice([1e-2, 1e-3, 0.1]))
        d = rng.standard_normal(3)
        d[nd:] = 0
        pair = {k: min(sa[k[0]], sb[v[0] - nA]) if k[0] < nA else min(sb[k[0] - nA], sa[v[0]]) for k, v in glued.items()}
        refs = sorted(pair.values()) or [min(sa + sb)]
        k = int(rng.integers(0, 3))
        if k == 0:
            t = 10.0 ** rng.uniform(-1, np.log10(0.9)) * refs[0]
        elif k == 1:
            t = rng.uniform(1.1, 4) * refs[-1]
        else:
            t = rng.uniform(0.9 * refs[0], 1.1 * refs[-1])
        t = min(t * tol, 0.2 * min(sa + sb))
        d *= t / np.linalg.norm(d)
        for el in b.elem:
            el.pos += d[:, None, None, None]
        if tol != 1e-2 or rng.random() < 0.5:
            kw["tol"] = tol
        if any(abs(t / (tol * x) - 1) < 1e-4 for x in pair.values()):
            return
        n0 = len(glued)
        glued = {k: v for k, v in glued.items() if t < tol * pair[k]}
        ctx.ev("gaps_kept_apart", (n0 - len(glued)) // 2)
        ctx.ev("gaps_decided_apart_and_together", int(0 < len(glued) < n0))
    if close_faces(a, b, cuta, nb, kw.get("tol", 1e-2)):
        return
    if mode == "ignore":
        glued, over = {}, {}
    if mode == "reject":
        bad = gen.struct_mesh(rng, 5 - nd, [1] * (5 - nd), nbc=max(1, nbc)).mesh if rng.random() < 0.5 else gen.to_hexa(gen.rand_field(rng, ndim=nd, nel=2, lr1=[3, 3, 1 if nd == 2 else 3], var=[nd, 0, 0, 0, 0]))
        with unchanged(ctx, "refused merge", a, bad):
            ctx.raises(ValueError, "merge of incompatible meshes", a.merge, bad)
            ctx.raises(ValueError, "merge of incompatible meshes, the other way round", bad.merge, a)
    res = copy.deepcopy(a)
    em = [int(x) for x in a.elmap]
    with unchanged(ctx, "merge (other)", b):
        r = res.merge(b, **kw)
    ctx.note(f"mode {mode} arguments {kw} numbers {A} {B} tags {tags} {other_tags} without condition {sorted(empty)}")
    need(int(r) == len(glued) // 2 or nbc == 0, lambda: f"merge reports {r} connections, expected {len(glued) // 2}")
    compare(ctx, res, [a, b], (glued, over), nbc, f"merge ({mode})")
    meta_invariants(res, "merged mesh")
    need([int(x) for x in res.elmap] == em + [int(x) + len(em) for x in b.elmap], lambda: f"element map {list(res.elmap)} after merging {em} and {list(b.elmap)}")
    ctx.ev("merges")
    ctx.ev("faces_glued", len(glued) // 2 * (nbc > 0))
    ctx.ev("ignored", int(mode == "ignore"))
    ctx.ev("empty_faces_glued", int(mode == "empty" and nbc > 0))
    if mode in ("normal", "seam", "chain") and nbc:
        need(gen.audit(res, "merged mesh", complete=internal and (join_empty or not empty)) >= 0, "")
        res.check_connectivity()
    if mode == "chain":  # nothing is shared with the operand
        before = snap(b)
        for el in res.elem:
            el.pos += 1.0
            el.curv += 1.0
            el.ccurv[0] = "z"
            if nbc:
                el.bcs[0, 0] = ("zz", 1, 2, 3, 4, 5, 6, 7)
        d = snap_diff(before, snap(b))
        need(d is None, f"the merged mesh shares data with the mesh that was merged into it: {d}")
        ctx.ev("chains")
    ctx.distinct(nd, tuple(n), axis, c, mode, tuple(per), nbc, internal)


def big(ctx, rng, nx=830, ny=20, ev="large_meshes", **kw):
    """More elements than two bytes can count."""
    (a, pa, ba), (b, pb, bb) = [gen.big_box(n, ny, periodic_y=nx < 100) for n in (nx, nx + int(rng.integers(0, 9)))]
    if nx > 100:  # nothing to glue at the top and the bottom
        for mesh, c in ((a, ba), (b, bb)):
            for el, x in zip(mesh.elem, c):
                for y in (el.bcs[0], x[0]):
                    for f in (0, 2):
                        if str(y[f][0]) != "E":
                            y[f][0] = ""
    nb = b.nel // ny
    gen.shift_mesh(b, pb, float(nx))
    ctx.note(f"boxes {nx} x {ny} and {nb} x {ny}")
    r = a.merge(b, **kw)
    need(int(r) == ny, lambda: f"merge reports {r} connections, expected {ny}")
    off = nx * ny
    con = np.isin(bb["f0"], ("E", "P"))
    bb["f1"][:, :, :4] += off
    bb["f3"][con] += off
    j = np.arange(ny)
    left, right = j * nx + nx - 1, j * nb
    for q, l, x in (("f0", "E", "E"), ("f3", off + right + 1, left + 1), ("f4", 4, 2)):
        ba[q][left, 0, 1] = l
        bb[q][right, 0, 3] = x
    need(a.nel == off + nb * ny, lambda: f"{a.nel} elements")
    need([int(x) for x in a.elmap] == list(range(1, a.nel + 1)), "element map")
    p, c = gen.arrays(a)
    same("positions", p, np.concatenate((pa, pb)))
    gen.same_bcs("merged mesh", c, np.concatenate((ba, bb)))
    ctx.ev(ev)


FIXED = [big]
