"""check_connectivity and check_bcs_present accept exactly the meshes that satisfy their definition."""
import logging

import gen
import numpy as np
from lib import Violation, need, unchanged

LEVEL = "exploration"
CASES = dict(quick=5000, thorough=80000)
RULE = "distinct (ndim, shape, fields, mutation kind, verdict) meshes judged"
REQUIRED = dict(valid_accepted=600, broken_refused=500, geometric_gaps=100, bcs_complete=200, bcs_incomplete=200, within_tolerance=30, large_meshes=1, exact=30)


def oracle(mesh, tol):
    """None when undecided (too close to the tolerance), else True/False."""
    ok, sure = True, True
    se = [gen.smallest_edge(el) for el in mesh.elem]
    for ib in range(mesh.nbc):
        for e, el in enumerate(mesh.elem):
            for f in range(2 * mesh.ndim):
                bc = el.bcs[ib, f]
                tag = str(bc[0])
                if tag not in ("E", "P"):
                    continue
                e2, f2 = int(bc[3]) - 1, int(bc[4]) - 1
                if not (0 <= e2 < mesh.nel and 0 <= f2 < 2 * mesh.ndim):
                    ok = False
                    continue
                b2 = mesh.elem[e2].bcs[ib, f2]
                if str(b2[0]) != tag or int(b2[3]) - 1 != e or int(b2[4]) - 1 != f:
                    ok = False
                    continue
                if tag == "E":
                    d = np.linalg.norm(gen.face_center(el, f) - gen.face_center(mesh.elem[e2], f2))
                    lim = tol * min(se[e], se[e2])
                    if d > lim * 1.001 + 1e-13:
                        ok = False
                    elif d > lim * 0.999 - 1e-13:
                        sure = False
    if not ok:
        return False
    return True if sure else None


def mutate(ctx, rng, m, tol):
    mesh = m.mesh
    conn = [(ib, e, f) for ib in range(mesh.nbc) for e in range(mesh.nel) for f in range(2 * mesh.ndim) if mesh.elem[e].bcs[ib, f][0] in ("E", "P")]
    k = int(rng.integers(0, 9))
    if k == 8 or not conn:
        return "none"
    ib, e, f = conn[int(rng.integers(0, len(conn)))]
    bc = mesh.elem[e].bcs[ib, f]
    if k == 0:
        bc[3] = float(rng.integers(1, mesh.nel + 1))
    elif k == 1:
        bc[4] = float(rng.integers(1, 2 * mesh.ndim + 1))
    elif k == 2:
        bc[0] = str(rng.choice(["W", "", "P", "E"]))
    elif k == 3:
        bc[3] = float(rng.choice([0, -1, mesh.nel + 1, mesh.nel + 50]))
    elif k == 4:
        bc[4] = float(rng.choice([0, -1, 2 * mesh.ndim + 1, 99]))
    elif k == 5:  # both sides of two connections swapped: consistent indices, wrong places
        ib2, e2, f2 = conn[int(rng.integers(0, len(conn)))]
        a = [(e, f), (int(bc[3]) - 1, int(bc[4]) - 1)]
        o = mesh.elem[e2].bcs[ib, f2]
        if str(o[0]) in ("E", "P"):
            b = [(e2, f2), (int(o[3]) - 1, int(o[4]) - 1)]
            if not set(a) & set(b):
                for (p, q), (r, s) in ((a[0], b[0]), (a[1], b[1])):
                    for (u, v), (w, x) in (((p, q), (r, s)), ((r, s), (p, q))):
                        t = mesh.elem[u].bcs[ib, v]
                        t[0], t[3], t[4] = "E", w + 1, x + 1
    elif k == 6:  # move an element away, by more or less than the tolerance
        se = min(gen.smallest_edge(mesh.elem[j]) for j in range(mesh.nel))
        d = rng.standard_normal(3)
        if mesh.ndim == 2:
            d[2] = 0
        d *= se * tol * float(rng.choice([0.05, 0.4, 3.0, 100.0])) / np.linalg.norm(d)
        mesh.elem[e].pos += d[:, None, None, None]
    else:  # move one vertex
        se = gen.smallest_edge(mesh.elem[e])
        mesh.elem[e].pos[int(rng.integers(0, mesh.ndim)), 0, 0, 0] += se * tol * float(rng.choice([0.05, 20.0]))
    return "index face tag element-range face-range swap shift vertex".split()[k]


def case(ctx, rng):
    if rng.random() < 0.02:
        return exact(ctx, rng)
    tol = float(rng.choice([1e-3, 1e-3, 1e-2, 0.1, 1e-5]))
    m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, curved=0.1, blank=float(rng.choice([0, 0, 0.1])), internal=bool(rng.random() < 0.85), nbc=gen.rand_nbc(rng, 0, 3))
    mesh = m.mesh
    if rng.random() < 0.1:
        mesh.lr1 = tuple(mesh.lr1)
    kinds = [mutate(ctx, rng, m, tol) for _ in range(int(rng.integers(0, 2)) + (rng.random() < 0.2))]
    ctx.note(gen.describe_mesh(m), "mutations", kinds, "tol", tol)
    want = oracle(mesh, tol)
    kw = {} if tol == 1e-3 and rng.random() < 0.7 else dict(tol=tol)
    log = logging.getLogger("pymech").handlers[0].counts
    before = log["ERROR"]
    with unchanged(ctx, "check_connectivity", mesh):
        try:
            got = mesh.check_connectivity(**kw)
            need(got is True, f"check_connectivity returned {got!r}")
        except ValueError:
            got = False
    if want is None:
        ctx.ev("undecided")
    else:
        need(got == want, lambda: f"check_connectivity {'accepts' if got else 'refuses'} a mesh that is {'valid' if want else 'broken'} (mutations {kinds}, tol {tol})")
        if want:
            ctx.ev("valid_accepted")
            ctx.ev("within_tolerance", int("shift" in kinds or "vertex" in kinds))
        else:
            ctx.ev("broken_refused")
            need(log["ERROR"] > before, "check_connectivity refused a mesh without reporting any error")
            ctx.ev("geometric_gaps", int("shift" in kinds or "vertex" in kinds))
    # conditions present
    if rng.random() < 0.5:
        for el in mesh.elem:
            for f in range(2 * mesh.ndim):
                for ib in range(mesh.nbc):
                    if str(el.bcs[ib, f][0]) == "":
                        el.bcs[ib, f][0] = "W"
        if mesh.nbc and rng.random() < 0.5:
            e, f, ib = int(rng.integers(0, mesh.nel)), int(rng.integers(0, 2 * mesh.ndim)), int(rng.integers(0, mesh.nbc))
            mesh.elem[e].bcs[ib, f][0] = ""
            ctx.note(f"blanked field {ib} element {e} face {f}")
    full = all(str(el.bcs[ib, f][0]) != "" for el in mesh.elem for f in range(2 * mesh.ndim) for ib in range(mesh.nbc))
    with unchanged(ctx, "check_bcs_present", mesh):
        try:
            r = mesh.check_bcs_present()
        except ValueError:
            r = False
    if r is not full:
        raise Violation(f"check_bcs_present says {r} for a mesh whose faces {'all' if full else 'do not all'} have conditions")
    ctx.ev("bcs_complete" if full else "bcs_incomplete")
    ctx.distinct(m.ndim, tuple(m.n), m.nbc, tuple(kinds), want, full)


def exact(ctx, rng):
    """Coordinates without rounding: a valid mesh satisfies any tolerance, including none."""
    m, pos, bcs = gen.big_box(int(rng.integers(1, 7)), int(rng.integers(2, 7)), nbc=int(rng.integers(1, 3)))
    need(m.check_connectivity(tol=0) is True, "a mesh without any gap is refused with tol=0")
    e = int(rng.integers(0, m.nel))
    m.elem[e].pos[0] += 1e-9
    if any(str(b[0]) == "E" for b in m.elem[e].bcs[0, :4]):
        ctx.raises(ValueError, "a gap with tol=0", m.check_connectivity, tol=0)
        need(m.check_connectivity() is True, "a gap far below the tolerance is refused")
    ctx.ev("exact")


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 181 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny)
    ctx.note(f"box {nx} x {ny}")
    need(m.check_connectivity() is True and m.check_bcs_present() is True, "a valid mesh is refused")
    e = int(rng.integers(nx * ny - 200, nx * ny - 190))
    m.elem[e].bcs[0, 1][3] -= 1  # near the end
    ctx.raises(ValueError, f"a wrong connection in element {e}", m.check_connectivity)
    m.elem[e].bcs[0, 1][0] = ""
    try:
        r = m.check_bcs_present()
    except ValueError:
        r = False
    need(r is False, f"the face without condition of element {e} is not noticed")
    ctx.ev("large_meshes")


FIXED = [big]
