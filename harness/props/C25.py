"""Any sequence of mesh operations leaves a consistent mesh, with the predicted size and boundary."""
import copy
import math
from collections import defaultdict

import gen
import numpy as np
from lib import meta_invariants, need
from pymech.meshtools import delete_internal_bcs, extrude, extrude_refine, gen_box, gen_circle, generate_internal_bcs, keep_elements, map2D, rotate_2d
from pymech.neksuite import readnek, readre2, readrea, writenek, writere2, writerea

LEVEL = "exploration"
CASES = dict(quick=420, thorough=12000)
RULE = "distinct operation sequences"
REQUIRED = dict(histories=200, operations=1200, audits=1200, boundaries_measured=1200, op_extrude=60, op_keep=60, op_merge=60, op_re2=60, op_rea=30, op_rotate=60, op_map=60, op_regenerate=60)
CASE_TIMEOUT = 120


def area(P):
    """Measure of a face from its corners (2 points in 2D, 4 in tensor order in 3D)."""
    if len(P) == 2:
        return float(np.linalg.norm(P[1] - P[0]))
    a, b, c, d = P[0], P[1], P[3], P[2]
    return 0.25 * float(sum(np.linalg.norm(np.cross(y - x, z - x)) for x, y, z in ((a, b, c), (a, c, d), (b, c, d), (a, b, d))))


def boundary(mesh):
    """Measure of the boundary under each condition (E and blank left out), per field."""
    out = [defaultdict(float) for _ in range(mesh.nbc)]
    for el in mesh.elem:
        for f in range(2 * mesh.ndim):
            A = area(gen.face_points(el, f))
            for ib in range(mesh.nbc):
                t = str(el.bcs[ib, f][0])
                if t not in ("", "E"):
                    out[ib][t] += A
    return out


def same_boundary(got, exp, what, rtol):
    need(len(got) == len(exp), f"{what}: {len(got)} fields, expected {len(exp)}")
    for ib, (g, e) in enumerate(zip(got, exp)):
        for t in set(g) | set(e):
            need(abs(g.get(t, 0.0) - e.get(t, 0.0)) <= rtol * (abs(e.get(t, 0.0)) + 1e-3 * sum(e.values())),
                 lambda: f"{what}: field {ib} has condition {t!r} on {g.get(t, 0.0)!r} of the boundary, expected {e.get(t, 0.0)!r}")


class Model:
    """What is predicted of the mesh: size, number of elements, boundary, completeness of the connections."""


def start(ctx, rng):
    s = Model()
    s.congruent = True
    k = int(rng.integers(0, 5))
    nbc = gen.rand_nbc(rng, 1, 2)
    if k == 0:
        n = [int(x) for x in rng.integers(1, 4, 2)]
        bc = lambda: [str(x) for x in rng.choice(gen.TAGS, nbc)]  # noqa: E731
        mesh = gen_box(*n, -1.0, float(rng.uniform(0, 2)), 0.0, float(rng.uniform(0.5, 2)), var=[2, 2, 1, 0, nbc - 1], **({} if rng.random() < 0.4 else dict(bcs_xmin=bc(), bcs_xmax=bc())))
        s.name = "box"
    elif k == 1:
        mesh = gen_circle(float(rng.uniform(0.5, 2)), 0.4, int(rng.integers(1, 3)) + 1, int(rng.integers(1, 3)), bc=[str(x) for x in rng.choice(gen.TAGS, nbc)], bl_fun=lambda x: x, var=[2, 2, 1, 0, nbc - 1])
        s.name = "disc"
    else:
        nd = 2 if k < 4 else 3
        warp = int(rng.integers(0, 4))
        s.congruent = warp in (0, 2)
        m = gen.struct_mesh(rng, nd, warp=warp, maxn=3 if nd == 2 else 2, nbc=nbc, curved=0.2, curv_kinds="mC" if nd == 2 else "m")
        mesh = m.mesh
        s.name = f"mesh{nd}d"
    mesh.var = [mesh.ndim, 0, 0, 0, 0]
    s.mesh, s.ndim, s.nel, s.nbc = mesh, mesh.ndim, mesh.nel, mesh.nbc
    s.vol = gen.total_volume(mesh)
    s.bnd = boundary(mesh)
    s.complete = True  # all contacts have their E
    s.rtol = 1e-9
    return s


def op_rotate(ctx, rng, s):
    rotate_2d(s.mesh, *(float(x) for x in rng.uniform(-1, 1, 2)), float(rng.uniform(-4, 4)))
    return "rotate"


def op_regenerate(ctx, rng, s):
    nE = sum(str(b[0]) == "E" for el in s.mesh.elem for b in el.bcs.ravel())
    n = delete_internal_bcs(s.mesh)
    need(int(n) == nE, f"deleted {n} of {nE} internal conditions")
    if rng.random() < 0.7:
        generate_internal_bcs(s.mesh)
        s.complete = True
    else:
        s.complete = False
    return "regenerate"


def op_keep(ctx, rng, s):
    if s.nel < 2:
        return None
    keep = [int(x) for x in rng.choice(s.nel, int(rng.integers(1, s.nel + 1)), replace=False)]
    tag = str(rng.choice(["", "cut", "W"]))
    kept = set(keep)
    old = s.mesh
    s.bnd = [defaultdict(float) for _ in range(s.nbc)]
    for e in keep:
        el = old.elem[e]
        for f in range(2 * s.ndim):
            A = area(gen.face_points(el, f))
            for ib in range(s.nbc):
                t = str(el.bcs[ib, f][0])
                if t in ("E", "P") and int(el.bcs[ib, f][3]) - 1 not in kept:
                    t = tag
                if t not in ("", "E"):
                    s.bnd[ib][t] += A
    s.vol = sum(gen.volume(old.elem[e], s.ndim) for e in keep)
    s.nel = len(keep)
    keep_elements(s.mesh, keep, external_bc=tag)
    return "keep"


def op_merge(ctx, rng, s):
    if s.nel > 24:
        return None
    other = copy.deepcopy(s.mesh)
    lim = max(float(np.abs(el.pos).max()) for el in other.elem)
    for el in other.elem:
        el.pos[0] += 4 * lim + 1
        for ed in range(12):
            if el.ccurv[ed] == "m":
                el.curv[ed, 0] += 4 * lim + 1
    n = s.mesh.merge(other, ignore_all_bcs=bool(rng.random() < 0.3))
    need(int(n) == 0, f"meshes far from each other were glued by {n} faces")
    s.nel *= 2
    s.vol *= 2
    s.bnd = [defaultdict(float, {t: 2 * v for t, v in b.items()}) for b in s.bnd]
    return "merge"


def op_map(ctx, rng, s):
    if s.ndim != 2:
        return None
    k, th = float(rng.uniform(0.5, 2)), float(rng.uniform(-3, 3))
    c, d = k * math.cos(th), k * math.sin(th)
    s.mesh = map2D(s.mesh, lambda x, y: (c * x - d * y, d * x + c * y), curvature=bool(rng.random() < 0.3), boundary_curvature=bool(rng.random() < 0.3))
    s.vol *= k * k
    s.bnd = [defaultdict(float, {t: k * v for t, v in b.items()}) for b in s.bnd]
    return "map"


def op_extrude(ctx, rng, s):
    if s.ndim != 2 or s.nel > 16:
        return None
    z = gen.spacing(rng, int(rng.integers(1, 4)))
    H = float(z[-1] - z[0])
    b = ["P"] * s.nbc if rng.random() < 0.4 else [str(x) for x in rng.choice(gen.TAGS, s.nbc)]
    internal = bool(rng.random() < 0.7)
    f = extrude if rng.random() < 0.7 else extrude_refine
    s.mesh = f(s.mesh, z, b, list(b), internal_bcs=internal)
    s.bnd = [defaultdict(float, {t: v * H for t, v in x.items()}) for x in s.bnd]
    for ib in range(s.nbc):
        s.bnd[ib][b[ib]] += 2 * s.vol
    s.vol *= H
    s.nel *= len(z) - 1
    s.ndim = 3
    s.complete = s.complete and internal
    return "extrude"


def op_re2(ctx, rng, s):
    p = ctx.path("m.re2")
    s.mesh.endian = str(rng.choice(["little", "big"]))
    writere2(p, s.mesh)
    s.mesh = readre2(p)
    s.complete = False
    return "re2"


def op_rea(ctx, rng, s):
    if any(str(b[0]) not in ("", "E") and len(str(b[0])) > 2 for el in s.mesh.elem for b in el.bcs.ravel()) and s.nel > 999:
        return None
    p = ctx.path("m.rea")
    writerea(p, s.mesh)
    s.mesh = readrea(p)
    s.rtol = max(s.rtol, 3e-4)
    return "rea"


def op_nek(ctx, rng, s):
    """The geometry as a field file; conditions and curvature stay with the mesh."""
    p = ctx.path("m0.f00001")
    em, wdsz = s.mesh.elmap.copy(), s.mesh.wdsz
    s.mesh.elmap = rng.permutation(s.nel).astype("i4") + 1
    s.mesh.wdsz = 8
    var = list(s.mesh.var)
    s.mesh.var = [s.ndim, 0, 0, 0, 0]
    writenek(p, s.mesh)
    s.mesh.elmap, s.mesh.wdsz, s.mesh.var = em, wdsz, var
    g = readnek(p)
    need(g.nel == s.nel, f"field file has {g.nel} elements")
    for a, b in zip(s.mesh.elem, g.elem):
        need(np.array_equal(a.pos[: s.ndim], b.pos[: s.ndim]), "positions changed in a field file")
        a.pos[: s.ndim] = b.pos[: s.ndim]
    return "nek"


OPS = [op_rotate, op_regenerate, op_keep, op_merge, op_map, op_extrude, op_re2, op_rea, op_nek]


def check(ctx, s, what):
    mesh = s.mesh
    need((mesh.ndim, mesh.nel, mesh.nbc) == (s.ndim, s.nel, s.nbc), lambda: f"{what}: ndim {mesh.ndim} nel {mesh.nel} nbc {mesh.nbc}, expected {(s.ndim, s.nel, s.nbc)}")
    meta_invariants(mesh, what)
    v = gen.total_volume(mesh)
    need(abs(v - s.vol) <= 10 * s.rtol * abs(s.vol), lambda: f"{what}: volume {v!r}, expected {s.vol!r}")
    same_boundary(boundary(mesh), s.bnd, what, 10 * s.rtol)
    ctx.ev("boundaries_measured")
    gen.audit(mesh, what, rtol=1e-6 if s.rtol < 1e-6 else 3e-2, complete=s.complete, periodic_shift=s.congruent and s.rtol < 1e-6)
    need(mesh.check_connectivity(**({} if s.rtol < 1e-6 else dict(tol=0.1))) is True, what)
    ctx.ev("audits")


def case(ctx, rng):
    s = start(ctx, rng)
    ctx.note(f"start {s.name} ndim={s.ndim} nel={s.nel} nbc={s.nbc}")
    check(ctx, s, "start")
    hist = [s.name]
    for _ in range(int(rng.integers(3, 10))):
        op = OPS[int(rng.integers(0, len(OPS)))]
        name = op(ctx, rng, s)
        if name is None:
            continue
        hist.append(name)
        ctx.note(f"{name} -> ndim={s.mesh.ndim} nel={s.mesh.nel}")
        check(ctx, s, " > ".join(hist))
        ctx.ev("operations")
        ctx.ev("op_" + name)
    ctx.ev("histories")
    ctx.distinct(tuple(hist))
