"""Operations compose as the geometry does: two ways to the same mesh give the same mesh."""
import copy
import math

import gen
import numpy as np
from lib import need, snap, snap_diff
from props.C16 import ends, rand_z
from props.C17 import split_mesh
from props.C33 import attempt, equal, mesh_of, nudge
from props.C35 import same_numbers
from pymech.meshtools import delete_internal_bcs, extrude, extrude_refine, gen_box, gen_circle, generate_internal_bcs, keep_elements, map2D, rotate_2d
from pymech.neksuite import readnek, readre2, readrea, writenek, writere2, writerea

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=80000)
RULE = "distinct (law, sizes, outcome)"
CTX = [None]


def cp(m):
    return copy.deepcopy(m)


def kept(m, e, t=""):
    m = cp(m)
    keep_elements(m, list(e), t)
    return m


def merged(a, b, **kw):
    a = cp(a)
    n = a.merge(b, **kw)
    return a, n


def affine(rng):
    while True:
        A = np.eye(2) + 0.4 * rng.standard_normal((2, 2))
        if np.linalg.det(A) > 0.2:
            break
    c = rng.uniform(0, 0.01, 2)
    b = rng.uniform(-2, 2, 2)
    return lambda x, y: (A[0, 0] * x + A[0, 1] * y + c[0] * x * y + b[0], A[1, 0] * x + A[1, 1] * y + c[1] * y * y + b[1])


def some(rng, n):
    return np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))


def flags(rng):
    return dict(curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5))


# ---------------------------------------------------------------- laws: what, one way, the other way
def l_keep_extrude(rng):
    m = mesh_of(rng, 2)
    e = some(rng, m.nel)
    nz = int(rng.integers(1, 4))
    z = list(rand_z(rng, nz))
    b1, b2, _, _ = ends(rng, m.nbc)
    t = str(rng.choice(["", "W"]))
    ib = bool(rng.random() < 0.8)
    yield "selecting and extruding", extrude(kept(m, e, t if ib else ""), z, b1, b2, internal_bcs=ib), kept(extrude(m, z, b1, b2, internal_bcs=ib), [int(k * m.nel + i) for k in range(nz) for i in e], t if ib else "")


def l_keep_keep(rng):
    m = mesh_of(rng)
    e = some(rng, m.nel)
    f = some(rng, len(e))
    t = str(rng.choice(["", "W"]))
    yield "selecting twice", kept(kept(m, e, t), f, t), kept(m, e[f], t)


def l_keep_map(rng):
    m = mesh_of(rng, 2)
    f, e = affine(rng), some(rng, m.nel)
    kw = dict(curvature=bool(rng.random() < 0.5), boundary_curvature=False)
    yield "selecting and mapping", map2D(kept(m, e), f, **kw), kept(map2D(m, f, **kw), e)


def l_map_map(rng):
    m = mesh_of(rng, 2)
    f, g = affine(rng), affine(rng)
    kw = flags(rng)
    yield "mapping twice", map2D(map2D(m, f, **kw), g, **kw), map2D(m, lambda x, y: g(*f(x, y)), **kw)


def l_map_extrude(rng):
    """Layers of the extruded mesh are the 2D mesh."""
    m = map2D(mesh_of(rng, 2), affine(rng), curvature=True)
    th = float(rng.uniform(-4, 4))
    x, y = (float(v) for v in rng.uniform(-2, 2, 2))
    z = list(rand_z(rng, int(rng.integers(1, 4))))
    a = cp(m)
    rotate_2d(a, x, y, th)
    a = extrude(a, z)
    b = extrude(m, z)
    rotate_2d(b, x, y, th)
    yield "turning and extruding", a, b


def l_map_rotate(rng):
    m = map2D(mesh_of(rng, 2), lambda x, y: (x, y), curvature=True)
    th = float(rng.uniform(-4, 4))
    x0, y0 = (float(v) for v in rng.uniform(-2, 2, 2))
    c, s = math.cos(th), math.sin(th)
    a = cp(m)
    rotate_2d(a, x0, y0, th)
    yield "turning and mapping by a turn", a, map2D(m, lambda x, y: (x0 + c * (x - x0) - s * (y - y0), y0 + s * (x - x0) + c * (y - y0)))


def l_rotate_rotate(rng):
    m = mesh_of(rng)
    x, y, t, u = (float(v) for v in rng.uniform(-2, 2, 4))
    a, b = cp(m), cp(m)
    rotate_2d(a, x, y, t), rotate_2d(a, x, y, u), rotate_2d(b, x, y, t + u)
    yield "turning twice", a, b
    rotate_2d(a, x, y, -u), rotate_2d(a, x, y, -t)
    yield "turning forth and back", a, m


def l_rotate_merge(rng):
    m = mesh_of(rng)
    if m.nel < 2:
        return
    n = int(rng.integers(1, m.nel))
    x, y, t = (float(v) for v in rng.uniform(-2, 2, 3))
    a, b = kept(m, range(n), "W"), kept(m, range(n, m.nel), "W")
    c, k = merged(a, b)
    rotate_2d(c, x, y, t), rotate_2d(a, x, y, t), rotate_2d(b, x, y, t)
    d, l = merged(a, b)
    yield "turning and merging", k, l
    yield "turning and merging", c, d


def l_merge_keep(rng):
    """Taking a mesh apart and putting it together."""
    m = mesh_of(rng, periodic=[False] * 3)
    n = int(rng.integers(0, m.nel + 1))
    a, b = kept(m, range(n), "J"), kept(m, range(n, m.nel), "J")
    if 0 < n < m.nel:
        c, k = merged(a, b)
        # pieces that do not touch keep the condition of their ends
        yield "taking apart and merging", c, m
        cut = sum(int(el.bcs[0, f][0] == "E" and (el.bcs[0, f][3] > n) != (i >= n)) for i, el in enumerate(m.elem) for f in range(2 * m.ndim))
        yield "number of connections made", [k], [cut // 2]
        d, _ = merged(a, b, ignore_all_bcs=True)
        yield "merging and selecting the first", kept(d, range(n)), a
        yield "merging and selecting the second", kept(d, range(n, m.nel)), b


def l_merge_three(rng):
    m = mesh_of(rng, periodic=[False] * 3)
    if m.nel < 3:
        return
    i, j = sorted(int(v) for v in rng.choice(np.arange(1, m.nel), 2, replace=False))
    a, b, c = kept(m, range(i), "J"), kept(m, range(i, j), "J"), kept(m, range(j, m.nel), "J")
    x, k = merged(a, b)
    k += x.merge(c)
    y, l = merged(b, c)
    z, n = merged(a, y)
    yield "merging three meshes", x, z
    yield "connections made by merging three meshes", k, l + n


def l_merge_order(rng):
    m = mesh_of(rng, periodic=[False] * 3)
    if m.nel < 2:
        return
    n = int(rng.integers(1, m.nel))
    a, b = kept(m, range(n), "J"), kept(m, range(n, m.nel), "J")
    tol = float(rng.choice([1e-3, 1e-2, 1e-1]))
    if rng.random() < 0.6:
        nudge(rng, b, tol)
    x, k = merged(a, b, tol=tol)
    y, l = merged(b, a, tol=tol)
    yield "connections made by merging in the other order", k, l
    yield "merging in the other order", x, y, "unordered"


def l_merge_generate(rng):
    """Merging faces without condition does what regenerating connections does."""
    m = mesh_of(rng, periodic=[False] * 3)
    if m.nel < 2:
        return
    n = int(rng.integers(1, m.nel))
    a, b = kept(m, range(n)), kept(m, range(n, m.nel))
    x, k = merged(a, b, ignore_empty=False)
    y, _ = merged(a, b, ignore_all_bcs=True)
    l = generate_internal_bcs(y)
    yield "connections made by merging and by regenerating", k * m.nbc, l
    yield "merging and regenerating", x, y


def l_extrude_stack(rng):
    """Two stacks on top of each other are one stack."""
    m = mesh_of(rng, 2, periodic=[False] * 3)
    n = int(rng.integers(2, 5))
    i = int(rng.integers(1, n))
    z = [float(v) for v in np.round(np.array(rand_z(rng, n)) * 2**20) / 2**20]
    if len(set(z)) < len(z):
        return
    t1, t2, j = (["W"] * m.nbc, ["O"] * m.nbc, ["J"] * m.nbc)
    a, _ = merged(extrude(m, z[: i + 1], t1, j), extrude(m, z[i:], j, t2))
    yield "extruding two stacks and merging", a, extrude(m, z, t1, t2), "lateral"


def l_extrude_regenerate(rng):
    m = mesh_of(rng, 2, periodic=[False] * 3)
    z = list(rand_z(rng, int(rng.integers(1, 4))))
    b1, b2 = ["W"] * m.nbc, ["O"] * m.nbc
    a = extrude(m, z, b1, b2, internal_bcs=False)
    k = generate_internal_bcs(a)
    b = extrude(m, z, b1, b2)
    need(k == sum(int(bc[0] == "E") for el in b.elem for bc in el.bcs.reshape(-1)) // 2, "number of connections regenerated")
    yield "extruding without connections and regenerating them", a, b
    c = cp(b)
    delete_internal_bcs(c)
    yield "extruding and deleting connections", c, extrude(m, z, b1, b2, internal_bcs=False)


def l_refine_regenerate(rng):
    m, _, _, _, fun, par, _ = split_mesh(rng, 1, 0.0)
    m = m.mesh
    if m.nbc == 0 or any(bc[0] == "" for el in m.elem for bc in el.bcs[:, :4].reshape(-1)):
        return  # no connections in the first place
    z = list(rand_z(rng, 4 * int(rng.integers(1, 3))))
    b1, b2 = ["W"] * m.nbc, ["O"] * m.nbc
    a = extrude_refine(m, z, b1, b2, fun=fun, funpar=par, internal_bcs=False)
    b = extrude_refine(m, z, b1, b2, fun=fun, funpar=par)
    generate_internal_bcs(a)
    yield "refining without connections and regenerating them", a, b


def l_refine_far(rng):
    """With the line outside of the mesh, all of it is fine, or coarse."""
    m = mesh_of(rng, 2)
    z = list(rand_z(rng, 4 * int(rng.integers(1, 3))))
    b1, b2, _, _ = ends(rng, m.nbc)
    ib = bool(rng.random() < 0.7)
    yield "refining all of the mesh", extrude_refine(m, z, b1, b2, fun=[lambda x, y, r: x * 0 - 1.0], internal_bcs=ib), extrude(m, z, b1, b2, internal_bcs=ib)
    yield "refining nothing of the mesh", extrude_refine(m, z, b1, b2, fun=[lambda x, y, r: x * 0 + 1.0], internal_bcs=ib), extrude(m, z[::2], b1, b2, internal_bcs=ib)
    yield "refining without a line", extrude_refine(m, z, b1, b2, internal_bcs=ib), extrude(m, z, b1, b2, internal_bcs=ib)


def l_refine_keep(rng):
    """The parts on either side of the line are those of plain extrusions."""
    m, _, _, _, fun, par, _ = split_mesh(rng, 1, 0.0)
    m = m.mesh
    z = list(rand_z(rng, 4 * int(rng.integers(1, 3))))
    side = [[float(np.squeeze(fun[0](x, y, par[0]))) for x, y in zip(el.pos[0].ravel(), el.pos[1].ravel())] for el in m.elem]
    t = ["W"] * m.nbc
    a = extrude_refine(m, z, t, t, fun=fun, funpar=par)
    for e, zz in (([i for i, s in enumerate(side) if max(s) <= 0], z), ([i for i, s in enumerate(side) if min(s) > 0], z[::2])):
        if not e:
            continue
        b = extrude(kept(m, e), zz, t, t)
        at = {tuple(np.round(gen_centre(el), 9)) for el in b.elem}
        same = [i for i, el in enumerate(a.elem) if tuple(np.round(gen_centre(el), 9)) in at]
        if len(same) == b.nel:
            yield "refining and selecting one side", kept(a, same), b, "unordered"


def gen_centre(el):
    return el.pos.reshape(3, -1).mean(axis=1)


def l_box_box(rng):
    """Boxes side by side are a box."""
    nx, ny = (int(v) for v in rng.integers(1, 6, 2))
    n2 = int(rng.integers(1, 5))
    h, x0, y0 = 2.0 ** int(rng.integers(-4, 3)), float(rng.integers(-5, 6)), float(rng.integers(-5, 6))
    k = dict(bcs_ymin=["W"], bcs_ymax=["O"])
    y1 = y0 + ny * h
    a, b = gen_box(nx, ny, x0, x0 + nx * h, y0, y1, bcs_xmin=["v"], bcs_xmax=["J"], **k), gen_box(n2, ny, x0 + nx * h, x0 + (nx + n2) * h, y0, y1, bcs_xmin=["J"], bcs_xmax=["o"], **k)
    c, n = merged(a, b)
    yield "connections between boxes", n, ny
    yield "boxes side by side", c, gen_box(nx + n2, ny, x0, x0 + (nx + n2) * h, y0, y1, bcs_xmin=["v"], bcs_xmax=["o"], **k), "unordered"


def l_box_periodic(rng):
    """Two periodic boxes merged are one periodic box."""
    nx, ny, n2 = (int(v) for v in rng.integers(1, 5, 3))
    p = dict(bcs_xmin=["P"], bcs_xmax=["P"], bcs_ymin=["W"], bcs_ymax=["O"])
    a, b = gen_box(nx, ny, 0.0, nx * 1.0, 0.0, 1.0 * ny, **p), gen_box(n2, ny, nx * 1.0, 1.0 * (nx + n2), 0.0, 1.0 * ny, **p)
    c, _ = merged(a, b)
    yield "periodic boxes side by side", c, gen_box(nx + n2, ny, 0.0, 1.0 * (nx + n2), 0.0, 1.0 * ny, **p), "unordered"


def l_box_map(rng):
    nx, ny = (int(v) for v in rng.integers(1, 6, 2))
    x0, y0 = (float(v) for v in rng.integers(-4, 5, 2))
    s, t = (2.0 ** int(v) for v in rng.integers(-3, 4, 2))
    b = gen_box(nx, ny, 0.0, 1.0 * nx, 0.0, 1.0 * ny)
    yield "box of another size", map2D(b, lambda x, y: (x0 + s * x, y0 + t * y), curvature=False, boundary_curvature=False), gen_box(nx, ny, x0, x0 + nx * s, y0, y0 + ny * t)


def l_circle_turn(rng):
    """A disc turned by a right angle is the same disc."""
    r, s = float(rng.uniform(0.3, 3)), float(rng.uniform(0.2, 0.6))
    ns, no = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    m = gen_circle(r, s, ns, no, bl_fun=lambda x: x)
    a = cp(m)
    rotate_2d(a, 0.0, 0.0, math.pi / 2)
    P = sorted(tuple(np.round(np.sort(el.pos[:2].reshape(2, -1), axis=1).ravel() / r, 6) + 0.0) for el in m.elem)
    Q = sorted(tuple(np.round(np.sort(el.pos[:2].reshape(2, -1), axis=1).ravel() / r, 6) + 0.0) for el in a.elem)
    need(len(P) == len(Q), "number of elements")
    yield "disc turned by a right angle: lowest and highest corners", [np.min(P), np.max(P), m.nel], [np.min(Q), np.max(Q), a.nel]


def l_file(rng):
    """Doing something to a mesh before or after writing and reading it."""
    m = mesh_of(rng, 2, params=False)
    p = CTX[0].path("a.re2")

    def through(x):
        writere2(p, x)
        return readre2(p)

    m = through(m)
    delete_internal_bcs(m)
    k = str(rng.choice(["keep", "map", "rotate", "extrude", "merge"]))
    f, e, z = affine(rng), some(rng, m.nel), list(rand_z(rng, int(rng.integers(1, 3))))

    def do(x):
        x = cp(x)
        if k == "keep":
            keep_elements(x, list(e), "W")
        elif k == "map":
            x = map2D(x, f, curvature=False)
        elif k == "rotate":
            rotate_2d(x, 0.5, 0.25, 1.0)
        elif k == "merge":
            x.merge(m, ignore_all_bcs=True)
        else:
            x = extrude(x, z, ["W"] * x.nbc, ["O"] * x.nbc, internal_bcs=False)
        return x

    yield f"{k} before and after a binary file", through(do(m)), do(through(m))


def l_text_binary(rng):
    """A mesh through a text file and then a binary file is the mesh through the binary file, as far as the text has digits."""
    m = mesh_of(rng, params=False)
    p, q = CTX[0].path("a.rea"), CTX[0].path("a.re2")
    writerea(p, m), writere2(q, m)
    a, b = readrea(p), readre2(q)
    delete_internal_bcs(a)
    need(a.nel == b.nel and a.nbc == b.nbc and a.ncurv == b.ncurv, "counts of the text file and the binary file")
    sc = max(float(np.abs(el.pos).max()) for el in m.elem)
    for i, (x, y) in enumerate(zip(a.elem, b.elem)):
        need(np.all(np.abs(x.pos - y.pos) <= 1e-5 * sc), lambda: f"positions of element {i} in the text file and the binary file: {x.pos.tolist()} {y.pos.tolist()}")
        need(list(x.ccurv) == list(y.ccurv), lambda: f"curvature of element {i} in the text file and the binary file")
        need([str(v[0]) for v in x.bcs.reshape(-1)] == [str(v[0]) if str(v[0]) != "E" else "" for v in y.bcs.reshape(-1)], lambda: f"conditions of element {i} in the text file and the binary file")
    yield "elements in the text and the binary file", a.nel, b.nel


def l_tolerance(rng):
    """What is accepted or connected within a tolerance is so within a wider one."""
    m = mesh_of(rng, periodic=[False] * 3)
    nudge(rng, m, 1e-2)
    t = sorted(float(v) for v in 10 ** rng.uniform(-4, -0.7, 4))
    got = [attempt(lambda: m.check_connectivity(tol=v))[0] == "done" for v in t]
    yield "tolerances at which the mesh is accepted", got, sorted(got)
    delete_internal_bcs(m)
    n = []
    for v in t:
        n.append(generate_internal_bcs(cp(m), v))
    yield "connections found with growing tolerances", n, sorted(n)
    if m.nel > 1:
        k = int(rng.integers(1, m.nel))
        a, b = kept(m, range(k)), kept(m, range(k, m.nel))
        n = [merged(a, b, tol=v, ignore_empty=False)[1] for v in t]
        yield "faces merged with growing tolerances", n, sorted(n)


def l_limits(rng):
    m = mesh_of(rng)
    n = int(rng.integers(0, m.nel + 1))
    if 0 < n < m.nel:
        a, b = kept(m, range(n)), kept(m, range(n, m.nel))
        p, q, r = (np.array(x.lims.pos) for x in (a, b, m))
        yield "limits of the parts and the whole", np.stack([np.minimum(p[:, 0], q[:, 0]), np.maximum(p[:, 1], q[:, 1])], 1), r
        c, _ = merged(a, b)
        yield "limits after merging", np.array(c.lims.pos), r


def l_field(rng):
    """Elements of fields can be selected and joined before or after going through a file."""
    f = gen.to_hexa(gen.rand_field(rng, nel=int(rng.integers(1, 8))))
    p = CTX[0].path("a0.f00001")

    def through(x):
        writenek(p, x)
        return readnek(p)

    e = some(rng, f.nel)
    k = str(rng.choice(["keep", "merge", "both"]))

    def do(x):
        x = cp(x)
        if k != "merge":
            keep_elements(x, list(e))
        if k != "keep":
            x.merge(cp(x))
        return x

    a, b = through(do(f)), do(through(f))
    d = snap_diff(snap(a), snap(b))
    need(d is None, lambda: f"{k} before and after a field file: {d}")
    yield f"{k} before and after a field file", a.nel, b.nel


LAWS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("l_")}
REQUIRED = dict(laws_checked=3000, elements_compared=8000, **{"law_" + k: 20 for k in LAWS})


def blank(m):
    """Labels and parameters of faces without condition say nothing."""
    for el in m.elem:
        for bc in el.bcs.reshape(-1):
            if bc[0] == "":
                for k in range(1, 8):
                    bc[k] = 0


def case(ctx, rng):
    CTX[0] = ctx
    k = sorted(LAWS)[int(rng.integers(0, len(LAWS)))]
    n = 0
    for what, a, b, *how in LAWS[k](rng):
        ctx.note(f"{k}: {what}")
        if hasattr(a, "elem"):
            a, b = cp(a), cp(b)
            if how:
                b = same_numbers(a, b)
            blank(a), blank(b)
            for x in (a, b):
                for el in x.elem:
                    for bc in el.bcs.reshape(-1):
                        if bc[0] == "E":  # parameters of connections are not used
                            for j in (5, 6, 7):
                                bc[j] = 0
        try:
            equal(ctx, f"{k}, {what}", a, b)
        except Exception as e:
            if hasattr(e, "args") and e.args and isinstance(e.args[0], str):
                e.args = (e.args[0].replace("in one frame", "one way").replace("in another", "the other way").replace("depends on the frame", "depends on the way").replace("depend on the frame", "depend on the way"),)
            raise
        ctx.ev("laws_checked")
        n += 1
    if n:
        ctx.ev("law_" + k)
        ctx.distinct(k, what, n, getattr(a, "nel", 0))
