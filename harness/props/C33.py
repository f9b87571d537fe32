"""Mesh operations commute with changes of the unit of length and with quarter turns of the axes."""
import copy
import math

import gen
import numpy as np
from lib import need, snap
from props.C16 import ends, rand_z
from props.C17 import split_mesh
from pymech.meshtools import (delete_internal_bcs, edge_circle, edge_mid, exponential_refinement_parameter, extrude, extrude_refine, gen_box, gen_circle,
                              generate_internal_bcs, keep_elements, map2D, rotate_2d)
from pymech.neksuite import readre2, writere2

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=80000)
RULE = "distinct (operation, power of the unit, quarter turns, dimensions, outcome)"


class Frame:
    """Lengths in another unit, axes turned by q quarter turns about z."""

    def __init__(self, rng):
        self.s = 4.0 ** int(rng.integers(-15, 16))
        self.q = int(rng.integers(0, 4))

    def vec(self, v):
        """Components along the first axis."""
        v = np.array(v, "f8") * self.s
        for _ in range(self.q):
            v[0], v[1] = -v[1].copy(), v[0].copy()
        return v

    def xy(self, x, y):
        v = self.vec([x, y])
        return float(v[0]), float(v[1])

    def inv(self, v):
        v = np.array(v, "f8") / self.s
        for _ in range(self.q):
            v[0], v[1] = v[1].copy(), -v[0].copy()
        return v

    def map(self, mesh, f):
        m = copy.deepcopy(mesh)
        k = self.s if f == self.vec else 1 / self.s
        for el in m.elem:
            el.pos[:] = f(el.pos)
            for ed, c in enumerate(el.ccurv):
                if c in ("m", "s"):
                    el.curv[ed, :3] = f(el.curv[ed, :3])
                if c == "s":
                    el.curv[ed, 4] *= k
                if c == "C":
                    el.curv[ed, 0] *= k
        return m

    def there(self, mesh):
        return self.map(mesh, self.vec)

    def back(self, mesh):
        return self.map(mesh, self.inv)

    def ends(self, bc):
        """Conditions, one for each field."""
        return bc


def attempt(fn):
    try:
        return "done", fn()
    except Exception as e:
        return type(e).__name__, None


def equal(ctx, what, a, b):
    """Two meshes (or numbers, or points) agree but for rounding."""
    if not hasattr(a, "elem"):
        x, y = np.asarray(a, "f8"), np.asarray(b, "f8")
        need(x.shape == y.shape, lambda: f"{what}: {a} in one frame, {b} in another")
        if x.size:
            need(np.all(np.abs(x - y) <= 1e-9 * (np.abs(x).max() + np.abs(y).max())), lambda: f"{what}: {a} in one frame, {b} in another")
        ctx.ev("numbers_compared", x.size)
        return
    x, y = snap(a), snap(b)
    for k in x:
        if k != "elem":
            need(x[k] == y[k], lambda: f"{what}: {k} is {x[k]} in one frame, {y[k]} in another")
    sc = max(float(np.abs(el.pos).max()) for el in a.elem)
    for e, (p, q) in enumerate(zip(a.elem, b.elem)):
        need(x["elem"][e]["bcs"] == y["elem"][e]["bcs"], lambda: f"{what}: conditions of element {e} depend on the frame: {p.bcs.tolist()} {q.bcs.tolist()}")
        need(np.all(np.abs(p.pos - q.pos) <= 1e-9 * sc), lambda: f"{what}: positions of element {e} depend on the frame: {p.pos.tolist()} {q.pos.tolist()}")
        need(list(p.ccurv) == list(q.ccurv), lambda: f"{what}: curvature types of element {e} depend on the frame: {p.ccurv} {q.ccurv}")
        for ed, c in enumerate(p.ccurv):
            use = {"m": [0, 1, 2], "s": [0, 1, 2, 4], "C": [0]}.get(c, [])  # what this type of curvature uses
            u, v = p.curv[ed][use], q.curv[ed][use]
            if c == "C":  # compared by what it does to the edge
                A, B = gen.edge_points(p, ed)
                ok = abs(1 / u[0] - 1 / v[0]) * np.linalg.norm(A - B) <= 1e-6
            else:
                ok = np.all(np.abs(u - v) <= 1e-7 * sc)
            need(ok, lambda: f"{what}: curvature {c} of element {e} edge {ed} depends on the frame: {u.tolist()} {v.tolist()}")
            ctx.ev("curved_edges", int(c != ""))
    ctx.ev("elements_compared", a.nel)


def mesh_of(rng, nd=None, **kw):
    nd = nd or int(rng.integers(2, 4))
    return gen.struct_mesh(rng, nd, maxn=3 if nd == 2 else 2, nbc=gen.rand_nbc(rng, 1, 2), curved=0.25, curv_kinds="mCs" if nd == 2 else "ms", **kw).mesh


def nudge(rng, m, tol):
    """Move an element by about the tolerance."""
    e = int(rng.integers(0, m.nel))
    d = rng.standard_normal(3)
    d[m.ndim:] = 0
    d *= m.elem[e].smallest_edge() * tol * 10 ** rng.uniform(-1, 0.6) / np.linalg.norm(d)
    m.elem[e].pos += d[:, None, None, None]


# every operation: (a function of the frame, giving what to compare: meshes and vectors brought back, and numbers)
def o_query(rng, F):
    m = mesh_of(rng)
    g = F.there(m)
    for x, y in zip(m.elem, g.elem):
        yield "smallest edge", x.smallest_edge(), y.smallest_edge() / F.s
        yield "centroid", x.centroid, F.inv(y.centroid)
        for f in range(2 * m.ndim):
            yield f"centre of face {f}", x.face_center(f), F.inv(y.face_center(f))
    if F.q == 0:
        yield "limits", m.lims.pos, np.array(g.lims.pos) / F.s


def o_check(rng, F):
    m = mesh_of(rng)
    tol = float(rng.choice([1e-3, 1e-2, 1e-5]))
    if rng.random() < 0.7:
        nudge(rng, m, tol)
    g = F.there(m)
    yield "connectivity", attempt(lambda: m.check_connectivity(tol=tol))[0] == "done", attempt(lambda: g.check_connectivity(tol=tol))[0] == "done"


def o_internal(rng, F):
    m = mesh_of(rng)
    delete_internal_bcs(m)
    tol = float(rng.choice([1e-3, 1e-2, 1e-5]))
    if rng.random() < 0.5:
        nudge(rng, m, tol)
    g = F.there(m)
    yield "connections generated", generate_internal_bcs(m, tol), generate_internal_bcs(g, tol)
    yield "regenerated mesh", m, F.back(g)


def o_merge(rng, F):
    m = mesh_of(rng)
    if m.nel < 2:
        return
    n = int(rng.integers(1, m.nel))
    a, b = copy.deepcopy(m), copy.deepcopy(m)
    keep_elements(a, list(range(n)), external_bc="W"), keep_elements(b, list(range(n, m.nel)), external_bc="W")
    tol = float(rng.choice([1e-3, 1e-2, 1e-1]))
    if rng.random() < 0.5:
        nudge(rng, b, tol)
    c, d = F.there(a), F.there(b)
    yield "connections made", a.merge(b, tol=tol), c.merge(d, tol=tol)
    yield "merged mesh", a, F.back(c)


def o_extrude(rng, F):
    m = mesh_of(rng, 2)
    z = np.array(rand_z(rng, int(rng.integers(1, 4))), "f8")
    b1, b2, _, _ = ends(rng, m.nbc)
    yield "extruded mesh", extrude(m, list(z), b1, b2), F.back(extrude(F.there(m), list(z * F.s), F.ends(b1), F.ends(b2)))


def o_refine(rng, F):
    n = int(rng.choice([1, 1, 2]))
    m, _, _, _, fun, par, _ = split_mesh(rng, n, float(rng.choice([0, 0.5])))
    m = m.mesh
    ih = int(rng.integers(0, n + 1))
    z = np.array(rand_z(rng, 2 ** max(ih + 1, n - ih + 1) * int(rng.integers(1, 3))), "f8")
    b1, b2, _, _ = ends(rng, m.nbc)

    def turned(f):
        return lambda x, y, p: f(*F.inv([x, y]), p)

    yield "refined mesh", extrude_refine(m, list(z), b1, b2, fun=fun, funpar=par, imesh_high=ih), F.back(
        extrude_refine(F.there(m), list(z * F.s), F.ends(b1), F.ends(b2), fun=[turned(f) for f in fun], funpar=par, imesh_high=ih))


def o_rotate(rng, F):
    m = mesh_of(rng)
    x, y, t = (float(v) for v in rng.uniform(-3, 3, 3))
    g = F.there(m)
    rotate_2d(m, x, y, t)
    rotate_2d(g, *F.xy(x, y), t)
    yield "turned mesh", m, F.back(g)


def o_edges(rng, F):
    m = mesh_of(rng)
    g = F.there(m)
    e = int(rng.integers(0, m.nel))
    for ed in range(4 if m.ndim == 2 else 12):
        x, y = m.elem[e], g.elem[e]
        if x.ccurv[ed] == "C" and m.ndim == 3:
            continue
        p, q = edge_mid(x, ed), edge_mid(y, ed)
        yield f"middle of edge {ed} ({x.ccurv[ed]!r})", p, F.inv(q)
        A, B = gen.edge_points(x, ed)
        r, t = np.array(edge_circle(x, ed, np.array(p, "f8"))), np.array(edge_circle(y, ed, np.array(q, "f8")))
        sag = np.linalg.norm(p - 0.5 * (A + B)) / np.linalg.norm(A - B)
        if sag > 1e-3:
            yield f"radius at edge {ed}", [r[0] if x.ccurv[ed] == "C" else abs(r[0])], [(t[0] if x.ccurv[ed] == "C" else abs(t[0])) / F.s]
        elif sag < 1e-12:
            yield f"radius at edge {ed}", [0.0, r[0]], [0.0, t[0]]


def o_map(rng, F):
    m = mesh_of(rng, 2)
    A = np.eye(2) + 0.3 * rng.standard_normal((2, 2))
    c = float(rng.uniform(0, 0.02))

    def f(x, y):
        return A[0, 0] * x + A[0, 1] * y + c * x * y, A[1, 0] * x + A[1, 1] * y + c * y * y

    def g(x, y):
        return F.xy(*f(*F.inv([x, y])))

    kw = dict(curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5))
    yield "mapped mesh", map2D(m, f, **kw), F.back(map2D(F.there(m), g, **kw))


def o_box(rng, F):
    F.q = 0
    n = [int(v) for v in rng.integers(1, 6, 2)]
    x0, y0 = rng.uniform(-3, 3, 2)
    lx, ly = 10 ** rng.uniform(-1, 1, 2)
    a = [float(v) for v in (x0, x0 + lx, y0, y0 + ly)]
    yield "box", gen_box(*n, *a), F.back(gen_box(*n, *(v * F.s for v in a)))


def o_circle(rng, F):
    F.q = 0
    r, s = float(rng.uniform(0.3, 3)), float(rng.uniform(0.2, 0.7))
    ns, no = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kw = dict(bl_fun=lambda x: x**1.2) if rng.random() < 0.5 or 2 * s / ns >= 0.9 * (1 - s) else {}
    yield "disc", gen_circle(r, s, ns, no, **kw), F.back(gen_circle(r * F.s, s, ns, no, **kw))


def o_expo(rng, F):
    n = int(rng.integers(1, 40))
    l0 = float(10 ** rng.uniform(-4, 1))
    lt = l0 * math.fsum(float(rng.choice([0.9, 0.999, 1.0, 1.001, 1.1])) ** i for i in range(n))
    yield "ratio", exponential_refinement_parameter(l0, lt, n), exponential_refinement_parameter(l0 * F.s, lt * F.s, n)


def o_file(rng, F):
    m = mesh_of(rng, params=False)
    g = F.there(m)
    yield "mesh written and read", CTX.read(m), F.back(CTX.read(g))


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
REQUIRED = dict(elements_compared=10000, curved_edges=3000, numbers_compared=5000, **{"op_" + k: 100 for k in OPS})


class CTX:
    ctx = None

    @classmethod
    def read(cls, m):
        p = cls.ctx.path("a.re2")
        writere2(p, m)
        return readre2(p)


def case(ctx, rng):
    CTX.ctx = ctx
    k = sorted(OPS)[int(rng.integers(0, len(OPS)))]
    F = Frame(rng)
    ctx.note(f"{k}: unit {F.s!r}, {F.q} quarter turns")
    n = 0
    for what, a, b in OPS[k](rng, F):
        equal(ctx, f"{k}, {what}, other unit ({F.s!r}) and axes ({F.q} quarter turns)", a, b)
        n += 1
    if n:
        ctx.ev("op_" + k)
        ctx.distinct(k, F.s, F.q, n)
