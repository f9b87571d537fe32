"""Mesh operations commute with renumbering the elements and reordering the fields of conditions."""
import copy

import numpy as np
from lib import need
from props import C33
from props.C33 import CTX, equal, mesh_of
from pymech.meshtools import keep_elements
from pymech.neksuite import readrea, writerea

LEVEL = "exploration"
CASES = dict(quick=3000, thorough=60000)
RULE = "distinct (operation, numbers of elements and fields, outcome)"


class Numbering:
    """Elements and fields of conditions in another order."""

    s, q = 1.0, 0

    def __init__(self, rng):
        self.rng = rng
        self.fields = {}
        self.moved = 0

    def vec(self, v):
        return np.array(v, "f8")

    inv = vec

    def xy(self, x, y):
        return float(x), float(y)

    def order(self, nbc):
        if nbc not in self.fields:
            self.fields[nbc] = self.rng.permutation(nbc)
        return self.fields[nbc]

    def ends(self, bc):
        return bc if bc is None else [bc[i] for i in self.order(len(bc))]

    def there(self, mesh, perm=None):
        m = copy.deepcopy(mesh)
        perm = self.rng.permutation(m.nel) if perm is None else perm
        self.moved += int(np.any(perm != np.arange(m.nel)))
        m = renumber(m, perm)
        for el in m.elem:
            el.bcs[:] = el.bcs[self.order(m.nbc)]
        return m

    def back(self, mesh):
        m = copy.deepcopy(mesh)
        for el in m.elem:
            el.bcs[self.order(m.nbc)] = el.bcs.copy()
        return m


def renumber(m, perm):
    """Element perm[i] becomes element i."""
    new = np.empty(m.nel, int)
    new[perm] = np.arange(m.nel)
    m.elem = [m.elem[i] for i in perm]
    for el in m.elem:
        for bc in el.bcs.reshape(-1):
            if bc[0] in ("E", "P") and 1 <= bc[3] <= m.nel:
                bc[3] = new[int(bc[3]) - 1] + 1
            if 1 <= bc[1] <= m.nel:
                bc[1] = new[int(bc[1]) - 1] + 1
    return m


def same_numbers(a, b):
    """b with its elements in the order of those of a, by their places."""
    A, B = (np.array([[el.pos[:, k, j, i] for k in (0, -1) for j in (0, -1) for i in (0, -1)] for el in m.elem]).reshape(m.nel, -1) for m in (a, b))
    need(A.shape == B.shape, lambda: f"{a.nel} elements in one numbering, {b.nel} in another")
    perm = [int(np.argmin(np.abs(B - x).max(axis=1))) for x in A]
    need(len(set(perm)) == len(perm), "elements at the same place")
    return renumber(b, np.array(perm))


def o_keep(rng, F):
    m = mesh_of(rng)
    perm = rng.permutation(m.nel)
    new = np.empty(m.nel, int)
    new[perm] = np.arange(m.nel)
    e = rng.choice(m.nel, int(rng.integers(1, m.nel + 1)), replace=False)
    g = F.there(m, perm)
    t = str(rng.choice(["", "W"]))
    keep_elements(m, list(e), t), keep_elements(g, list(new[e]), t)
    yield "kept elements", m, F.back(g)


def o_limits(rng, F):
    m = mesh_of(rng)
    g = F.there(m)
    yield "limits", m.lims.pos, g.lims.pos


def o_rea(rng, F):
    m = mesh_of(rng, params=False)
    g = F.there(m)
    r = []
    for x in (m, g):
        p = CTX.ctx.path("a.rea")
        writerea(p, x)
        r.append(readrea(p))
    yield "mesh written and read as text", r[0], F.back(r[1])


def o_chain(rng, F):
    """Several operations after each other."""
    m = mesh_of(rng, 2)
    g = F.there(m)
    for k in rng.choice(["rotate", "internal", "map"], 3):
        for x in (m, g):
            if k == "rotate":
                C33.rotate_2d(x, 0.3, -0.2, 0.7)
            elif k == "internal":
                C33.delete_internal_bcs(x), C33.generate_internal_bcs(x)
        if k == "map":
            m, g = (C33.map2D(x, lambda u, v: (1.1 * u + 0.2 * v, v - 0.1 * u)) for x in (m, g))
    z = [0.0, 0.5, 2.0]
    yield "chain of operations", C33.extrude(m, z), F.back(C33.extrude(g, z))


OPS = {k: C33.OPS[k] for k in ("check", "internal", "merge", "extrude", "refine", "rotate", "map", "file")}
OPS.update({k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")})
REQUIRED = dict(elements_compared=6000, renumbered=1500, fields_reordered=500, **{"op_" + k: 100 for k in OPS})


def case(ctx, rng):
    CTX.ctx = ctx
    k = sorted(OPS)[int(rng.integers(0, len(OPS)))]
    F = Numbering(rng)
    n = 0
    for what, a, b in OPS[k](rng, F):
        ctx.note(f"{k}, {what}: fields {F.fields}")
        if hasattr(a, "elem"):
            need(hasattr(b, "elem"), "no mesh")
            a, b = copy.deepcopy(a), same_numbers(a, b)
            for el in a.elem + b.elem:  # labels of blank faces say nothing
                for bc in el.bcs.reshape(-1):
                    if bc[0] == "":
                        bc[1] = bc[2] = 0
            n += a.nel
        equal(ctx, f"{k}, {what}, other numbering", a, b)
        n += 1
    if n:
        ctx.ev("op_" + k)
        ctx.ev("renumbered", int(F.moved > 0))
        ctx.ev("fields_reordered", int(any(np.any(v != np.arange(len(v))) for v in F.fields.values())))
        ctx.distinct(k, n, tuple(len(v) for v in F.fields.values()))
