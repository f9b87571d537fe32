"""Writing a mesh is a read-only operation: the mesh is the same afterwards and the bytes do not depend on history."""
import os

import gen
from lib import need, unchanged
from pymech.neksuite import writenek, writerea, writere2

LEVEL = "exploration"
CASES = dict(quick=2400, thorough=60000)
RULE = "distinct (writer sequence, mesh kind, shape, byte order, number of BC fields) combinations"
REQUIRED = dict(untidy_meshes=300, frame_conditions_checked=3000, repeated_writes_identical=1500, refused_writes=100, unknown_orders=50)
W = dict(nek=writenek, rea=writerea, re2=writere2)


def untidy(rng, mesh):
    """What no writer needs, but a mesh may hold."""
    for el in mesh.elem:
        for ib in range(mesh.nbc):
            for f in range(6):
                bc = el.bcs[ib, f]
                r = rng.random()
                if r < 0.2:
                    bc[1], bc[2] = 0, 0  # no label
                elif r < 0.3:
                    bc[1], bc[2] = int(rng.integers(0, 99)), int(rng.integers(0, 7))
                elif r < 0.4 and str(bc[0]) == "":
                    for q in range(3, 8):
                        bc[q] = float(rng.integers(-9, 9))
                elif r < 0.5 and str(bc[0]) == "E":
                    bc[7] = 2.5
                elif r < 0.55 and f >= 2 * mesh.ndim:
                    bc[0] = "W"
        for ed in range(12):
            if el.ccurv[ed] == "" and rng.random() < 0.2:
                el.curv[ed] = rng.integers(-3, 4, 5)
        if mesh.ndim == 2 and rng.random() < 0.3:
            el.pos[2] = 0.7
        el.vel[...] = rng.integers(-3, 4, el.vel.shape)
    mesh.time = float(rng.uniform(0, 9))
    mesh.istep = int(rng.integers(0, 99))


def case(ctx, rng):
    here, empty = os.getcwd(), os.path.dirname(ctx.path("cwd"))
    os.chdir(empty)
    try:
        work(ctx, rng)
        need(os.listdir(empty) == [], lambda: f"files written in the working directory: {os.listdir(empty)}")
    finally:
        os.chdir(here)


def work(ctx, rng):
    if rng.random() < 0.35:
        f = gen.rand_field(rng)
        mesh = gen.to_hexa(f)
        allowed = ["nek"]
        kind = ("field", tuple(f["lr1"]), tuple(f["var"]), f["wdsz"], f["endian"])
        ctx.note(gen.describe_field(f))
    else:
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, nbc=gen.rand_nbc(rng, 0, 3), curved=0.3, blank=float(rng.choice([0, 0.3])), internal=bool(rng.random() < 0.5))
        mesh = m.mesh
        mesh.endian = str(rng.choice(["little", "big"]))
        if rng.random() < 0.15:  # some other name: the byte order of the machine is used
            mesh.endian = str(rng.choice(["native", "", "Big", "LITTLE", "="]))
            ctx.ev("unknown_orders")
        mesh.wdsz = int(rng.choice([4, 8]))
        if rng.random() < 0.3:
            mesh.ncurv = int(rng.integers(0, 99))
        if rng.random() < 0.3:
            mesh.elmap = rng.permutation(mesh.nel).astype("i4") + 1
        if rng.random() < 0.5:
            untidy(rng, mesh)
            ctx.ev("untidy_meshes")
        allowed = ["nek", "rea", "re2"]
        kind = ("mesh", m.ndim, tuple(m.n), m.nbc, mesh.endian, mesh.wdsz)
        ctx.note(gen.describe_mesh(m))
    seq = [allowed[int(rng.integers(0, len(allowed)))] for _ in range(int(rng.integers(1, 4)))]
    ref = {}
    for w in seq + seq[:1] + [str(rng.choice(allowed))]:
        p = ctx.path("x." + w)
        with unchanged(ctx, f"write{w}", mesh):
            W[w](p, mesh)
        with open(p, "rb") as fp:
            b = fp.read()
        left = os.listdir(os.path.dirname(p))
        need(left == [os.path.basename(p)], lambda: f"write{w} left {left}")
        need(len(b) > 0, f"write{w}: empty file")
        if w in ref:
            need(ref[w] == b, f"write{w}: the same mesh gave two different files after {seq}")
            ctx.ev("repeated_writes_identical")
        ref[w] = b
    if kind[0] == "field" and list(mesh.lr1) != [2, 2, mesh.ndim - 1]:
        with unchanged(ctx, "refused writere2", mesh):
            p = ctx.path("x.re2")
            ctx.raises(ValueError, "writere2 of a field", writere2, p, mesh)
            left = os.listdir(os.path.dirname(p))
            need(left == [], lambda: f"the refused writere2 left {left}")
        ctx.ev("refused_writes")
    ctx.distinct(tuple(seq), kind)
