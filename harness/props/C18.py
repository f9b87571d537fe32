"""gen_box: a uniform grid that fills the box, connected, with the requested conditions on its sides."""
import gen
import numpy as np
from lib import close, meta_invariants, need
from pymech.meshtools import gen_box

LEVEL = "exploration"
CASES = dict(quick=3000, thorough=60000)
RULE = "distinct (nx, ny, var, side conditions, internal) boxes"
REQUIRED = dict(large_meshes=1, boxes=2000, faces_checked=40000, periodic_sides=500, rejections_observed=100, default_var=300, long_boxes=60, other_units=300, without_internal=200)


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 182, 182 + int(rng.integers(0, 9))
    ctx.note(f"box {nx} x {ny}")
    m = gen_box(nx, ny, 0, nx, 0, 2 * ny, var=[2, 2, 0, 0, 0], bcs_xmin=["W"], bcs_xmax=["O"])
    _, pos, bcs = gen.big_box(nx, ny)
    need(m.nel == len(m.elem) == nx * ny, lambda: f"{m.nel} elements")
    p, b = gen.arrays(m)
    at = np.rint(p[:, 1, 0, 0, 0] / 2).astype(int) * nx + np.rint(p[:, 0, 0, 0, 0]).astype(int)
    need(sorted(at.tolist()) == list(range(nx * ny)), "cells are missing")
    close("positions", p, pos[at], atol=1e-9)
    new = np.zeros(nx * ny, dtype=int)
    new[at] = np.arange(1, nx * ny + 1)
    exp = bcs[at]
    con = np.isin(exp["f0"], ("E", "P"))
    exp["f3"] = np.where(con, new[exp["f3"].astype(int) - 1], 0)
    exp["f1"][:, :, :4] = np.arange(1, nx * ny + 1)[:, None, None]
    gen.same_bcs("box", b, exp)
    need([int(x) for x in m.elmap] == list(range(1, nx * ny + 1)), "element map of the box")
    ctx.ev("large_meshes")


FIXED = [big]


def case(ctx, rng):
    nx, ny = (int(x) for x in rng.integers(1, 7, 2))
    if rng.random() < 0.05:
        nx, ny = (int(x) for x in rng.permutation([int(rng.integers(7, 60)), int(rng.integers(1, 4))]))
        ctx.ev("long_boxes")
    xmin, ymin = (float(rng.choice([0.0, rng.uniform(-5, 5), -1.0])) for _ in range(2))
    lx, ly = (float(10.0 ** rng.uniform(-2, 2)) for _ in range(2))
    if rng.random() < 0.2:  # other units
        s = 10.0 ** rng.uniform(-9, 9)
        xmin, ymin, lx, ly = xmin * s, ymin * s, lx * s, ly * s
        ctx.ev("other_units")
    var = [2, 2 * int(rng.random() < 0.8), int(rng.random() < 0.7), int(rng.random() < 0.4), int(rng.choice([0, 0, 1, 3]))]
    default = bool(rng.random() < 0.3)
    if default:
        var = [2, 2, 1, 0, 0]
    nbc = (var[1] > 0) + (var[3] > 0) + var[4]
    side = {}
    for a in (("xmin", "xmax"), ("ymin", "ymax")):
        if rng.random() < 0.3:
            side[a[0]], side[a[1]] = None, None
        else:
            p, q = [], []
            for _ in range(nbc):
                if rng.random() < 0.25:
                    p.append("P"), q.append("P")
                else:
                    p.append(str(rng.choice(gen.TAGS))), q.append(str(rng.choice(gen.TAGS)))
            side[a[0]], side[a[1]] = p, q
    internal = bool(rng.random() < 0.75)
    kw = {f"bcs_{k}": (None if v is None else list(v)) for k, v in side.items() if v is not None or rng.random() < 0.5}
    if not default or rng.random() < 0.3:
        kw["var"] = list(var)
    if not internal or rng.random() < 0.3:
        kw["internal_bcs"] = internal
    ctx.note(f"gen_box nx={nx} ny={ny} xmin={xmin} lx={lx} ymin={ymin} ly={ly} var={var} sides={side} internal={internal}")
    if rng.random() < 0.06:
        b = [xmin, xmin + lx, ymin, ymin + ly]
        k = int(rng.integers(0, 2)) * 2
        b[k + 1] = b[k] - float(rng.choice([0.0, 1.0, 1e-3])) * (lx, ly)[k // 2]
        ctx.raises(ValueError, f"empty box {b}", gen_box, nx, ny, *b, **kw)
    mesh = gen_box(nx, ny, xmin, xmin + lx, ymin, ymin + ly, **kw)
    if "var" in kw:
        need(kw["var"] == var, "gen_box changed the list of variables")
    for k, v in side.items():
        need(kw.get(f"bcs_{k}") == (v if f"bcs_{k}" in kw else None), "gen_box changed its arguments")
    need((mesh.ndim, mesh.nel, mesh.nbc, [int(x) for x in mesh.lr1], [int(x) for x in mesh.var], mesh.ncurv) == (2, nx * ny, nbc, [2, 2, 1], var, 0),
         lambda: f"box: ndim {mesh.ndim} nel {mesh.nel} nbc {mesh.nbc} (expected {nbc}) lr1 {mesh.lr1} var {mesh.var} ncurv {mesh.ncurv}")
    meta_invariants(mesh, "box")
    tx, ty = 1e-9 * (lx / nx), 1e-9 * (ly / ny)
    tx, ty = tx + 1e-14 * (abs(xmin) + lx), ty + 1e-14 * (abs(ymin) + ly)
    at, ij = {}, []
    for e, el in enumerate(mesh.elem):
        i = int(round((el.pos[0, 0, 0, 0] - xmin) / lx * nx))
        j = int(round((el.pos[1, 0, 0, 0] - ymin) / ly * ny))
        need((i, j) not in at and 0 <= i < nx and 0 <= j < ny, lambda: f"element {e} of the box starts at {el.pos[:2, 0, 0, 0].tolist()}: cell {(i, j)} of {nx} x {ny}, taken by {at.get((i, j))}")
        at[i, j] = e
        ij.append((i, j))
        for a in (0, 1):
            for b in (0, 1):
                x, y, z = el.pos[:, 0, b, a]
                need(abs(x - (xmin + lx * (i + a) / nx)) <= tx and abs(y - (ymin + ly * (j + b) / ny)) <= ty and z == 0,
                     lambda: f"corner {a, b} of the box element in cell {(i, j)} is at {x!r}, {y!r}, {z!r}")
        for n, v in (("vel", 3), ("pres", var[2]), ("temp", var[3]), ("scal", var[4])):
            arr = getattr(el, n)
            need(arr.shape == (v, 1, 2, 2) and not arr.any(), lambda: f"box element {e}: {n} has shape {arr.shape}")
        need(all(c == "" for c in el.ccurv), "curved box")
    per = ["P"] * nbc
    for (i, j), e in at.items():
        for f, (di, dj) in enumerate(((0, -1), (1, 0), (0, 1), (-1, 0))):
            ii, jj, fo = i + di, j + dj, (f + 2) % 4
            s = None
            if not (0 <= ii < nx and 0 <= jj < ny):
                s = ("ymin", "xmax", "ymax", "xmin")[f]
            for ib in range(nbc):
                bc = mesh.elem[e].bcs[ib, f]
                t = "E" if s is None else (side[s] or per)[ib]
                if s is None and not internal:
                    x = ("", 0, 0)
                elif t in ("E", "P"):
                    x = (t, at[ii % nx, jj % ny] + 1, fo + 1)
                else:
                    x = (t, 0, 0)
                got = (str(bc[0]), float(bc[3]), float(bc[4]))
                need(got == x, lambda: f"box: field {ib} cell {(i, j)} face {f}: {got}, expected {x}")
                if x[0]:
                    need((int(bc[1]), int(bc[2])) == (e + 1, f + 1), lambda: f"box: field {ib} cell {(i, j)} face {f} labelled {bc[1]}, {bc[2]}")
                ctx.ev("faces_checked")
                ctx.ev("periodic_sides", int(t == "P"))
    if nbc:
        need(mesh.check_connectivity() is True, "connectivity of the box")
        gen.audit(mesh, "box", complete=internal, periodic_shift=True)
        if internal:
            need(mesh.check_bcs_present() is True, "conditions of the box")
    close("area of the box", gen.total_volume(mesh), lx * ly, rtol=1e-9 + 1e-12 * (abs(xmin) / lx + abs(ymin) / ly))
    # boxes do not share anything with each other
    mesh.var[1] = 7
    mesh.lr1[0] = 9
    again = gen_box(1, 1, 0, 1, 0, 1)
    need([int(x) for x in again.var] == [2, 2, 1, 0, 0] and [int(x) for x in again.lr1] == [2, 2, 1], lambda: f"a later default box has var {again.var}, lr1 {again.lr1}")
    ctx.ev("boxes")
    ctx.ev("default_var", int("var" not in kw))
    ctx.ev("without_internal", int(not internal and nbc > 0))
    ctx.distinct(nx, ny, tuple(var), repr(side), internal)
