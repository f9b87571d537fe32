"""Building meshes by hand: new meshes are blank, renumbering makes and closes room for elements exactly."""
import copy
import sys

import gen
import numpy as np
from lib import HexaData, bc_tuple, meta_invariants, need, same, snap, snap_diff

LEVEL = "exploration"
CASES = dict(quick=2500, thorough=60000)
RULE = "distinct (ndim, shape, fields, position, size) insertions and (dimension, shape, precision) new meshes"
REQUIRED = dict(large_meshes=1, new_meshes=2000, insertions=1500, references_moved=20000, references_kept=20000, removals=1000, counts_checked=2000, insertions_at_the_ends=200)


def blank(ctx, rng):
    nd = int(rng.integers(2, 4))
    lr1 = [int(x) for x in rng.integers(1, 5, 3)]
    if nd == 2:
        lr1[2] = 1
    var = [nd, nd * int(rng.integers(0, 2)), int(rng.integers(0, 2)), int(rng.integers(0, 2)), int(rng.integers(0, 4))]
    nel, nbc = int(rng.integers(1, 9)), gen.rand_nbc(rng, 0, 3)
    kind = [{}, dict(dtype="float32"), dict(dtype="float64"), dict(dtype=np.float32), dict(dtype=np.float64), dict(dtype="f4")][int(rng.integers(0, 6))]
    typ = np.dtype(kind.get("dtype", "float64"))
    give = [list, tuple, np.array][int(rng.integers(0, 3))]
    m = HexaData(nd, nel, give(lr1), give(var), nbc, **kind) if nbc or rng.random() < 0.5 else HexaData(nd, nel, give(lr1), give(var), **kind)
    need((m.ndim, m.nel, m.nbc, m.ncurv, m.istep, m.time, len(m.elem)) == (nd, nel, nbc, 0, 0, 0.0, nel), lambda: f"new mesh: {m.ndim} {m.nel} {m.nbc} {m.ncurv} {m.istep} {m.time}")
    need((m.wdsz, m.endian) == (8, sys.byteorder), lambda: f"new mesh: word size {m.wdsz}, byte order {m.endian}")
    need([int(x) for x in m.lr1] == lr1 and [int(x) for x in m.var] == var, lambda: f"new mesh: lr1 {m.lr1} var {m.var}")
    need([int(x) for x in m.elmap] == list(range(1, nel + 1)), lambda: f"new mesh: elmap {m.elmap}")
    blk = tuple(lr1[::-1])
    for el in m.elem:
        for a, n in (("pos", 3), ("vel", 3), ("pres", var[2]), ("temp", var[3]), ("scal", var[4])):
            v = getattr(el, a)
            need(v.shape == (n,) + blk and v.dtype == typ and not v.any(), lambda: f"new mesh: {a} has shape {v.shape}, type {v.dtype}, sum {v.sum()}")
        need(el.curv.dtype == typ, lambda: f"new mesh: curvature of type {el.curv.dtype}")
        need(el.curv.shape == (12, 5) and not el.curv.any() and list(el.ccurv) == [""] * 12, "new mesh: curvature")
        need(el.bcs.shape == (nbc, 6), lambda: f"new mesh: bcs {el.bcs.shape}")
        for ib in range(nbc):
            for f in range(6):
                need(bc_tuple(el.bcs[ib, f]) == ("", 0, 0) + (0.0,) * 5, lambda: f"new mesh: condition {el.bcs[ib, f]}")
    # elements are independent, and so are meshes
    w = HexaData(nd, nel, list(lr1), list(var), nbc)
    e = int(rng.integers(0, nel))
    m.elem[e].pos[:] = 1
    m.elem[e].curv[:] = 1
    m.elem[e].ccurv[3] = "C"
    if nbc:
        m.elem[e].bcs[0, 1][0] = "W"
    for x, other in [(w, -1), (m, e)]:
        for i, el in enumerate(x.elem):
            if i != other:
                need(not el.pos.any() and not el.curv.any() and "C" not in el.ccurv and not (nbc and str(el.bcs[0, 1][0])), f"new mesh: element {i} changed with element {e}")
    ctx.ev("new_meshes")
    ctx.distinct(nd, tuple(lr1), tuple(var), nel, nbc, str(typ))


def counts(ctx, rng, m):
    want = 0
    for el in m.elem:
        for k in range(12):
            el.ccurv[k] = str(rng.choice(["", "", "", "m", "C", "s"]))
            want += el.ccurv[k] != ""
    before = snap(m)
    m.update_ncurv()
    need(m.ncurv == want, lambda: f"update_ncurv counts {m.ncurv} curved edges, there are {want}")
    before["ncurv"] = want
    d = snap_diff(before, snap(m))
    need(d is None, f"update_ncurv changed {d}")
    ctx.ev("counts_checked")


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 183 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny)
    need([int(x) for x in m.elmap] == list(range(1, nx * ny + 1)), "element map of a new mesh")
    k, step = int(rng.integers(0, nx * ny)), int(rng.integers(1, 99999))
    ctx.note(f"box {nx} x {ny}, room for {step} at {k}")
    m.offset_connectivity(step, k)
    exp = bcs.copy()
    con = np.isin(exp["f0"], ("E", "P"))
    exp["f3"] = np.where(con & (exp["f3"] > k), exp["f3"] + step, exp["f3"])
    exp["f1"][k:, :, :4] += step
    p, b = gen.arrays(m)
    same("positions", p, pos)
    gen.same_bcs("renumbered mesh", b, exp)
    ctx.ev("large_meshes")


FIXED = [big]


def case(ctx, rng):
    blank(ctx, rng)
    nd = int(rng.integers(2, 4))
    m = gen.struct_mesh(rng, nd, maxn=3, nbc=gen.rand_nbc(rng, 1, 3), curved=0.1, internal=bool(rng.random() < 0.9), blank=float(rng.choice([0, 0.1])))
    a = m.mesh
    ctx.note(gen.describe_mesh(m))
    k = int(rng.choice([0, a.nel, int(rng.integers(0, a.nel + 1))]))
    n = int(rng.integers(1, 5))
    ins = gen.struct_mesh(rng, nd, [n] + [1] * (nd - 1), nbc=a.nbc, internal=True).mesh
    for el in ins.elem:
        el.pos[0] += 1000.0
    old = copy.deepcopy(a)
    before = snap(a)
    step = n if rng.random() < 0.8 else int(rng.integers(1, 1000))
    ctx.note(f"make room for {step} elements at {k}")
    if k == 0 and rng.random() < 0.5:
        a.offset_connectivity(step)
    else:
        a.offset_connectivity(step, k)
    for e, (x, y) in enumerate(zip(old.elem, a.elem)):
        for ib in range(a.nbc):
            for f in range(6):
                t = list(bc_tuple(x.bcs[ib, f]))
                if f < 2 * nd:
                    if t[0] in ("E", "P") and t[3] > k:
                        t[3] += step
                        ctx.ev("references_moved")
                    elif t[0] in ("E", "P"):
                        ctx.ev("references_kept")
                    if e >= k and t[1] > k:
                        t[1] += step
                got = bc_tuple(y.bcs[ib, f])
                need(got == tuple(t), lambda: f"room for {step} at {k}: field {ib} element {e} face {f}: {got}, expected {tuple(t)}")
    back = copy.deepcopy(a)
    # nothing else changed
    for x, y in zip(old.elem, back.elem):
        y.bcs[:] = x.bcs
    d = snap_diff(before, snap(back))
    need(d is None, f"offset_connectivity changed {d}")
    if step == n:
        full = copy.deepcopy(a)
        part = copy.deepcopy(ins)
        part.offset_connectivity(k)
        full.elem[k:k] = part.elem
        full.nel += n
        full.elmap = np.arange(1, full.nel + 1)
        full.ncurv = gen.count_curv(full)
        gen.audit(full, "mesh with elements inserted", complete=False)
        need(full.check_connectivity() is not False, "")
        meta_invariants(full, "mesh with elements inserted")
        ctx.ev("insertions")
        ctx.ev("insertions_at_the_ends", int(k in (0, old.nel)))
        # and out again
        del full.elem[k : k + n]
        full.nel -= n
        full.offset_connectivity(-n, k)
        full.elmap, full.ncurv = old.elmap, old.ncurv
        d = snap_diff(before, snap(full))
        need(d is None, f"inserting {n} elements at {k} and removing them again: {d}")
        ctx.ev("removals")
    counts(ctx, rng, a)
    ctx.distinct(nd, tuple(m.n), a.nbc, k, step)
