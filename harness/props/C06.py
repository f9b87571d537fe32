""".re2 meshes: what is written, what is read, and that the two agree."""
import os

import gen
import numpy as np
import refio
from lib import Violation, need, same
from pymech.core import HexaData
from pymech.neksuite import readre2, writere2

LEVEL = "exploration"
CASES = dict(quick=2400, thorough=60000)
RULE = "distinct (ndim, shape, number of BC fields, byte order, curved, internal conditions, source of the file) meshes"
REQUIRED = dict(written_decoded=500, read_compared=1000, foreign_files=300, rejections_observed=100, big_endian=300, multi_field=300, curved_edges=1000, conditions=5000, large_meshes=1, files_replaced=50)


def mesh_of(ctx, rng):
    m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, nbc=int(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])), curved=float(rng.choice([0, 0.2, 0.6])), curv_kinds="mCsxSecM", blank=float(rng.choice([0, 0.2])), internal=bool(rng.random() < 0.6))
    ctx.note(gen.describe_mesh(m))
    mesh = m.mesh
    if rng.random() < 0.3:
        mesh.lr1 = tuple(mesh.lr1)
    if rng.random() < 0.2:
        mesh.ncurv = int(rng.integers(0, 99))  # stale metadata must not matter
    if rng.random() < 0.2:
        for el in mesh.elem:
            el.pos[:] = gen.values(rng, el.pos.shape, 8)
            if mesh.ndim == 2:
                el.pos[2] = 0
    return m


def external(rec):
    return [[(e, f, p, t) for (e, f), (t, p) in fld.items() if t not in ("", "E")] for fld in rec["bcs"]]


def compare_read(ctx, d, rec, endian):
    nd = rec["ndim"]
    need((d.ndim, d.nel, d.endian, d.wdsz) == (nd, rec["nel"], endian, 8), lambda: f"metadata {(d.ndim, d.nel, d.endian, d.wdsz)}")
    need(list(d.lr1) == [2, 2, nd - 1] and list(d.var) == [nd, 0, 0, 0, 0], lambda: f"lr1 {d.lr1} var {d.var}")
    need(d.ncurv == len(rec["curves"]), lambda: f"ncurv {d.ncurv} for {len(rec['curves'])} curved edges")
    need([int(x) for x in d.elmap] == list(range(1, d.nel + 1)), "elmap")
    got = gen.mesh_record(d)
    same("vertices", got["xyz"], rec["xyz"])
    if nd == 2:
        need(all(not np.any(el.pos[2]) for el in d.elem), "z is not zero in 2D")
    ctx.ev("curved_edges", len(rec["curves"]))
    cg, ce = {(c[0], c[1]): c for c in got["curves"]}, {(c[0], c[1]): c for c in rec["curves"]}
    need(set(cg) == set(ce), lambda: f"curved edges {sorted(set(cg) ^ set(ce))[:5]}")
    for k in ce:
        need(cg[k][3] == ce[k][3], lambda: f"curvature type of edge {k}: {cg[k][3]!r} for {ce[k][3]!r}")
        same(f"curvature of edge {k}", cg[k][2], ce[k][2])
    need(d.nbc == max(1, len(rec["bcs"])), lambda: f"nbc {d.nbc} for {len(rec['bcs'])} fields")
    for ib, fld in enumerate(rec["bcs"]):
        for (e, f), (t, p) in fld.items():
            bc = d.elem[e - 1].bcs[ib, f - 1]
            if t in ("", "E"):
                need(str(bc[0]) == "", lambda: f"field {ib} element {e} face {f}: {bc[0]!r} read where nothing was stored")
            else:
                need((str(bc[0]), int(bc[1]), int(bc[2])) == (t, e, f), lambda: f"field {ib} element {e} face {f}: read {(str(bc[0]), int(bc[1]), int(bc[2]))}, expected {t!r}")
                same(f"parameters of field {ib} element {e} face {f}", [float(bc[q]) for q in range(3, 8)], p)
                ctx.ev("conditions")
    ctx.ev("read_compared")


def case(ctx, rng):
    m = mesh_of(ctx, rng)
    mesh, rec = m.mesh, gen.mesh_record(m.mesh)
    endian = str(rng.choice(["little", "big"]))
    ctx.ev("big_endian", int(endian == "big"))
    ctx.ev("multi_field", int(m.nbc > 1))
    ctx.distinct(m.ndim, tuple(m.n), m.nbc, endian, m.mesh.ncurv > 0, m.internal)
    if rng.random() < 0.4:  # a file from elsewhere
        junk = [None, b"\0\0\0\0\0\xe0?", b"\xff\xfe\x80abcd"][int(rng.integers(0, 3))]
        buf = refio.re2_encode(dict(rec, bcs=external(rec)), endian, group=float(rng.choice([0, 1, 7])), junk=junk)
        p = ctx.path("m.re2")
        open(p, "wb").write(buf)
        compare_read(ctx, readre2(p), rec, endian)
        ctx.ev("foreign_files")
        return
    mesh.endian = endian
    p1, p2 = ctx.path("a.re2"), ctx.path("b.re2")
    if rng.random() < 0.15:  # something longer or shorter is there already
        with open(p1, "wb") as fp:
            fp.write(b"\xaa" * int(rng.choice([1, 90, 2000, 300000])))
        ctx.ev("files_replaced")
    writere2(p1, mesh)
    buf = open(p1, "rb").read()
    try:
        d = refio.re2_decode(buf)
    except ValueError as e:
        raise Violation(f"the file cannot be decoded: {e}") from e
    need((d["nel"], d["ndim"], d["nelv"], d["endian"]) == (m.nel, m.ndim, m.nel, endian), lambda: f"header {d['nel'], d['ndim'], d['nelv'], d['endian']}")
    same("vertices on disk", d["xyz"], rec["xyz"])
    need(not any(d["groups"]), "group numbers are not zero")
    need([(c[0], c[1], c[3]) for c in sorted(d["curves"])] == [(c[0], c[1], c[3]) for c in rec["curves"]], lambda: f"curved edges on disk: {d['curves'][:3]}, expected {rec['curves'][:3]}")
    for a, b in zip(sorted(d["curves"]), rec["curves"]):
        same("curvature on disk", a[2], b[2])
    ext = external(rec)
    need(len(d["bcs"]) == len(ext), lambda: f"{len(d['bcs'])} fields of conditions on disk, expected {len(ext)}")
    for ib, (a, b) in enumerate(zip(d["bcs"], ext)):
        need([(x[0], x[1], x[3]) for x in sorted(a)] == [(x[0], x[1], x[3]) for x in b], lambda: f"field {ib}: conditions on disk {sorted(a)[:4]}, expected {b[:4]}")
        for x, y in zip(sorted(a), b):
            same(f"field {ib} parameters on disk of {x[:2]}", x[2], y[2])
    ctx.ev("written_decoded")
    r = readre2(p1)
    compare_read(ctx, r, rec, endian)
    writere2(p2, r)
    # a mesh read from a file has at least one field, that of the file may have none
    need(open(p2, "rb").read() == buf + (b"" if m.nbc else b"\0" * 8), "writing back what was read gives another file")
    if rng.random() < 0.3:
        bad = HexaData(mesh.ndim, 2, [int(x) for x in (gen.rand_lr1(rng, mesh.ndim))], [mesh.ndim, 0, 0, 0, 0], 1)
        if list(bad.lr1) == [2, 2, mesh.ndim - 1]:
            bad.lr1 = [3, 2, mesh.ndim - 1]
        ctx.raises(ValueError, f"writere2 with lr1 = {bad.lr1}", writere2, p1, bad)
        bad = HexaData(mesh.ndim, 2, [2, 2, mesh.ndim - 1], [int(rng.choice([0, 5 - mesh.ndim])), 0, 0, 0, 0], 1)
        ctx.raises(ValueError, "writere2 with a wrong number of coordinates", writere2, p1, bad)
        need(open(p1, "rb").read() == buf, "a refused mesh damaged the file that was there")
    os.remove(p1)


def big(ctx, rng):
    """More elements than two bytes can count."""
    nx, ny = 183, 181 + int(rng.integers(0, 9))
    m, pos, bcs = gen.big_box(nx, ny, nbc=2)
    for e in (int(x) for x in rng.choice(nx * ny, 99, replace=False)):
        gen.set_curv(rng, m.elem[e], int(rng.integers(0, 4)), str(rng.choice(list("mC"))))
    m.ncurv = gen.count_curv(m)
    m.endian = str(rng.choice(["little", "big"]))
    ctx.note(f"box {nx} x {ny}, {m.ncurv} curved edges")
    p = ctx.path("big.re2")
    writere2(p, m)
    with open(p, "rb") as fp:
        d = refio.re2_decode(fp.read())
    rec = gen.mesh_record(m)
    same("vertices on disk", d["xyz"], rec["xyz"])
    need(sorted((c[0], c[1], c[3]) for c in d["curves"]) == [(c[0], c[1], c[3]) for c in rec["curves"]], "curved edges on disk")
    for ib, (a, b) in enumerate(zip(d["bcs"], external(rec))):
        need([(x[0], x[1], x[3]) for x in sorted(a)] == [(x[0], x[1], x[3]) for x in b], lambda: f"field {ib}: conditions on disk")
        for x, y in zip(sorted(a), b):
            same(f"field {ib} parameters on disk of {x[:2]}", x[2], y[2])
    compare_read(ctx, readre2(p), rec, m.endian)
    ctx.ev("large_meshes")


FIXED = [big]
