"""What writenek puts on disk, decoded by an independent reader of the Nek5000 format."""
import gen
import numpy as np
import refio
from lib import Violation, need, same
from pymech.neksuite import writenek

LEVEL = "exploration"
CASES = dict(quick=5000, thorough=150000)
RULE = "distinct (ndim, lr1, var, word size, byte order, permuted, memory layout) combinations of files decoded byte by byte"
REQUIRED = dict(files_decoded=200, blocks_compared=2000, minmax_compared=500, scalar_blocks=200, odd_memory_layouts=50, wide_fields=50, large_meshes=1, files_replaced=100)


def f4(x):
    return np.float32(x)


def case(ctx, rng):
    if rng.random() < 0.03:
        ctx.ev("wide_fields")
        decode(ctx, rng, gen.wide_field(rng))
    else:
        decode(ctx, rng, gen.rand_field(rng))


def big(ctx, rng):
    decode(ctx, rng, gen.big_field(rng))
    ctx.ev("large_meshes")


FIXED = [big]


def decode(ctx, rng, f):
    ctx.note(gen.describe_field(f))
    if f["wdsz"] == 4 and rng.random() < 0.3:
        for k in ("pos", "vel", "pres", "temp", "scal"):
            f[k] = gen.values(rng, f[k].shape, 8, special=False)
    mesh = gen.to_hexa(f)
    layout = int(rng.integers(0, 5))
    if layout == 1:  # single precision in memory whatever the file
        for k in ("pos", "vel", "pres", "temp", "scal"):
            f[k] = f[k].astype("f4").astype("f8")
        mesh = gen.to_hexa(f, "float32")
    elif layout == 2:
        for el in mesh.elem:
            for k in ("pos", "vel", "pres", "temp", "scal"):
                setattr(el, k, np.asfortranarray(getattr(el, k)))
    elif layout == 3:
        for el in mesh.elem:
            for k in ("pos", "vel", "pres", "temp", "scal"):
                a = getattr(el, k)
                b = np.zeros(tuple(2 * n for n in a.shape))
                b[::2, ::2, ::2, ::2] = a
                setattr(el, k, b[::2, ::2, ::2, ::2])
    elif layout == 4:
        mesh.elmap = [np.asarray(f["elmap"], dtype=np.int64), list(f["elmap"]), tuple(f["elmap"])][int(rng.integers(0, 3))]
    ctx.ev("odd_memory_layouts", int(layout > 0))
    p = ctx.path("c0.f00003")
    if rng.random() < 0.15:  # something longer or shorter is there already
        with open(p, "wb") as fp:
            fp.write(b"\xaa" * int(rng.choice([1, 50, 140, 5000, 300000])))
        ctx.ev("files_replaced")
    writenek(p, mesh)
    try:
        d = refio.fld_decode(open(p, "rb").read())
    except ValueError as e:
        raise Violation(f"the file cannot be decoded: {e}") from e
    for k in ("wdsz", "nel", "istep", "endian", "ndim", "elmap"):
        need(d[k] == f[k], lambda: f"{k} on disk is {d[k]!r}, expected {f[k]!r}")
    need(d["lr1"] == tuple(f["lr1"]) and d["var"] == tuple(f["var"]), lambda: f"lr1 {d['lr1']} var {d['var']}")
    need(d["rdcode"] == refio.var_string(f["var"]), lambda: f"variables {d['rdcode']!r}")
    need((d["nelf"], d["fid"], d["nfiles"], d["ntok"]) == (f["nel"], 0, 1, 12), lambda: f"header {d['nelf'], d['fid'], d['nfiles'], d['ntok']}")
    need(d["time"] == float(f"{f['time']:.13E}"), lambda: f"time {d['time']!r} for {f['time']!r}")
    need(d["trailing"] == 0, lambda: f"{d['trailing']} unexpected bytes at the end")
    dt = "f4" if f["wdsz"] == 4 else "f8"
    o = [e - 1 for e in f["elmap"]]
    for k, n in zip(("pos", "vel", "pres", "temp", "scal"), f["var"]):
        same(f"{k} on disk", d[k].astype("f8"), f[k][o].astype(dt).astype("f8"))
        ctx.ev("blocks_compared", n * f["nel"])
        if k == "scal":
            ctx.ev("scalar_blocks", n * f["nel"])
    if f["ndim"] == 3:
        for k, n in zip(("pos", "vel", "pres", "temp", "scal"), f["var"]):
            need(k in d["minmax"], f"no extrema for {k}")
            ax = (2, 3, 4)
            v = f[k][o]
            lo, hi = v.min(axis=ax), v.max(axis=ax)
            same(f"minima of {k}", d["minmax"][k][..., 0].astype("f8"), lo.astype("f4").astype("f8"))
            same(f"maxima of {k}", d["minmax"][k][..., 1].astype("f8"), hi.astype("f4").astype("f8"))
            ctx.ev("minmax_compared", 2 * n * f["nel"])
    ctx.ev("files_decoded")
    ctx.distinct(f["ndim"], tuple(f["lr1"]), tuple(f["var"]), f["wdsz"], f["endian"], f["elmap"] != sorted(f["elmap"]), layout)
