"""Field files survive a write/read cycle bit for bit."""
import os
from pathlib import Path

import gen
import numpy as np
from lib import need, same
from pymech.neksuite import readnek, writenek

LEVEL = "exploration"
CASES = dict(quick=5000, thorough=150000)
RULE = "distinct (ndim, lr1, var, word size, byte order, element order class, storage dtype) combinations of field files written and read back"
REQUIRED = dict(roundtrips=200, arrays_compared=2000, rewrites_identical=200, big_endian=50, single_precision=50, permuted_elmap=50, wide_fields=50, large_meshes=1)
ASSUMPTIONS = ["times are compared at the 14 significant digits that the header stores"]


def expect(a, wdsz, dtype):
    a = np.asarray(a, "f8")
    if wdsz == 4:
        a = a.astype("f4")
    return a.astype(dtype)


def compare(ctx, d, f, dtype):
    need(tuple(int(x) for x in d.lr1) == tuple(f["lr1"]), lambda: f"lr1 {d.lr1} for {f['lr1']}")
    need(tuple(int(x) for x in d.var) == tuple(f["var"]), lambda: f"var {d.var} for {f['var']}")
    need((d.ndim, d.nel, d.wdsz, d.endian, d.istep, d.nbc) == (f["ndim"], f["nel"], f["wdsz"], f["endian"], f["istep"], 0), lambda: f"metadata {(d.ndim, d.nel, d.wdsz, d.endian, d.istep, d.nbc)}")
    need(d.time == float(f"{f['time']:.13E}"), lambda: f"time {d.time!r} for {f['time']!r}")
    need([int(x) for x in d.elmap] == f["elmap"], lambda: f"elmap {d.elmap} for {f['elmap']}")
    need(len(d.elem) == f["nel"], "number of elements")
    for e, el in enumerate(d.elem):
        for name in ("pos", "vel", "pres", "temp", "scal"):
            a = getattr(el, name)
            x = expect(f[name][e], f["wdsz"], dtype)
            same(f"elem[{e}].{name}", a[: x.shape[0]], x)
            need(not np.any(a[x.shape[0]:]), f"elem[{e}].{name}: components missing from the file are not zero")
            need(a.dtype == np.dtype(dtype), lambda: f"elem[{e}].{name} read as {a.dtype}, asked for {dtype}")
            ctx.ev("arrays_compared")


def case(ctx, rng):
    if rng.random() < 0.03:
        ctx.ev("wide_fields")
        trip(ctx, rng, gen.wide_field(rng))
    else:
        trip(ctx, rng, gen.rand_field(rng, nel=int(rng.choice([1, 2, 3, 4, 6, 9]))))


def big(ctx, rng):
    trip(ctx, rng, gen.big_field(rng))
    ctx.ev("large_meshes")


FIXED = [big]


def trip(ctx, rng, f):
    ctx.note(gen.describe_field(f))
    exact = rng.random() < 0.7
    if f["wdsz"] == 4 and not exact:  # values that have to be rounded
        for k in ("pos", "vel", "pres", "temp", "scal"):
            f[k] = gen.values(rng, f[k].shape, 8, special=False)
    dtype = "float32" if f["wdsz"] == 4 and exact and rng.random() < 0.3 else "float64"
    mesh = gen.to_hexa(f, dtype, seq=[list, tuple][int(rng.integers(0, 2))])
    p1, p2 = ctx.path("a0.f00001"), ctx.path("b0.f00001")
    name = Path(p1) if rng.random() < 0.3 else p1
    writenek(name, mesh)
    rdt = [dtype, np.dtype(dtype).type][int(rng.integers(0, 2))]
    d = readnek(name, dtype=rdt) if dtype != "float64" or rng.random() < 0.5 else readnek(name)
    compare(ctx, d, f, dtype)
    writenek(p2, d)
    a, b = open(p1, "rb").read(), open(p2, "rb").read()
    need(a == b, f"writing back what was read gives another file ({len(a)} and {len(b)} bytes, first difference at {next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)})")
    compare(ctx, readnek(p2, dtype=rdt), f, dtype)
    ctx.ev("roundtrips")
    ctx.ev("rewrites_identical")
    ctx.ev("bytes_written", len(a) + len(b))
    perm = f["elmap"] != sorted(f["elmap"])
    ctx.ev("big_endian", int(f["endian"] == "big"))
    ctx.ev("single_precision", int(f["wdsz"] == 4))
    ctx.ev("permuted_elmap", int(perm))
    ctx.distinct(f["ndim"], tuple(f["lr1"]), tuple(f["var"]), f["wdsz"], f["endian"], perm, dtype)
    os.remove(p1)
