"""readma2 on files from an independent encoder."""
import numpy as np
import refio
from lib import need, same
from pymech.neksuite import readma2

LEVEL = "exploration"
CASES = dict(quick=8000, thorough=200000)
RULE = "distinct (nel, vertices per element, byte order, trailing data) files"
REQUIRED = dict(files_read=2000, rows_compared=20000, big_endian=500, large_maps=1)


def big(ctx, rng):
    """More elements than two bytes can count."""
    one(ctx, rng, 65536 + int(rng.integers(0, 5000)))
    ctx.ev("large_maps")


FIXED = [big]


def case(ctx, rng):
    one(ctx, rng, int(rng.integers(1, 60) if rng.random() < 0.98 else rng.integers(60, 1500)))


def one(ctx, rng, nel):
    nv = int(rng.choice([4, 8]))
    endian = str(rng.choice(["little", "big"]))
    proc = rng.integers(0, 2**31 - 1 if rng.random() < 0.2 else 64, nel)
    cell = rng.integers(1, 2**31 - 1 if rng.random() < 0.3 else 8 * nel + 1, (nel, nv))
    extra = b"\0" * int(rng.integers(0, 2) * 8)
    ctx.note(f"nel={nel} nv={nv} {endian} extra={len(extra)}")
    p = ctx.path("m.ma2")
    open(p, "wb").write(refio.ma2_encode(nel, nv, proc, cell, endian, nactive=int(rng.integers(0, nel + 1)), extra=extra))
    c, q = readma2(p)
    same("cell", c, cell)
    same("procmap", q, proc)
    need(np.issubdtype(c.dtype, np.integer) and np.issubdtype(q.dtype, np.integer), lambda: f"indices of types {c.dtype} and {q.dtype}")
    ctx.ev("files_read")
    ctx.ev("rows_compared", nel)
    ctx.ev("big_endian", int(endian == "big"))
    ctx.distinct(nel, nv, endian, len(extra))
