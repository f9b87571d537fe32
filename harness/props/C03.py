"""readnek on files made by an independent encoder: whole, partial, damaged map, skipped variables."""
import gen
import numpy as np
import refio
from lib import need, same
from pymech.neksuite import readnek

LEVEL = "exploration"
CASES = dict(quick=5000, thorough=150000)
RULE = "distinct (ndim, var, word size, byte order, part count, map kind, skipped set, dtype) combinations of files read"
REQUIRED = dict(files_read=400, partial_files=100, zero_maps=40, skipped_reads=150, components_skipped=200, components_compared=3000, wide_fields=50, large_meshes=1)

ALIAS = {
    "x": ["x"], "y": ["y"], "z": ["z"], "u": ["ux", "vx"], "v": ["uy", "vy"], "w": ["uz", "vz"],
    "p": ["p", "pressure"], "t": ["t", "temperature"],
}


def case(ctx, rng):
    if rng.random() < 0.03:
        ctx.ev("wide_fields")
        read(ctx, rng, gen.wide_field(rng))
    else:
        read(ctx, rng, gen.rand_field(rng, maxscal=4))


def big(ctx, rng):
    read(ctx, rng, gen.big_field(rng, nel=int(rng.integers(65540, 67000))))
    ctx.ev("large_meshes")


FIXED = [big]


def read(ctx, rng, f):
    nel = f["nel"]
    ctx.note(gen.describe_field(f))
    order = [e - 1 for e in f["elmap"]]
    nparts = int(rng.integers(1, min(nel, 3) + 1)) if rng.random() < 0.5 else 1
    cuts = sorted(rng.choice(np.arange(1, nel), nparts - 1, replace=False).tolist()) if nparts > 1 else []
    parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [nel])]
    zero = rng.random() < 0.12
    spaced = rng.random() < 0.2
    meta = rng.random() < 0.7
    trail = str(rng.choice(["", "", " 1.0000000E+00 F", "  0.0000000E+00 T", " 1.0E+00"]))  # reference pressure, pressure mesh
    dtype = [("float64", "f8"), ("float32", "f4"), (np.float64, "f8"), (np.float32, "f4"), ("f4", "f4")][int(rng.integers(0, 5))]
    # what to skip
    names = [n for n in ("x", "y", "z", "u", "v", "w", "p", "t")] + [f"s{i:02d}" for i in range(1, f["var"][4] + 1)]
    skip = set()
    if rng.random() < 0.6:
        pr = rng.choice([0.15, 0.5, 0.9])
        skip = {n for n in names if rng.random() < pr}
    words = [str(rng.choice(ALIAS.get(n, [n]))) for n in sorted(skip)]
    if skip and rng.random() < 0.4:  # both names of some components, and names of nothing
        words += [w for n in sorted(skip) for w in ALIAS.get(n, [n]) if rng.random() < 0.5 and w not in words]
        words += [str(w) for w in rng.choice(["s98", "X", "vel", "s1", "pos", "xx", "scalar", "s001", ""], int(rng.integers(0, 3)))]
    rng.shuffle(words)
    sk = [tuple, list, set][int(rng.integers(0, 3))](words)
    comp = dict(pos=["x", "y", "z"], vel=["u", "v", "w"], pres=["p"], temp=["t"], scal=[f"s{i:02d}" for i in range(1, f["var"][4] + 1)])
    for ip, part in enumerate(parts):
        elmap = [e + 1 for e in part]
        if zero:
            elmap[int(rng.integers(0, len(elmap)))] = 0
        buf = refio.fld_encode(f, elems=part, fid=ip, nfiles=nparts, elmap=elmap, spaced=spaced, metadata=meta, trail=trail)
        p = ctx.path(f"f0.f{ip:05d}")
        open(p, "wb").write(buf)
        ctx.note(f"part {ip}: elements {part} map {elmap} skip {sk} dtype {dtype[0]}")
        kw = {}
        if skip or rng.random() < 0.3:
            kw["skip_vars"] = sk
        d = readnek(p, dtype=dtype[0], **kw)
        need((d.nel, d.ndim, d.wdsz, d.endian, d.istep) == (nel, f["ndim"], f["wdsz"], f["endian"], f["istep"]), lambda: f"metadata {(d.nel, d.ndim, d.wdsz, d.endian, d.istep)}")
        need(tuple(d.lr1) == tuple(f["lr1"]) and tuple(d.var) == tuple(f["var"]), lambda: f"lr1 {d.lr1} var {d.var}")
        need(d.time == float(f"{f['time']:.13E}"), lambda: f"time {d.time!r} for {f['time']!r}")
        need([int(x) for x in d.elmap] == elmap, lambda: f"elmap {d.elmap}, in the file {elmap}")
        where = list(range(len(part))) if zero else part
        src = dict(zip(where, part))
        for e, el in enumerate(d.elem):
            for k, n in zip(("pos", "vel", "pres", "temp", "scal"), f["var"]):
                a = getattr(el, k)
                for c in range(a.shape[0]):
                    if e not in src or c >= n or comp[k][c] in skip:
                        need(not np.any(a[c]), lambda: f"elem[{e}].{k}[{c}] should not have been read")
                        ctx.ev("components_skipped")
                    else:
                        same(f"elem[{e}].{k}[{c}]", a[c], f[k][src[e], c].astype("f4" if f["wdsz"] == 4 else "f8").astype(dtype[1]))
                        ctx.ev("components_compared")
        ctx.ev("files_read")
        ctx.ev("partial_files", int(nparts > 1))
        ctx.ev("zero_maps", int(zero))
        ctx.ev("skipped_reads", int(bool(skip)))
    ctx.distinct(f["ndim"], tuple(f["var"]), f["wdsz"], f["endian"], nparts, zero, tuple(sorted(skip)), dtype[1], spaced)
