"""open_dataset / open_mfdataset: every value at its place and time, for boxes; anything else is refused."""
from pathlib import Path

import gen
import numpy as np
import refio
import xarray as xr
from lib import Violation, need, same
from pymech.dataset import open_dataset, open_mfdataset

LEVEL = "exploration"
CASES = dict(quick=1000, thorough=5000)
RULE = "distinct (ndim, shape, lr1, fields, precision, byte order) boxes opened, and kinds of other meshes refused"
REQUIRED = dict(opened=80, values_compared=50000, refused=25, dropped=15, time_series=15, through_xarray=30)


def nodes(rng, n):
    if n == 1:
        return np.zeros(1)
    x = np.sort(np.concatenate(([0.0, 1.0], rng.uniform(0.05, 0.95, n - 2))))
    while np.any(np.diff(x) < 1e-3):
        x = np.sort(np.concatenate(([0.0, 1.0], rng.uniform(0.05, 0.95, n - 2))))
    return x


def box(rng, like=None):
    """A field on a box of elements, its element cells, its 1D coordinates."""
    if like is None:
        nd = int(rng.integers(2, 4))
        n = [int(x) for x in rng.integers(1, 4, nd)] + [1] * (3 - nd)
        lr1 = [int(x) for x in rng.integers(2, 6, nd)] + [1] * (3 - nd)
        k = rng.random()
        if k < 0.1:  # many elements one way
            n[int(rng.integers(0, nd))] = int(rng.integers(8, 14))
            lr1 = [2, 2, nd - 1]
        elif k < 0.2:  # high order one way
            lr1[int(rng.integers(0, nd))] = int(rng.integers(8, 17))
            n[2] = 1
        wdsz = int(rng.choice([4, 8]))
        co = []
        unit = float(10.0 ** rng.uniform(-4, 4)) if rng.random() < 0.4 else 1.0
        for d in range(3):
            if d >= nd:
                co.append([np.zeros(1)])
                continue
            edges = gen.spacing(rng, n[d]) + float(rng.uniform(-3, 3))
            w = nodes(rng, lr1[d])
            ch = [np.concatenate((a + (b - a) * w[:-1], [b])) for a, b in zip(edges[:-1], edges[1:])]
            if unit > 1 or unit * min(np.diff(c).min() for c in ch) > 2e-7:  # coordinates are distinguished up to 1e-8
                ch = [c * unit for c in ch]
            if wdsz == 4:
                ch = [c.astype("f4").astype("f8") for c in ch]
            co.append(ch)
        var = None
    else:
        nd, n, lr1, wdsz, co, var = like
    nel = n[0] * n[1] * n[2]
    while True:
        f = gen.rand_field(rng, ndim=nd, nel=nel, lr1=list(lr1), wdsz=wdsz, var=list(var) if var else None)
        if f["var"][0] == 0:
            f["var"][0] = nd
        if var is None or f["var"] == list(var):
            break
    for name in ("vel", "pres", "temp", "scal"):  # fields that are zero somewhere, or everywhere
        if rng.random() < 0.1:
            f[name][rng.random(nel) < rng.choice([0.5, 1.0])] = 0.0
    f["pos"] = np.zeros((nel, nd) + tuple(lr1[::-1]))
    f["time"] = float(f"{f['time']:.6g}")  # the header has 13 digits
    cells = [(k, j, i) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    cells = [cells[int(q)] for q in rng.permutation(nel)]
    for e, (k, j, i) in enumerate(cells):
        Z, Y, X = np.meshgrid(co[2][k], co[1][j], co[0][i], indexing="ij")
        for d, c in enumerate((X, Y, Z)[:nd]):
            f["pos"][e, d] = c
    return f, cells, co, n


def write(ctx, f, p):
    open(p, "wb").write(refio.fld_encode(f))


def compare(ctx, ds, f, cells, co, n, isel=None):
    """The data set holds every value of the field at its place."""
    lx, ly, lz = f["lr1"]
    for a, d in (("x", 0), ("y", 1), ("z", 2)):
        need(ds[a].dims == (a,), lambda: f"coordinate {a} has dimensions {ds[a].dims}")
        same(f"coordinate {a}", ds[a].values.astype("f8"), np.concatenate(co[d]))
    names = {"xmesh": ("pos", 0), "ymesh": ("pos", 1), "zmesh": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2)}
    if f["var"][2]:
        names["pressure"] = ("pres", 0)
    if f["var"][3]:
        names["temperature"] = ("temp", 0)
    for s in range(f["var"][4]):
        names[f"s{s + 1:02d}"] = ("scal", s)
    need(set(ds.data_vars) == set(names), lambda: f"variables {sorted(ds.data_vars)}, expected {sorted(names)}")
    for name, (arr, c) in names.items():
        v = ds[name]
        if isel is not None:
            v = v.isel(time=isel)
        need(v.dims == ("z", "y", "x"), lambda: f"{name} has dimensions {v.dims}")
        g = v.values
        exp = np.full((n[2] * lz, n[1] * ly, n[0] * lx), np.nan)
        for e, (k, j, i) in enumerate(cells):
            b = f[arr][e]
            exp[k * lz : (k + 1) * lz, j * ly : (j + 1) * ly, i * lx : (i + 1) * lx] = b[c] if c < b.shape[0] else 0.0
        same(name, g.astype("f8"), exp)
        ctx.ev("values_compared", g.size)


def case(ctx, rng):
    f, cells, co, n = box(rng)
    ctx.note(gen.describe_field(f), f"box {n} cells {cells}")
    p = ctx.path("a0.f00001")
    write(ctx, f, p)
    k = int(rng.integers(0, 5))
    if k == 0:
        return other(ctx, rng, f, p, n)
    if k == 1:
        return series(ctx, rng, f, cells, co, n)
    if k == 2:
        ds = xr.open_dataset(p, engine="pymech")
        ctx.ev("through_xarray")
    elif k == 3:
        ds = xr.open_dataset(p)
        ctx.ev("through_xarray")
    else:
        ds = open_dataset(p)
    need(float(ds.time) == f["time"], lambda: f"time {float(ds.time)!r}, expected {f['time']!r}")
    compare(ctx, ds, f, cells, co, n)
    ctx.ev("opened")
    if rng.random() < 0.5:
        names = [str(x) for x in ds.data_vars]
        drop = [str(x) for x in rng.choice(names, int(rng.integers(1, 4)), replace=False)]
        d2 = open_dataset(p, drop_variables=drop) if rng.random() < 0.5 else xr.open_dataset(p, engine="pymech", drop_variables=drop)
        need(set(d2.data_vars) == set(names) - set(drop), lambda: f"dropped {drop}: left {sorted(d2.data_vars)}")
        for v in d2.data_vars:
            same(f"{v} after dropping others", d2[v].values, ds[v].values)
        ctx.ev("dropped")
    ctx.distinct(f["ndim"], tuple(n), tuple(f["lr1"]), tuple(f["var"]), f["wdsz"], f["endian"], k)


def series(ctx, rng, f, cells, co, n):
    """Several files become one data set along time, in the order given."""
    fs, ps, cs = [], [], []
    d = ctx.path("")
    forward = rng.random() < 0.4
    back = not forward and rng.random() < 0.5
    for t in range(int(rng.integers(2, 5))):
        g, c, _, _ = box(rng, (f["ndim"], n, f["lr1"], f["wdsz"], co, f["var"]))
        g["time"] = round((float(t) * 0.5 if forward else 9.0 - 3 * t if back else 0.0) + float(rng.uniform(0, 0.3 if forward or back else 5)), 6)
        p = f"{d}a0.f{t + 1:05d}"
        write(ctx, g, p)
        fs.append(g), ps.append(p), cs.append(c)
    how = int(rng.integers(0, 5))
    kw = {}
    if how == 4:
        kw["drop_variables"] = ["ux"]
    ds = open_mfdataset(f"{d}a0.f0000*" if how == 0 else [Path(p) for p in ps] if how == 1 else tuple(ps) if how == 2 else ps, **kw)
    if kw:
        need("ux" not in ds, "a dropped variable is there")
        ds = ds.assign(ux=open_mfdataset(ps)["ux"])
    same("times", ds.time.values, np.array([g["time"] for g in fs]))
    for t, (g, c) in enumerate(zip(fs, cs)):
        compare(ctx, ds, g, c, co, n, isel=t)
    ds.close()
    ds.close()
    ctx.ev("time_series")
    ctx.distinct("series", f["ndim"], tuple(n), len(fs))


def other(ctx, rng, f, p, n):
    """Elements that are not boxes along the axes are refused, whatever the mesh looks like."""
    nd = f["ndim"]
    kind = str(rng.choice(["shear", "turned", "backwards", "bump", "swapped"]))
    e = int(rng.integers(0, f["nel"]))
    P = f["pos"][e]
    if kind == "shear":
        P[0] += 0.1 * (P[1] - P[1].min())
    elif kind == "turned":
        P[0], P[1] = 0.8 * P[0] - 0.6 * P[1], 0.6 * P[0] + 0.8 * P[1]
    elif kind == "backwards":
        a = int(rng.integers(0, nd))
        P[:] = np.flip(P, axis=3 - a)
        f["vel"][e] = np.flip(f["vel"][e], axis=3 - a)
    elif kind == "bump":
        i = tuple(int(rng.integers(0, k)) for k in f["lr1"][::-1])
        P[(int(rng.integers(0, nd)),) + i] += 1e-3 * (P[0].max() - P[0].min())
    else:
        P[[0, 1]] = np.swapaxes(P, 2, 3)[[0, 1]] if f["lr1"][0] == f["lr1"][1] else P[[1, 0]]
    if f["wdsz"] == 4:
        f["pos"] = f["pos"].astype("f4").astype("f8")
    ctx.note(f"element {e} made {kind}")
    write(ctx, f, p)
    ctx.raises(NotImplementedError, f"data set of a mesh with a {kind} element", open_dataset, p)
    ctx.ev("refused")
    ctx.distinct("other", nd, tuple(n), tuple(f["lr1"]), kind)
