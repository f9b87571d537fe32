"""hexa2vtk: cells, points and values, seen through a stand-in for the VTK classes."""
import sys
import types

import gen
import numpy as np
from lib import need, same, unchanged

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=60000)
RULE = "distinct (ndim, nel, lr1, fields, downsampling) conversions"
REQUIRED = dict(conversions=400, cells_checked=10000, values_compared=20000, downsampled=100, planes_in_space=60, written=30)


class Arr:
    def __init__(self, a):
        self.a, self.name = np.array(a), None


class PointData:
    def __init__(self):
        self.__dict__["arrays"] = []
        self.__dict__["active"] = {}

    def __setattr__(self, k, v):
        if k in ("vectors", "scalars"):
            a = Arr(v)
            self.arrays.append(a)
            self.active[k] = a
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        if k in ("vectors", "scalars"):
            return self.active[k]
        raise AttributeError(k)

    def add_array(self, a):
        self.arrays.append(Arr(a))
        return len(self.arrays) - 1

    def get_array(self, i):
        return self.arrays[i] if not isinstance(i, str) else next(a for a in self.arrays if a.name == i)

    def update(self):
        pass


class CellArray:
    def set_cells(self, n, ids):
        self.n, self.ids = n, np.array(ids)


class UnstructuredGrid:
    def __init__(self, points=None):
        self.points = None if points is None else np.array(points)
        self.point_data = PointData()

    def set_cells(self, types_, offsets, cells):
        self.types, self.offsets, self.cells = np.array(types_), np.array(offsets), cells


def kind(n):
    class C:
        cell_type = n

    return C


def setup(ctx):
    api = types.ModuleType("tvtk.api")
    tv = types.SimpleNamespace(Hexahedron=kind(12), Quad=kind(9), CellArray=CellArray, UnstructuredGrid=UnstructuredGrid)
    api.tvtk, api.write_data = tv, (lambda *a, **k: WRITTEN.append((a, k)))
    top = types.ModuleType("tvtk")
    top.api = api
    sys.modules["tvtk"], sys.modules["tvtk.api"] = top, api
    sys.modules.pop("pymech.vtksuite", None)


WRITTEN = []

# corners of the VTK cells, as (iz, iy, ix)
HEX = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)]


def case(ctx, rng):
    from pymech.vtksuite import hexa2vtk

    while True:
        f = gen.rand_field(rng, nel=int(rng.choice([1, 2, 3, 5])), special=False, maxscal=3)
        if f["var"][0] and (max(f["lr1"]) <= 8 or f["nel"] == 1):
            break
    nd, lr1, nel = f["ndim"], f["lr1"], f["nel"]
    # every point can be told from its coordinates
    f["pos"] = rng.permutation(np.arange(f["pos"].size, dtype="f8")).reshape(f["pos"].shape)
    if rng.random() < 0.3:
        f["pos"] += 1000.0  # away from the origin
    mesh = gen.to_hexa(f)
    if nd == 2 and rng.random() < 0.5:  # a plane that is not at z = 0
        for el in mesh.elem:
            el.pos[2] = float(rng.standard_normal()) + 0.01 * rng.standard_normal(el.pos[2].shape)
        ctx.ev("planes_in_space")
    if nd == 2 and f["var"][1] and rng.random() < 0.5:  # a flow through the plane
        for el in mesh.elem:
            el.vel[2] = rng.standard_normal(el.vel[2].shape)
    down = bool(rng.random() < 0.35)
    ctx.note(gen.describe_field(f), f"downsample={down}")
    with unchanged(ctx, "hexa2vtk", mesh):
        ds = hexa2vtk(mesh, downsample=down) if down or rng.random() < 0.5 else hexa2vtk(mesh)
    it = [range(0, lr1[d], max(lr1[d] - 1, 1) if down else 1) for d in range(3)]
    n = [len(x) for x in it]
    nv = 8 if nd == 3 else 4
    ncell = (n[0] - 1) * (n[1] - 1) * max(n[2] - 1, 1) * nel
    ids = ds.cells.ids
    need(ds.cells.n == ncell and ids.size == ncell * (nv + 1), lambda: f"{ds.cells.n} cells and {ids.size} entries, expected {ncell} cells of {nv} points")
    ids = ids.reshape(ncell, nv + 1)
    need(np.all(ids[:, 0] == nv) and np.all(ids == np.round(ids)), "number of points of the cells")
    need(ds.types.size == ncell and np.all(ds.types == (12 if nd == 3 else 9)), "types of the cells")
    need(ds.offsets.size == ncell and np.all(ds.offsets == np.arange(ncell) * (nv + 1)), lambda: f"offsets of the cells {ds.offsets[:9].tolist()}..., the cells start every {nv + 1} entries of the cell array")
    npts = nel * n[0] * n[1] * n[2]
    need(ds.points.shape == (npts, 3), lambda: f"{len(ds.points)} points in the dataset, the elements have {npts}")
    for a in ds.point_data.arrays:
        need(len(a.a) == npts, lambda: f"array {a.name} has {len(a.a)} values for {npts} points")
    con = ids[:, 1:].astype(int)
    need(con.size == 0 or (con.min() >= 0 and con.max() < len(ds.points)), lambda: f"cells refer to points {con.min()}..{con.max()} of {len(ds.points)}")
    need(np.array_equal(np.unique(con), np.arange(npts)) if ncell else True, "some points do not belong to any cell")
    # expected cells, by the coordinates of their first corner
    arrays = {a.name: a.a for a in ds.point_data.arrays}
    names = {}
    if f["var"][1]:
        names["vel"] = None
    if f["var"][2]:
        names["pres"] = None
    if f["var"][3]:
        names["temp"] = None
    for s in range(f["var"][4]):
        names[f"scal_{s + 1}"] = s
    need(len(arrays) == len(ds.point_data.arrays) and set(arrays) == set(names), lambda: f"arrays {[a.name for a in ds.point_data.arrays]}, expected {sorted(names)}")
    first = {}
    for c in range(ncell):
        first[ds.points[con[c, 0]].tobytes()] = c
    seen = set()
    for e, el in enumerate(mesh.elem):
        for k in range(max(n[2] - 1, 1)):
            for j in range(n[1] - 1):
                for i in range(n[0] - 1):
                    idx = [(it[2][k + a] if nd == 3 else 0, it[1][j + b], it[0][i + c]) for a, b, c in HEX[:nv]]
                    c = first.get(el.pos[(slice(None),) + idx[0]].tobytes())
                    need(c is not None and c not in seen, lambda: f"no cell starts at point {idx[0]} of element {e}")
                    seen.add(c)
                    for q, ix in enumerate(idx):
                        pt = con[c, q]
                        same(f"corner {q} of the cell at {idx[0]} of element {e}", ds.points[pt], el.pos[(slice(None),) + ix])
                        for name, s in names.items():
                            v = arrays[name][pt]
                            w = el.vel[(slice(None),) + ix] if name == "vel" else el.pres[(0,) + ix] if name == "pres" else el.temp[(0,) + ix] if name == "temp" else el.scal[(s,) + ix]
                            same(f"{name} at corner {q} of the cell at {idx[0]} of element {e}", v, w)
                            ctx.ev("values_compared")
                    ctx.ev("cells_checked")
    ctx.ev("conversions")
    if rng.random() < 0.1:
        write(ctx, rng, mesh, ds)
    ctx.ev("downsampled", int(down))
    ctx.distinct(nd, nel, tuple(lr1), tuple(f["var"]), down)


def many(ctx, rng):
    """More points and cells than fit two bytes."""
    from pymech.core import HexaData
    from pymech.vtksuite import hexa2vtk

    lr1, nel = (11, 10, 1), 640
    mesh = HexaData(2, nel, list(lr1), [2, 2, 1, 0, 1])
    for e, el in enumerate(mesh.elem):
        el.pos[0] = np.arange(11.0) + 20 * e
        el.pos[1] = np.arange(10.0)[:, None]
        el.vel[:2], el.pres[:], el.scal[:] = rng.standard_normal((2, 1, 10, 11)), rng.standard_normal((1, 10, 11)), rng.standard_normal((1, 10, 11))
    ds = hexa2vtk(mesh)
    n = nel * 90
    need(ds.points.shape == (nel * 110, 3) and ds.cells.n == n and len(ds.types) == n and np.array_equal(ds.offsets, 5 * np.arange(n)), lambda: f"{ds.points.shape} points, {ds.cells.n} cells")
    c = ds.cells.ids.reshape(n, 5)
    need(np.all(c[:, 0] == 4), "number of points of the cells")
    c = c[:, 1:].astype(int)
    x, y = ds.points[c, 0], ds.points[c, 1]
    need(np.all(np.diff(x - x[:, :1]) == [1, 0, -1]) and np.all(np.diff(y - y[:, :1]) == [0, 1, 0]), "corners of the cells")
    need(len(np.unique(x[:, 0] * 100 + y[:, 0])) == n, "some cells are there twice")
    e, i, j = (ds.points[:, 0] // 20).astype(int), (ds.points[:, 0] % 20).astype(int), ds.points[:, 1].astype(int)
    need(len(np.unique(ds.points[:, 0] * 100 + ds.points[:, 1])) == nel * 110, "some points are there twice")
    a = {v.name: v.a for v in ds.point_data.arrays}
    same("velocity", np.asarray(a["vel"]), np.array([el.vel for el in mesh.elem])[e, :, 0, j, i])
    same("pressure", np.asarray(a["pres"]), np.array([el.pres for el in mesh.elem])[e, 0, 0, j, i])
    same("scalar", np.asarray(a["scal_1"]), np.array([el.scal for el in mesh.elem])[e, 0, 0, j, i])
    ctx.ev("many_points", nel * 110)


FIXED = [many]


def write(ctx, rng, mesh, ref):
    """What writevtk hands over to VTK, and under what name."""
    from pathlib import Path

    from pymech.vtksuite import writevtk

    stem = str(rng.choice(["out", "a.b", "x_0.f00001", "with space", "UPPER", "run.vtp"]))
    name = ctx.path(stem)
    del WRITTEN[:]
    with unchanged(ctx, "writevtk", mesh):
        writevtk(Path(name) if rng.random() < 0.5 else name, mesh)
    need(len(WRITTEN) == 1 and len(WRITTEN[0][0]) == 2 and not WRITTEN[0][1], lambda: f"writevtk wrote {len(WRITTEN)} datasets")
    ds, fname = WRITTEN[0][0]
    need(str(fname) == str(Path(name).with_suffix(".vtp")), lambda: f"writevtk({stem!r}) writes {fname!r}")
    for what in ("points", "types", "offsets"):
        same(f"{what} of the dataset written", getattr(ds, what), getattr(ref if len(ref.points) == len(ds.points) else ds, what))
    need(len(ds.points) == sum(el.pos[0].size for el in mesh.elem), "the dataset written does not have every point")
    need([a.name for a in ds.point_data.arrays] == [a.name for a in ref.point_data.arrays], "arrays of the dataset written")
    ctx.ev("written")
