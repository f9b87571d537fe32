"""Equivalent ways to pass the same arguments give the same result."""
import copy
import math
from pathlib import Path

import gen
import jobs
import numpy as np
import refio
from lib import HexaData, alike, need, snap
from props.C10 import random_dns, random_plane
from props.C16 import ends, rand_z
from props.C17 import split_mesh
from pymech import meshtools as mt
from pymech import neksuite as nk
from pymech.core import Elem
from pymech.dataset import open_dataset
from pymech.neksuite.field import Header, read_header
from pymech.simsonsuite import readdns, readplane

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=80000)
RULE = "distinct (operation, forms of the arguments, by position or name)"


class Path_(str):
    """A file name."""


class Ints(list):
    """A sequence of whole numbers, of a length the function does not change."""


def form(rng, v):
    """Another form of the same value, and its name."""
    if isinstance(v, Path_):
        f = [lambda: str(v), lambda: Path(v)]
    elif isinstance(v, bool):
        f = [lambda: v, lambda: np.bool_(v), lambda: int(v)]
    elif isinstance(v, int):
        f = [lambda: v, lambda: np.int64(v), lambda: np.int32(v)]
    elif isinstance(v, float):
        f = [lambda: v, lambda: np.float64(v), lambda: np.array([v])[0]] + ([lambda: int(v)] if v == int(v) and abs(v) < 1e15 else [])
    elif isinstance(v, list) and v and all(isinstance(x, (int, float)) for x in v):
        f = [lambda: list(v), lambda: tuple(v), lambda: np.array(v), lambda: [np.array(v)[i] for i in range(len(v))]]
        f += [lambda: np.array([v, v]).T[:, 0]]  # not contiguous
    elif isinstance(v, list) and all(isinstance(x, str) for x in v):
        f = [lambda: list(v), lambda: tuple(v)]
    elif isinstance(v, list):  # of functions
        f = [lambda: list(v), lambda: tuple(v)]
    else:
        return v, "as it is"
    k = int(rng.integers(0, len(f)))
    return f[k](), f"{type(v).__name__} form {k}"


ARR = ("pos", "curv", "vel", "pres", "temp", "scal", "bcs")
VALUES = ("pos", "vel", "pres", "temp", "scal")


def same_mesh(rng, m, fixed):
    """The same mesh, stored in another way."""
    m = copy.deepcopy(m)
    k = int(rng.integers(0, 8 if fixed else 7))
    if k == 0:
        m.lr1, m.var = tuple(m.lr1), tuple(m.var)
    elif k == 1:
        m.lr1, m.var = np.array(m.lr1), list(m.var)
    elif k == 2:
        for el in m.elem:
            for a in VALUES:
                setattr(el, a, np.asfortranarray(getattr(el, a)))
    elif k == 5:  # views of larger arrays
        for el in m.elem:
            for a in VALUES:
                v = getattr(el, a)
                w = np.empty((*v.shape[:-1], 2 * v.shape[-1]), v.dtype)[..., ::2]
                w[...] = v
                setattr(el, a, w)
    elif k == 6:  # turned round in memory
        for el in m.elem:
            for a in VALUES:
                setattr(el, a, getattr(el, a)[::-1].copy()[::-1])
    elif k == 7:  # what is not modified need not be modifiable
        m.elmap = np.array(m.elmap)
        m.elmap.flags.writeable = False
        for el in m.elem:
            for a in ARR:
                getattr(el, a).flags.writeable = False
    elif k == 3:
        m.elmap = np.array(m.elmap, dtype="i8")
    return m, f"mesh form {k}"


def mesh_of(rng, nd=None, **kw):
    nd = nd or int(rng.integers(2, 4))
    return gen.struct_mesh(rng, nd, maxn=3 if nd == 2 else 2, nbc=gen.rand_nbc(rng, 1, 2), curved=0.2, curv_kinds="mC" if nd == 2 else "m", params=False, **kw).mesh


# every operation: (function, names and values of its arguments in the order of the signature, defaults of those that may be left out)
def o_extrude(rng, p):
    m = mesh_of(rng, 2)
    b1, b2, _, _ = ends(rng, m.nbc)
    z = [float(x) for x in rand_z(rng, int(rng.integers(1, 5)))]
    if rng.random() < 0.3:
        z = [float(x) for x in np.cumsum(rng.integers(1, 4, len(z)))]
    return mt.extrude, dict(mesh=m, z=z, bc1=b1, bc2=b2, internal_bcs=bool(rng.random() < 0.5)), dict(bc1=None, bc2=None, internal_bcs=True)


def o_refine(rng, p):
    m, _, _, _, fun, par, _ = split_mesh(rng, 1, float(rng.choice([0, 0.5])))
    ih = int(rng.integers(0, 2))
    b1, b2, _, _ = ends(rng, m.mesh.nbc)
    z = [float(x) for x in rand_z(rng, 4)]
    return (mt.extrude_refine, dict(mesh2D=m.mesh, z=z, bc1=b1, bc2=b2, fun=fun, funpar=par, imesh_high=ih, internal_bcs=bool(rng.random() < 0.5)),
            dict(bc1=None, bc2=None, imesh_high=0, internal_bcs=True))


def o_box(rng, p):
    var = Ints([2, 2, 1, 1, int(rng.integers(0, 3))])
    nbc = 2 + var[4]
    bc = lambda: jobs.tags(rng, nbc)  # noqa: E731
    x, y = sorted(float(v) for v in rng.integers(-3, 4, 2)), sorted(float(v) for v in rng.uniform(-3, 3, 2))
    if x[0] == x[1]:
        x[1] += 1.0
    return mt.gen_box, dict(nx=int(rng.integers(1, 5)), ny=int(rng.integers(1, 5)), xmin=x[0], xmax=x[1], ymin=y[0], ymax=y[1], var=var,
                            bcs_xmin=bc(), bcs_xmax=bc(), bcs_ymin=bc(), bcs_ymax=bc(), internal_bcs=bool(rng.random() < 0.5)), dict(internal_bcs=True)


def o_circle(rng, p):
    var = Ints([2, 2, 1, 1, int(rng.integers(0, 2))])
    cf, bf = (lambda x: math.sin(0.5 * math.pi * x) ** 2), (lambda x: x**1.3)
    return mt.gen_circle, dict(r=float(rng.choice([1.0, 2.0, 0.7])), s=float(rng.uniform(0.2, 0.7)), ns=int(rng.integers(1, 4)), no=int(rng.integers(1, 4)),
                               curvature_fun=cf, bl_fun=bf, var=var, bc=jobs.tags(rng, 2 + var[4]), internal_bcs=bool(rng.random() < 0.5)), dict(internal_bcs=True)


def o_map(rng, p):
    c = float(rng.uniform(0.5, 1.5))
    return (mt.map2D, dict(mesh=mesh_of(rng, 2), transformation=lambda x, y: (c * x + 0.1 * y, y - 0.1 * x), curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5)),
            dict(curvature=True, boundary_curvature=True))


def in_place(fn):
    def call(mesh, *a, **k):
        return fn(mesh, *a, **k), mesh

    call.changes = ("mesh", "self")
    return call


def o_keep(rng, p):
    m = mesh_of(rng)
    e = Ints(int(x) for x in rng.choice(m.nel, int(rng.integers(1, m.nel + 1)), replace=False))
    return in_place(mt.keep_elements), dict(mesh=m, elems=e, external_bc=str(rng.choice(["", "W"]))), dict(external_bc="")


def o_rotate(rng, p):
    return in_place(mt.rotate_2d), dict(mesh=mesh_of(rng), x0=float(rng.choice([0.0, 1.0, 0.3])), y0=float(rng.choice([0.0, -2.0, 0.7])), theta=float(rng.choice([1.0, -0.3, 2.5]))), {}


def o_internal(rng, p):
    m = mesh_of(rng)
    mt.delete_internal_bcs(m)
    return in_place(mt.generate_internal_bcs), dict(mesh=m, tol=float(rng.choice([1e-3, 1e-2, 0.0]))), dict(tol=1e-3)


def o_check(rng, p):
    return in_place(HexaData.check_connectivity), dict(self=mesh_of(rng), tol=float(rng.choice([1e-3, 1e-2]))), dict(tol=1e-3)


def o_offset(rng, p):
    return in_place(HexaData.offset_connectivity), dict(self=mesh_of(rng), offset=int(rng.integers(-3, 9)), iel_min=int(rng.integers(0, 3))), dict(iel_min=0)


def o_merge(rng, p):
    m = mesh_of(rng)
    n = int(rng.integers(1, m.nel)) if m.nel > 1 else 1
    a, b = copy.deepcopy(m), copy.deepcopy(m)
    t = str(rng.choice(["", "W"]))
    mt.keep_elements(a, list(range(n)), external_bc=t)
    mt.keep_elements(b, list(range(n, m.nel)) or [0], external_bc=t)
    return in_place(HexaData.merge), dict(self=a, other=b, tol=float(rng.choice([1e-2, 1e-3])), ignore_empty=bool(rng.random() < 0.5), ignore_all_bcs=bool(rng.random() < 0.2)), dict(tol=1e-2, ignore_empty=True, ignore_all_bcs=False)


def o_expo(rng, p):
    return mt.exponential_refinement_parameter, dict(l0=float(rng.choice([1.0, 0.01, 2.0])), ltot=float(rng.choice([10.0, 3.5, 200.0])), n=int(rng.integers(1, 30))), {}


def o_edge(rng, p):
    m = mesh_of(rng)
    e = int(rng.integers(0, 4 if m.ndim == 2 else 12))
    el = m.elem[int(rng.integers(0, m.nel))]
    mid = [float(v) for v in mt.edge_mid(el, e)]

    def both(iedge, midpoint):
        return np.array(mt.edge_mid(el, iedge), "f8"), np.array(mt.edge_circle(el, iedge, np.array(midpoint)), "f8"), el.face_center(iedge % 4)

    return both, dict(iedge=e, midpoint=mid), {}


def o_new(rng, p):
    nd = int(rng.integers(2, 4))
    lr1 = Ints(int(x) for x in rng.integers(2, 5, 3))
    if nd == 2:
        lr1[2] = 1
    var = Ints([nd, nd, 1, 1, int(rng.integers(0, 3))])
    nbc, dt = int(rng.integers(0, 3)), str(rng.choice(["float32", "float64"]))
    kinds = {"float32": ["float32", "f4", "single"], "float64": ["float64", "f8", "double"]}[dt]

    def new(ndim, nel, lr1, var, nbc, k):
        return HexaData(ndim, nel, lr1, var, nbc, kinds[k % len(kinds)]), HexaData(ndim, nel, lr1, var, nbc=nbc, dtype=dt), Elem(var, lr1, nbc, kinds[k % len(kinds)]).pos

    return new, dict(ndim=nd, nel=int(rng.integers(1, 5)), lr1=lr1, var=var, nbc=nbc, k=int(rng.integers(0, 20))), {}


def written(fn):
    def call(fname, data):
        fn(fname, data)
        return jobs.content(fname), data

    return call


def o_writenek(rng, p):
    return written(nk.writenek), dict(fname=Path_(p + "w0.f00001"), data=gen.to_hexa(gen.rand_field(rng))), {}


def o_writere2(rng, p):
    return written(nk.writere2), dict(fname=Path_(p + "w.re2"), data=mesh_of(rng)), {}


def o_writerea(rng, p):
    return written(nk.writerea), dict(fname=Path_(p + "w.rea"), data=mesh_of(rng)), {}


def o_readnek(rng, p):
    jobs.save(p + "a0.f00001", refio.fld_encode(gen.rand_field(rng)))
    sk = [v for v in ("x", "y", "z", "ux", "uy", "uz", "pressure", "temperature", "s01", "s02") if rng.random() < 0.25]
    dt = str(rng.choice(["float32", "float64"]))
    kinds = {"float32": ["float32", np.float32, np.dtype("f4")], "float64": ["float64", np.float64, np.dtype("f8")]}[dt]

    def read(fname, k, skip_vars):
        return nk.readnek(fname, kinds[k % len(kinds)], skip_vars), nk.readnek(skip_vars=skip_vars, dtype=dt, fname=fname)

    return read, dict(fname=Path_(p + "a0.f00001"), k=int(rng.integers(0, 9)), skip_vars=sk), {}


def o_header(rng, p):
    jobs.save(p + "a0.f00001", refio.fld_encode(gen.rand_field(rng)))

    def read(path):
        with open(path, "rb") as fp:
            h = read_header(fp)
        need(h == read_header(path), "the header of a stream and of its file differ")
        return repr(h), h.as_bytestring()

    return read, dict(path=Path_(p + "a0.f00001")), {}


def o_newheader(rng, p):
    nd = int(rng.integers(2, 4))
    lr1 = Ints(int(x) for x in rng.integers(2, 5, 3))
    if nd == 2:
        lr1[2] = 1

    def make(orders, nb_vars, **k):
        return Header(orders=tuple(orders), nb_vars=tuple(nb_vars), **k).as_bytestring()

    return make, dict(orders=lr1, nb_vars=Ints([nd, nd, 1, 1, int(rng.integers(0, 3))]), wdsz=int(rng.choice([4, 8])), nb_elems=int(rng.integers(1, 99)), nb_elems_file=1, time=float(rng.choice([0.0, 3.0, 1.25])),
                      istep=int(rng.integers(0, 99)), fid=0, nb_files=1), {}


def o_meshes(rng, p):
    nk.writere2(p + "a.re2", mesh_of(rng)), nk.writerea(p + "a.rea", mesh_of(rng))
    jobs.save(p + "a.ma2", refio.ma2_encode(3, 4, rng.integers(0, 50, 3), rng.integers(1, 400, (3, 4)), str(rng.choice(["little", "big"]))))
    jobs.save(p + "a.u", refio.dns_encode(random_dns(rng, modes=True)))
    jobs.save(p + "a.pl", refio.plane_encode(*random_plane(rng)))
    k = int(rng.integers(0, 5))
    fn = [nk.readre2, nk.readrea, nk.readma2, readdns, readplane][k]
    return fn, dict(fname=Path_(p + ["a.re2", "a.rea", "a.ma2", "a.u", "a.pl"][k])), {}


def o_dataset(rng, p):
    nk.writenek(p + "b0.f00001", mt.gen_box(2, 3, 0, 1, 0, 2))

    def read(path):
        d = open_dataset(path)
        return [d[v].values for v in sorted(d.data_vars)], float(d.time)

    return read, dict(path=Path_(p + "b0.f00001")), {}


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
REQUIRED = dict(calls_compared=6000, by_name=2000, forms=4000, unmodifiable=100, **{"op_" + k: 60 for k in OPS})
BY_POSITION = {"self", "mesh"}  # given by position where the operation wraps a function


def call(ctx, rng, fn, args, defaults, base):
    a, k, log = [], {}, []
    pos = True
    for n, v in args.items():
        if n in defaults and not base and (v == defaults[n] or v is defaults[n]) and rng.random() < 0.5:
            pos = False
            log.append(f"{n} left out")
            continue
        if hasattr(v, "elem"):
            v, what = (copy.deepcopy(v), "") if base else same_mesh(rng, v, n not in getattr(fn, "changes", ()))
            ctx.ev("unmodifiable", int(what.endswith("7")))
        elif base:
            v, what = (str(v), "") if isinstance(v, Path_) else (copy.copy(v), "")
        else:
            v, what = form(rng, v)
            ctx.ev("forms", int(what != "as it is"))
        pos = pos and (base or n in BY_POSITION or n in ("fname", "data") or rng.random() < 0.7)
        if pos and n not in ("wdsz", "nb_elems", "nb_elems_file", "time", "istep", "fid", "nb_files"):
            a.append(v)
        else:
            k[n] = v
            pos = False
            ctx.ev("by_name")
        log.append(f"{n}{'=' if n in k else ''} {what}")
    return (lambda: plain(fn(*a, **k))), log


def plain(t):
    """Values without regard to the types of the numbers."""
    if isinstance(t, np.generic):
        return t.item()
    if isinstance(t, (list, tuple)):
        return [plain(x) for x in t]
    if hasattr(t, "elem"):
        s = {k: plain(v) for k, v in snap(t).items() if k != "elem"}
        return [s, [{a: np.array(getattr(el, a)) for a in ARR} | {"ccurv": list(el.ccurv)} for el in t.elem]]
    return t


def case(ctx, rng):
    name = sorted(OPS)[int(rng.integers(0, len(OPS)))]
    p = ctx.path("")
    fn, args, defaults = OPS[name](rng, p)
    ref = call(ctx, rng, fn, args, defaults, True)[0]()
    for _ in range(2):
        f, log = call(ctx, rng, fn, args, defaults, False)
        ctx.note(f"{name}: {log}")
        try:
            got = f()
        except Exception as e:
            need(False, f"{name} fails ({type(e).__name__}: {e}) with arguments in another form: {log}")
        need(alike(got, ref), lambda: f"{name} gives another result with the same arguments in another form: {log}")
        ctx.ev("calls_compared")
        ctx.distinct(name, tuple(log))
    ctx.ev("op_" + name)
