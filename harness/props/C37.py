"""An operation that is interrupted or fails, wherever that happens, leaves its inputs and the process as they were."""
import copy
import gc
import os
import sys

import gen
import jobs
import numpy as np
import refio
from lib import SRC, need, snap, snap_diff
from props.C10 import random_dns, random_plane
from props.C16 import ends, rand_z
from props.C17 import split_mesh
from props.C28 import world
from props.C31 import table
from pymech import meshtools as mt
from pymech import neksuite as nk
from pymech.dataset import open_dataset
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane

LEVEL = "fault_enumeration"
CASES = dict(quick=3000, thorough=60000)
RULE = "distinct (operation, kind of fault, place of the fault)"
ROOT = str(SRC.resolve())
MON = sys.monitoring
TOOL = 4


class Fault:
    """Raises an exception when the n-th line of pymech is about to run."""

    def __init__(self):
        self.n = self.at = 0
        self.exc = self.where = None

    def setup(self):
        MON.use_tool_id(TOOL, "fault")
        MON.register_callback(TOOL, MON.events.LINE, self.line)

    def line(self, code, no):
        if not code.co_filename.startswith(ROOT):
            return MON.DISABLE
        self.n += 1
        if self.n == self.at:
            self.where = (code.co_name, no)
            raise self.exc("injected")

    def run(self, fn, at=0, exc=None):
        self.n, self.at, self.exc, self.where = 0, at, exc, None
        MON.set_events(TOOL, MON.events.LINE)
        try:
            return fn()
        finally:
            MON.set_events(TOOL, 0)


FAULT = Fault()


class Injected(Exception):
    pass


def setup(ctx):
    FAULT.setup()


def mesh_of(rng, nd=None):
    nd = nd or int(rng.integers(2, 4))
    return gen.struct_mesh(rng, nd, maxn=2, nbc=gen.rand_nbc(rng, 1, 2), curved=0.3, curv_kinds="mC" if nd == 2 else "m", params=False).mesh


# every operation: inputs that stay as they are, inputs that may be modified, the call (with the functions that are given to it passed through `cb`)
def o_extrude(rng, d):
    m = mesh_of(rng, 2)
    b1, b2, _, _ = ends(rng, m.nbc)
    z = list(rand_z(rng, int(rng.integers(1, 4))))
    i = bool(rng.random() < 0.7)
    return (m, z, b1, b2), (), lambda a, b, cb: mt.extrude(a[0], a[1], a[2], a[3], internal_bcs=i)


def o_refine(rng, d):
    s, _, _, _, fun, par, _ = split_mesh(rng, 1, float(rng.choice([0, 0.5])))
    ih, i = int(rng.integers(0, 2)), bool(rng.random() < 0.7)
    b1, b2, _, _ = ends(rng, s.mesh.nbc)
    return (s.mesh, list(rand_z(rng, 4)), b1, b2, par), (), lambda a, b, cb: mt.extrude_refine(a[0], a[1], a[2], a[3], fun=[cb(f) for f in fun], funpar=a[4], imesh_high=ih, internal_bcs=i)


def o_map(rng, d):
    kw = dict(curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5))
    return (mesh_of(rng, 2),), (), lambda a, b, cb: mt.map2D(a[0], cb(lambda x, y: (1.1 * x + 0.1 * y, y - 0.1 * x)), **kw)


def o_box(rng, d):
    v = [2, 2, 1, 1, 0]
    t = [jobs.tags(rng, 2) for _ in range(4)]
    return (v, t), (), lambda a, b, cb: mt.gen_box(2, 3, 0.0, 1.0, 0.0, 2.0, a[0], *a[1])


def o_circle(rng, d):
    v, t = [2, 2, 1, 1, 0], jobs.tags(rng, 2)
    k = bool(rng.random() < 0.5)
    return (v, t), (), lambda a, b, cb: mt.gen_circle(1.0, 0.4, 2, 2, curvature_fun=cb(lambda x: x * x * (3 - 2 * x)), bl_fun=cb(lambda x: x) if k else None, var=a[0], bc=a[1])


def o_merge(rng, d):
    m = mesh_of(rng)
    b = copy.deepcopy(m)
    lim = float(np.ptp(np.concatenate([el.pos[0].ravel() for el in m.elem])))
    for el in b.elem:
        el.pos[0] += lim
    return (b,), (m,), lambda a, b, cb: b[0].merge(a[0])


def o_keep(rng, d):
    m = mesh_of(rng)
    return ([int(x) for x in rng.choice(m.nel, int(rng.integers(1, m.nel + 1)), replace=False)],), (m,), lambda a, b, cb: mt.keep_elements(b[0], a[0], "W")


def o_inplace(rng, d):
    def call(a, b, cb):
        mt.rotate_2d(b[0], 0.1, 0.2, 0.3)
        n = mt.delete_internal_bcs(b[0])
        return n, mt.generate_internal_bcs(b[0])

    return (), (mesh_of(rng),), call


def o_check(rng, d):
    m = mesh_of(rng)
    if rng.random() < 0.3:
        m.elem[0].bcs[0, 0][3] += 1

    def call(a, b, cb):
        try:
            a[0].check_connectivity()
        except ValueError:
            return "refused"
        return [e.smallest_edge() for e in a[0].elem], [list(e.centroid) for e in a[0].elem], a[0].lims.pos, repr(a[0]), mt.edge_mid(a[0].elem[0], 0)

    return (m,), (), call


def o_present(rng, d):
    def call(a, b, cb):
        try:
            return a[0].check_bcs_present()
        except ValueError:
            return "refused"

    return (mesh_of(rng),), (), call


def o_field(rng, d):
    return (gen.to_hexa(gen.rand_field(rng, special=False, nel=int(rng.integers(1, 4)))),), (), lambda a, b, cb: (a[0].lims.vel, a[0].get_points(), repr(a[0].lims))


def written(fn, ext):
    def op(rng, d):
        m = mesh_of(rng) if fn is not nk.writenek else gen.to_hexa(gen.rand_field(rng, nel=int(rng.integers(1, 4))))
        m.endian = str(rng.choice(["little", "big"]))

        def call(a, b, cb):
            fn(d + "w" + ext, a[0])
            return jobs.content(d + "w" + ext)

        return (m,), (), call

    return op


def readers(rng, d):
    k = int(rng.integers(0, 8))
    p = d + ["a0.f00001", "b0.f00001", "a.re2", "a.rea", "a.ma2", "a.u", "a.pl", "c0.f00001"][k]
    if k in (0, 1):
        jobs.save(p, refio.fld_encode(gen.rand_field(rng, nel=int(rng.integers(1, 4)))))
    elif k == 2:
        nk.writere2(p, mesh_of(rng))
    elif k == 3:
        nk.writerea(p, mesh_of(rng))
    elif k == 4:
        jobs.save(p, refio.ma2_encode(3, 4, rng.integers(0, 50, 3), rng.integers(1, 400, (3, 4)), "little"))
    elif k == 5:
        jobs.save(p, refio.dns_encode(random_dns(rng, modes=True)))
    elif k == 6:
        jobs.save(p, refio.plane_encode(*random_plane(rng)))
    else:
        nk.writenek(p, mt.gen_box(2, 2, 0, 1, 0, 1))

    def dataset(q):
        ds = open_dataset(q)
        return [ds[v].values for v in sorted(ds.data_vars)], float(ds.time)

    fn = [nk.readnek, lambda q: repr(read_header(q)), nk.readre2, nk.readrea, nk.readma2, readdns, readplane, dataset][k]
    sk = ["x", "pressure"]
    if k == 0 and rng.random() < 0.5:
        return (sk,), (), lambda a, b, cb: nk.readnek(p, skip_vars=a[0])
    return (), (), lambda a, b, cb: fn(p)


o_writenek, o_writere2, o_writerea, o_read = written(nk.writenek, "0.f00001"), written(nk.writere2, ".re2"), written(nk.writerea, ".rea"), readers
OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
CALLBACKS = {"refine", "map", "circle"}
REQUIRED = dict(faults=4000, faults_in_functions=150, inputs_compared=3000, repeated=3000, **{"op_" + k: 80 for k in OPS})


def value(t):
    """The value of an argument."""
    return snap(t) if hasattr(t, "elem") else copy.deepcopy(t)


def changed(a, b):
    if isinstance(a, dict):
        return snap_diff(a, b)
    return None if a == b else f"{a!r} -> {b!r}"


def process():
    return list(world().items())


def case(ctx, rng):
    name = sorted(OPS)[int(rng.integers(0, len(OPS)))]
    d = ctx.path("")
    fixed, mutable, call = OPS[name](rng, d)
    ref_args = copy.deepcopy(mutable)
    want = FAULT.run(lambda: jobs.digest(call(fixed, ref_args, lambda f: f), *ref_args))
    total = FAULT.n
    need(total > 0, "harness: no line of pymech ran")
    before = [value(t) for t in fixed]
    np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
    state, fds = process(), table()
    for _ in range(3):
        calls = [0]
        kind = str(rng.choice(["interrupt", "memory", "function"])) if name in CALLBACKS else str(rng.choice(["interrupt", "memory"]))
        stop = int(rng.integers(1, 30))

        def cb(f):
            def g(*a):
                calls[0] += 1
                if kind == "function" and calls[0] == stop:
                    raise Injected("injected")
                return f(*a)

            return g

        exc = KeyboardInterrupt if kind == "interrupt" else MemoryError
        at = 0 if kind == "function" else int(rng.integers(1, total + 1)) if rng.random() < 0.7 else int(min(total, 1 + rng.exponential(20))) if rng.random() < 0.5 else max(1, total - int(rng.exponential(10)))
        args = copy.deepcopy(mutable)
        outcome = "done"
        try:
            got = FAULT.run(lambda: jobs.digest(call(fixed, args, cb), *args), at, exc)
        except (KeyboardInterrupt, MemoryError, Injected) as e:
            outcome = type(e).__name__
        except Exception as e:  # a failure brings about another one
            outcome = type(e).__name__
        where = FAULT.where or ("function given", calls[0])
        what = f"{name} with {exc.__name__ if at else 'an exception'} at {where}"
        ctx.note(f"{what}: {outcome}")
        if outcome == "done":
            need(got == want, lambda: f"{what} returns another result")
        else:
            ctx.ev("faults")
            ctx.ev("faults_in_functions", int(kind == "function"))
        for k, t in enumerate(fixed):
            c = changed(before[k], value(t))
            need(c is None, lambda: f"{what} leaves its input {k} modified: {c}")
            ctx.ev("inputs_compared")
        now = process()
        need(state == now, lambda: f"{what} changes the state of the process: {[(x, y) for x, y in zip(state, now) if x != y][:1]}")
        after = table()
        if any(n not in fds for n in after):
            gc.collect()
            after = table()
        left = {n: t for n, t in after.items() if n not in fds and t.startswith(d)}
        need(not left, lambda: f"{what} leaves {sorted(left.values())} open")
        args = copy.deepcopy(mutable)
        got = jobs.digest(call(fixed, args, lambda f: f), *args)
        need(got == want, lambda: f"after {what}, the same operation gives another result")
        ctx.ev("repeated")
        ctx.distinct(name, outcome, where)
    ctx.ev("op_" + name)


