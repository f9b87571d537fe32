"""Work done over and over leaves nothing behind: no memory, threads, processes or temporary files."""
import gc
import os
import tempfile
import threading
import tracemalloc

import gen
import jobs
import numpy as np
import refio
from lib import need
from pymech import meshtools as mt
from pymech import neksuite as nk
from pymech.core import HexaData
from pymech.dataset import open_dataset, open_mfdataset
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane

LEVEL = "exploration"
CASES = dict(quick=120, thorough=3000)
RULE = "distinct (operation, outcome, size of the data in powers of two)"
ROUNDS = 6


def setup(ctx):
    try:  # threads of dask are not our business
        import dask

        dask.config.set(scheduler="synchronous")
    except ImportError:
        pass
    tracemalloc.start(1)


def big_mesh(rng, nd=2):
    n = [int(rng.integers(5, 8)) for _ in range(2)] if nd == 2 else [3, 3, 3]
    return gen.struct_mesh(rng, nd, n, nbc=2, curved=0.2, curv_kinds="mC" if nd == 2 else "m", params=False).mesh


def make_field(rng, n):
    f = HexaData(3, int(rng.integers(6, 12)), [n, n, n], [3, 3, 1, 1, 2])
    for el in f.elem:
        for a in (el.pos, el.vel, el.pres, el.temp, el.scal):
            a[:] = rng.standard_normal(a.shape)
    return f


# every operation: prepares its inputs, and gives the size of the data it handles and the call
def o_nek(rng, d):
    f = make_field(rng, int(rng.integers(7, 11)))
    p = d + "a0.f00001"
    nk.writenek(p, f)
    dt = str(rng.choice(["float32", "float64"]))
    return os.path.getsize(p), lambda: (nk.writenek(p, f), nk.readnek(p, dtype=dt), read_header(p))


def o_re2(rng, d):
    m = big_mesh(rng, int(rng.integers(2, 4)))
    return m.nel * 3000, lambda: (nk.writere2(d + "a.re2", m), nk.readre2(d + "a.re2"))


def o_rea(rng, d):
    m = big_mesh(rng)
    return m.nel * 3000, lambda: (nk.writerea(d + "a.rea", m), nk.readrea(d + "a.rea"))


def o_ma2(rng, d):
    n = 20000
    b = refio.ma2_encode(n, 4, rng.integers(0, 50, n), rng.integers(1, 40000, (n, 4)), "little")
    jobs.save(d + "a.ma2", b)
    return len(b), lambda: nk.readma2(d + "a.ma2")


def o_simson(rng, d):
    from props.C10 import random_dns

    h = random_dns(rng)
    while h["fltype"] not in (1, 2, 3):
        h = random_dns(rng)
    h.update(nx=16, ny=17, nz=16, pr=[0.7], m=[0.0], data=rng.standard_normal((4, 16, 17, 8)) + 0j)
    c = rng.standard_normal((2, 100, 100))
    jobs.save(d + "a.u", refio.dns_encode(h)), jobs.save(d + "a.pl", refio.plane_encode(c, c[0], [100, 100], "little"))
    return 4 * 16 * 17 * 16 * 8, lambda: (readdns(d + "a.u"), readplane(d + "a.pl"))


def o_dataset(rng, d):
    n, k = 12, 6
    f = HexaData(3, k, [n, n, n], [3, 3, 1, 0, 0])
    for e, el in enumerate(f.elem):
        g = np.meshgrid(np.arange(n), np.arange(n), np.arange(n) + e * (n - 1), indexing="ij")
        el.pos[0], el.pos[1], el.pos[2] = g[2], g[1], g[0]
        el.vel[:] = rng.standard_normal(el.vel.shape)
    p = d + "d0.f00001"
    nk.writenek(p, f)
    if rng.random() < 0.5:
        return os.path.getsize(p), lambda: open_dataset(p).load().close()
    return os.path.getsize(p), lambda: open_mfdataset([p]).load().close()


def o_extrude(rng, d):
    m = big_mesh(rng)
    z = list(range(4))
    return m.nel * 3 * 3000, lambda: mt.extrude(m, z, ["W", "W"], ["W", "W"])


def o_map(rng, d):
    m = big_mesh(rng)
    return m.nel * 3000, lambda: (mt.map2D(m, lambda x, y: (x + 0.1 * y, y)), repr(m.lims), repr(m))


def o_generate(rng, d):
    return 36 * 3000, lambda: (mt.gen_box(6, 6, 0, 1, 0, 1), mt.gen_circle(1.0, 0.5, 2, 2, bl_fun=lambda x: x))


def o_change(rng, d):
    import copy

    m = big_mesh(rng)

    def call():
        a = copy.deepcopy(m)
        mt.delete_internal_bcs(a)
        mt.rotate_2d(a, 0, 0, 0.5)
        mt.keep_elements(a, list(range(m.nel // 2)))
        a.merge(a, ignore_all_bcs=True)
        a.offset_connectivity(3)
        return a

    return m.nel * 3000, call


def o_refine(rng, d):
    from props.C17 import split_mesh

    s, _, _, _, fun, par, _ = split_mesh(rng, 1, 0.0)
    t = ["W"] * s.mesh.nbc
    return s.mesh.nel * 4 * 3000, lambda: mt.extrude_refine(s.mesh, [0.0, 1.0, 2.0, 3.0, 4.0], t, t, fun=fun, funpar=par)


def o_failing(rng, d):
    f = make_field(rng, 8)
    p = d + "a0.f00001"
    nk.writenek(p, f)
    n = os.path.getsize(p)
    jobs.save(p, jobs.content(p)[: -int(rng.integers(1, 5000))])
    m = big_mesh(rng)

    def call():
        for fn in (lambda: nk.readnek(p), lambda: mt.extrude(m, [0, 1, 2], ["P", "P"], ["W", "W"]), lambda: mt.map2D(m, lambda x, y: 1 / 0), lambda: nk.writere2(d + "nowhere/x.re2", m), lambda: m.merge(f)):
            try:
                fn()
            except Exception:
                pass

    return n, call


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
REQUIRED = dict(rounds=600, bytes_handled=10**8, **{"op_" + k: 3 for k in OPS})


def rest():
    gc.collect()
    return tracemalloc.get_traced_memory()[0], threading.active_count(), children(), sorted(os.listdir(tempfile.gettempdir()))


def children():
    n = 0
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as fp:
                n += len(fp.read().split())
        except OSError:
            pass
    return n


def case(ctx, rng):
    name = sorted(OPS)[int(rng.integers(0, len(OPS)))]
    d = ctx.path("")
    tmp = d + "tmp"
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        for _ in range(2):  # what is built once is not our business
            OPS[name](rng, ctx.path(""))[1]()
        before = rest()
        size = 0
        for _ in range(ROUNDS):  # every time with other data
            n, call = OPS[name](rng, ctx.path(""))
            call()
            size += n
            del call
            ctx.ev("rounds")
        after = rest()
    finally:
        tempfile.tempdir = old
    grown = after[0] - before[0]
    ctx.note(f"{name}: {size} bytes handled, {grown} more in use")
    need(grown < max(2 * size / ROUNDS, 131072), lambda: f"{name}: after {ROUNDS} times, and {size} bytes of data handled and dropped, {grown} bytes more are in use")
    need(after[1] <= before[1], lambda: f"{name}: {after[1] - before[1]} threads more than before")
    need(after[2] <= before[2], lambda: f"{name}: {after[2] - before[2]} processes more than before")
    need(after[3] == before[3], lambda: f"{name}: left {sorted(set(after[3]) - set(before[3]))} in the folder of temporary files")
    ctx.ev("bytes_handled", size)
    ctx.ev("op_" + name)
    ctx.distinct(name, int(np.log2(size)))
