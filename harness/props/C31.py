"""No reader or writer leaves a file open: not on return, and not after its error has been dealt with."""
import gc
import os
import warnings

import gen
import jobs
import numpy as np
import refio
from lib import need
from props.C10 import random_dns, random_plane
from pymech.dataset import open_dataset
from pymech.neksuite import readma2, readnek, readre2, readrea, writenek, writere2, writerea
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane

LEVEL = "fault_enumeration"
CASES = dict(quick=4000, thorough=60000)
RULE = "distinct (function, kind of damage, outcome) calls watched"
REQUIRED = dict(calls_watched=3000, failures_watched=800, successes_watched=500, writers_watched=200, refused_writes_watched=100)


def table():
    """Open descriptors: number -> target."""
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return out


def watch(ctx, what, fn, root):
    before = table()
    err = r = None
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            r = fn()
        except Exception as e:
            # what the caller of a failed operation has in hand: the exception
            err = e
        failed = None
        if err is not None or (isinstance(r, int) and r < 0):
            # a failed operation may hold its file as long as its error is held
            failed = repr(err)
            name = type(err).__name__ if err else f"returned {r}"
            err = r = None
        after = table()
        if failed and any(n not in before for n in after):
            gc.collect()
            after = table()
        opened = {n: t for n, t in after.items() if n not in before and t.startswith(root)}
        need(not opened, lambda: f"{what} left {sorted(opened.values())} open {'after ' + failed if failed else ''}")
        del r
    leak = [w for w in rec if issubclass(w.category, ResourceWarning)]
    need(failed or not leak, lambda: f"{what} relied on the garbage collector to close {leak[0].message}")
    ctx.ev("calls_watched")
    ctx.ev("failures_watched" if failed else "successes_watched")
    return name if failed else "ok"


def make(rng, kind):
    """A file of the given kind."""
    if kind == "nek":
        return refio.fld_encode(gen.rand_field(rng, special=False, nel=int(rng.integers(1, 5))))
    if kind == "ma2":
        nel = int(rng.integers(1, 20))
        return refio.ma2_encode(nel, 8, rng.integers(0, 50, nel), rng.integers(1, 400, (nel, 8)), "little")
    if kind == "dns":
        return refio.dns_encode(random_dns(rng))
    if kind == "plane":
        return refio.plane_encode(*random_plane(rng))
    m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=2, nbc=1, curved=0.2, internal=True, params=False)
    return m.mesh


def readnek_part(p):
    return readnek(p, skip_vars=SKIP[0])


def read_stream(p):
    with open(p, "rb") as fp:
        return read_header(fp)


SKIP = [()]
VARS = ["x", "y", "z", "ux", "uy", "uz", "pressure", "temperature"] + [f"s{i:02d}" for i in range(1, 16)]
READ = dict(nek=[readnek, readnek_part, read_header, read_stream, open_dataset], re2=[readre2], rea=[readrea], ma2=[readma2], dns=[readdns], plane=[readplane])


def case(ctx, rng):
    d = ctx.path("x")
    os.makedirs(d)
    kind = str(rng.choice(list(READ)))
    if kind in ("re2", "rea"):
        mesh = make(rng, kind)
        p = os.path.join(d, "src." + kind)
        out = watch(ctx, "write" + kind, lambda: (writere2 if kind == "re2" else writerea)(p, mesh), d)
        need(out == "ok", out)
        ctx.ev("writers_watched")
        buf = jobs.content(p)
    else:
        buf = make(rng, kind)
        if kind == "nek":
            p = os.path.join(d, "src0.f00001")
            dat = gen.to_hexa(gen.rand_field(rng, special=False))
            out = watch(ctx, "writenek", lambda: writenek(p, dat), d)
            need(out == "ok", out)
            ctx.ev("writers_watched")
    name = "f0.f00001" if kind == "nek" else "f." + kind
    for dmg in ("none", "cut", "cut", "empty", "header", "other", "missing"):
        p = os.path.join(d, dmg + name)
        b = buf
        if dmg == "cut":
            b = buf[: int(rng.integers(0, len(buf)))]
        elif dmg == "empty":
            b = b""
        elif dmg == "header":  # bytes of the beginning replaced
            n = min(len(buf), 140)
            i = int(rng.integers(0, n))
            b = buf[:i] + rng.bytes(int(rng.integers(1, 5))) + buf[i + 4 :] if rng.random() < 0.5 else buf[:i] + buf[i + 1 :]
            if kind in ("ma2", "dns", "plane", "re2", "nek"):
                # a damaged count may ask for any amount of memory: only text damage
                b = buf[:4] + b"@@@@" + buf[8:] if kind != "plane" else buf[:7]
        elif dmg == "other":
            k2 = str(rng.choice([k for k in READ if k not in ("re2", "rea") and k != kind]))
            b = make(rng, k2)
            if kind in ("dns", "plane"):
                b = b"\0\0\0\0" + b[:300]
        if dmg != "missing":
            jobs.save(p, b)
        share = float(rng.choice([0.3, 0.8, 1.0]))
        SKIP[0] = [v for v in VARS if rng.random() < share]
        fn = READ[kind][int(rng.integers(0, len(READ[kind])))]
        out = watch(ctx, f"{fn.__name__} ({dmg})", lambda: fn(p), d)
        ctx.distinct(fn.__name__, dmg, out)
        ctx.note(fn.__name__, dmg, out)
    # writers that fail
    bad = gen.to_hexa(gen.rand_field(rng, special=False, nel=2, lr1=[2, 2, 2], ndim=3, var=[3, 3, 0, 0, 0]))
    k = int(rng.integers(0, 4))
    if k == 0:
        bad.endian = "middle"
    elif k == 1:
        bad.wdsz = 5
    elif k == 2:
        bad.elem[1].pos = None
    else:
        bad.elem.pop()
    for w, nm in ((writenek, "w0.f00001"), (writere2, "w.re2"), (writerea, "w.rea")):
        out = watch(ctx, f"{w.__name__} of an unsuitable mesh ({k})", lambda: w(os.path.join(d, nm), bad), d)
        ctx.ev("refused_writes_watched", int(out != "ok"))
        ctx.distinct(w.__name__, k, out)
        out = watch(ctx, f"{w.__name__} into a missing folder", lambda: w(os.path.join(d, "nowhere", nm), bad), d)


_ = np
