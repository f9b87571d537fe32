"""Self-contained uses of the API, each with a digest of everything it produced.

A job is (kind, seed): it prepares its inputs from the seed, runs, and returns a digest."""

from __future__ import annotations

import copy
import hashlib
import os

import gen
import numpy as np
import refio
from lib import snap
from props.C10 import random_dns, random_plane
from props.C17 import split_mesh
from pymech.meshtools import (delete_internal_bcs, exponential_refinement_parameter, extrude, extrude_refine, gen_box, gen_circle,
                              generate_internal_bcs, keep_elements, map2D, rotate_2d)
from pymech.neksuite import readma2, readnek, readre2, readrea, writenek, writere2, writerea
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane


def digest(*things):
    h = hashlib.blake2b(digest_size=16)

    def add(t):
        if isinstance(t, np.ndarray):
            h.update(repr((t.shape, str(t.dtype))).encode())
            h.update(np.ascontiguousarray(t).tobytes())
        elif isinstance(t, bytes):
            h.update(t)
        elif isinstance(t, dict):
            for k in t:
                h.update(repr(k).encode())
                add(t[k])
        elif isinstance(t, (list, tuple)):
            h.update(f"[{len(t)}".encode())
            for x in t:
                add(x)
        elif hasattr(t, "elem"):
            add(snap(t))
        else:
            h.update(repr(t).encode())

    for t in things:
        add(t)
    return h.hexdigest()


def content(p):
    with open(p, "rb") as fp:
        return fp.read()


def save(p, b):
    with open(p, "wb") as fp:
        fp.write(b)


def mesh_of(rng, nd=None, **kw):
    return gen.struct_mesh(rng, nd or int(rng.integers(2, 4)), maxn=kw.pop("maxn", 3), nbc=gen.rand_nbc(rng, 1, 2), curved=0.2, **kw).mesh


def tags(rng, n):
    return [str(x) for x in rng.choice(gen.TAGS, n)]


def j_nek(rng, d):
    f = gen.rand_field(rng)
    p = os.path.join(d, "a0.f00001")
    h = gen.to_hexa(f)
    if rng.random() < 0.3:
        h.endian = str(rng.choice(["", "middle", "native"]))
    writenek(p, h)
    sk = [v for v in ("x", "ux", "pressure", "temperature") if rng.random() < 0.2]
    return content(p), readnek(p, dtype=str(rng.choice(["float32", "float64"])), skip_vars=sk), repr(read_header(p))


def j_nek_ext(rng, d):
    f = gen.rand_field(rng)
    p = os.path.join(d, "e0.f00001")
    save(p, refio.fld_encode(f))
    return (readnek(p),)


def j_re2(rng, d):
    p = os.path.join(d, "a.re2")
    m = mesh_of(rng)
    m.endian = str(rng.choice(["little", "big", "little", "big", "unknown"]))
    writere2(p, m)
    return content(p), readre2(p), m


def j_rea(rng, d):
    p = os.path.join(d, "a.rea")
    m = mesh_of(rng, maxn=2, params=False)
    writerea(p, m)
    return content(p), readrea(p), m


def j_ma2(rng, d):
    p = os.path.join(d, "a.ma2")
    nel, nv = int(rng.integers(1, 40)), int(rng.choice([4, 8]))
    save(p, refio.ma2_encode(nel, nv, rng.integers(0, 50, nel), rng.integers(1, 400, (nel, nv)), str(rng.choice(["little", "big"]))))
    return readma2(p)


def j_dns(rng, d):
    p = os.path.join(d, "a.u")
    save(p, refio.dns_encode(random_dns(rng, modes=True)))
    return (readdns(p),)


def j_plane(rng, d):
    p = os.path.join(d, "a.pl")
    save(p, refio.plane_encode(*random_plane(rng)))
    return readplane(p)


def j_extrude(rng, d):
    m = mesh_of(rng, 2, curv_kinds="mC")
    z = gen.spacing(rng, int(rng.integers(1, 4)))
    return extrude(m, z, tags(rng, m.nbc), tags(rng, m.nbc), internal_bcs=bool(rng.random() < 0.7)), m


def j_refine(rng, d):
    s = split_mesh(rng, 1, float(rng.choice([0, 0.5])))
    m = s[0].mesh
    return extrude_refine(m, gen.spacing(rng, 4), tags(rng, m.nbc), tags(rng, m.nbc), fun=s[4], funpar=s[5], imesh_high=int(rng.integers(0, 2))), m


def j_box(rng, d):
    a = [int(x) for x in rng.integers(1, 5, 2)]
    if rng.random() < 0.4:
        return (gen_box(*a, 0.0, 1.0, -1.0, float(rng.uniform(0, 3))),)
    return (gen_box(*a, 0.0, 1.0, -1.0, 1.0, bcs_xmin=tags(rng, 2), bcs_xmax=tags(rng, 2), bcs_ymin=tags(rng, 2), bcs_ymax=tags(rng, 2), var=[2, 2, 1, 1, 0]),)


def j_circle(rng, d):
    return (gen_circle(float(rng.uniform(0.5, 2)), 0.4, int(rng.integers(2, 5)), int(rng.integers(2, 5)), bl_fun=lambda x: x, **({} if rng.random() < 0.5 else dict(bc=tags(rng, 2), var=[2, 2, 1, 1, 0]))),)


def j_map(rng, d):
    m = mesh_of(rng, 2, curv_kinds="mC")
    c = float(rng.uniform(0.5, 1.5))
    return map2D(m, lambda x, y: (c * x + 0.1 * y, y - 0.1 * x), curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5)), m


def j_merge(rng, d):
    a = mesh_of(rng, maxn=2)
    b = copy.deepcopy(a)
    lim = 2 * max(float(np.abs(el.pos).max()) for el in a.elem) if rng.random() < 0.5 else float(rng.uniform(50, 60))
    for el in b.elem:
        el.pos[0] += lim
    n = a.merge(b, ignore_all_bcs=bool(rng.random() < 0.5))
    return n, a, b


def j_keep(rng, d):
    m = mesh_of(rng)
    keep_elements(m, [int(x) for x in rng.choice(m.nel, int(rng.integers(1, m.nel + 1)), replace=False)], external_bc=str(rng.choice(["", "W"])))
    return (m,)


def j_internal(rng, d):
    m = mesh_of(rng)
    n = delete_internal_bcs(m)
    s = snap(m)
    return n, s, generate_internal_bcs(m), m, m.check_connectivity(), m.check_bcs_present()


def j_rotate(rng, d):
    m = mesh_of(rng, 2, curv_kinds="mC")
    rotate_2d(m, *(float(x) for x in rng.uniform(-2, 2, 3)))
    return (m,)


def j_query(rng, d):
    h = gen.to_hexa(gen.rand_field(rng, special=False, need_var=0))
    li = h.lims
    return repr(li), repr(h), h.get_points(), [el.smallest_edge() for el in h.elem], [el.centroid for el in h.elem], [h.elem[0].face_center(k) for k in range(2 * h.ndim)]


def j_expo(rng, d):
    n = int(rng.integers(2, 30))
    return (float(exponential_refinement_parameter(1e-2, float(rng.uniform(0.5, 20)), n)),)


# ------------------------------------------------------------- uses that fail
def j_bad_read(rng, d):
    p = os.path.join(d, "bad0.f00001")
    b = refio.fld_encode(gen.rand_field(rng, special=False))
    k = int(rng.integers(0, 4))
    save(p, b[: int(rng.integers(0, len(b) - 200)) if len(b) > 200 else 0])
    fn = [readnek, readre2, readma2, readdns][k]
    try:
        r = fn(p)
        return ("returned", type(r).__name__, r if isinstance(r, int) else 0)
    except Exception as e:
        return (type(e).__name__,)


def j_bad_mesh(rng, d):
    m = mesh_of(rng, 2)
    out = []
    for fn in (
        lambda: extrude(m, [0, 1], ["P"] * m.nbc, ["W"] * m.nbc),
        lambda: keep_elements(copy.deepcopy(m), [m.nel + 3]),
        lambda: gen_circle(1.0, 2.0, 2, 2, bc=["W"], var=[2, 2, 1, 1, 5]),
        lambda: copy.deepcopy(m).merge(gen.to_hexa(gen.rand_field(rng, ndim=3, nel=1, lr1=[2, 2, 2], var=[3, 0, 0, 0, 0]))),
        lambda: map2D(m, lambda x, y: 1 / 0),
        lambda: writerea(os.path.join(d, "nowhere", "x.rea"), m),
        lambda: readnek(os.path.join(d, "missing0.f00001")),
    ):
        try:
            fn()
            out.append("done")
        except Exception as e:
            out.append(type(e).__name__)
    return (out, m)


JOBS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("j_")}
NAMES = sorted(JOBS)


class Tweaked(np.random.Generator):
    """The same draws, but with real numbers that differ by a relative amount."""

    def __init__(self, seed, by):
        super().__init__(np.random.PCG64(seed))
        self.by = by

    def uniform(self, *a, **k):
        return super().uniform(*a, **k) * (1 + self.by)

    def standard_normal(self, *a, **k):
        return super().standard_normal(*a, **k) * (1 + self.by)


def run(name, seed, d, tweak=0.0):
    """tweak: use inputs that are almost the same as those of the seed."""
    os.makedirs(d, exist_ok=True)
    return digest(*JOBS[name](Tweaked(seed, tweak) if tweak else np.random.default_rng(seed), d))


__all__ = ["JOBS", "NAMES", "run", "digest"]
