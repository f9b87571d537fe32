"""Copies of results, whatever way they were made, are as good as the originals and independent of them."""
import copy
import pickle

import jobs
import numpy as np
import refio
from lib import alike, need, snap, snap_diff
from props.C34 import plain
from props.C36 import box_field
from pymech import meshtools as mt
from pymech import neksuite as nk
from pymech.core import HexaData
from pymech.dataset import open_dataset, open_mfdataset
from pymech.neksuite.field import Header, read_header

LEVEL = "exploration"
CASES = dict(quick=1500, thorough=40000)
RULE = "distinct (origin of the object, way of copying, operation done to it, outcome)"
KINDS = [k for k in jobs.NAMES if not k.startswith("bad") and k not in ("ma2", "plane", "query", "expo")]
ARR = ("pos", "curv", "vel", "pres", "temp", "scal", "bcs")


def pickled(p):
    return lambda x: pickle.loads(pickle.dumps(x, protocol=p))


WAYS = dict(deepcopy=copy.deepcopy, twice=lambda x: copy.deepcopy(copy.deepcopy(x)), mixed=lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x))), in_list=lambda x: copy.deepcopy([x, x])[1],
            **{f"pickle{p}": pickled(p) for p in range(pickle.HIGHEST_PROTOCOL + 1)})


# what can be done to a mesh or a field: each gives everything that can be seen of the outcome
def d_write(m, d):
    nk.writenek(d + "w0.f00001", m)
    return (jobs.content(d + "w0.f00001"),)


def d_re2(m, d):
    nk.writere2(d + "w.re2", m)
    return (jobs.content(d + "w.re2"),)


def d_rea(m, d):
    nk.writerea(d + "w.rea", m)
    return (jobs.content(d + "w.rea"),)


def d_keep(m, d):
    mt.keep_elements(m, list(range(0, m.nel, 2)), external_bc="W")
    return (m,)


def d_merge(m, d):
    return m.merge(copy.deepcopy(m), ignore_all_bcs=m.nel > 30), m


def d_internal(m, d):
    return mt.delete_internal_bcs(m), mt.generate_internal_bcs(m), m


def d_rotate(m, d):
    mt.rotate_2d(m, 0.1, 0.2, 0.3)
    return (m,)


def d_map(m, d):
    return mt.map2D(m, lambda x, y: (x + 0.1 * y, y)), m


def d_extrude(m, d):
    return mt.extrude(m, [0.0, 1.0, 3.0], ["W"] * m.nbc, ["O"] * m.nbc), m


def d_query(m, d):
    e = m.elem[-1]
    return repr(m), repr(m.lims), m.lims.pos, m.lims.vel, m.get_points(), e.centroid, repr(e), [e.face_center(k) for k in range(2 * m.ndim)], e.smallest_edge()


def d_check(m, d):
    return m.check_connectivity(), m.check_bcs_present()


def d_offset(m, d):
    m.offset_connectivity(5, 1), m.update_ncurv()
    return (m,)


DONE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}
REQUIRED = dict(copies=1500, elements_compared=10000, operations_compared=1500, done=500, headers=40, datasets=40, limits=500, **{"way_" + k: 60 for k in WAYS}, **{"from_" + k: 20 for k in KINDS})


def outcome(fn, m, d):
    try:
        return "done", plain(fn(m, d))
    except Exception as e:
        return type(e).__name__, str(e)


def same_object(what, a, b):
    d = snap_diff(snap(a), snap(b))
    need(d is None, lambda: f"{what} is something else: {d}")
    need(type(a) is type(b) and repr(a) == repr(b), lambda: f"{what} looks different: {b!r}")
    for i, (x, y) in enumerate(zip(a.elem, b.elem)):
        need(x is not y, lambda: f"{what} has the same element {i}")
        need(sorted(vars(x)) == sorted(vars(y)), lambda: f"{what}: attributes of element {i}")
        for k in ARR:
            u, v = getattr(x, k), getattr(y, k)
            need(u.dtype == v.dtype and v.flags.writeable, lambda: f"{what}: {k} of element {i} has another type, or cannot be changed")
            need(not np.may_share_memory(u, v), lambda: f"{what} shares {k} of element {i}")
        need(x.ccurv is not y.ccurv, lambda: f"{what} shares the types of curvature of element {i}")


def meshes(ctx, rng):
    kind = str(rng.choice(KINDS))
    d = ctx.path("")
    found = [r for r in jobs.JOBS[kind](rng, d) if isinstance(r, HexaData)]
    if not found:
        return
    m = found[int(rng.integers(0, len(found)))]
    before = snap(m)
    for w in rng.choice(sorted(WAYS), 2, replace=False):
        w = str(w)
        c = WAYS[w](m)
        what = f"copy ({w}) of the result of {kind}"
        ctx.note(what)
        same_object(what, m, c)
        ctx.ev("copies"), ctx.ev("way_" + w), ctx.ev("elements_compared", m.nel)
        if m.nel and m.var[0] and all(np.isfinite(el.pos).all() for el in m.elem):
            li = WAYS[w](m.lims)
            need(repr(li) == repr(m.lims) and all(getattr(li, v) == getattr(m.lims, v) for v in ("pos", "vel", "pres", "temp", "scal")) or "nan" in str(m.lims.vel) + str(m.lims.pres) + str(m.lims.temp) + str(m.lims.scal),
                 lambda: f"limits copied ({w}) are others: {li!r}")
            try:
                li.pos = ()
            except AttributeError:
                pass
            else:
                need(False, f"limits copied ({w}) can be changed")
            ctx.ev("limits")
        k = str(rng.choice(sorted(DONE)))
        if m.nel > 60 and k in ("merge", "internal"):
            k = "keep"
        x = outcome(DONE[k], c, d)
        need(snap_diff(before, snap(m)) is None, lambda: f"{k} of a {what} changes the original: {snap_diff(before, snap(m))}")
        e = copy.copy(m)  # the original itself, put back afterwards
        e.elem = [copy.copy(el) for el in m.elem]
        for el in e.elem:
            for a in ARR:
                setattr(el, a, getattr(el, a).copy())
            el.ccurv = list(el.ccurv)
        y = outcome(DONE[k], e, d)
        need(alike(x, y), lambda: f"{k} of a {what} gives something else than of the original: {x[0]}, {y[0]} {x[1] if isinstance(x[1], str) else ''}")
        ctx.ev("operations_compared"), ctx.ev("done", int(x[0] == "done"))
        ctx.distinct(kind, w, k, x[0])
    el = m.elem[0] if m.nel else None
    if el is not None:
        c = WAYS[w](el)
        need(all(np.array_equal(getattr(el, a), getattr(c, a), equal_nan=a != "bcs") for a in ARR) and list(el.ccurv) == list(c.ccurv), lambda: f"element copied ({w}) is another")
    ctx.ev("from_" + kind)


def headers(ctx, rng):
    import gen

    p = ctx.path("a0.f00001")
    jobs.save(p, refio.fld_encode(gen.rand_field(rng)))
    h = read_header(p)
    if h.time != h.time:
        return
    for w in rng.choice(sorted(WAYS), 3, replace=False):
        c = WAYS[str(w)](h)
        need(isinstance(c, Header) and c == h and repr(c) == repr(h) and c.as_bytestring() == h.as_bytestring(), lambda: f"header copied ({w}) is {c!r}, it was {h!r}")
        ctx.distinct("header", str(w))
    ctx.ev("headers")


def datasets(ctx, rng):
    p = ctx.path("a0.f00001")
    jobs.save(p, refio.fld_encode(box_field(rng)))
    many = rng.random() < 0.3
    d = open_mfdataset([p]) if many else open_dataset(p)
    w = str(rng.choice(sorted(set(WAYS) - {"pickle0", "pickle1"})))  # (those are not for xarray)
    c = WAYS[w](d)
    need(c.identical(d), lambda: f"data set copied ({w}) is another")
    for v in c.data_vars:
        if not many:
            a = c[v].values
            b = d[v].values.copy()
            a[...] = 7.0
            need(np.array_equal(d[v].values, b, equal_nan=True), lambda: f"changing {v} of a data set copied ({w}) changes the original")
    c.close(), d.close()
    ctx.ev("datasets")
    ctx.distinct("dataset", w, many)


def case(ctx, rng):
    k = rng.random()
    (headers if k < 0.06 else datasets if k < 0.12 else meshes)(ctx, rng)
