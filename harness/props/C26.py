"""Results share nothing with inputs, elements share nothing with each other, arguments are left as given."""
import copy

import gen
import numpy as np
from lib import Violation, need, snap, snap_diff, unchanged
from props.C17 import split_mesh
from pymech.core import HexaData
from pymech.meshtools import extrude, extrude_refine, gen_box, gen_circle, map2D
from pymech.neksuite import readnek, readre2, readrea, writenek, writere2, writerea

LEVEL = "exploration"
CASES = dict(quick=1500, thorough=40000)
RULE = "distinct (operation, shape, fields) results scribbled over"
REQUIRED = dict(results_scribbled=600, inputs_scribbled=400, storage_pairs_checked=20000, elements_scribbled=900, default_arguments=100, op_extrude=60, op_refine=60, op_map=60, op_merge=60, op_box=60, op_circle=60,
                op_re2=60, op_rea=30, op_nek=60, op_fresh=60)


def arrays(el):
    return [getattr(el, a) for a in ("pos", "curv", "vel", "pres", "temp", "scal", "bcs")]


def storage(mesh, what, ctx):
    """No two elements share storage, and no two variables of an element."""
    spans = []
    n = 0
    for e, el in enumerate(mesh.elem):
        for k, a in enumerate(arrays(el)):
            if a.size:
                lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
                spans.append((lo, hi, e, k, a))
        n += 1
    spans.sort(key=lambda s: s[:4])
    for x, y in zip(spans, spans[1:]):
        if y[0] < x[1] and np.may_share_memory(x[4], y[4]):
            # interleaved views would overlap in range only
            if np.shares_memory(x[4], y[4]):
                raise Violation(f"{what}: variable {x[3]} of element {x[2]} and variable {y[3]} of element {y[2]} share storage")
    ids = {}
    for e, el in enumerate(mesh.elem):
        need(id(el) not in ids, lambda: f"{what}: elements {ids[id(el)]} and {e} are the same object")
        ids[id(el)] = e
        need(("c", id(el.ccurv)) not in ids, lambda: f"{what}: elements {ids['c', id(el.ccurv)]} and {e} share their list of curvature types")
        ids["c", id(el.ccurv)] = e
    ctx.ev("storage_pairs_checked", len(spans))


def scribble_el(el):
    for a in ("pos", "curv", "vel", "pres", "temp", "scal"):
        getattr(el, a)[...] = -77.25
    for k in range(12):
        el.ccurv[k] = "z"
    for ib in range(el.bcs.shape[0]):
        for f in range(el.bcs.shape[1]):
            el.bcs[ib, f] = ("zz", 9, 8, 7, 6, 5, 4, 3)


def scribble(mesh):
    for el in mesh.elem:
        scribble_el(el)
    for a in ("var", "lr1"):
        v = getattr(mesh, a)
        if isinstance(v, (list, np.ndarray)):
            for k in range(len(v)):
                v[k] = 99
    em = np.asarray(mesh.elmap)
    if em.flags.writeable:
        em[...] = -5
    mesh.time, mesh.istep, mesh.nel, mesh.ncurv = -1.0, -1, 0, -1
    mesh.elem.clear()


def one_element(ctx, rng, mesh, what):
    """Scribbling on one element changes that element only."""
    if not mesh.elem:
        return
    e = int(rng.integers(0, len(mesh.elem)))
    before = snap(mesh)
    scribble_el(mesh.elem[e])
    after = snap(mesh)
    before["elem"][e] = after["elem"][e] = {}
    d = snap_diff(before, after)
    need(d is None, lambda: f"{what}: changing element {e} of the result changed something else: {d}")
    ctx.ev("elements_scribbled")


def fun(x, y):
    return x * 1.25 - 0.1 * y, y + 0.2 * x


def case(ctx, rng):
    k = int(rng.integers(0, 9))
    name = "extrude refine map merge box circle files nek fresh".split()[k]
    inputs, args, what = [], [], name
    nbc = gen.rand_nbc(rng, 1, 2)
    tag = lambda: [str(x) for x in rng.choice(gen.TAGS, nbc)]  # noqa: E731
    if name == "refine":
        m, _, _, _, funs, par, _ = split_mesh(rng, 1, float(rng.choice([0, 0.5])))
        nbc = m.nbc
        ctx.note(name, gen.describe_mesh(m), par)
        inputs = [m.mesh]
        args = [gen.spacing(rng, 4), tag(), tag(), par, funs]
        op = lambda ms, a: extrude_refine(ms[0], a[0], a[1], a[2], fun=a[4], funpar=a[3])  # noqa: E731
        shape = tuple(m.n)
    elif name in ("extrude", "map"):
        m = gen.struct_mesh(rng, 2, maxn=3, nbc=nbc, curved=0.3, curv_kinds="mC", periodic=[False, False])
        ctx.note(name, gen.describe_mesh(m))
        inputs = [m.mesh]
        if name == "extrude":
            args = [gen.spacing(rng, int(rng.integers(1, 4))), tag(), tag()]
            op = lambda ms, a: extrude(ms[0], *a)  # noqa: E731
        else:
            kw = dict(curvature=bool(rng.random() < 0.5), boundary_curvature=bool(rng.random() < 0.5))
            op = lambda ms, a: map2D(ms[0], fun, **kw)  # noqa: E731
        shape = tuple(m.n)
    elif name == "merge":
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=2, nbc=nbc, curved=0.3)
        a, b = copy.deepcopy(m.mesh), m.mesh
        lim = max(float(np.abs(el.pos).max()) for el in a.elem)
        # side by side or far away: both must copy
        for el in b.elem:
            el.pos[0] += 5 * lim
        inputs = [a, b]

        def op(ms, _):
            r = copy.deepcopy(ms[0])
            r.merge(ms[1], ignore_all_bcs=bool(rng.random() < 0.3))
            return r

        shape = tuple(m.n)
    elif name == "box":
        n = [int(x) for x in rng.integers(1, 5, 2)]
        args = [tag(), tag()]
        dflt = bool(rng.random() < 0.5)
        op = lambda ms, a: gen_box(*n, 0.0, 2.0, -1.0, 1.0, **({} if dflt else dict(bcs_xmin=a[0], bcs_xmax=a[1], var=[2, 2, 1, 0, nbc - 1])))  # noqa: E731
        shape = (tuple(n), dflt)
    elif name == "circle":
        n = [int(x) for x in rng.integers(2, 5, 2)]
        dflt = bool(rng.random() < 0.5)
        args = [tag()]
        op = lambda ms, a: gen_circle(1.0, 0.4, *n, bl_fun=lambda x: x, **({} if dflt else dict(bc=a[0], var=[2, 2, 1, 0, nbc - 1])))  # noqa: E731
        shape = (tuple(n), dflt)
    elif name == "files":
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, nbc=nbc, curved=0.2, params=False)
        if rng.random() < 0.5:
            p = ctx.path("a.re2")
            writere2(p, m.mesh)
            op, name = (lambda ms, a: readre2(p)), "re2"
        else:
            p = ctx.path("a.rea")
            writerea(p, m.mesh)
            op, name = (lambda ms, a: readrea(p)), "rea"
        shape = tuple(m.n)
    elif name == "nek":
        f = gen.rand_field(rng, special=False)
        p = ctx.path("a0.f00001")
        writenek(p, gen.to_hexa(f))
        sk = [v for v in ("x", "u", "p") if rng.random() < 0.2]
        args = [sk]
        op = lambda ms, a: readnek(p, skip_vars=a[0])  # noqa: E731
        shape = (f["nel"], tuple(f["lr1"]), tuple(f["var"]))
    else:
        nd = int(rng.integers(2, 4))
        lr1, var = [2, 3, 2 if nd == 3 else 1], [nd, nd, 1, 1, 2]
        args = [lr1, var]
        ne = int(rng.integers(1, 6))
        op = lambda ms, a: HexaData(nd, ne, a[0], a[1], nbc)  # noqa: E731
        shape = (nd, ne)
    acopy = copy.deepcopy(args)
    with unchanged(ctx, name, *inputs):
        res = op(inputs, args)
    same_args = all(list(a) == list(b) for a, b in zip(args, acopy))
    need(same_args, lambda: f"{name} changed its arguments: {args}, were {acopy}")
    storage(res, f"result of {name}", ctx)
    ref = snap(res)
    # 1. scribbling on the inputs afterwards does not reach the result
    saved = copy.deepcopy(inputs)
    for i in inputs:
        scribble(i)
        ctx.ev("inputs_scribbled")
    if args and name != "fresh":
        for a in args:
            if isinstance(a, list):
                for q in range(len(a)):
                    a[q] = "zz"
            elif isinstance(a, np.ndarray):
                a[...] = -3.0
        ctx.ev("inputs_scribbled")
    d = snap_diff(ref, snap(res))
    need(d is None, lambda: f"the result of {name} changed when its inputs were changed afterwards: {d}")
    # 2. scribbling on the result does not reach the inputs, nor what is made next
    inputs2 = copy.deepcopy(saved)
    args2 = copy.deepcopy(acopy)
    with unchanged(ctx, name + " (second)", *inputs2):
        state = rng.bit_generator.state
        res1 = op(inputs2, args2)
        rng.bit_generator.state = state
    for i, (x, y) in enumerate(zip(inputs2, saved)):
        d = snap_diff(snap(y), snap(x))
        need(d is None, lambda: f"input {i} of {name} changed: {d}")
    keep = snap(res1)
    before = [snap(x) for x in inputs2]
    one_element(ctx, rng, res, f"result of {name}")
    if name != "fresh":
        scribble(res)
    d = snap_diff(keep, snap(res1))
    need(d is None, lambda: f"two results of {name} share data: {d}")
    scribble(res1) if name != "fresh" else [scribble_el(el) for el in res1.elem]
    for i, (x, y) in enumerate(zip(before, inputs2)):
        d = snap_diff(x, snap(y))
        need(d is None, lambda: f"changing the result of {name} changed its input {i}: {d}")
    ctx.ev("results_scribbled")
    state = rng.bit_generator.state
    res2 = op(inputs2, args2)
    rng.bit_generator.state = state
    d = snap_diff(keep, snap(res2))
    need(d is None or name == "merge", lambda: f"{name} gives another result after an earlier result was changed: {d}")
    ctx.ev("op_" + name)
    ctx.ev("default_arguments", int(name in ("box", "circle") and shape[1]))
    ctx.distinct(name, shape, nbc)

