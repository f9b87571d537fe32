"""What is refused is refused with a reason, before anything is changed."""
import copy
import os

import gen
import jobs
import numpy as np
import refio
from lib import alike, need, snap, snap_diff, unchanged
from props.C10 import random_dns, random_plane
from props.C17 import split_mesh
from props.C34 import plain
from pymech.core import HexaData
from pymech.dataset import open_dataset, open_mfdataset
from pymech.meshtools import delete_internal_bcs, extrude, extrude_refine, gen_box, generate_internal_bcs, keep_elements, rotate_2d
from pymech.neksuite import readma2, readnek, readre2, readrea, writenek, writere2, writerea
from pymech.neksuite.field import Header, read_header
from pymech.simsonsuite import readdns, readplane
from world import world

LEVEL = "exploration"
CASES = dict(quick=8000, thorough=150000)
RULE = "distinct (operation, reason, place of the fault, file that was there) refusals"
REQUIRED = dict(refusals=6000, files_kept=1500, meshes_kept=3000, carried_on=1000, nothing_created=600)


def mesh(rng, nd=None, nbc=None, **kw):
    kw.setdefault("maxn", 3)
    return gen.struct_mesh(rng, nd or int(rng.integers(2, 4)), nbc=gen.rand_nbc(rng, 1, 3) if nbc is None else nbc, curved=0.2, **kw)


def field(rng, **kw):
    return gen.to_hexa(gen.rand_field(rng, special=False, **kw))


def some(rng, n):
    return [str(x) for x in rng.choice(["W", "O", "v", "SYM"], n)]


# every use gives: the call, the meshes it is given, the errors that fit, other arguments, and how to carry on with the meshes
def u_keep(rng, d):
    m = mesh(rng).mesh
    good = [int(x) for x in rng.integers(0, m.nel, int(rng.integers(0, 5)))]
    good.insert(int(rng.integers(0, len(good) + 1)), int(rng.choice([m.nel, m.nel + 1, m.nel + 1000, -1, -m.nel, -m.nel - 1])))
    sel = np.array(good) if rng.random() < 0.5 else good
    return lambda: keep_elements(m, sel, *([str(rng.choice(["W", ""]))] if rng.random() < 0.5 else [])), [m], ValueError, [sel], lambda m: keep_elements(m, [0, m.nel - 1])


def u_merge(rng, d):
    if rng.random() < 0.5:
        a, b = (mesh(rng, nd).mesh for nd in rng.permutation([2, 3]))
    else:
        nd = int(rng.integers(2, 4))
        p, q = rng.choice([2, 3, 4, 5], 2, replace=False)
        a, b = (field(rng, ndim=nd, lr1=[k, k, k if nd == 3 else 1]) for k in (int(p), int(q)))
        for m in (a, b):
            for el in m.elem:
                el.bcs = np.zeros((m.nbc, 6), el.bcs.dtype)
    kw = [{}, {"tol": 0.1}, {"ignore_empty": False}, {"ignore_all_bcs": True}][int(rng.integers(0, 4))]
    return lambda: a.merge(b, **kw), [a, b], ValueError, [kw], lambda a, b: rotate_2d(a, 0.0, 0.0, 0.3)


def u_generate(rng, d):
    m = mesh(rng).mesh
    delete_internal_bcs(m)
    e = int(rng.integers(0, m.nel))
    p = m.elem[e].pos
    # an edge along x, y or z without length
    ax, i, j = int(rng.integers(1, m.ndim + 1)), int(rng.integers(0, 2)), int(rng.integers(0, 2)) if m.ndim == 3 else 0
    at = {3: lambda k: (slice(None), j, i, k), 2: lambda k: (slice(None), j, k, i), 1: lambda k: (slice(None), k, i, j)}[3 if ax == 1 else 2 if ax == 2 else 1]
    was = p[at(1)].copy()
    p[at(1)] = p[at(0)]

    def on(m):
        m.elem[e].pos[at(1)] = was
        return generate_internal_bcs(m)

    kw = {"tol": 1e-2} if rng.random() < 0.3 else {}
    return lambda: generate_internal_bcs(m, **kw), [m], ValueError, [kw], on


def u_check(rng, d):
    m = mesh(rng, internal=True).mesh
    e, f, b = m.elem[int(rng.integers(0, m.nel))], int(rng.integers(0, 2 * m.ndim)), int(rng.integers(0, m.nbc))
    if rng.random() < 0.5:
        e.bcs[b, f] = ("E", 1, 1, m.nel + int(rng.integers(1, 9)), 1, 0, 0, 0)
        return m.check_connectivity, [m], ValueError, [], lambda m: delete_internal_bcs(m)
    e.bcs[b, f][0] = ""
    return m.check_bcs_present, [m], ValueError, [], lambda m: generate_internal_bcs(m)


def u_extrude(rng, d):
    z = gen.spacing(rng, int(rng.choice([1, 2, 4])))
    refine = rng.random() < 0.5
    k = int(rng.integers(0, 4))
    if k == 0:
        m = mesh(rng, 3).mesh
        a = (some(rng, m.nbc), some(rng, m.nbc))
    elif k == 1:
        m = field(rng, ndim=2, lr1=[[3, 3, 1], [2, 3, 1], [3, 2, 1]][int(rng.integers(0, 3))], var=[2, 0, 0, 0, 0])
        a = ()
    elif k == 2:
        m = field(rng, ndim=2, lr1=[2, 2, 1], var=[0, 2, 1, 0, 0])
        a = ()
    else:
        m = mesh(rng, 2).mesh
        a = (some(rng, m.nbc), some(rng, m.nbc))
        a[int(rng.integers(0, 2))][int(rng.integers(0, m.nbc))] = "P"
    kw = {}
    fn = extrude
    if refine:
        fn = extrude_refine
        if rng.random() < 0.5:
            z, kw = gen.spacing(rng, 4), dict(fun=[lambda x, y: x - 1e6])
    return lambda: fn(m, z, *a, **kw), [m], ValueError, [z, *a], (lambda m: extrude(m, [0, 1, 3])) if k == 3 else None


def u_refine(rng, d):
    s = split_mesh(rng, 1, 0.0)
    m = s[0].mesh
    fun, par = s[4], s[5]
    z = gen.spacing(rng, int(rng.choice([1, 2, 3, 5, 6, 7])))
    if rng.random() < 0.5:
        z, par = gen.spacing(rng, 4), list(par) + [0.0] * int(rng.integers(1, 3))
    a = (some(rng, m.nbc), some(rng, m.nbc))
    return lambda: extrude_refine(m, z, *a, fun=fun, funpar=par), [m], ValueError, [z, par, *a], lambda m: extrude_refine(m, gen.spacing(np.random.default_rng(1), 4), fun=fun, funpar=s[5])


def u_box(rng, d):
    lo, hi = sorted(rng.normal(0, 1, 2))
    bad = (hi, lo) if rng.random() < 0.5 else (lo, lo)
    x, y = ((lo, hi), bad) if rng.random() < 0.5 else (bad, (lo, hi))
    bcs = [some(rng, 2) for _ in range(4)]
    kw = dict(zip(("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax"), bcs)) if rng.random() < 0.5 else {}
    return lambda: gen_box(int(2), int(3), *x, *y, **kw), [], ValueError, bcs, None


def u_limits(rng, d):
    m = field(rng)
    name = str(rng.choice(["pos", "vel", "pres", "temp", "scal"]))
    lims = m.lims
    return lambda: setattr(lims, name, ((0.0, 1.0),)), [m], AttributeError, [lims.pos, lims.vel, lims.pres, lims.temp, lims.scal], None


def occupied(rng, d, name, make=None):
    """A path, with or without something there."""
    p = os.path.join(d, name)
    k = int(rng.integers(0, 4))
    if k == 1:
        jobs.save(p, rng.bytes(int(rng.integers(1, 3000))))
    elif k == 2:
        jobs.save(p + ".real", rng.bytes(int(rng.integers(1, 300))))
        os.symlink(p + ".real", p)
    elif k == 3:
        jobs.save(p, b"")
        os.chmod(p, 0o640)
    return p


def u_writere2(rng, d):
    m = field(rng, ndim=int(rng.integers(2, 4)))
    k = int(rng.integers(0, 3))
    if k == 0:
        lr = [[3, 2, 1], [2, 3, 1], [4, 4, 1]][int(rng.integers(0, 3))]
        m = field(rng, ndim=2, lr1=lr, var=[2, 0, 0, 0, 0])
    elif k == 1:
        m = field(rng, ndim=2, lr1=[2, 2, 1], var=[0, 2, 1, 0, 0])
    else:
        m = field(rng, ndim=3, lr1=[[2, 2, 3], [3, 2, 2], [2, 3, 2]][int(rng.integers(0, 3))], var=[3, 0, 0, 0, 0])
    p = occupied(rng, d, "x.re2")
    return lambda: writere2(p, m), [m], ValueError, [], None


def u_writenek(rng, d):
    m = field(rng)
    good = m.wdsz
    m.wdsz = int(rng.choice([0, 1, 2, 3, 5, 6, 16, 32, 64, -4]))
    p = occupied(rng, d, "x0.f00001")

    def on(m):
        m.wdsz = good
        q = p + ".on"
        writenek(q, m)
        b = jobs.content(q)
        os.remove(q)
        return b

    return lambda: writenek(p, m), [m], ValueError, [], on


def u_nowhere(rng, d):
    """A folder that is not there, or a folder in place of a file."""
    ext, fn = [(".re2", writere2), (".rea", writerea), ("0.f00001", writenek)][int(rng.integers(0, 3))]
    m = mesh(rng, maxn=2).mesh
    p = os.path.join(d, "none", "x" + ext)
    if rng.random() < 0.4:
        p = os.path.join(d, "x" + ext)
        os.mkdir(p)
    return lambda: fn(p, m), [m], OSError, [], None


READ = [("a0.f00001", readnek, lambda r: refio.fld_encode(gen.rand_field(r, special=False, need_var=0))), ("a0.f00001", read_header, lambda r: refio.fld_encode(gen.rand_field(r, special=False, need_var=0))),
        ("a.u", readdns, lambda r: refio.dns_encode(random_dns(r))), ("a.pl", readplane, lambda r: refio.plane_encode(*random_plane(r))),
        ("a.ma2", readma2, lambda r: refio.ma2_encode(3, 4, [0, 1, 2], r.integers(1, 9, (3, 4)), "little")), ("a.re2", readre2, None), ("a.rea", readrea, None), ("a0.f00001", open_dataset, None)]


def u_missing(rng, d):
    name, fn, _ = READ[int(rng.integers(0, len(READ)))]
    p = os.path.join(d, name) if rng.random() < 0.7 else os.path.join(d, "none", name)
    jobs.save(os.path.join(d, name.upper()), b"another file")
    return lambda: fn(p), [], OSError, [], None


def u_cut(rng, d):
    name, fn, make = READ[int(rng.integers(0, 5))]
    b = make(rng)
    p = os.path.join(d, name)
    jobs.save(p, b[: int(rng.integers(0, min(len(b) * 3 // 4, 20 if fn is read_header else len(b))))])
    return lambda: fn(p), [], Exception, [], None


def u_text(rng, d):
    name, fn, make = READ[0]
    p = os.path.join(d, name)
    b = bytearray(make(rng))
    b[132:136] = bytes(rng.integers(1, 255, 4, dtype=np.uint8))
    jobs.save(p, bytes(b))
    if rng.random() < 0.5:
        return lambda: fn(p), [], ValueError, [], None
    fp = open(p, encoding="latin-1")
    at = fp.tell()

    def call():
        try:
            read_header(fp)
        finally:
            now = fp.tell()
            fp.close()
            need(now == at, "a refused stream has been read from")

    return call, [], ValueError, [], None


def u_header(rng, d):
    kw = dict(wdsz=8, orders=(2, 2, 2), nb_elems=1, nb_elems_file=1, time=0.0, istep=0, fid=0, nb_files=1, variables="XU")
    if rng.random() < 0.5:
        kw["wdsz"] = int(rng.choice([0, 1, 2, 3, 5, 16, -8]))
    else:
        kw["variables"] = ""
        if rng.random() < 0.5:
            kw["nb_vars"] = ()
    return lambda: Header(**kw), [], ValueError, [kw], None


def u_dataset(rng, d):
    f = gen.rand_field(rng, special=False, ndim=3, nel=2, lr1=[3, 3, 3], var=[3, 3, 1, 0, 0])
    k = int(rng.integers(0, 3))
    p = os.path.join(d, "slanted0.f00001" if k else str(rng.choice(["a.f90", "a0.f001", "a0.f000001", "a.re2", "a", "afld"])))
    jobs.save(p, refio.fld_encode(f))
    if k == 2:
        return lambda: open_mfdataset([p, p]), [], Exception, [], None
    return lambda: open_dataset(p), [], NotImplementedError if k == 0 else Exception, [], None


USES = [u_keep, u_merge, u_generate, u_check, u_extrude, u_refine, u_box, u_limits, u_writere2, u_writenek, u_nowhere, u_missing, u_cut, u_text, u_header, u_dataset]
RARE = dict(u_dataset=0.2, u_refine=0.6)


def tree(d):
    """Everything in a folder: kinds, modes, times, contents."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in sorted(dirs + files):
            p = os.path.join(root, n)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_ino, st.st_mtime_ns, st.st_size, os.readlink(p) if os.path.islink(p) else jobs.content(p) if os.path.isfile(p) else None)
    return out


def setup(ctx):
    """Whatever is imported on first use is imported now."""
    d = os.path.dirname(ctx.path("warm"))
    try:
        u_dataset(np.random.default_rng(0), d)[0]()
    except Exception:
        pass
    ctx.clean()


def case(ctx, rng):
    while True:
        use = USES[int(rng.integers(0, len(USES)))]
        if rng.random() < RARE.get(use.__name__, 1):
            break
    d = os.path.dirname(ctx.path("x"))
    call, meshes, errors, args, on = use(rng, d)
    name = use.__name__[2:]
    ctx.note(f"refused use of {name}: {len(meshes)} meshes, arguments {args!r}"[:400])
    twins = copy.deepcopy(meshes)
    kept = copy.deepcopy(args)
    files, w = tree(d), world()
    with unchanged(ctx, f"a refused use of {name}", *meshes):
        try:
            r = call()
        except errors as e:
            need(name in ("cut", "missing") or str(e).strip(), f"{name} is refused without a reason: {e!r}")
        else:
            # the readers of SIMSON report by returning a number
            need(name in ("missing", "cut") and isinstance(r, int) and r < 0, lambda: f"{name} is not refused: {type(r).__name__}")
    ctx.ev("refusals"), ctx.ev("meshes_kept", len(meshes)), ctx.ev("refused_" + name)
    after = tree(d)
    need(list(after) == list(files), lambda: f"a refused use of {name} left {sorted(set(after) ^ set(files))}")
    for k in files:
        need(after[k] == files[k], lambda: f"a refused use of {name} changed the file {k}")
    ctx.ev("files_kept" if files else "nothing_created")
    v = world()
    need(v == w, lambda: f"a refused use of {name} changed the process: {[k for k in w if v[k] != w[k]]}")
    need(alike(plain(list(args)), plain(list(kept))), lambda: f"a refused use of {name} changed its arguments: {kept} -> {args}"[:600])
    if on is not None and rng.random() < 0.7:
        a, b = on(*meshes), on(*twins)
        for x, y in [(a, b)] * isinstance(a, HexaData) + list(zip(meshes, twins)):
            need(snap_diff(snap(y), snap(x)) is None, lambda: f"after a refused use of {name} the same mesh gives another result: {snap_diff(snap(y), snap(x))}")
        need(isinstance(a, HexaData) or a == b, lambda: f"after a refused use of {name} the same mesh gives {a!r}, not {b!r}"[:300])
        ctx.ev("carried_on")
    ctx.distinct(name, errors if isinstance(errors, type) else 0, len(meshes) and (meshes[0].nel, meshes[0].ndim, meshes[0].nbc), len(files), repr(args)[:80])
