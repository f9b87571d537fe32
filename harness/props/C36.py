"""Operations read and write exactly the files they are given, under the names they are given."""
import os
import stat
import sys
from pathlib import Path

import gen
import jobs
import numpy as np
import refio
from lib import need
from props.C10 import random_dns, random_plane
from pymech.dataset import open_dataset, open_mfdataset
from pymech.neksuite import readma2, readnek, readre2, readrea, writenek, writere2, writerea
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane

LEVEL = "exploration"
CASES = dict(quick=4000, thorough=80000)
RULE = "distinct (operation, kind of name, form of the path, decoys, outcome)"

EVENTS = []  # what the process did to files while ON[0]
ON = [False]
TOUCH = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.chdir", "os.setxattr", "os.removexattr",
         "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile", "subprocess.Popen", "socket.connect", "socket.bind", "socket.sendto"}


def hook(event, args):
    if not ON[0]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int):
            return
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        EVENTS.append(("write" if w else "read", os.fsdecode(path) if isinstance(path, (str, bytes)) else str(path)))
    elif event in TOUCH:
        EVENTS.append((event, args))


def setup(ctx):
    open_dataset_ready(ctx)
    sys.addaudithook(hook)


def open_dataset_ready(ctx):
    """What is imported or built on first use is not our business."""
    p = ctx.path("warm0.f00001")
    jobs.save(p, refio.fld_encode(box_field(np.random.default_rng(0))))
    try:
        open_dataset(p).close()
        open_mfdataset([p]).close()
    except Exception:
        pass  # the cases will tell
    ctx.clean()


def box_field(rng):
    nd = int(rng.integers(2, 4))
    n = [2, 3, 2 if nd == 3 else 1]
    f = gen.rand_field(rng, ndim=nd, nel=1, special=False)
    f["lr1"] = tuple(n)
    f["var"] = (nd, nd, 1, 0, 0)
    g = np.meshgrid(*(np.sort(rng.choice(40, k, replace=False)).astype("f8") for k in reversed(n)), indexing="ij")
    f["pos"] = np.array([[g[2], g[1], g[0] * (nd == 3)]])
    f["vel"], f["pres"] = rng.standard_normal((1, 3, n[2], n[1], n[0])), rng.standard_normal((1, 1, n[2], n[1], n[0]))
    if nd == 2:
        f["vel"][:, 2] = 0
    f["temp"], f["scal"] = np.zeros((1, 0, n[2], n[1], n[0])), np.zeros((1, 0, n[2], n[1], n[0]))
    f["elmap"] = np.array([1])
    return f


# kinds of files: extension, contents, reader
def c_nek(rng):
    return refio.fld_encode(gen.rand_field(rng, nel=int(rng.integers(1, 4))))


def c_box(rng):
    return refio.fld_encode(box_field(rng))


def c_ma2(rng):
    n = int(rng.integers(1, 9))
    return refio.ma2_encode(n, 4, rng.integers(0, 50, n), rng.integers(1, 400, (n, 4)), "little")


def c_dns(rng):
    return refio.dns_encode(random_dns(rng, modes=True))


def c_plane(rng):
    return refio.plane_encode(*random_plane(rng))


def a_mesh(rng):
    return gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=2, nbc=gen.rand_nbc(rng, 1, 2), curved=0.2, params=False).mesh


SPARE = [None]


def via(write, ext):
    def make(rng):
        p = os.path.join(SPARE[0], "spare" + ext)
        write(p, a_mesh(rng))
        b = jobs.content(p)
        os.remove(p)
        return b

    return make


def dataset(path):
    d = open_dataset(path)
    r = [(v, d[v].values) for v in sorted(d.data_vars)], float(d.time)
    d.close()
    return r


def datasets(path):
    d = open_mfdataset([path])
    r = [(v, d[v].values) for v in sorted(d.data_vars)]
    d.close()
    return r


READERS = dict(readnek=("0.f00001", c_nek, readnek), read_header=("0.f00001", c_nek, lambda p: repr(read_header(p))), readre2=(".re2", via(writere2, ".re2"), readre2),
               readrea=(".rea", via(writerea, ".rea"), readrea), readma2=(".ma2", c_ma2, readma2), readdns=(".u", c_dns, readdns), readplane=(".pl", c_plane, readplane),
               open_dataset=("0.f00001", c_box, dataset), open_mfdataset=("0.f00001", c_box, datasets))
WRITERS = dict(writenek=("0.f00001", writenek), writere2=(".re2", writere2), writerea=(".rea", writerea))
NAMES = ["plain", "with space", " led", "  led", " ", "per%20cent", "{braces}", "%s%d", "bra[ck]et", "st*r", "q?", "~", "~root", "$HOME", "${HOME}", "UPPER", "dot.dot.x", ".hidden", "-dash", "\u00e9t\u00e9", "e\u0301te\u0301", "a;b", "a&b",
         "tab\there", "quote'\"", "back\\slash", "x0.f00001", "run.re2", "a.gz", "file:", "http:x", "#hash", "0", "nan", "l" * 180]
REQUIRED = dict(calls_watched=3000, other_endings=600, files_compared=30000, opens_seen=3000, odd_names=1500, relative=500, decoys=3000, failures_watched=300, mesh_operations=200, **{"op_" + k: 60 for k in [*READERS, *WRITERS]})


def tree(root):
    """Everything below a folder: kind, mode, bytes, time of change."""
    out = {}
    for d, subs, files in os.walk(root):
        for n in subs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            if stat.S_ISREG(s.st_mode):
                out[p] = ("file", s.st_mode, s.st_mtime_ns, jobs.content(p))
            else:
                out[p] = ("folder" if stat.S_ISDIR(s.st_mode) else "other", s.st_mode, 0, b"")
    return out


def watch(ctx, what, fn, root, target=None):
    """Run, and compare what became of the files with what is expected."""
    before = tree(root)
    del EVENTS[:]
    err = r = None
    ON[0] = True
    try:
        r = fn()
    except Exception as e:
        err = e
    finally:
        ON[0] = False
    ev = list(EVENTS)
    after = tree(root)
    ctx.ev("opens_seen", sum(e[0] in ("read", "write") for e in ev))
    ctx.ev("files_compared", len(after))
    how = f" (which raised {err!r})" if err is not None else ""
    for p in before:
        need(p in after, lambda: f"{what}{how} removed {p!r}")
        if p != target:
            for k, v in enumerate(("kind", "mode", "time of change", "content")):
                need(before[p][k] == after[p][k], lambda: f"{what}{how} changed the {v} of {p!r}")
    for p in after:
        need(p in before or p == target, lambda: f"{what}{how} created {p!r}")
    for kind, a in ev:
        if kind == "read":
            continue
        if kind == "write":
            p = os.path.abspath(a)
            need(p == target or p.startswith("/dev/") or (target and os.path.dirname(p) == os.path.dirname(target)) or temporary(p), lambda: f"{what}{how} opened {a!r} for writing")
        elif kind in ("os.remove", "os.rename", "os.chmod", "os.truncate", "os.utime", "os.mkdir", "os.rmdir", "os.link", "os.symlink") and target:
            pass  # a writer may prepare its file elsewhere: what counts is what is left
        else:
            need(False, lambda: f"{what}{how} did {kind} {a!r}")
    if not target and err is None:
        need(any(k == "read" for k, _ in ev), f"harness: {what} opened nothing")
    ctx.ev("calls_watched")
    ctx.ev("failures_watched", int(err is not None))
    return r, err


def temporary(p):
    import tempfile

    return p.startswith(tempfile.gettempdir() + os.sep) and not os.path.exists(p)


def decoy_names(base):
    """Other names, which a name that is not taken literally could become."""
    import urllib.parse

    stem, ext = os.path.splitext(base)
    out = [base.strip(), base.lower(), base.upper(), urllib.parse.unquote(base), base.replace("\\", "/").split("/")[-1], base.lstrip("."), base + ext, stem, stem + ".f00000", base.replace("~", "home"), base.replace("$HOME", "home"), base + ".tmp",
           base + "~", base + ".bak", base + ".part", stem + ".tmp", "." + base, "tmp", base.replace("[ck]", "c"), base.replace("*", "a"), base.replace("?", "a"), "root0.f00001", base.split("#")[0], base.split(":")[-1],
           os.path.normpath(base), *(stem + e for e in (".re2", ".rea", ".ma2", ".f00001", ".u", ".pl")), *(base + e for e in (".re2", ".rea", ".ma2", ".f00001", ".gz"))]
    return sorted({n for n in out if n and n != base and "/" not in n and "\0" not in n and n not in (".", "..") and len(os.fsencode(n)) < 250})


FOLDERS = ["~", "$HOME", "a*", "%41", "a b", "a.rea", "x0.f00001"]


def place(ctx, rng, ext, op):
    """A path to a file, in one of many forms, and folders full of other files."""
    root = ctx.path("r")
    work, other, home = (os.path.join(root, n) for n in ("work", "other dir.d", "home"))
    for d in (root, work, other, home):
        os.makedirs(d, exist_ok=True)
    stem = str(rng.choice(NAMES))
    base = stem + ext
    folder = str(rng.choice([work, other, os.path.join(work, str(rng.choice(FOLDERS)))], p=[0.5, 0.2, 0.3]))
    if op == "open_mfdataset" and folder.endswith(os.sep + "~"):
        folder = work  # xarray replaces ~ itself
    os.makedirs(folder, exist_ok=True)
    target = os.path.join(folder, base)
    k = int(rng.integers(0, 5))
    if k == 0:
        given = target
    elif k == 1:
        given = os.path.relpath(target, work)
    elif k == 2:
        given = os.path.join(".", os.path.relpath(target, work))
    elif k == 3:
        given = os.path.join(folder, "..", os.path.basename(folder), base)
    else:
        given = Path(os.path.relpath(target, work))
    n = 0
    for d in sorted({work, other, home, folder}):
        for name in decoy_names(base) + ([base] if d != folder else []):
            if rng.random() < 0.5 and not os.path.isdir(os.path.join(d, name)):
                jobs.save(os.path.join(d, name), b"decoy " + name.encode("utf8", "surrogateescape"))
                n += 1
    ctx.ev("decoys", n)
    ctx.ev("odd_names", int(stem not in ("plain", "UPPER")))
    ctx.ev("relative", int(k in (1, 2, 4)))
    return root, work, home, target, given, (stem, k)


def case(ctx, rng):
    SPARE[0] = ctx.path("spare")
    os.makedirs(SPARE[0], exist_ok=True)
    kinds = [*READERS, *WRITERS, "mesh"]
    op = kinds[int(rng.integers(0, len(kinds)))]
    if op == "mesh":
        return operations(ctx, rng)
    ext = (READERS.get(op) or WRITERS[op])[0]
    if not op.startswith("open_") and rng.random() < 0.4:  # any other ending will do
        ext = str(rng.choice(["", ext + ".bak", ext + "~", ext + "2", ext.upper(), ext + " ", ext[:-1], ".dat", ".tar.gz", ".", ".rea", ".re2", ".ma2", ".map", ".f00001", ".plane", ".gz", ext + ext]))
        ctx.ev("other_endings")
    root, work, home, target, given, sig = place(ctx, rng, ext, op)
    cwd, env = os.getcwd(), os.environ.get("HOME")
    os.chdir(work)
    os.environ["HOME"] = home
    try:
        if op in READERS:
            reader(ctx, rng, op, root, target, given, sig)
        else:
            writer(ctx, rng, op, root, target, given, sig)
    finally:
        os.chdir(cwd)
        if env is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = env
    ctx.ev("op_" + op)


def reader(ctx, rng, op, root, target, given, sig):
    _, make, fn = READERS[op]
    b = make(rng)
    k = rng.random()
    plain = os.path.join(SPARE[0], "plain" + READERS[op][0])
    ctx.note(f"{op}({given!r})")
    if k < 0.8:
        jobs.save(target, b)
        jobs.save(plain, b)
        os.chmod(target, int(rng.choice([0o644, 0o444, 0o600])))
        if rng.random() < 0.5:
            os.utime(target, (1e9, 1e9 + 0.5))
        ref = jobs.digest(fn(plain))
        r, err = watch(ctx, op, lambda: fn(given), root)
        need(err is None, lambda: f"{op}({given!r}) raised {err!r}, with a plain name it does not")
        need(jobs.digest(r) == ref, lambda: f"{op}({given!r}) gives something else than with a plain name")
    elif k < 0.9:  # cut
        jobs.save(target, b[: int(rng.integers(0, len(b)))])
        r, err = watch(ctx, op, lambda: fn(given), root)
    else:  # missing
        r, err = watch(ctx, op, lambda: failing(fn, given), root)
        need(err is not None, lambda: f"{op}({given!r}) of a missing file returned {r!r}")
    ctx.distinct(op, sig, type(err).__name__)


def failing(fn, given):
    r = fn(given)
    if isinstance(r, int) and r < 0:
        raise OSError(r)
    return r


def writer(ctx, rng, op, root, target, given, sig):
    ext, fn = WRITERS[op]
    m = a_mesh(rng) if op != "writenek" else gen.to_hexa(gen.rand_field(rng, nel=int(rng.integers(1, 4))))
    plain = os.path.join(SPARE[0], "plain" + ext)
    ctx.note(f"{op}({given!r})")
    k = rng.random()
    if k < 0.85:
        fn(plain, m)
        exists = rng.random() < 0.5
        if exists:  # anything that was there before is replaced
            jobs.save(target, bytes(rng.integers(0, 256, int(rng.choice([0, 10, 1000, 100000])), dtype="u1")))
        r, err = watch(ctx, op, lambda: fn(given, m), root, target)
        need(err is None, lambda: f"{op}({given!r}) raised {err!r}, with a plain name it does not")
        need(os.path.exists(target), lambda: f"{op}({given!r}) did not write {target!r}")
        need(jobs.content(target) == jobs.content(plain), lambda: f"{op}({given!r}){' over an older file' if exists else ''} writes something else than under a plain name")
    else:  # a folder that is not there
        d = os.path.join(os.path.dirname(target), "missing")
        r, err = watch(ctx, op, lambda: failing(lambda p: fn(p, m), os.path.join(d, "x" + ext)), root)
        need(err is not None, lambda: f"{op} into a missing folder returned {r!r}")
    ctx.distinct(op, sig, type(err).__name__)


def operations(ctx, rng):
    """Operations on meshes touch no file at all."""
    root = ctx.path("r")
    os.makedirs(root)
    for n in ("mesh.re2", "box.rea", "tmp", "cache"):
        jobs.save(os.path.join(root, n), b"decoy")
    cwd = os.getcwd()
    kinds = [k for k in jobs.JOBS if k in ("extrude", "refine", "box", "circle", "map", "merge", "internal", "rotate", "keep", "expo", "query")]
    kind = kinds[int(rng.integers(0, len(kinds)))]
    os.chdir(root)
    try:
        before = tree(root)
        del EVENTS[:]
        ON[0] = True
        try:
            jobs.JOBS[kind](rng, SPARE[0])
        finally:
            ON[0] = False
        bad = [e for e in EVENTS if e[0] != "read" or not str(e[1]).endswith((".py", ".pyc", ".so"))]
        need(not bad, lambda: f"{kind} touches files: {bad[:3]}")
        need(tree(root) == before, lambda: f"{kind} changes files")
    finally:
        os.chdir(cwd)
    ctx.ev("calls_watched")
    ctx.ev("mesh_operations")
    ctx.distinct("mesh", kind)
