"""Damaged binary files: an error, or everything that was asked for, never part of it."""
import gen
import numpy as np
import refio
from lib import Violation, need, same
from pymech.neksuite import readma2, readnek, readre2
from pymech.simsonsuite import readdns, readplane

LEVEL = "fault_enumeration"
CASES = dict(quick=10000, thorough=200000)
RULE = "distinct (format, byte order, section of the file where it was cut, cut modulo word) combinations"
REQUIRED = dict(cuts_nek=2000, cuts_re2=2000, cuts_ma2=800, cuts_dns=800, cuts_plane=800, refused=6000, complete_despite_cut=50, bad_tags=2000)


def attempt(fn, p):
    try:
        return fn(p), None
    except Exception as e:  # any error will do: nothing is handed out
        return None, e


def wrong_tag(rng, endian):
    """Four bytes that are no byte-order mark, often nearly one."""
    good = np.array([refio.TAG], "<f4" if endian == "little" else ">f4").tobytes()
    while True:
        k = int(rng.integers(0, 6))
        if k == 0:
            b = rng.bytes(4)
        elif k == 1:  # one flipped bit
            i = int(rng.integers(0, 32))
            b = bytes(x ^ (1 << i % 8 if j == i // 8 else 0) for j, x in enumerate(good))
        elif k == 2:  # a number nearby
            x = refio.TAG + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-2.3, 1)
            b = np.array([x], "<f4" if rng.random() < 0.5 else ">f4").tobytes()
        elif k == 3:
            x = float(rng.choice([0.0, 6.0, -refio.TAG, 65.4321, 0.654321, 7.0, 6.5, np.nan, np.inf, -np.inf, 1.0]))
            b = np.array([x], "<f4" if rng.random() < 0.5 else ">f4").tobytes()
        elif k == 4:  # some bytes swapped
            b = bytes(good[int(i)] for i in rng.permutation(4))
        else:
            b = bytearray(good)
            b[int(rng.integers(0, 4))] = int(rng.integers(0, 256))
            b = bytes(b)
        with np.errstate(all="ignore"):
            v = [float(np.frombuffer(b, t)[0]) for t in ("<f4", ">f4")]
        if not any(abs(x - refio.TAG) < 1e-3 for x in v):
            return b


def tags(ctx, rng, fmt, name, at, endian, buf, read):
    p = ctx.path(name)
    for _ in range(5):
        bad = bytearray(buf)
        bad[at : at + 4] = wrong_tag(rng, endian)
        open(p, "wb").write(bytes(bad))
        got, err = attempt(read, p)
        need(err is not None or (isinstance(got, int) and got < 0), f"{fmt} file with the byte-order tag {bytes(bad[at:at + 4])!r} was read")
        ctx.ev("bad_tags")


def cuts_of(rng, size, marks, n):
    """Random cuts, and cuts around section boundaries."""
    out = set()
    for m in marks:
        for d in (-8, -4, -1, 0, 1, 4, 7, 8):
            if rng.random() < 0.25:
                out.add(m + d)
    for _ in range(n):
        out.add(int(rng.integers(0, size)))
    return sorted(c for c in out if 0 <= c < size)


def section(marks, c):
    return int(np.searchsorted(marks, c, side="right"))


def run(ctx, rng, fmt, endian, buf, marks, n, read, complete, same_as_full):
    p = ctx.path("x")
    open(p, "wb").write(buf)
    full, err = attempt(read, p)
    need(err is None, lambda: f"{fmt}: the complete file is refused: {err!r}")
    same_as_full(full)
    for c in cuts_of(rng, len(buf), marks, n):
        open(p, "wb").write(buf[:c])
        got, err = attempt(read, p)
        ctx.ev("cuts_" + fmt)
        ctx.distinct(fmt, endian, section(marks, c), c % 8)
        if err is not None or (isinstance(got, int) and got < 0):
            need(not complete(c), lambda: f"{fmt}: a file with all its data ({c} of {len(buf)} bytes) is refused: {err!r}")
            ctx.ev("refused")
            continue
        try:
            same_as_full(got)
        except Violation as v:
            raise Violation(f"{fmt}: cut to {c} of {len(buf)} bytes (section {section(marks, c)} of {len(marks)}), read without an error but: {v}") from v
        ctx.ev("complete_despite_cut")


def do_nek(ctx, rng):
    f = gen.rand_field(rng, special=False, nel=int(rng.integers(1, 5)), maxscal=2, lr1=gen.rand_lr1(rng, nd := int(rng.integers(2, 4)), big=0), ndim=nd)
    for k in ("pos", "vel", "pres", "temp", "scal"):  # no zeros: missing data is visible
        f[k] = np.where(f[k] == 0, 1.5, f[k])
    meta = bool(rng.random() < 0.5)
    buf = refio.fld_encode(f, metadata=meta)
    nd = len(refio.fld_encode(f, metadata=False))
    marks = [132, 136, 136 + 4 * f["nel"]]
    npt = int(np.prod(f["lr1"])) * f["wdsz"] * f["nel"]
    for n in f["var"]:
        marks.append(marks[-1] + n * npt)
    ctx.note(gen.describe_field(f), f"{len(buf)} bytes")

    def chk(d):
        for e, el in enumerate(d.elem):
            for k, n in zip(("pos", "vel", "pres", "temp", "scal"), f["var"]):
                same(f"elem[{e}].{k}", getattr(el, k)[:n], f[k][e])

    run(ctx, rng, "nek", f["endian"], buf, marks, 12, readnek, lambda c: c >= nd, chk)
    if rng.random() < 0.5:
        tags(ctx, rng, "nek", "t0.f00001", 132, f["endian"], buf, readnek)


def do_re2(ctx, rng):
    m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=2, curved=0.3, internal=False)
    rec = gen.mesh_record(m.mesh)
    ext = [[(e, f, p, t) for (e, f), (t, p) in fld.items() if t != ""] for fld in rec["bcs"]]
    endian = str(rng.choice(["little", "big"]))
    buf = refio.re2_encode(dict(rec, bcs=ext), endian)
    marks = [80, 84, 84 + m.nel * 8 * (1 + m.ndim * 2**m.ndim)]
    marks.append(marks[-1] + 8)
    marks.append(marks[-1] + 64 * len(rec["curves"]))
    ends = []
    for x in ext:
        marks.append(marks[-1] + 8)
        marks.append(marks[-1] + 64 * len(x))
        ends.append(marks[-1])
    geo_end = marks[4]
    ctx.note(gen.describe_mesh(m), endian, f"{len(buf)} bytes")

    def chk(d, nfields=None):
        need(d.nel == m.nel and d.ncurv == len(rec["curves"]), f"nel {d.nel}, ncurv {d.ncurv}")
        for e, (el, ref) in enumerate(zip(d.elem, m.mesh.elem)):
            same(f"elem[{e}].pos", el.pos, ref.pos)
            need(el.ccurv == ref.ccurv, f"elem[{e}].ccurv")
            same(f"elem[{e}].curv", el.curv, ref.curv)
        n = len(ext) if nfields is None else nfields
        if n:
            need(d.nbc == n, f"{d.nbc} fields of boundary conditions instead of {n}")
        for ib in range(n):
            for e, el in enumerate(d.elem):
                for f in range(2 * m.ndim):
                    t, p = rec["bcs"][ib][e + 1, f + 1]
                    need(str(el.bcs[ib, f][0]) == t, f"field {ib} element {e} face {f}: {el.bcs[ib, f][0]!r} instead of {t!r}")

    # a file that stops after a whole field of boundary conditions is a valid file with fewer fields
    valid = {geo_end: 0, **{x: i + 1 for i, x in enumerate(ends)}}
    p = ctx.path("x.re2")
    open(p, "wb").write(buf)
    chk(readre2(p))
    for c in cuts_of(rng, len(buf), marks, 10):
        open(p, "wb").write(buf[:c])
        got, err = attempt(readre2, p)
        ctx.ev("cuts_re2")
        ctx.distinct("re2", endian, section(marks, c), c % 8)
        if err is not None:
            need(c not in valid, lambda: f"re2: a valid file with {valid[c]} fields is refused: {err!r}")
            ctx.ev("refused")
            continue
        need(c in valid, lambda: f"re2: cut to {c} of {len(buf)} bytes (section {section(marks, c)} of {len(marks)}), read without an error")
        chk(got, valid[c])
        ctx.ev("complete_despite_cut")
    tags(ctx, rng, "re2", "t.re2", 80, endian, buf, readre2)


def do_ma2(ctx, rng):
    nel, nv = int(rng.integers(1, 20)), int(rng.choice([4, 8]))
    proc, cell = rng.integers(0, 1000, nel), rng.integers(1, 2**31 - 1, (nel, nv))
    endian = str(rng.choice(["little", "big"]))
    buf = refio.ma2_encode(nel, nv, proc, cell, endian)
    ctx.note(f"ma2 nel={nel} nvert={nv} {endian}")

    def chk(r):
        same("cell", r[0], cell)
        same("procmap", r[1], proc)

    run(ctx, rng, "ma2", endian, buf, [132, 136, 136 + 4 * (nv + 1) * (nel - 1)], 8, readma2, lambda c: False, chk)
    tags(ctx, rng, "ma2", "t.ma2", 132, endian, buf, readma2)


def do_dns(ctx, rng):
    import props.C10 as c10

    d = c10.random_dns(rng, modes=True)
    buf = refio.dns_encode(d)
    ctx.note({k: v for k, v in d.items() if k != "data"})
    state = {}

    def chk(r):
        need(not isinstance(r, int), "refused")
        v = (r.elem[0].vel.copy(), r.elem[0].scal.copy())
        if not state:
            state["ref"] = v
            need(all(np.all(np.any(x != 0, axis=(1, 2, 3))) for x in v if x.size), "empty reference")
        same("velocity", v[0], state["ref"][0])
        same("scalars", v[1], state["ref"][1])

    n = len(buf)
    run(ctx, rng, "dns", d["endian"], buf, [4, 48, n - 8 * d["nx"] - 4, n - 4], 8, readdns, lambda c: c >= n - 4, chk)


def do_plane(ctx, rng):
    import props.C10 as c10

    coords, data, nn, endian = c10.random_plane(rng)
    buf = refio.plane_encode(coords, data, nn, endian)
    ctx.note(f"plane {nn} {endian}")
    n = len(buf)

    def chk(r):
        need(not isinstance(r, int), "refused")
        same("coordinates", r[0], coords)
        same("data", r[1], data)

    run(ctx, rng, "plane", endian, buf, [4, 8 + 4 * len(nn), n - 8 - 8 * data.size, n - 4], 8, readplane, lambda c: c >= n - 4, chk)


KINDS = [do_nek, do_nek, do_re2, do_re2, do_ma2, do_dns, do_plane]


def case(ctx, rng):
    KINDS[int(rng.integers(0, len(KINDS)))](ctx, rng)
