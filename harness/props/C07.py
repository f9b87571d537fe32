""".rea meshes: what is written, what is read, and that the two agree."""
import gen
import numpy as np
import refio
from lib import Violation, need, same
from pymech.neksuite import readrea, writerea

LEVEL = "exploration"
CASES = dict(quick=800, thorough=16000)
RULE = "distinct (ndim, shape or size class, number of BC fields, curved, internal conditions, source of the file) meshes"
REQUIRED = dict(huge_written=2, huge_read=2, full_columns=100, void_connections=100, written_decoded=250, read_compared=500, foreign_files=150, large_meshes=20, multi_field=100, curved_edges=500, conditions=5000, fixpoints=250, three_char_tags=50, files_replaced=30)
ASSUMPTIONS = ["values are zero or have a decimal exponent of at most two digits; faces without a condition carry no parameters",
               "two meshes each of more than 99 999 and of more than 999 999 elements (a third text layout) per run"]
CASE_TIMEOUT = 120


def r6(v):
    return float("{:14.6e}".format(v))


def tame(rng, mesh):
    """Values the text format can hold."""
    for el in mesh.elem:
        for a in (el.pos, el.curv):
            a[np.abs(a) < 1e-90] = 0.0


def large(rng):
    nd = int(rng.integers(2, 4))
    n = [33, 31] if nd == 2 else [10, 10, 10]
    if rng.random() < 0.3:
        n = [999, 1] if nd == 2 else [9, 111, 1]
    if rng.random() < 0.3:
        n = [1000, 1] if nd == 2 else [1, 1, 1000]
    m = gen.struct_mesh(rng, nd, n, nbc=int(rng.integers(1, 3)), curved=0.05, internal=bool(rng.random() < 0.8), rot=True)
    return m


def text(p):
    with open(p) as fp:
        return fp.read()


def write(p, s):
    with open(p, "w") as fp:
        fp.write(s)


def full(p, w=14):
    return tuple(float(refio.fill(x, w)) for x in p)


def expected(rec):
    """The record as the text holds it: every face has a condition, 7 digits."""
    big = rec["nel"] >= 1000000
    rb = (lambda v: float("{:18.11e}".format(v))) if big else r6
    out = dict(rec)
    out["xyz"] = np.vectorize(r6)(rec["xyz"])
    out["curves"] = [(e, k, tuple(r6(x) for x in p), t) for e, k, p, t in rec["curves"]]
    out["bcs"] = [{k: (t, tuple(rb(x) for x in p)) for k, (t, p) in fld.items()} for fld in rec["bcs"]]
    return out


def compare(ctx, what, got, exp, blanks):
    same(f"{what}: vertices", got["xyz"], exp["xyz"])
    need([(c[0], c[1], c[3]) for c in sorted(got["curves"])] == [(c[0], c[1], c[3]) for c in exp["curves"]], lambda: f"{what}: curved edges {got['curves'][:3]}, expected {exp['curves'][:3]}")
    for a, b in zip(sorted(got["curves"]), exp["curves"]):
        same(f"{what}: curvature of {a[:2]}", a[2], b[2])
    need(len(got["bcs"]) == len(exp["bcs"]), lambda: f"{what}: {len(got['bcs'])} fields of conditions, expected {len(exp['bcs'])}")
    for ib, (g, x) in enumerate(zip(got["bcs"], exp["bcs"])):
        need(set(g) == set(x), f"{what}: faces of field {ib}")
        for k in x:
            t, p = x[k]
            t2 = blanks if t == "" else t
            need(g[k][0] == t2, lambda: f"{what}: field {ib} element {k[0]} face {k[1]}: {g[k][0]!r}, expected {t2!r}")
            same(f"{what}: field {ib} parameters of {k}", g[k][1], p)
        ctx.ev("conditions", len(x))
    ctx.ev("curved_edges", len(exp["curves"]))


def check(ctx, rng, m):
    mesh = m.mesh
    tame(rng, mesh)
    rec = gen.mesh_record(mesh)
    exp = expected(rec)
    ctx.ev("multi_field", int(m.nbc > 1))
    ctx.ev("large_meshes", int(m.nel >= 1000))
    ctx.ev("three_char_tags", sum(len(t) == 3 for s in m.sides.values() for t in s))
    p1, p2 = ctx.path("a.rea"), ctx.path("b.rea")
    foreign = rng.random() < 0.35 and m.nbc > 0
    ctx.distinct(m.ndim, tuple(m.n), m.nbc, mesh.ncurv > 0, m.internal, foreign)
    if foreign:
        src = dict(exp)
        kw = {}
        odd = rng.random() < 0.3  # connections to no element, whatever the face
        void = lambda p: (0.0, float(rng.integers(0, 7)), float(rng.choice([0.0, 1.5])), 0.0, 0.0) if odd and rng.random() < 0.5 else p  # noqa: E731
        src["bcs"] = [{k: ("E", void(p)) if t == "" else (t, p) for k, (t, p) in fld.items()} for fld in exp["bcs"]]
        ctx.ev("void_connections", sum(t == "E" and p[0] == 0 and any(p) for fld in src["bcs"] for t, p in fld.values()))
        if rng.random() < 0.6:  # numbers that fill their columns
            kw["num"] = refio.fill
            exp = dict(exp, curves=[(e, k, full(p), t) for e, k, p, t in rec["curves"]],
                       bcs=[{k: (t, full(p)) for k, (t, p) in fld.items()} for fld in rec["bcs"]])
            src = dict(src, curves=exp["curves"], bcs=[{k: ("E", void(p)) if t == "" else (t, p) for k, (t, p) in fld.items()} for fld in exp["bcs"]])
            ctx.ev("full_columns")
        write(p1, refio.rea_encode(src, **kw, npar=int(rng.integers(1, 130)), npscal=int(rng.integers(0, 6)), nswitch=int(rng.integers(1, 20))))
        ctx.ev("foreign_files")
    else:
        if rng.random() < 0.2:
            mesh.ncurv = int(rng.integers(0, 50))
        if rng.random() < 0.15:  # something longer or shorter is there already
            write(p1, "\n" * int(rng.choice([1, 90, 2000, 300000])))
            ctx.ev("files_replaced")
        writerea(p1, mesh)
        try:
            d = refio.rea_decode(text(p1))
        except (ValueError, IndexError) as e:
            raise Violation(f"the file cannot be decoded: {e}") from e
        need((d["nel"], d["ndim"]) == (m.nel, m.ndim), f"nel, ndim {d['nel'], d['ndim']}")
        compare(ctx, "on disk", d, exp, "E")
        titles = ["FLUID BOUNDARY CONDITIONS", "THERMAL BOUNDARY CONDITIONS"] + [f"PASSIVE SCALAR {k} BOUNDARY CONDITIONS" for k in range(1, 99)]
        want = titles[: m.nbc] + [f"NO {t}" for t in titles[m.nbc : 2]]
        need([" ".join(t.split()) for t in d["names"]] == want, lambda: f"sections {d['names']}, expected {want}")
        ctx.ev("written_decoded")
    r = readrea(p1)
    need((r.ndim, r.nel, r.nbc, r.ncurv) == (m.ndim, m.nel, m.nbc, len(rec["curves"])), lambda: f"read ndim, nel, nbc, ncurv = {r.ndim, r.nel, r.nbc, r.ncurv}")
    need(list(r.lr1) == [2, 2, m.ndim - 1] and list(r.var) == [m.ndim, 0, 0, 0, 0], lambda: f"lr1 {r.lr1} var {r.var}")
    compare(ctx, "read", gen.mesh_record(r), exp, "")
    for ib in range(m.nbc):
        for e, el in enumerate(r.elem):
            for f in range(2 * m.ndim):
                bc = el.bcs[ib, f]
                if bc[0] != "":
                    need((int(bc[1]), int(bc[2])) == (e + 1, f + 1), lambda: f"read condition of element {e + 1} face {f + 1} labelled {bc[1]}, {bc[2]}")
    ctx.ev("read_compared")
    writerea(p2, r)
    if foreign:
        compare(ctx, "written again", refio.rea_decode(text(p2)), expected(dict(rec, curves=exp["curves"], bcs=exp["bcs"])), "E")
    else:
        a, b = text(p1), text(p2)
        need(a == b, lambda: "writing back what was read gives another file: " + str(next(((i + 1, x, y) for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))) if x != y), "length")))
        ctx.ev("fixpoints")


def case(ctx, rng):
    if rng.random() < 0.05:
        m = large(rng)
    else:
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, nbc=gen.rand_nbc(rng, 0, 4), curved=float(rng.choice([0, 0.2, 0.6])), curv_kinds="mCse", internal=bool(rng.random() < 0.7),
                            blank=float(rng.choice([0, 0.1])))
    ctx.note(gen.describe_mesh(m))
    if rng.random() < 0.2:
        s = 10.0 ** rng.integers(-30, 30)
        for el in m.mesh.elem:
            el.pos *= s
    check(ctx, rng, m)


# the two layouts of large files: widths of an element number with a curved side and of a parameter of a condition,
# and where the label and the parameters of a condition are
class Mid:
    n0, more, wc, wb, digits, names = 110000, 30000, 6, 14, 6, (slice(4, 10), slice(0, 0), 10)

    @staticmethod
    def label(i, f):
        return f"{i:6d}"


class Wide:
    n0, more, wc, wb, digits, names = 1000000, 1, 10, 18, 11, (slice(4, 15), slice(15, 16), 16)

    @staticmethod
    def label(i, f):
        return f"{i:11d}{f:1d}"


def line_mesh(rng, lay):
    """A line of many elements, most of which are one object in memory."""
    from pymech.core import HexaData

    n = lay.n0 + int(rng.integers(0, lay.more))
    mesh = HexaData(2, 1, [2, 2, 1], [2, 0, 0, 0, 0], 1)
    one = mesh.elem[0]
    one.pos[:, 0] = [[[0, 1], [0, 1]], [[0, 0], [1, 1]], [[0, 0], [0, 0]]]
    for f in range(4):
        one.bcs[0, f] = ("W", 1, f + 1, 0, 0, 0, 0, 0)
    special = gen.struct_mesh(rng, 2, [3, 2], nbc=1, curved=0.7, curv_kinds="mCse", internal=True, periodic=[False, True]).mesh
    tame(rng, special)
    at = sorted({0, n - 1, n - 2, *(int(x) for x in rng.integers(0, n, 3))})[: special.nel]
    mesh.elem = [one] * n
    mesh.nel = n
    mesh.elmap = np.arange(1, n + 1)
    num = {e + 1: at[e] + 1 for e in range(len(at))}
    for e, i in enumerate(at):
        el = mesh.elem[i] = special.elem[e]
        for f in range(4):
            bc = el.bcs[0, f]
            if bc[0] in ("E", "P"):
                bc[3] = num.get(int(bc[3]), n - 7)
            elif bc[0] != "":
                for q in range(3, 8):
                    bc[q] = 0.123456789012 * (q - 5) * (e + 1)
            bc[1], bc[2] = i + 1, f + 1
    mesh.ncurv = sum(c != "" for i in at for c in mesh.elem[i].ccurv)
    curves = [(i + 1, k + 1, tuple(float(x) for x in mesh.elem[i].curv[k]), c) for i in at for k, c in enumerate(mesh.elem[i].ccurv) if c != ""]
    return n, mesh, at, curves


def conditions(mesh, i):
    return [(str(b[0]), tuple(float(b[q]) for q in range(3, 8))) for b in mesh.elem[i].bcs[0, :4]]


def frozen(f, lay, timeout):
    """Without the garbage collector, which looks at all the elements again and again."""
    import gc

    def g(ctx, rng):
        gc.collect()
        gc.freeze()
        on = gc.isenabled()
        gc.disable()
        try:
            f(ctx, rng, lay)
        finally:
            if on:
                gc.enable()
            gc.unfreeze()

    g.timeout = timeout
    g.__name__ = f"{f.__name__}_{lay.__name__.lower()}"
    return g


def huge_out(ctx, rng, lay):
    n, mesh, at, curves = line_mesh(rng, lay)
    p = ctx.path("big.rea")
    writerea(p, mesh)
    L = text(p).split("\n")
    h = next(k for k, t in enumerate(L) if "MESH DATA" in t)
    need(L[h + 1].split()[:3] == [str(n), "2", str(n)], lambda: f"counts {L[h + 1]!r}")
    c = h + 2 + 3 * n
    need("CURVED" in L[c] and int(L[c + 1].split()[0]) == mesh.ncurv, lambda: f"curved sides {L[c : c + 2]}")
    b = c + 2 + mesh.ncurv
    need("BOUNDARY" in L[b] and "FLUID" in L[b + 1] and "*****" in L[b + 2 + 4 * n], lambda: f"conditions {L[b : b + 2]} {L[b + 2 + 4 * n]}")
    for k, (i, e, pr, t) in enumerate(curves):
        s = L[c + 2 + k]
        w = 2 + lay.wc
        got = (int(s[2:w]), int(s[:2]), tuple(float(s[w + 14 * q : w + 14 + 14 * q]) for q in range(5)), s[w + 70 :].strip())
        need(got == (i, e, tuple(r6(x) for x in pr), t), lambda: f"curved side {s!r}, expected {(i, e, pr, t)}")
    for i in at + [int(x) for x in rng.integers(0, n, 40)]:
        s = L[h + 2 + 3 * i]
        need(s.split()[0] == "ELEMENT" and int(s.split()[1]) == i + 1, lambda: f"element line {s!r} for element {i + 1}")
        q = mesh.elem[i].pos
        for d in range(2):
            same(f"vertices of element {i + 1}", [float(x) for x in L[h + 3 + 3 * i + d].split()], [r6(x) for x in (q[d, 0, 0, 0], q[d, 0, 0, 1], q[d, 0, 1, 1], q[d, 0, 1, 0])])
        for f, (t, pr) in enumerate(conditions(mesh, i)):
            s = L[b + 2 + 4 * i + f]
            le, lf, o = lay.names
            got = (s[1:4].strip(), int(s[le]), s[lf], tuple(float(s[o + lay.wb * q : o + lay.wb + lay.wb * q]) for q in range(5)))
            exp = (t or "E", i + 1 if i in at else 1, str(f + 1) if lay is Wide else "", tuple(float(f"{x:.{lay.digits}e}") for x in pr))
            need(got == exp, lambda: f"condition {s!r}, expected {exp}")
    ctx.ev("huge_written")


def huge_in(ctx, rng, lay):
    """Numbers that fill their columns."""
    n, mesh, at, curves = line_mesh(rng, lay)
    p = ctx.path("big.rea")
    with open(p, "w") as fp:
        print("****** PARAMETERS *****\n   2.61  NEKTON VERSION\n   2 DIMENSIONAL RUN\n   2 PARAMETERS FOLLOW\n   1.0\n  -5.0", file=fp)
        print("      0  Lines of passive scalar data follows\n   1  LOGICAL SWITCHES FOLLOW\n  T     IFFLOW\n   1 1 0 0     XFAC,YFAC,XZERO,YZERO", file=fp)
        print(f" **MESH DATA** 1st line is X of corner 1,2,3,4.\n {n:10d}  2 {n:10d}           NEL,NDIM,NELV", file=fp)
        for i, el in enumerate(mesh.elem):
            q = el.pos if i in at else None
            fp.write(f"            ELEMENT {i + 1:11d} [    1 ]    GROUP     0\n")
            if q is None:
                fp.write("  0.0 1.0 1.0 0.0\n  0.0 0.0 1.0 1.0\n")
            else:
                for d in range(2):
                    print(*(f"{x:13.6e}" for x in (q[d, 0, 0, 0], q[d, 0, 0, 1], q[d, 0, 1, 1], q[d, 0, 1, 0])), file=fp)
        print(f" ***** CURVED SIDE DATA *****\n {len(curves)} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE", file=fp)
        for i, e, pr, t in curves:
            print(f"{e:2d}{i:{lay.wc}d}" + "".join(refio.fill(x, 14) for x in pr) + " " + t, file=fp)
        print("  ***** BOUNDARY CONDITIONS *****\n  ***** FLUID   BOUNDARY CONDITIONS *****", file=fp)
        zero = f"{0.0:{lay.wb}.{lay.digits}e}" * 5
        for i in range(n):
            if i in at:
                for f, (t, pr) in enumerate(conditions(mesh, i)):
                    fp.write(f" {t or 'E':3s}{lay.label(i + 1, f + 1)}" + "".join(refio.fill(x, lay.wb) for x in pr) + "\n")
            else:
                fp.write("".join(f" W  {lay.label(i + 1, f)}{zero}\n" for f in (1, 2, 3, 4)))
        print("  ***** NO THERMAL BOUNDARY CONDITIONS *****\n    0 PRESOLVE/RESTART OPTIONS  *****", file=fp)
    r = readrea(p)
    need((r.nel, len(r.elem), r.ncurv, r.nbc, r.ndim) == (n, n, mesh.ncurv, 1, 2), lambda: f"read nel {r.nel}, ncurv {r.ncurv}")
    for i in at + [int(x) for x in rng.integers(0, n, 40)]:
        el, src = r.elem[i], mesh.elem[i]
        same(f"vertices of element {i + 1}", el.pos, np.vectorize(r6)(src.pos))
        need(el.ccurv == src.ccurv, lambda: f"curved sides of element {i + 1}: {el.ccurv}, expected {src.ccurv}")
        for k in range(12):
            if src.ccurv[k] != "":
                same(f"curvature of element {i + 1} edge {k + 1}", el.curv[k], full(src.curv[k]))
        for f, (t, pr) in enumerate(conditions(mesh, i)):
            x = el.bcs[0, f]
            got = (str(x[0]), int(x[1]), int(x[2]), tuple(float(x[q]) for q in range(3, 8)))
            exp = (t, i + 1, f + 1, full(pr, lay.wb) if i in at else pr) if t else ("", 0, 0, (0.0,) * 5)
            need(got == exp, lambda: f"condition of element {i + 1} face {f + 1}: {got}, expected {exp}")
    ctx.ev("huge_read")


FIXED = [frozen(huge_in, Mid, 200), frozen(huge_out, Mid, 200), frozen(huge_in, Wide, 500), frozen(huge_out, Wide, 500)]
