"""Field file headers: text <-> Header in both directions."""
import io

import numpy as np
from lib import need
from pymech.neksuite.field import Header, read_header

LEVEL = "exploration"
CASES = dict(quick=16000, thorough=400000)
RULE = "distinct (word size, orders, variables, construction, reading route) header combinations"
REQUIRED = dict(headers_serialised=1000, headers_parsed=1000, rejections_observed=50)


def rand(rng):
    ndim = int(rng.integers(2, 4))
    orders = [int(x) for x in rng.integers(2, 30, 2)] + [1 if ndim == 2 else int(rng.integers(2, 30))]
    while True:
        nv = [ndim * int(rng.random() < 0.6), ndim * int(rng.random() < 0.6), int(rng.random() < 0.5), int(rng.random() < 0.5),
              int(rng.choice([0, 1, 2, 9, 10, 42, 99]))]
        if any(nv):
            break
    t = float(rng.choice([0.0, 1.5, -3.25, rng.standard_normal(), rng.uniform(1, 10) * 10.0 ** rng.integers(-95, 95)]))
    big = lambda m: int(10 ** rng.uniform(0, m))  # noqa: E731
    nelf = big(8)
    return dict(wdsz=int(rng.choice([4, 8])), orders=orders, nb_elems=max(nelf, big(9.9)), nb_elems_file=nelf, time=t, istep=big(8.9) - 1,
                fid=int(10 ** rng.uniform(0, 5.99)), nb_files=int(10 ** rng.uniform(0, 5.99))), nv, ndim


def text_of(nv):
    return "".join(s for s, n in zip(("X", "U", "P", "T", f"S{nv[4]:02d}"), nv) if n)


def check(h, a, nv, ndim, what):
    t = float(f"{a['time']:.13E}") if what == "parsed" else a["time"]
    got = (h.wdsz, tuple(h.orders), h.nb_elems, h.nb_elems_file, h.time, h.istep, h.fid, h.nb_files)
    exp = (a["wdsz"], tuple(a["orders"]), a["nb_elems"], a["nb_elems_file"], t, a["istep"], a["fid"], a["nb_files"])
    need(got == exp, lambda: f"{what}: {got}, expected {exp}")
    need(tuple(h.nb_vars) == tuple(nv) and h.variables == text_of(nv), lambda: f"{what}: variables {h.variables!r} {h.nb_vars}, expected {text_of(nv)!r} {nv}")
    need(h.nb_dims == ndim and h.nb_pts_elem == int(np.prod(a["orders"])) and h.realtype == ("f" if a["wdsz"] == 4 else "d"),
         lambda: f"{what}: nb_dims {h.nb_dims}, nb_pts_elem {h.nb_pts_elem}, realtype {h.realtype}")


def case(ctx, rng):
    a, nv, ndim = rand(rng)
    ctx.note(a, nv)
    k = int(rng.integers(0, 3))
    if k == 0:
        kw = {}
        if rng.random() < 0.3:
            kw["nb_dims"] = ndim
        if rng.random() < 0.2:
            kw["nb_pts_elem"] = int(np.prod(a["orders"]))
        if rng.random() < 0.2:
            kw["realtype"] = "f" if a["wdsz"] == 4 else "d"
        h = Header(**a, nb_vars=tuple(nv), **kw)
    elif k == 1:
        h = Header(**a, variables=text_of(nv))
    else:  # as tokens of a file
        h = Header(str(a["wdsz"]).encode(), [str(o).encode() for o in a["orders"]], str(a["nb_elems"]).encode(), str(a["nb_elems_file"]).encode(),
                   f"{a['time']!r}".encode(), str(a["istep"]).encode(), str(a["fid"]).encode(), str(a["nb_files"]).encode(), text_of(nv).encode())
    check(h, a, nv, ndim, "constructed")
    b = h.as_bytestring()
    need(isinstance(b, bytes) and len(b) == 132, lambda: f"header of {len(b)} bytes")
    tok = b.decode("ascii").split()
    exp = ["#std", str(a["wdsz"]), *[str(o) for o in a["orders"]], str(a["nb_elems"]), str(a["nb_elems_file"]), None, str(a["istep"]), str(a["fid"]), str(a["nb_files"]), text_of(nv)]
    need(len(tok) == 12 and all(y is None or x == y for x, y in zip(tok, exp)), lambda: f"serialised as {tok}, expected {exp}")
    need(float(tok[7]) == float(f"{a['time']:.13E}"), lambda: f"time {tok[7]} for {a['time']!r}")
    ctx.ev("headers_serialised")
    p = ctx.path("h0.f00001")
    with open(p, "wb") as fp:
        t = b
        if rng.random() < 0.3 and len(b.rstrip()) < 115:  # what recent versions of Nek5000 add
            t = (b.decode().rstrip() + str(rng.choice([" 1.0000000E+00 F", "     0.0000000E+00 T"]))).ljust(132).encode()
        fp.write(t + b"\0" * int(rng.integers(0, 50)))
    if rng.random() < 0.5:
        h2 = read_header(p)
    else:
        with open(p, "rb") as fp:
            h2 = read_header(fp)
            need(fp.tell() == 132, lambda: f"reading the header left the file at byte {fp.tell()}")
    check(h2, a, nv, ndim, "parsed")
    need(h2.as_bytestring() == b, "serialising a parsed header gives another text")
    ctx.ev("headers_parsed")
    if rng.random() < 0.1:
        bad = dict(a)
        bad["wdsz"] = int(rng.choice([0, 1, 2, 16, 5]))
        ctx.raises(ValueError, "word size", Header, **bad, nb_vars=tuple(nv))
        ctx.raises(ValueError, "no variables", Header, **a)
        with open(p, "wb") as fp:
            fp.write(b" ".join(b.split()[: int(rng.integers(0, 12))]))
        ctx.raises(OSError, "short header", read_header, p)
        ctx.raises(ValueError, "text stream", read_header, io.StringIO("x"))
    ctx.distinct(a["wdsz"], tuple(a["orders"]), tuple(nv), k)
