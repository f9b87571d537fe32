"""Independent codecs for the file formats, used as oracles. Nothing here comes from pymech.

Layouts follow the Nek5000 sources (mfo_*/rd* for .fld, connect2.f/reader_re2.f for .re2,
the .rea reader in connect2.f, .ma2 from genmap) and SIMSON's readers.
A "field" here is a plain dict:
  ndim, lr1 (lx, ly, lz), nel, wdsz, endian, time, istep, var (5 ints), elmap (file order),
  pos/vel: (nel, 3, lz, ly, lx); pres/temp: (nel, n, ...); scal: (nel, ns, ...)
"""

from __future__ import annotations

import struct

import numpy as np

TAG = 6.54321


def order(endian):
    return {"little": "<", "big": ">"}[endian]


# ------------------------------------------------------------------ field files
def var_string(var):
    return "".join(
        s for s, n in zip(("X", "U", "P", "T", f"S{var[4]:02d}"), var) if n
    )


def fld_header(wdsz, lr1, nel, nelf, time, istep, fid, nfiles, rdcode, spaced=False, trail=""):
    s = f"#std {wdsz:1d} {lr1[0]:2d} {lr1[1]:2d} {lr1[2]:2d} {nel:10d} {nelf:10d} {time:20.13E} {istep:9d} {fid:6d} {nfiles:6d} {rdcode:10s}{trail}"
    if spaced:  # list-directed reading does not care about the width of the blanks
        s = "  ".join(s.split())
    assert len(s) <= 132
    return s.ljust(132).encode("ascii")


def fld_vectors(f, elems):
    """The blocks of a file in order: (name, [flat values per (element, component)])."""
    out = []
    for name, n in (("pos", f["var"][0]), ("vel", f["var"][1]), ("pres", f["var"][2]), ("temp", f["var"][3])):
        for e in elems:
            for c in range(n):
                out.append((name, e, c, f[name][e, c]))
    for c in range(f["var"][4]):
        for e in elems:
            out.append(("scal", e, c, f["scal"][e, c]))
    return out


def fld_encode(f, elems=None, fid=0, nfiles=1, elmap=None, rdcode=None, spaced=False, metadata=True, trail=""):
    """elems: 0-based element numbers in the file, in file order."""
    bo = order(f["endian"])
    if elems is None:
        elems = [int(i) - 1 for i in f["elmap"]]
    if elmap is None:
        elmap = [e + 1 for e in elems]
    b = [
        fld_header(f["wdsz"], f["lr1"], f["nel"], len(elems), f["time"], f["istep"], fid, nfiles,
                   rdcode or var_string(f["var"]), spaced, trail),
        struct.pack(bo + "f", TAG),
        struct.pack(bo + f"{len(elmap)}i", *elmap),
    ]
    dt = np.dtype(bo + ("f4" if f["wdsz"] == 4 else "f8"))
    for _, _, _, v in fld_vectors(f, elems):
        b.append(np.ascontiguousarray(v).astype(dt).tobytes())
    if metadata and f["ndim"] == 3:
        for name, n in (("pos", f["var"][0]), ("vel", f["var"][1]), ("pres", f["var"][2]), ("temp", f["var"][3]), ("scal", f["var"][4])):
            for e in elems:
                for c in range(n):
                    v = f[name][e, c]
                    b.append(struct.pack(bo + "2f", *[np.float32(x) for x in (v.min(), v.max())]))
    return b"".join(b)


def fld_decode(buf):
    """Parse a whole field file; returns a dict with raw values in file order."""
    head, rest = buf[:132], buf[132:]
    if len(head) != 132 or head[:4] != b"#std":
        raise ValueError(f"bad header {head[:8]!r}")
    head.decode("ascii")
    tok = head.split()
    d = dict(
        wdsz=int(tok[1]), lr1=tuple(int(t) for t in tok[2:5]), nel=int(tok[5]), nelf=int(tok[6]),
        time=float(tok[7]), istep=int(tok[8]), fid=int(tok[9]), nfiles=int(tok[10]),
        rdcode=tok[11].decode() if len(tok) > 11 else "", ntok=len(tok),
    )
    for bo, name in (("<", "little"), (">", "big")):
        if len(rest) >= 4 and abs(struct.unpack(bo + "f", rest[:4])[0] - TAG) < 1e-5:
            d["endian"] = name
            break
    else:
        raise ValueError("bad endian tag")
    off = 4
    n = d["nelf"]
    d["elmap"] = list(struct.unpack_from(bo + f"{n}i", rest, off))
    off += 4 * n
    code = d["rdcode"]
    ndim = 3 if d["lr1"][2] > 1 else 2
    d["ndim"] = ndim
    i = code.find("S")
    ns = int(code[i + 1 : i + 3]) if i >= 0 else 0
    var = (ndim * ("X" in code), ndim * ("U" in code), int("P" in code), int("T" in code), ns)
    d["var"] = var
    npt = int(np.prod(d["lr1"]))
    dt = np.dtype(bo + ("f4" if d["wdsz"] == 4 else "f8"))
    shape = d["lr1"][::-1]

    def block(k):
        nonlocal off
        nb = k * npt * dt.itemsize
        if off + nb > len(rest):
            raise ValueError("file too short")
        a = np.frombuffer(rest, dt, k * npt, off).reshape((k,) + shape)
        off += nb
        return a

    for name, m in zip(("pos", "vel", "pres", "temp"), var[:4]):
        d[name] = block(n * m).reshape((n, m) + shape)
    d["scal"] = block(n * ns).reshape((ns, n) + shape).swapaxes(0, 1)
    d["minmax"] = {}
    if ndim == 3 and len(rest) > off:
        for name, m in zip(("pos", "vel", "pres", "temp", "scal"), var):
            nb = 8 * n * m
            if off + nb > len(rest):
                raise ValueError("metadata too short")
            d["minmax"][name] = np.frombuffer(rest, bo + "f4", 2 * n * m, off).reshape((n, m, 2))
            off += nb
    d["trailing"] = len(rest) - off
    return d


# -------------------------------------------------------------------- re2 files
# a mesh here: dict(ndim, nel, xyz (nel, ndim, 2**ndim vertices in Nek order), curves: list of
# (iel, iedge, 5 params, type), bcs: list (per field) of (iel, iface, 5 params, type)); 1-based
NEK_VERTS = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)]  # (iz, iy, ix)


def verts_of(pos, ndim):
    """(3, 2, 2, 2)-like array -> (ndim, nvert) in Nek order."""
    return np.array([[pos[d, z, y, x] for (z, y, x) in NEK_VERTS[: 2**ndim]] for d in range(ndim)])


def re2_encode(m, endian="little", group=0.0, junk=None, pad=b" "):
    bo = order(endian)
    nel, ndim = m["nel"], m["ndim"]
    b = [f"#v002{nel:9d}{ndim:3d}{nel:9d} this is the hdr".ljust(80).encode(), struct.pack(bo + "f", TAG)]
    for e in range(nel):
        b.append(struct.pack(bo + "d", group))
        b.append(np.asarray(m["xyz"][e], dtype=bo + "f8").tobytes())

    def rec(i, j, params, typ):
        t = typ.encode().ljust(8, pad)
        if junk is not None:
            t = typ.encode()[:1] + junk
        return struct.pack(bo + "7d", float(i), float(j), *params) + t

    b.append(struct.pack(bo + "d", float(len(m["curves"]))))
    for i, j, p, t in m["curves"]:
        b.append(rec(i, j, p, t))
    junk = None
    for fld in m["bcs"]:
        b.append(struct.pack(bo + "d", float(len(fld))))
        for i, j, p, t in fld:
            b.append(rec(i, j, p, t))
    return b"".join(b)


def re2_decode(buf):
    head = buf[:80]
    if len(head) != 80 or head[:5] != b"#v002":
        raise ValueError("bad re2 header")
    nel, ndim, nelv = int(head[5:14]), int(head[14:17]), int(head[17:26])
    tag = buf[80:84]
    for bo, name in (("<", "little"), (">", "big")):
        if len(tag) == 4 and abs(struct.unpack(bo + "f", tag)[0] - TAG) < 1e-5:
            break
    else:
        raise ValueError("bad endian tag")
    off = 84
    nv = 2**ndim

    def dbl(k):
        nonlocal off
        if off + 8 * k > len(buf):
            raise ValueError("file too short")
        v = struct.unpack_from(bo + f"{k}d", buf, off)
        off += 8 * k
        return v

    xyz = np.zeros((nel, ndim, nv))
    groups = []
    for e in range(nel):
        groups.append(dbl(1)[0])
        xyz[e] = np.array(dbl(ndim * nv)).reshape(ndim, nv)

    def recs():
        nonlocal off
        n = dbl(1)[0]
        if n != int(n) or n < 0:
            raise ValueError(f"bad record count {n}")
        out = []
        for _ in range(int(n)):
            v = dbl(7)
            if off + 8 > len(buf):
                raise ValueError("file too short")
            t = buf[off : off + 8]
            off += 8
            out.append((int(v[0]), int(v[1]), tuple(v[2:7]), t.rstrip(b" \0").decode()))
        return out

    curves = recs()
    bcs = []
    while off < len(buf):
        bcs.append(recs())
    return dict(nel=nel, ndim=ndim, nelv=nelv, endian=name, xyz=xyz, curves=curves, bcs=bcs, groups=groups)


# -------------------------------------------------------------------- rea files
def fill(v, w):
    """A number that fills a column of w characters."""
    d = w - 6 if v >= 0 else w - 7
    t = f"{v:.{d}e}"
    return t if len(t) == w else f"{v:.{d - 1}e}".rjust(w)


def rea_encode(m, npar=118, npscal=4, nswitch=13, g="{:14.6e}", num=lambda v, w: f"{v:{w}.{6 if w == 14 else 11}e}"):
    """m as for re2 but bcs per field is a full table {(iel, iface): (type, 5 params)} for every face."""
    nel, ndim = m["nel"], m["ndim"]
    L = ["****** PARAMETERS ******", "   2.6000     NEKTON VERSION", f"   {ndim} DIMENSIONAL RUN", f"         {npar} PARAMETERS FOLLOW"]
    L += [f"   {0.5 * i:.5f}     P{i + 1:03d}: something" for i in range(npar)]
    L += [f"      {npscal}  Lines of passive scalar data follows2 CONDUCT, 2RHOCP"]
    L += ["   1.00000        1.00000        1.00000        1.00000        1.00000"] * npscal
    L += [f"         {nswitch}   LOGICAL SWITCHES FOLLOW"] + [" T      IFFLOW"] * nswitch
    L += ["   2.00000       2.00000      -1.00000      -1.00000     XFAC,YFAC,XZERO,YZERO"]
    L += ["  ***** MESH DATA *****  6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8", f"  {nel:10d} {ndim:1d} {nel:10d} NEL,NDIM,NELV"]
    for e in range(nel):
        L.append(f"            ELEMENT {e + 1:11d} [    1a]  GROUP  0")
        for h in range(ndim - 1):
            for d in range(ndim):
                L.append("".join(g.format(x) for x in m["xyz"][e][d][4 * h : 4 * h + 4]))
    L += ["  ***** CURVED SIDE DATA *****", f"  {len(m['curves']):10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE"]
    for i, j, p, t in m["curves"]:
        if nel < 1000:
            s = f"{j:3d}{i:3d}"
        elif nel < 1000000:
            s = f"{j:2d}{i:6d}"
        else:
            s = f"{j:2d}{i:10d}"
        L.append(s + "".join(num(x, 14) for x in p) + " " + t)
    L += ["  ***** BOUNDARY CONDITIONS *****"]
    for k, fld in enumerate(m["bcs"]):
        L.append(["  ***** FLUID   BOUNDARY CONDITIONS *****", "  ***** THERMAL BOUNDARY CONDITIONS *****"][k] if k < 2
                 else f"  ***** PASSIVE SCALAR {k - 1:4d} BOUNDARY CONDITIONS *****")
        for e in range(1, nel + 1):
            for f in range(1, 2 * ndim + 1):
                t, p = fld[e, f]
                if nel < 1000:
                    s = f" {t:3s}{e:3d}{f:3d}" + "".join(num(x, 14) for x in p)
                elif nel < 1000000:
                    s = f" {t:3s}{e:6d}" + "".join(num(x, 14) for x in p)
                else:
                    s = f" {t:3s}{e:11d}{f:1d}" + "".join(num(x, 18) for x in p)
                L.append(s)
    if not m["bcs"]:
        L.append("  ***** NO FLUID   BOUNDARY CONDITIONS *****")
    if len(m["bcs"]) < 2:
        L.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****")
    L += ["    0 PRESOLVE/RESTART OPTIONS  *****", "    7         INITIAL CONDITIONS *****"] + [" C Default"] * 7
    L += ["  ***** DRIVE FORCE DATA ***** BODY FORCE, FLOW, Q", "    4                 Lines of Drive force data follow"] + [" C"] * 4
    L += [" ***** OBJECT SPECIFICATION *****", "        0 Surface Objects"]
    return "\n".join(L) + "\n"


def rea_decode(text):
    """A column-exact reader of the mesh part of a .rea file (Fortran formats)."""
    L = text.split("\n")
    p = 2
    ndim = int(L[p].split()[0])
    npar = int(L[p + 1].split()[0])
    p += 2 + npar
    p += 1 + int(L[p].split()[0])
    p += 1 + int(L[p].split()[0])
    p += 1
    need(L[p].strip().startswith("***** MESH DATA"), f"mesh data expected at line {p + 1}: {L[p]!r}")
    nel, nd2, nelv = (int(t) for t in L[p + 1].split()[:3])
    need(nd2 == ndim and nelv == nel, f"NEL,NDIM,NELV {L[p + 1]!r} for ndim {ndim}")
    p += 2
    xyz = np.zeros((nel, ndim, 2**ndim))
    for e in range(nel):
        t = L[p].split()
        need(t[0] == "ELEMENT" and int(t[1]) == e + 1, f"element line {L[p]!r}, expected element {e + 1}")
        p += 1
        for h in range(ndim - 1):
            for d in range(ndim):
                xyz[e, d, 4 * h : 4 * h + 4] = [float(x) for x in L[p].split()]
                p += 1
    need("CURVED SIDE DATA" in L[p], f"curved side data expected: {L[p]!r}")
    nc = int(L[p + 1].split()[0])
    p += 2
    curves = []
    for _ in range(nc):
        s = L[p]
        p += 1
        a, b = (3, 6) if nel < 1000 else (2, 8) if nel < 1000000 else (2, 12)
        iedge, iel = int(s[:a]), int(s[a:b])
        pr = tuple(float(s[b + 14 * k : b + 14 * k + 14]) for k in range(5))
        curves.append((iel, iedge, pr, s[b + 70 :].strip()))
    need("BOUNDARY CONDITIONS" in L[p], f"boundary conditions expected: {L[p]!r}")
    p += 1
    bcs = []
    names = []
    while "*****" in L[p] and "BOUNDARY CONDITIONS" in L[p]:
        title = L[p].replace("*", "").split()
        p += 1
        if title[0] == "NO":
            names.append(" ".join(title))
            continue
        names.append(" ".join(title))
        fld = {}
        for e in range(1, nel + 1):
            for f in range(1, 2 * ndim + 1):
                s = L[p]
                p += 1
                need(s[0] == " ", f"bc line {s!r}")
                t = s[1:4].strip()
                if nel < 1000:
                    need(int(s[4:7]) == e and int(s[7:10]) == f, f"bc line {s!r}: expected element {e} face {f}")
                    w, o = 14, 10
                elif nel < 1000000:
                    need(int(s[4:10]) == e, f"bc line {s!r}: expected element {e}")
                    w, o = 14, 10
                else:
                    need(int(s[4:15]) == e and int(s[15:16]) == f, f"bc line {s!r}: expected element {e} face {f}")
                    w, o = 18, 16
                need(len(s.rstrip()) <= o + 5 * w, f"bc line too long {s!r}")
                fld[e, f] = (t, tuple(float(s[o + w * k : o + w * k + w]) for k in range(5)))
        bcs.append(fld)
    # the rest: each section announces how many lines follow
    def head(word, count=True):
        nonlocal p
        need(word in L[p].upper(), f"{word} expected: {L[p]!r}")
        p += 1
        return int(L[p - 1].split()[0]) if count else None

    def skip(n):
        nonlocal p
        need(all("*****" not in t and "FOLLOW" not in t.upper() for t in L[p : p + n]), f"fewer lines than announced: {L[p : p + n]}")
        p += n

    skip(head("PRESOLVE"))
    skip(head("INITIAL CONDITIONS"))
    head("DRIVE FORCE", False)
    skip(head("DRIVE FORCE DATA FOLLOW"))
    head("VARIABLE PROPERTY", False)
    n = head("LINES FOLLOW")
    for _ in range(n):
        skip(head("PACKETS"))
    head("HISTORY", False)
    skip(head("POINTS"))
    head("OUTPUT FIELD SPECIFICATION", False)
    skip(head("SPECIFICATIONS FOLLOW"))
    head("OBJECT SPECIFICATION", False)
    for w in ("SURFACE", "VOLUME", "EDGE", "POINT"):
        skip(head(w))
    need(p == len(L) - 1 and L[p] == "", f"unexpected end of the file: {L[p:]}")
    return dict(ndim=ndim, nel=nel, xyz=xyz, curves=curves, bcs=bcs, names=names)


def need(c, msg):
    if not c:
        raise ValueError(msg)


# -------------------------------------------------------------------- ma2 files
def ma2_encode(nel, nvert, procmap, cell, endian, nactive=None, extra=b""):
    import math

    npts = nel * nvert
    depth = max(0, int(math.ceil(math.log2(nel)))) if nel > 0 else 0
    rank = int(np.max(cell)) if nel else 0
    h = f"#v001{nel:12d}{nactive if nactive is not None else rank:12d}{depth:12d}{2**depth:12d}{npts:12d}{rank:12d}{0:12d}"
    bo = order(endian)
    rows = np.concatenate([np.asarray(procmap).reshape(nel, 1), np.asarray(cell).reshape(nel, nvert)], axis=1)
    return h.ljust(132).encode() + struct.pack(bo + "f", TAG) + rows.astype(bo + "i4").tobytes() + extra


# ------------------------------------------------------------------ SIMSON files
def dns_encode(d):
    """d: endian, Re, pou, xl, zl, time, pr, m, nx, ny, nz, nfzsym, fltype, dstar, extra (floats), data
    data: complex (3 + nscal, nz, ny, nx // 2), in file order."""
    bo = order(d["endian"])
    ns = len(d["pr"])
    b = [struct.pack(bo + "i", 44 + 16 * ns)]
    b.append(struct.pack(bo + "di4d", d["Re"], d["pou"], d["xl"], d["zl"], d["time"], 0.0))
    for p, m in zip(d["pr"], d["m"]):
        b.append(struct.pack(bo + "2d", p, m))
    b.append(struct.pack(bo + "i", 44 + 16 * ns))
    b.append(struct.pack(bo + "i4ii", 16, d["nx"], d["ny"], d["nz"], d["nfzsym"], 16))
    b.append(struct.pack(bo + "iidi", 12, d["fltype"], d["dstar"], 12))
    # the reader treats the record markers as 8 bytes between records
    out = b"".join(b)
    if d["extra"]:
        n = 8 * len(d["extra"])
        out += struct.pack(bo + "i", n) + struct.pack(bo + f"{len(d['extra'])}d", *d["extra"]) + struct.pack(bo + "i", n)
    n = 8 * d["nx"]
    for c in d["data"]:
        for z in range(d["nz"]):
            for y in range(d["ny"]):
                line = np.empty(d["nx"])
                line[0::2], line[1::2] = c[z, y].real, c[z, y].imag
                out += struct.pack(bo + "i", n) + line.astype(bo + "f8").tobytes() + struct.pack(bo + "i", n)
    return out


def plane_encode(coords, data, nn, endian):
    """coords: (ndim, *nn) (or (n,) in 1D), data: (*nn); Fortran order."""
    bo = order(endian)
    ndim = len(nn)

    def rec(b):
        return struct.pack(bo + "i", len(b)) + b + struct.pack(bo + "i", len(b))

    out = rec(struct.pack(bo + f"{ndim}i", *nn))
    cs = [coords] if ndim == 1 else coords
    for c in cs:
        out += rec(np.asarray(c).ravel("F").astype(bo + "f8").tobytes())
    return out + rec(np.asarray(data).ravel("F").astype(bo + "f8").tobytes())
