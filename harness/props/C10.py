"""SIMSON velocity fields and planes, against independent encoders."""
import numpy as np
import refio
from lib import Violation, close, need, same
from pymech.simsonsuite import readdns, readplane

LEVEL = "exploration"
CASES = dict(quick=1600, thorough=40000)
RULE = "distinct (kind, dimensions, scalars, flow type, byte order) files read"
REQUIRED = dict(dns_read=400, planes_read=400, profiles_compared=2000, with_scalars=150, many_scalars=15, big_endian=300)
ASSUMPTIONS = ["for readdns only the header, the grid and the mean mode (kx = kz = 0) of velocity and scalars are judged; see the known finding for the other modes",
               "flow types 4 and 5 are excluded: what follows them in the file cannot be established offline"]


def random_dns(rng, modes=False, ns=None):
    nx, ny, nz = 2 * int(rng.integers(1, 5)), int(rng.integers(2, 8)), int(rng.choice([1, 2, 4, 6, 8]))
    if rng.random() < 0.05:
        nx, ny, nz = [(2, 65, 1), (64, 3, 2), (2, 2, 32), (34, 9, 10)][int(rng.integers(0, 4))]
    if ns is None:
        ns = int(rng.integers(0, 3)) if rng.random() < 0.92 else int(rng.choice([3, 9, 10, 11, 50, 99, 100]))
        if ns > 2:
            nx, ny, nz = 2, int(rng.integers(2, 4)), int(rng.choice([1, 2]))
    fl = int(rng.choice([1, 2, 3, -1, -2, 6, 7, 8, 9, 20, -20]))
    extra = {-1: 1, -2: 2, 20: ns, -20: ns}.get(fl, 4 if 6 <= fl <= 9 else 0)
    if abs(fl) == 20 and ns == 0:
        fl, extra = 1, 0
    data = np.zeros((3 + ns, nz, ny, nx // 2), dtype=complex)
    data[:, 0, :, 0] = rng.standard_normal((3 + ns, ny))
    if modes:
        data = data + rng.standard_normal(data.shape) + 1j * rng.standard_normal(data.shape)
    return dict(endian=str(rng.choice(["little", "big"])), Re=float(rng.uniform(1, 1e4)), pou=0, xl=float(rng.uniform(0.1, 50)), zl=float(rng.uniform(0.1, 50)), time=float(rng.uniform(0, 1e4)),
                pr=rng.standard_normal(ns).tolist(), m=rng.standard_normal(ns).tolist(), nx=nx, ny=ny, nz=nz, nfzsym=0, fltype=fl, dstar=float(rng.uniform(0.1, 3)),
                extra=rng.standard_normal(extra).tolist(), data=data)


def random_plane(rng):
    nd = int(rng.integers(1, 4))
    nn = [int(x) for x in rng.integers(1, 7, nd)]
    if rng.random() < 0.05:
        nn[int(rng.integers(0, nd))] = int(rng.choice([40, 100, 257]))
    coords = rng.standard_normal(([] if nd == 1 else [nd]) + nn)
    return coords, rng.standard_normal(nn), nn, str(rng.choice(["little", "big"]))


def do_dns(ctx, rng):
    d = random_dns(rng)
    ctx.note({k: v for k, v in d.items() if k != "data"})
    p = ctx.path("f.u")
    open(p, "wb").write(refio.dns_encode(d))
    r = readdns(p)
    need(not isinstance(r, int), f"readdns returned {r}")
    nx, ny, nz, ns = d["nx"], d["ny"], d["nz"], len(d["pr"])
    nd = 2 + (nz > 1)
    need(list(r.lr1) == [nx, ny, nz] and list(r.var) == [nd, nd, 0, 0, ns] and (r.ndim, r.nel) == (nd, 1), lambda: f"lr1 {r.lr1} var {r.var} ndim {r.ndim} nel {r.nel}")
    need(r.time == d["time"] and r.endian == d["endian"] and r.wdsz == 8, lambda: f"time {r.time} endian {r.endian} wdsz {r.wdsz}")
    el = r.elem[0]
    z, y, x = np.meshgrid(d["zl"] / nz * (np.arange(nz) - nz / 2), (1 - np.cos(np.pi * np.arange(ny) / (ny - 1))) / d["dstar"], d["xl"] / nx * np.arange(nx), indexing="ij")
    for c, (g, nm, s) in enumerate(((x, "x", d["xl"]), (y, "y", 2 / d["dstar"]), (z, "z", d["zl"]))):
        close(nm, el.pos[c], g, rtol=1e-12, atol=1e-12 * s)
    for c in range(3):
        e = np.broadcast_to(d["data"][c, 0, :, 0].real[None, :, None] * (-1) ** c, (nz, ny, nx))
        close(f"mean profile of velocity component {c}", el.vel[c], e, rtol=1e-11, atol=1e-11)
        ctx.ev("profiles_compared")
    for c in range(ns):
        e = np.broadcast_to(d["data"][3 + c, 0, :, 0].real[None, :, None], (nz, ny, nx))
        close(f"mean profile of scalar {c}", el.scal[c], e, rtol=1e-11, atol=1e-11)
        ctx.ev("profiles_compared")
    ctx.ev("dns_read")
    ctx.ev("with_scalars", int(ns > 0))
    ctx.ev("many_scalars", int(ns > 8))
    ctx.ev("big_endian", int(d["endian"] == "big"))
    ctx.distinct("dns", nx, ny, nz, ns, d["fltype"], d["endian"])


def do_plane(ctx, rng):
    coords, data, nn, endian = random_plane(rng)
    ctx.note(f"plane {nn} {endian}")
    p = ctx.path("p.xy")
    open(p, "wb").write(refio.plane_encode(coords, data, nn, endian))
    r = readplane(p)
    need(not isinstance(r, int), f"readplane returned {r}")
    x, d, n, nd = r
    need(nd == len(nn) and [int(k) for k in n] == nn, lambda: f"dimensions {nd}, {n}")
    same("coordinates", x, coords)
    same("data", d, data)
    ctx.ev("planes_read")
    ctx.ev("big_endian", int(endian == "big"))
    ctx.distinct("plane", tuple(nn), endian)


def known_mode(ctx, rng):
    """A single travelling wave u = 2 Re(c exp(i 2 pi x / xl)): the mode kx = 1, kz = 0."""
    d = random_dns(rng, ns=0)
    d.update(nx=8, ny=3, nz=4, fltype=1, extra=[], xl=2 * np.pi)
    d["data"] = np.zeros((3, 4, 3, 4), dtype=complex)
    c = 0.7 - 0.3j
    d["data"][0, 0, :, 1] = c
    p = ctx.path("f.u")
    open(p, "wb").write(refio.dns_encode(d))
    r = readdns(p)
    x = 2 * np.pi / 8 * np.arange(8)
    e = np.broadcast_to(2 * (c * np.exp(1j * x)).real, (4, 3, 8))
    ctx.ev("single_mode_evaluated")
    ctx.soft("single-mode", lambda: close("u of a single mode kx = 1", r.elem[0].vel[0], e, rtol=1e-10, atol=1e-10))


FIXED = [known_mode]


def case(ctx, rng):
    (do_dns if rng.random() < 0.5 else do_plane)(ctx, rng)


_ = Violation
