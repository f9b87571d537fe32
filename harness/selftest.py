"""The oracles refuse what they exist to refuse: run before every check, so that none can go blind."""

import sys

import numpy as np
from lib import HexaData, Violation, alike, close, meta_invariants, need, same, snap, snap_diff, unchanged


class _Quiet:
    def ev(self, *a):
        pass


def _mesh():
    m = HexaData(2, 2, [2, 2, 1], [2, 2, 0, 0, 0], 1)
    m.elmap = np.array([1, 2])
    m.time, m.istep, m.wdsz, m.endian = 0.5, 3, 8, "little"
    return m


def _raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Violation:
        return True
    return False


def run(meshes=False):
    """What the comparisons get wrong; those of meshes need a pymech that can make one."""
    bad = []

    def refuses(what, fn, *a, **k):
        if not _raises(fn, *a, **k):
            bad.append(f"accepts {what}")

    def accepts(what, fn, *a, **k):
        if _raises(fn, *a, **k):
            bad.append(f"refuses {what}")

    x = np.arange(6.0).reshape(2, 3)
    y = x.copy()
    y[1, 2] = np.nextafter(5.0, 6.0)
    z = x.copy()
    z[0, 0] = np.nan
    accepts("equal arrays", same, "t", x, x.copy())
    accepts("NaN in the same place", same, "t", z, z.copy())
    for what, a, b in (("another value", x, y), ("another shape", x, x.T), ("a NaN", x, z), ("other integers", [1, 2], [1, 3]), ("other text", np.array(["E"]), np.array(["W"])), ("another scalar", 1.0, 2.0)):
        refuses(what, same, "t", a, b)
        refuses(what, same, "t", b, a)
    accepts("a rounding", close, "t", x, y, 1e-12)
    refuses("a difference", close, "t", x, y + 1e-3)
    refuses("a NaN for a number", close, "t", z, x)
    refuses("another size", close, "t", x, x[:1])
    refuses("false", need, False, "t")
    accepts("true", need, True, "t")
    if not alike(x, y) or alike(x, y + 1e-6) or alike(x, z) or alike([1, "E"], [1, "W"]) or alike({"a": x}, {"b": x}) or alike(x, x.astype("f")):
        bad.append("alike cannot tell apart")

    if not meshes:
        return bad

    def touch(how):
        m = _mesh()
        with unchanged(_Quiet(), "t", m):
            how(m)

    accepts("nothing done", touch, lambda m: None)
    hows = dict(
        pos=lambda m: m.elem[1].pos.__setitem__((0, 0, 1, 0), 1e-300),
        vel=lambda m: m.elem[0].vel.__setitem__((1, 0, 0, 0), 1.0),
        bcs=lambda m: m.elem[0].bcs[0, 2].__setitem__(3, 7),
        tag=lambda m: m.elem[1].bcs[0, 0].__setitem__(0, "W"),
        ccurv=lambda m: m.elem[1].ccurv.__setitem__(3, "C"),
        curv=lambda m: m.elem[1].curv.__setitem__((3, 0), 2.0),
        time=lambda m: setattr(m, "time", 1.0),
        istep=lambda m: setattr(m, "istep", 4),
        elmap=lambda m: m.elmap.__setitem__(0, 2),
        ncurv=lambda m: setattr(m, "ncurv", 1),
        elem=lambda m: m.elem.pop(),
        endian=lambda m: setattr(m, "endian", "big"),
    )
    for what, how in hows.items():
        refuses(f"a change of {what}", touch, how)
        a, b = _mesh(), _mesh()
        if snap_diff(snap(a), snap(b)) is not None:
            bad.append("equal meshes differ")
        how(b)
        if snap_diff(snap(a), snap(b)) is None:
            bad.append(f"no difference of {what} in snapshots")
    accepts("a sound mesh", meta_invariants, _mesh())
    for what in ("ccurv", "elmap", "ncurv", "elem"):
        m = _mesh()
        hows[what](m)
        refuses(f"a mesh with wrong {what}", meta_invariants, m)
    return bad


if __name__ == "__main__":
    wrong = run(meshes="--meshes" in sys.argv)
    sys.exit(str(wrong) if wrong else 0)
