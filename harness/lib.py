"""Shared parts of the monitors: verdicts, comparison, snapshots, execution context."""

from __future__ import annotations

import logging
import os
import shutil
import sys
import tempfile
import types
from collections import Counter
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
VERIF = Path(__file__).resolve().parent.parent


def import_pymech():
    """Import pymech from the working tree (the version file is generated by the build)."""
    if str(SRC) not in sys.path[:1]:
        sys.path.insert(0, str(SRC))
    if not (SRC / "pymech" / "_version.py").exists():
        stub = types.ModuleType("pymech._version")
        stub.__version__ = "0+verif"
        sys.modules["pymech._version"] = stub
    import pymech

    got = Path(pymech.__file__).resolve()
    if SRC.resolve() not in got.parents:
        raise RuntimeError(f"pymech imported from {got}, not from {SRC}")
    return pymech


import_pymech()

import numpy as np  # noqa: E402
import pymech  # noqa: E402
from pymech.core import HexaData  # noqa: E402


def poison():
    """Memory that nobody has written to holds garbage: whoever reads it is found out (a memory sanitizer for arrays)."""

    def spoiled(make):
        def new(*a, **k):
            r = make(*a, **k)
            if isinstance(r, np.ndarray) and not r.dtype.hasobject and r.nbytes and r.flags.c_contiguous:
                r.reshape(-1).view(np.uint8).fill(0xA5)
            return r

        new.__name__ = make.__name__
        new.poisoned = True
        return new

    for name in ("empty", "empty_like"):
        if not hasattr(getattr(np, name), "poisoned"):
            setattr(np, name, spoiled(getattr(np, name)))


poison()


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(BaseException):
    """The case could not be decided (watchdog, resources)."""


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg), key)


# ------------------------------------------------------------------ comparison
def same(name, got, exp, key=None):
    """Exact equality of arrays (NaN equals NaN), with the first difference in the report."""
    g, e = np.asarray(got), np.asarray(exp)
    if g.shape != e.shape:
        raise Violation(f"{name}: shape {g.shape}, expected {e.shape}", key)
    if g.dtype.kind in "fc" or e.dtype.kind in "fc":
        bad = ~((g == e) | ((g != g) & (e != e)))
    else:
        bad = g != e
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(
            f"{name}: {int(np.sum(bad))} of {g.size} values differ, first at {i}: got {g[i]!r}, expected {e[i]!r}",
            key,
        )


def close(name, got, exp, rtol=1e-9, atol=0.0, key=None):
    g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    if g.shape != e.shape:
        raise Violation(f"{name}: shape {g.shape}, expected {e.shape}", key)
    err = np.abs(g - e)
    bad = ~(err <= atol + rtol * np.abs(e))
    bad &= ~((g != g) & (e != e))
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(
            f"{name}: {int(np.sum(bad))} of {g.size} values off, first at {i}: got {float(g[i])!r}, expected {float(e[i])!r}",
            key,
        )


# ------------------------------------------------------------------- snapshots
META = ("ndim", "nel", "ncurv", "nbc", "var", "lr1", "time", "istep", "wdsz", "endian")
ARRS = ("pos", "curv", "vel", "pres", "temp", "scal", "bcs")


def snap(mesh):
    """Value of everything public in a HexaData."""
    out = {}
    for a in META:
        v = getattr(mesh, a)
        out[a] = [int(x) for x in v] if a in ("var", "lr1") else v
    em = np.asarray(mesh.elmap)
    out["elmap"] = em.tolist()
    els = []
    for el in mesh.elem:
        d = {a: (getattr(el, a).shape, getattr(el, a).tobytes()) for a in ARRS if a != "bcs"}
        d["bcs"] = (el.bcs.shape, el.bcs.tobytes())
        d["ccurv"] = list(el.ccurv)
        els.append(d)
    out["elem"] = els
    return out


def alike(a, b, tol=4096):
    """Equal, apart from rounding: how an array is stored decides which instructions NumPy uses."""
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind != "f":
            return a.tobytes() == b.tobytes()
        if np.array_equal(a, b, equal_nan=True):
            return True
        fin = np.isfinite(a)
        if not np.array_equal(fin, np.isfinite(b)) or not np.array_equal(a[~fin], b[~fin], equal_nan=True):
            return False
        big = np.abs(a[fin]).max(initial=0.0)
        return bool((np.abs(a[fin] - b[fin]) <= tol * np.finfo(a.dtype).eps * big).all())
    if isinstance(a, float) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * 2.3e-16 * max(abs(a), abs(b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    return a == b


def snap_diff(a, b):
    """First difference between two snapshots, or None."""
    for k in a:
        if k == "elem":
            if len(a[k]) != len(b[k]):
                return f"number of elements {len(a[k])} -> {len(b[k])}"
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                for f in x:
                    if x[f] != y[f]:
                        return f"elem[{i}].{f} changed"
        elif a[k] != b[k]:
            if not (isinstance(a[k], float) and a[k] != a[k] and b[k] != b[k]):
                return f"{k}: {a[k]!r} -> {b[k]!r}"
    return None


class unchanged:
    """Frame condition: the given meshes are not modified inside the block."""

    def __init__(self, ctx, what, *meshes):
        self.ctx, self.what, self.meshes = ctx, what, meshes

    def __enter__(self):
        self.before = [snap(m) for m in self.meshes]
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and not issubclass(et, Exception):
            return False
        self.ctx.ev("frame_conditions_checked", len(self.meshes))
        for k, (b, m) in enumerate(zip(self.before, self.meshes)):
            d = snap_diff(b, snap(m))
            if d is not None:
                raise Violation(f"{self.what} modified its input (argument {k}): {d}")
        return False


def bc_tuple(bc):
    """A boundary condition record as plain Python values."""
    return (str(bc[0]), int(bc[1]), int(bc[2])) + tuple(float(bc[k]) for k in range(3, 8))


def meta_invariants(mesh, what=""):
    """Structural invariants of a mesh at a quiescent point."""
    need(mesh.nel == len(mesh.elem), f"{what}: nel = {mesh.nel} but {len(mesh.elem)} elements")
    need(np.asarray(mesh.elmap).dtype.kind in "iu" or mesh.nel == 0, lambda: f"{what}: elmap holds {np.asarray(mesh.elmap).dtype}, not integers")
    em = sorted(int(x) for x in np.asarray(mesh.elmap).ravel())
    need(em == list(range(1, mesh.nel + 1)), lambda: f"{what}: elmap is not a permutation of 1..{mesh.nel} ({em[:8]}...)")
    nc = sum(c != "" for el in mesh.elem for c in el.ccurv)
    need(mesh.ncurv == nc, f"{what}: ncurv = {mesh.ncurv} but {nc} edges are curved")
    need(mesh.ndim in (2, 3), f"{what}: ndim = {mesh.ndim}")
    lr1 = tuple(int(k) for k in mesh.lr1)
    for i, el in enumerate(mesh.elem):
        need(el.pos.shape == (3, lr1[2], lr1[1], lr1[0]), f"{what}: elem[{i}].pos has shape {el.pos.shape} for lr1 = {lr1}")
        need(el.bcs.shape == (mesh.nbc, 6), f"{what}: elem[{i}].bcs has shape {el.bcs.shape} for nbc = {mesh.nbc}")
        need(len(el.ccurv) == 12 and el.curv.shape == (12, 5), f"{what}: elem[{i}] curvature shape")


# --------------------------------------------------------------------- context
class CountingHandler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.counts = Counter()

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            self.counts["malformed"] += 1
            return
        self.counts[record.levelname] += 1


def quiet_logging():
    log = logging.getLogger("pymech")
    for h in list(log.handlers):
        log.removeHandler(h)
    h = CountingHandler()
    log.addHandler(h)
    log.propagate = False
    return h


class Ctx:
    """What one worker observes."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.events = Counter()
        self.keys = set()
        self.samples = []
        self.known = []
        self.tmp = None
        self._n = 0
        self.sig = None
        self.log = []
        self.slowest = 0.0

    def __enter__(self):
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{self.prop}-")
        return self

    def __exit__(self, *a):
        if self.tmp:
            shutil.rmtree(os.path.abspath(self.tmp), ignore_errors=True)

    def ev(self, name, n=1):
        self.events[name] += n

    def distinct(self, *key):
        """Declare what makes the current case distinct (non-trivial by the property's rule)."""
        self.keys.add(repr(key))

    def note(self, *text):
        """History of the current case, written out in replay files."""
        t = " ".join(str(t) for t in text)
        self.log.append(t if len(t) < 4000 else t[:4000] + " ...")

    def path(self, name="f"):
        self._n += 1
        d = Path(self.tmp) / f"{self._n:07d}"
        d.mkdir()
        return str(d / name)

    def clean(self):
        for p in Path(self.tmp).iterdir():
            if p.is_dir():
                shutil.rmtree(str(p), ignore_errors=True)
            else:
                p.unlink()

    def raises(self, exc, what, fn, *a, **k):
        """fn(*a) must raise exc."""
        try:
            r = fn(*a, **k)
        except exc:
            self.ev("rejections_observed")
            return
        except Exception as e:
            raise Violation(f"{what}: expected {getattr(exc, '__name__', exc)}, got {type(e).__name__}: {e}") from e
        raise Violation(f"{what}: accepted (returned {type(r).__name__}), expected {getattr(exc, '__name__', exc)}")

    def soft(self, key, fn):
        """Run an oracle of a known finding: the violation is reported under a key."""
        try:
            fn()
        except Violation as v:
            raise Violation(str(v), key) from v


__all__ = [n for n in dir() if not n.startswith("__")]
