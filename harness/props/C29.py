"""A writer that reports success has put the complete file on disk."""
import os
import resource
import signal

import gen
import jobs
import numpy as np
from lib import need, unchanged
from pymech.neksuite import writenek, writere2, writerea

LEVEL = "fault_enumeration"
CASES = dict(quick=700, thorough=20000)
RULE = "distinct (writer, section of the file where the disk was full, offset modulo 8, outcome) faults"
REQUIRED = dict(faults_injected=8000, faults_reported=6000, exact_fit=300, rewritten_after_fault=400, device_full=500, overwritten=150)
ASSUMPTIONS = ["a full disk is modelled by the limit on the size of files, and by /dev/full"]


class room:
    """No file can grow beyond n bytes inside the block."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        return False


def setup(ctx):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def case(ctx, rng):
    d = ctx.path("x")
    os.makedirs(d)
    k = int(rng.integers(0, 3))
    if k == 0:
        w, name = writenek, "a0.f00001"
        big = rng.random() < 0.1
        f = gen.rand_field(rng, special=False, nel=int(rng.integers(20, 60)) if big else None)
        data = gen.to_hexa(f)
        marks = [132, 136, 136 + 4 * f["nel"]]
        for n in f["var"]:
            marks.append(marks[-1] + n * int(np.prod(f["lr1"])) * f["wdsz"] * f["nel"])
    else:
        w, name = (writere2, "a.re2") if k == 1 else (writerea, "a.rea")
        m = gen.struct_mesh(rng, int(rng.integers(2, 4)), maxn=3, nbc=gen.rand_nbc(rng, 1, 2), curved=0.3, params=False)
        data = m.mesh
        g = 84 + data.nel * 8 * (1 + m.ndim * 2**m.ndim)
        marks = [80, 84, g, g + 8, g + 8 + 64 * data.ncurv]
    ctx.note(w.__name__, name, f"nel={data.nel}")
    p = os.path.join(d, name)
    w(p, data)
    full = jobs.content(p)
    size = len(full)
    lims = {int(x) for x in rng.integers(0, size, 8)}
    lims |= {mk + o for mk in marks for o in (-1, 0, 1) if rng.random() < 0.3}
    lims |= {0, 1, size - 1, size - 2, size - 8} if rng.random() < 0.6 else {size - 1}
    if size > 8192:  # boundaries of the buffers
        lims |= {4096 * int(rng.integers(1, size // 4096 + 1)) + o for o in (-1, 0, 1)}
    for n in sorted(x for x in lims if 0 <= x < size):
        q = os.path.join(d, f"{n}-{name}")
        if rng.random() < 0.3:  # something is already there
            jobs.save(q, b"\xaa" * int(rng.integers(0, size + 50)))
            ctx.ev("overwritten")
        err = None
        with unchanged(ctx, f"{w.__name__} on a full disk", data):
            with room(n):
                try:
                    w(q, data)
                except OSError as e:
                    err = type(e).__name__
        ctx.ev("faults_injected")
        got = jobs.content(q) if os.path.exists(q) else b""
        need(err is not None or got == full, lambda: f"{w.__name__} reported success but the file has {len(got)} of {size} bytes: there was room for {n}")
        ctx.ev("faults_reported", int(err is not None))
        ctx.distinct(w.__name__, int(np.searchsorted(marks, n, side="right")), n % 8, err)
        if rng.random() < 0.1:
            w(q, data)
            need(jobs.content(q) == full, f"{w.__name__} after a failed attempt at the same place wrote another file")
            ctx.ev("rewritten_after_fault")
        if os.path.exists(q):
            os.unlink(q)
    q = os.path.join(d, "fit-" + name)
    with room(size + int(rng.integers(0, 2))):
        w(q, data)
    need(jobs.content(q) == full, f"{w.__name__} with just enough room wrote another file")
    ctx.ev("exact_fit")
    # a device that is full
    try:
        w("/dev/full", data)
        need(False, f"{w.__name__} reported success on a full device ({size} bytes)")
    except OSError:
        ctx.ev("device_full")
