"""Which files are taken for Nek files: by name only, the whole extension."""
import string
from pathlib import Path

import gen
import refio
from lib import need
from pymech.dataset import PymechXarrayBackend, can_open_nek_dataset, open_dataset

LEVEL = "exploration"
CASES = dict(quick=6000, thorough=200000)
RULE = "distinct (extension pattern, position, verdict) names judged"
REQUIRED = dict(names=5000, accepted=500, refused=2000, opened=20, not_opened=20, missing_files=20)


def oracle(name):
    """Ends in .fld or in .f and five digits."""
    if name.endswith(".fld"):
        return True
    return len(name) >= 7 and name[-7:-5] == ".f" and all(c in "0123456789" for c in name[-5:])


def rand_name(rng):
    digits = lambda n: "".join(str(rng.integers(0, 10)) for _ in range(n))  # noqa: E731
    ext = str(rng.choice([".fld", ".f" + digits(5), ".f" + digits(5), ".f" + digits(4), ".f" + digits(6), ".f90", ".F" + digits(5), ".FLD", "f" + digits(5), "fld", ".f", ".f0000a", ".flds",
                          ".re2", ".nc", ".f" + digits(5) + ".bak", ".fld~", ".f" + digits(5) + "_1", ".fl", ".f" + digits(2) + "." + digits(3), "", ".f" + digits(5) + " ", ".g" + digits(5), "..f" + digits(5)]))
    base = "".join(rng.choice(list(string.ascii_letters + string.digits + "._- "), int(rng.integers(0, 9))))
    if ext and rng.random() < 0.4:  # one character off
        i = int(rng.integers(0, len(ext)))
        c = ext[i]
        c = str(rng.choice([c.swapcase(), chr(ord(c) + 1), chr(ord(c) - 1), "", c + c, str(rng.choice(list(string.printable[:94])))]))
        ext = ext[:i] + c + ext[i + 1 :]
    d = str(rng.choice(["", "", "/tmp/", "run.f00001/", "a.fld/", "./"]))
    return d + base + ext, ext


def case(ctx, rng):
    name, ext = rand_name(rng)
    want = oracle(name)
    ctx.note(repr(name), want)
    for arg in (name, Path(name)):
        if str(arg) != name:
            want_arg = oracle(str(arg))
        else:
            want_arg = want
        got = bool(can_open_nek_dataset(arg))
        need(got == want_arg, lambda: f"can_open_nek_dataset({arg!r}) says {got}")
        g = bool(PymechXarrayBackend().guess_can_open(arg))
        need(g == want_arg, lambda: f"guess_can_open({arg!r}) says {g}")
    ctx.ev("names")
    ctx.ev("accepted" if want else "refused")
    ctx.distinct(ext if len(ext) < 6 else ext[:2] + str(len(ext)), name.count("/"), want)
    if rng.random() < 0.03:
        # a good file under this name
        f = gen.rand_field(rng, nel=1, ndim=3, var=[3, 3, 1, 0, 0], lr1=[2, 2, 2])
        for d in range(3):
            for i in range(2):
                sl = [slice(None)] * 3
                sl[2 - d] = i
                f["pos"][(0, d) + tuple(sl)] = i
        base = Path(name).name or "x"
        if base in (".", ".."):
            return
        p = ctx.path(base)
        open(p, "wb").write(refio.fld_encode(f))
        if oracle(base):
            ds = open_dataset(p)
            need(ds["ux"].shape == (2, 2, 2), "opened data set")
            ctx.ev("opened")
            Path(p).unlink()
            ctx.raises(FileNotFoundError, "data set of a missing file", open_dataset, p)
            ctx.ev("missing_files")
        else:
            ctx.raises(NotImplementedError, f"data set from a file called {base!r}", open_dataset, p)
            ctx.ev("not_opened")
