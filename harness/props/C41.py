"""Results do not depend on how and where Python runs: interpreters of their own against this one."""
import json
import os
import subprocess
import sys

import jobs
import numpy as np
import refusals
from lib import REPO, SRC, VERIF, Inconclusive, need

LEVEL = "exploration"
CASES = dict(quick=160, thorough=3000)
RULE = "distinct circumstances of an interpreter (options, environment, folder, streams, limits, order of imports)"
CASE_TIMEOUT = 150
MODULES = ["pymech", "pymech.core", "pymech.dataset", "pymech.log", "pymech.meshtools", "pymech.neksuite", "pymech.neksuite.field", "pymech.neksuite.map", "pymech.neksuite.mesh", "pymech.simsonsuite", "pymech.vtksuite"]
FLAGS = ["-O", "-OO", "-E", "-I", "-s", "-u", "-Xdev", "-Xutf8=0", "-Xutf8=1", "-Xfrozen_modules=off", "-bb"]
ENV = dict(LC_ALL=["C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"], LANG=["C", "fr_FR.ISO-8859-1"], PYTHONCOERCECLOCALE=["0"], PYTHONUTF8=["0", "1"], TZ=["UTC", "Asia/Kathmandu"], PYMECH_DEBUG=["true", ""], HOME=["/nonexistent"],
           TERM=["dumb", "xterm-256color"], COLUMNS=["20", "400"], NO_COLOR=["1"], OMP_NUM_THREADS=["1", "3"], PYTHONOPTIMIZE=["1", "2"], PYTHONMALLOC=["debug", "malloc"], PYTHONIOENCODING=["ascii", "latin-1"], TMPDIR=["/nonexistent"], USER=["nobody"], DISPLAY=[":77"])
STREAMS = ["null", "closed", "file"]
REQUIRED = dict(interpreters=160, results_compared=1500, refusals_compared=2500, imports_observed=160, optimised=40, hash_seeds=80, folder_removed=10, missing_rich=5, missing_xarray=5, streams_closed=15, in_thread=20, traced=10, few_files=15, shallow=15, decoys=15, modes_compared=500, locale_C=8)


def case(ctx, rng):
    d = ctx.path("e")
    os.makedirs(os.path.join(d, "work"))
    p = lambda q: bool(rng.random() < q)
    flags = [f for f in FLAGS if p(0.15)]
    if "-O" in flags and "-OO" in flags:
        flags.remove("-O")
    env = {"VERIF_REPO": str(REPO), "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "OPENBLAS_NUM_THREADS": "1"}
    for k, v in ENV.items():
        if p(0.2):
            env[k] = str(rng.choice(v))
    if p(0.6):
        env["PYTHONHASHSEED"] = str(int(rng.integers(0, 2**32)))
    todo = [(str(rng.choice(jobs.NAMES)), int(rng.integers(0, 2**31))) for _ in range(12)]
    missing = [m for m in ("rich", "xarray") if p(0.1)]
    mods = [MODULES[int(i)] for i in rng.permutation(len(MODULES))][: int(rng.integers(1, len(MODULES) + 1))]
    if "xarray" in missing:
        mods = [m for m in mods if m != "pymech.dataset"] or ["pymech"]
    path = [str(VERIF / "harness"), str(SRC)]
    if p(0.2):  # modules of somebody else with the same short names
        dec = os.path.join(d, "decoys")
        os.makedirs(dec)
        for m in ("core", "field", "map", "mesh", "log", "dataset", "meshtools", "neksuite", "simsonsuite", "_version"):
            with open(os.path.join(dec, m + ".py"), "w") as fp:
                fp.write("raise RuntimeError('wrong module')\n")
        path.insert(0, dec)
        ctx.ev("decoys")
    conf = dict(dir=os.path.join(d, "work"), answer=os.path.join(d, "answer.json"), path=path, missing=missing, imports=mods, jobs=todo, refuse=int(rng.integers(0, 2**31)), gc=str(rng.choice(["on", "off", "eager"])), trace=p(0.12),
                thread=p(0.25), recursion=400 if p(0.2) else 0, files=64 if p(0.2) else 0, version_stub=not (SRC / "pymech" / "_version.py").exists())
    with open(os.path.join(d, "conf.json"), "w") as fp:
        json.dump(conf, fp)
    where = str(rng.choice(["own", "root", "removed", "work"]))
    cwd = dict(own=d, root="/", removed=os.path.join(d, "gone"), work=conf["dir"])[where]
    mask = int(rng.choice([0o022, 0o077, 0o000, 0o027]))
    streams = [str(rng.choice(STREAMS)) for _ in range(3)]
    if streams[1] == "closed" and "rich" not in missing:
        streams[1] = "null"  # the handler of rich itself fails without standard output
    if where == "removed":
        os.makedirs(cwd)

    def circumstances():
        os.umask(mask)
        if where == "removed":
            os.rmdir(cwd)
        for fd, s in enumerate(streams):
            if s == "closed":
                os.close(fd)

    files = [open(os.path.join(d, f"stream{k}"), "w+") if s == "file" else subprocess.DEVNULL for k, s in enumerate(streams)]
    cmd = [sys.executable, *flags, str(VERIF / "harness" / "elsewhere.py"), os.path.join(d, "conf.json")]
    what = f"{' '.join(flags)} env { {k: v for k, v in env.items() if k not in ("PATH", "VERIF_REPO")} } folder {where} umask {mask:o} streams {streams} { {k: v for k, v in conf.items() if k not in ('jobs', 'path', 'dir', 'answer')} }"
    ctx.note(what)
    try:
        subprocess.run(cmd, env=env, cwd=cwd, preexec_fn=circumstances, stdin=files[0], stdout=files[1], stderr=files[2], timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"no answer from an interpreter: {what}")
    finally:
        for f in files:
            if f is not subprocess.DEVNULL:
                f.close()
    need(os.path.exists(conf["answer"]), lambda: f"the interpreter died: {what}")
    with open(conf["answer"]) as fp:
        out = json.load(fp)
    need(out["failed"] is None, lambda: f"pymech cannot be used: {what}\n{out['failed']}")
    need(str(SRC.resolve()) in os.path.realpath(out["from"]), "wrong pymech")
    need(not out["disturbed"], lambda: f"importing {mods} disturbed the process: {out['disturbed'][:3]}; {what}")
    ctx.ev("imports_observed")
    for i, (name, seed) in enumerate(todo):
        here = jobs.run(name, seed, ctx.path("h"))
        there = out["results"][str(i)]
        need(here == there, lambda: f"{name} gives another result elsewhere ({there}): {what}")
        ctx.ev("results_compared"), ctx.ev("job_" + name)
    for f, m in out["modes"].items():
        need(m == 0o666 & ~mask, lambda: f"{os.path.basename(f)} was made with permissions {m:o}: {what}")
        ctx.ev("modes_compared")
    if out["refused"]:
        for k, v in refusals.outcomes(conf["refuse"], ctx.path("r")).items():
            need(out["refused"][k] == v == "refused", lambda: f"{k}: {v} here, {out['refused'][k]} elsewhere: {what}")
            ctx.ev("refusals_compared")
    ctx.ev("interpreters")
    ctx.ev("optimised", int("-O" in flags or "-OO" in flags or ("PYTHONOPTIMIZE" in env and "-E" not in flags and "-I" not in flags)))
    ctx.ev("hash_seeds", int("PYTHONHASHSEED" in env)), ctx.ev("folder_removed", int(where == "removed")), ctx.ev("streams_closed", int("closed" in streams))
    ctx.ev("missing_rich", int("rich" in missing)), ctx.ev("missing_xarray", int("xarray" in missing)), ctx.ev("in_thread", int(conf["thread"])), ctx.ev("traced", int(conf["trace"]))
    ctx.ev("few_files", int(bool(conf["files"]))), ctx.ev("shallow", int(bool(conf["recursion"]))), ctx.ev("locale_C", int(env.get("LC_ALL") in ("C", "POSIX")))
    ctx.distinct(what)
