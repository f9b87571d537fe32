"""Runs operations in an interpreter of its own, under the circumstances given: python elsewhere.py CONFIG.json"""
import json
import sys

with open(sys.argv[1]) as fp:
    conf = json.load(fp)
sys.dont_write_bytecode = True
sys.path[:0] = conf["path"]
for m in conf["missing"]:
    sys.modules[m] = None  # as if it was not installed

import builtins  # noqa: E402
import gc  # noqa: E402
import importlib  # noqa: E402
import logging  # noqa: E402
import os  # noqa: E402
import resource  # noqa: E402
import stat  # noqa: E402
import threading  # noqa: E402
import traceback  # noqa: E402
import types  # noqa: E402

# everything pymech uses, so that what these do is not taken for what pymech does
for m in ("attrs", "numpy.fft", "xarray.core.utils", "xarray.backends.common", "dask.array", "rich.logging", "rich.console"):
    try:
        importlib.import_module(m)
    except ImportError:
        pass

import numpy as np  # noqa: E402
from world import world  # noqa: E402


def everything():
    w = world()
    w["logging"] = [x for x in w["logging"] if x[0] != "pymech"]
    w["builtins"] = sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")
    w["hooks"] = [id(x) for x in (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook)]
    w["threads"] = threading.active_count()
    w["numpy"] = sorted((k, id(v)) for k, v in vars(np).items() if callable(v))
    w["classes"] = [logging.getLoggerClass().__name__, logging.lastResort is not None, logging.raiseExceptions]
    w["limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE)]
    w["gc_threshold"] = gc.get_threshold()
    if "xarray" in sys.modules and sys.modules["xarray"]:
        w["xarray"] = repr(sorted(sys.modules["xarray"].get_options().items()))
    return w


out = dict(disturbed=[], results={}, refused={}, modes={}, failed=None)


def work():
    if conf["version_stub"]:
        sys.modules["pymech._version"] = types.ModuleType("pymech._version")
        sys.modules["pymech._version"].__version__ = "0+verif"
    before, listing = everything(), sorted(os.listdir(conf["dir"]))
    for m in conf["imports"]:
        importlib.import_module(m)
    after = everything()
    out["disturbed"] = [f"{k}: {str(before[k])[:200]} -> {str(after[k])[:200]}" for k in before if before[k] != after[k]]
    if sorted(os.listdir(conf["dir"])) != listing:
        out["disturbed"].append("files in the folder")
    out["from"] = sys.modules["pymech"].__file__
    import jobs

    if conf["recursion"]:
        sys.setrecursionlimit(conf["recursion"])
    if conf["files"]:
        resource.setrlimit(resource.RLIMIT_NOFILE, (conf["files"], conf["files"]))
    for i, (name, seed) in enumerate(conf["jobs"]):
        try:
            out["results"][str(i)] = jobs.run(name, seed, os.path.join(conf["dir"], f"j{i}"))
        except Exception as e:
            out["results"][str(i)] = f"raised {type(e).__name__}: {e}"
    for root, _, files in os.walk(conf["dir"]):
        for f in files:
            if root != conf["dir"]:
                out["modes"][os.path.join(root, f)] = stat.S_IMODE(os.stat(os.path.join(root, f)).st_mode)
    if not any(conf["missing"]):
        import refusals

        out["refused"] = refusals.outcomes(conf["refuse"], os.path.join(conf["dir"], "r"))


def guarded():
    try:
        work()
    except BaseException:
        out["failed"] = traceback.format_exc()


if conf["gc"] == "off":
    gc.disable()
elif conf["gc"] == "eager":
    gc.set_threshold(5, 2, 2)
if conf["trace"]:
    sys.settrace(lambda *a: None)
    threading.settrace(lambda *a: None)
if conf["thread"]:
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
else:
    guarded()
sys.settrace(None)
with open(conf["answer"], "w") as fp:
    json.dump(out, fp)
os._exit(0)
