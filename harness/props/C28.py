"""Results depend on the arguments only: not on what was done before, and nothing global is disturbed."""
import logging
import os
import random

import jobs
import numpy as np
from lib import need
from world import world

LEVEL = "exploration"
CASES = dict(quick=400, thorough=12000)
RULE = "distinct interleavings of operations"
REQUIRED = dict(compared_with_separate_process=400, debug_logging=60, file_names_reused=120, almost_equal_inputs=200, histories=200, results_compared=2500, states_compared=4000, failed_operations_interleaved=300, **{"job_" + n: 60 for n in jobs.NAMES})
CASE_TIMEOUT = 120


def step(ctx, d, name, seed, tweak):
    before = world()
    r = jobs.run(name, seed, d, tweak)
    after = world()
    for a in before:
        need(before[a] == after[a], lambda: f"{name} disturbed {a} of the process: {str(before[a])[:200]} -> {str(after[a])[:200]}")
        ctx.ev("states_compared")
    ctx.ev("job_" + name)
    ctx.ev("failed_operations_interleaved", int(name.startswith("bad")))
    return r


def alone(ctx, t):
    """The digest of an operation in a process that has not seen the other operations of this history."""
    d = ctx.path("alone")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, jobs.run(*t[:2], d, t[2]).encode())
        except BaseException as e:
            os.write(w, f"raised {type(e).__name__}: {e}"[:500].encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fp:
        out = fp.read()
    os.waitpid(pid, 0)
    return out


def case(ctx, rng):
    n = int(rng.integers(3, 7))
    todo = [(str(rng.choice(jobs.NAMES)), int(rng.integers(0, 2**31)), 0.0) for _ in range(n)]
    if rng.random() < 0.5:  # the same operation on different data
        todo.append((todo[0][0], int(rng.integers(0, 2**31)), 0.0))
    for k in range(int(rng.integers(0, 3))):  # and on almost the same data
        t = todo[int(rng.integers(0, n))]
        todo.append((t[0], t[1], float(10.0 ** rng.uniform(-11, -5))))
        ctx.ev("almost_equal_inputs")
    np.random.seed(int(rng.integers(0, 2**31)))
    random.seed(int(rng.integers(0, 2**31)))
    ref = {t: (alone(ctx, t), "of a process of its own") for t in todo if t[2] or rng.random() < 0.3}
    for t in ref:
        need(not ref[t][0].startswith("raised"), lambda: f"{t}: {ref[t][0]}")
    ctx.ev("compared_with_separate_process", len(ref))
    hist = [todo[int(i)] for i in rng.permutation(len(todo))]
    extra = [todo[int(i)] for i in rng.integers(0, len(todo), n)]
    noise = [("bad_read", int(rng.integers(0, 2**31)), 0.0), ("bad_mesh", int(rng.integers(0, 2**31)), 0.0)]
    second = list(todo) + extra + noise
    second = [second[int(i)] for i in rng.permutation(len(second))]
    # the same file names again and again, or every time others
    one = ctx.path("j") if rng.random() < 0.6 else None
    ctx.ev("file_names_reused", int(one is not None))
    log = logging.getLogger("pymech")
    level, old = log.level, np.geterr()
    bad = log.handlers[0].counts["malformed"]
    try:
        for k, t in enumerate(hist + second):
            if k == len(hist):
                np.random.seed(int(rng.integers(0, 2**31)))
                np.seterr(all=str(rng.choice(["ignore", "warn"])))
                log.setLevel(int(rng.choice([logging.DEBUG, logging.ERROR, level])))
                ctx.note("second half: errors", np.geterr()["divide"], "level", log.level)
                ctx.ev("debug_logging", int(log.level == logging.DEBUG))
            ctx.note(*t)
            r = step(ctx, one or ctx.path("j"), *t)
            if t in ref:
                need(r == ref[t][0], lambda: f"{t} gave one result at step {ref[t][1]} and another at step {k} of {[x[0] for x in hist + second]}")
                ctx.ev("results_compared")
            else:
                ref[t] = (r, k)
    finally:
        np.seterr(**old)
        log.setLevel(level)
    need(log.handlers[0].counts["malformed"] == bad, "a log message could not be formatted")
    ctx.ev("histories")
    ctx.distinct(tuple(x[0] for x in hist + second))
