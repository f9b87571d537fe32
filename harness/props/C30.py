"""Threads that work on different files and meshes get the same results as one after the other."""
import hashlib
import random
import sys
import threading
import time

import jobs
import lib
from lib import Violation, need

LEVEL = "exploration"
CASES = dict(quick=200, thorough=6000)
RULE = "distinct schedules (sequence of thread switches inside pymech code) observed"
REQUIRED = dict(threads_run=400, results_compared=700, thread_switches_inside_pymech=20000, same_operation_concurrently=70)
CASE_TIMEOUT = 150
ASSUMPTIONS = ["threads share no file and no mesh: concurrent use of one mesh is not promised by the package",
               "schedules are those of the interpreter, perturbed at every line of pymech executed"]

KINDS = [n for n in jobs.NAMES if n not in ("bad_mesh",)]


class Schedule:
    """Yields at random lines of pymech, and records which thread runs after which."""

    def __init__(self, seed, prob):
        self.rng = random.Random(seed)
        self.prob = prob
        self.last = None
        self.switches = 0
        self.trace = hashlib.blake2b(digest_size=8)
        self.root = str(lib.SRC.resolve())
        self.ids = {}
        self.active = False

    def line(self, code, no):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        if not self.active:
            return None
        me = threading.get_ident()
        k = self.ids.get(me)
        if k is None:
            return None
        if self.last is not None and self.last != k:
            self.switches += 1
            self.trace.update(b"%d:%d " % (k, no))
        self.last = k
        if self.rng.random() < self.prob:
            time.sleep(0)
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "verif-schedule")
        m.register_callback(4, m.events.LINE, self.line)
        m.restart_events()
        m.set_events(4, m.events.LINE)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        self.active = False
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)
        sys.setswitchinterval(self.interval)
        return False


def case(ctx, rng):
    nt = int(rng.integers(2, 5))
    same = bool(rng.random() < 0.6)
    kind = str(rng.choice(KINDS))
    plan = [[(kind if same else str(rng.choice(KINDS)), int(rng.integers(0, 2**31))) for _ in range(int(rng.integers(1, 4)))] for _ in range(nt)]
    ctx.note(plan)
    base = ctx.path("s")
    want = {t: jobs.run(*t, f"{base}/{k}") for k, t in enumerate(sorted({t for p in plan for t in p}))}
    got = [[None] * len(p) for p in plan]
    errors = []
    sch = Schedule(int(rng.integers(0, 2**31)), float(rng.choice([0.02, 0.1, 0.3])))
    gate = threading.Barrier(nt)

    def body(k):
        try:
            sch.ids[threading.get_ident()] = k
            gate.wait(60)
            sch.active = True
            for i, t in enumerate(plan[k]):
                got[k][i] = jobs.run(*t, f"{base}/t{k}-{i}")
        except BaseException as e:
            errors.append((k, e))

    with sch:
        th = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(nt)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    if errors:
        k, e = errors[0]
        raise Violation(f"thread {k} of {plan} failed with {e!r}, alone it succeeds") from e
    for k, p in enumerate(plan):
        for i, t in enumerate(p):
            need(got[k][i] == want[t], lambda: f"{t} in thread {k}, concurrent with {[q for j, q in enumerate(plan) if j != k]}, gave another result than alone")
            ctx.ev("results_compared")
    ctx.ev("threads_run", nt)
    ctx.ev("same_operation_concurrently", int(same))
    ctx.ev("thread_switches_inside_pymech", sch.switches)
    ctx.distinct(sch.trace.hexdigest())
