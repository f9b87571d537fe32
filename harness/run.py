"""Runs the monitors of one property: python run.py C01 [--replay FILE] [--cases N] [--jobs N]"""

from __future__ import annotations

import argparse
import importlib
import io
import json
import mmap
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter, defaultdict
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")

import lib  # noqa: E402
import numpy as np  # noqa: E402
import selftest  # noqa: E402


def rng_for(prop, seed, index):
    return np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(prop.encode()), index])


class LineMonitor:
    """Lines of pymech executed by the workload (sys.monitoring, each line reported once)."""

    def __init__(self):
        self.hits = set()
        self.root = str(lib.SRC.resolve())
        self.tool = 3
        mon = getattr(sys, "monitoring", None)
        self.mon = mon
        if mon is None:
            return
        try:
            mon.use_tool_id(self.tool, "verif")
        except ValueError:
            self.mon = None
            return

        def line(code, no):
            if code.co_filename.startswith(self.root):
                self.hits.add((code.co_filename[len(self.root) + 1 :], no))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)


MEMORY = 16 << 30  # bytes a case may take when tried alone


def case_limit(mod, index):
    fixed = getattr(mod, "FIXED", ())
    usual = getattr(mod, "CASE_TIMEOUT", 90)
    # the fixed cases are large: a slower way to the same result may need far longer
    return getattr(fixed[index], "timeout", max(usual, 300)) if index < len(fixed) else usual


def run_case(mod, ctx, index, prop, seed, limit=None):
    ctx.sig = None
    ctx.log = []
    nfix = len(getattr(mod, "FIXED", ()))
    rng = rng_for(prop, seed, index)

    limit = limit or case_limit(mod, index)

    def on_alarm(*a):
        raise lib.Inconclusive(f"no answer within {limit} s")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        if index < nfix:
            mod.FIXED[index](ctx, rng)
        else:
            mod.case(ctx, rng)
        ctx.ev("cases")
        return None
    except lib.Violation as v:
        return dict(kind="violation", key=v.key, msg=str(v), tb=traceback.format_exc())
    except (lib.Inconclusive, MemoryError) as e:
        return dict(kind="inconclusive", key=None, msg=repr(e), tb=traceback.format_exc())
    except OSError as e:
        import errno

        k = "inconclusive" if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM) else "violation"
        return dict(kind=k, key=None, msg=f"unexpected {e!r}", tb=traceback.format_exc())
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        # everything in a case is legitimate use of the API: an exception that the
        # oracle does not expect is a failure of the operation
        return dict(kind="violation", key=None, msg=f"unexpected {type(e).__name__}: {e}", tb=traceback.format_exc())
    finally:
        signal.alarm(0)
        ctx.slowest = max(ctx.slowest, time.time() - t0)
        ctx.clean()


def worker(mod, prop, seed, tier, indices, deadline, fd, at):
    sys.stdout = open(os.devnull, "w")
    # numpy and pymech report to stderr; keep it for ourselves
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    handler = lib.quiet_logging()
    mon = LineMonitor()
    fails, skipped = [], 0
    with lib.Ctx(prop, seed, tier) as ctx:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        for i in indices:
            at[0] = i
            if time.time() > deadline:
                skipped += 1
                continue
            before = dict(ctx.events)
            f = run_case(mod, ctx, i, prop, seed)
            if f is not None:
                f["index"] = i
                f["history"] = ctx.log[-200:]
                fails.append(f)
                if sum(x["kind"] == "violation" and x["key"] is None for x in fails) >= 5 or unanswered(f):
                    break
            elif len(ctx.samples) < 2 and ctx.log:
                ctx.samples.append(dict(index=i, history=ctx.log[:12]))
            del before
        out = dict(
            events=ctx.events, keys=ctx.keys, samples=ctx.samples, fails=fails, skipped=skipped,
            lines=mon.hits, logs=handler.counts, slowest=ctx.slowest,
        )
    with os.fdopen(fd, "wb") as fp:
        pickle.dump(out, fp)


def confirm(mod, prop, seed, tier, f):
    """A case that got no answer is tried again alone, with twice the time: then it is the code, not the machine."""
    limit = case_limit(mod, f["index"])
    limit = max(limit, min(2 * limit, 300))
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            sys.stdout = open(os.devnull, "w")
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            lib.quiet_logging()
            with lib.Ctx(prop, seed, tier) as ctx:
                if hasattr(mod, "setup"):
                    mod.setup(ctx)
                g = run_case(mod, ctx, f["index"], prop, seed, limit)
            os.write(w, b"again" if g and (g["kind"] == "violation" or unanswered(g)) else b"fine")
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        out = fp.read()
    _, status = os.waitpid(pid, 0)
    if out == b"again" or not out:
        f["kind"] = "violation"
    return f


def unanswered(f):
    """Whether the code may be what kept a case from an answer: it hung, used up the memory, or ended the process."""
    return f["kind"] == "inconclusive" and any(x in f["msg"] for x in ("no answer within", "MemoryError", "the process died"))


def known_findings():
    """(property, key) -> text, from the committed file."""
    out = {}
    p = lib.VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: "):
                words = line.split(None, 3)
                pr = words[1].split("=", 1)[1]
                key = words[2].split("=", 1)[1]
                out[pr, key] = words[3] if len(words) > 3 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module(f"props.{prop}")
    blind = selftest.run()
    if blind:
        print(f"inconclusive: the oracles of this harness are broken: {blind}")
        return 2

    if a.replay or a.index is not None:
        if a.replay:
            rp = json.loads(Path(a.replay).read_text())
            seed, idx, tier = rp["seed"], rp["index"], rp["tier"]
        else:
            idx = a.index
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        lib.quiet_logging()
        with lib.Ctx(prop, seed, tier) as ctx:
            if hasattr(mod, "setup"):
                mod.setup(ctx)
            f = run_case(mod, ctx, idx, prop, seed)
            print("\n".join(ctx.log))
        if f is None:
            print("held")
            return 0
        print(f["tb"])
        print(f["kind"], f["msg"])
        return 1 if f["kind"] == "violation" else 2

    n = a.cases or mod.CASES[tier]
    nfix = len(getattr(mod, "FIXED", ()))
    n = max(n, nfix)
    jobs = max(1, min(a.jobs, n))
    # generous watchdog: what it cuts off is reported, never judged
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 3000))
    procs = []
    for w in range(jobs):
        r, wfd = os.pipe()
        at = memoryview(mmap.mmap(-1, 8)).cast("q")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(mod, prop, seed, tier, range(w, n, jobs), deadline, wfd, at)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r, at))
    outs, died = [], []
    for pid, r, at in procs:
        with os.fdopen(r, "rb") as fp:
            blob = fp.read()
        _, status = os.waitpid(pid, 0)
        if not blob:
            died.append(dict(kind="inconclusive", key=None, index=at[0], history=[], tb="", msg=f"the process died with status {status}"))
            continue
        outs.append(pickle.loads(blob))

    events, logs = Counter(), Counter()
    keys, lines, fails, samples = set(), set(), died, []
    skipped = 0
    for o in outs:
        events.update(o["events"])
        logs.update(o["logs"])
        keys |= o["keys"]
        lines |= o["lines"]
        fails += o["fails"]
        samples += o["samples"]
        skipped += o["skipped"]
    fails.sort(key=lambda f: f["index"])
    hung = [f for f in fails if unanswered(f)]
    if hung and not any(f["kind"] == "violation" for f in fails):
        confirm(mod, prop, seed, tier, hung[0])
    known = known_findings()
    viol = [f for f in fails if f["kind"] == "violation" and (prop, f["key"]) not in known]
    kn = [f for f in fails if f["kind"] == "violation" and (prop, f["key"]) in known]
    inc = [f for f in fails if f["kind"] == "inconclusive"]

    reached = defaultdict(int)
    for f, _ in lines:
        reached[f] += 1
    missing = {k: (v, events.get(k, 0)) for k, v in getattr(mod, "REQUIRED", {}).items() if events.get(k, 0) < v}
    ncases = events.pop("cases", 0)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=int(ncases + len(fails)),
            distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=samples[:4] or [dict(note="no history recorded")],
            observed={k: int(v) for k, v in sorted(events.items())},
            pymech_lines_reached={k: v for k, v in sorted(reached.items())},
            pymech_log_records={k: int(v) for k, v in logs.items()},
            cases_cut_off_by_watchdog=skipped,
            inconclusive_cases=len(inc),
            known_findings_seen=len(kn),
            slowest_case_s=round(max((o["slowest"] for o in outs), default=0), 3),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
        wall_s=round(time.time() - t0, 3),
        violations=len(viol),
    )
    if not a.no_evidence:
        d = lib.VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")

    seen = set()
    for f in kn:
        if f["key"] not in seen:
            seen.add(f["key"])
            print(f"KNOWN-FINDING: property={prop} {f['key']}: {known[prop, f['key']]}")
    if viol:
        rd = lib.VERIF / "replay"
        rd.mkdir(exist_ok=True)
        f = viol[0]
        rp = rd / f"{prop}-{tier}-{seed}-{f['index']}.json"
        rp.write_text(json.dumps(dict(property=prop, seed=seed, tier=tier, index=f["index"], key=f["key"], message=f["msg"],
                                      history=f["history"], traceback=f["tb"],
                                      command=f"VERIF_SEED={seed} VERIF_TIER={tier} /opt/venv/bin/python harness/run.py {prop} --replay {rp}"), indent=1))
        for f in viol[:5]:
            print(f"  case {f['index']}: {f['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if inc or missing or skipped:
        for f in inc[:3]:
            print(f"inconclusive: case {f['index']}: {f['msg']}")
        if missing:
            print(f"inconclusive: the monitors observed too little: {missing}")
        if skipped and not (inc or missing):
            # cut off by the overall budget: held on what was observed
            print(f"note: {skipped} cases not run within the budget")
            print(f"HELD property={prop} cases={ncases} distinct={len(keys)} wall={ev['wall_s']}s")
            return 0
        return 2
    print(f"HELD property={prop} cases={ncases} distinct={len(keys)} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
