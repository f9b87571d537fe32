"""Make, or re-confirm, planted bugs.

    python3 tools/plant.py make SPECS.py [ID...]   write seeded/<id>/ from specs
    python3 tools/plant.py confirm [ID...]         patch applies, tests pass, demo 0 / nonzero
    python3 tools/plant.py detect [ID...]          run the check of the property against each
                                                   (--all: every check) in a scratch copy

Works in scratch copies of /repo only. No check uses this file.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after the build
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def scratch():
    d = Path(tempfile.mkdtemp(prefix="plant-"))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d, d / "repo"


def env_for(repo):
    e = dict(os.environ)
    e.update(PYTHONPATH=str(repo / "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e


def make(specs, ids):
    for s in specs:
        if ids and s["id"] not in ids:
            continue
        d, repo = scratch()
        try:
            for f, old, new in s["edits"]:
                p = repo / "src/pymech" / f
                t = p.read_text()
                n = t.count(old)
                if n != 1:
                    raise SystemExit(f"{s['id']}: {n} matches in {f} for:\n{old}")
                p.write_text(t.replace(old, new))
            diff = subprocess.run(["git", "-C", str(repo), "diff"], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(d)
        out = SEEDED / s["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        (out / "demo.py").write_text(s["demo"].lstrip("\n"))
        (out / "meta.json").write_text(json.dumps(
            {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")


def confirm(i):
    d, repo = scratch()
    try:
        demo = SEEDED / i / "demo.sh"
        r0 = subprocess.run(["bash", str(demo)], cwd=repo, capture_output=True, text=True)
        a = subprocess.run(["git", "-C", str(repo), "apply", str(SEEDED / i / "patch.diff")], capture_output=True, text=True)
        r1 = subprocess.run(["bash", str(demo)], cwd=repo, capture_output=True, text=True)
        x = d / "j.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", f"--basetemp={d}/t", f"--junitxml={x}", "tests"],
                       cwd=repo, env=env_for(repo), capture_output=True)
        import xml.etree.ElementTree as ET
        passed = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(x).getroot().iter("testcase")
                  if not list(t)  or all(c.tag not in ("failure", "error", "skipped") for c in t)}
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = stable - passed
        ok = r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0 and not miss
        return i, ok, f"demo {r0.returncode}/{r1.returncode} apply {a.returncode} lost {sorted(miss)} " + ("" if ok else (r0.stderr[-400:] + a.stderr + "||" + r1.stdout[-300:] + r1.stderr[-300:])) + " | " + r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else f"demo {r0.returncode}/{r1.returncode} lost {miss} {r0.stderr[-300:]}"
    finally:
        shutil.rmtree(d)


def detect(i, every=False):
    d, repo = scratch()
    try:
        prop = json.loads((SEEDED / i / "meta.json").read_text())["property"]
        subprocess.run(["git", "-C", str(repo), "apply", str(SEEDED / i / "patch.diff")], check=True)
        props = [prop] if not every else [f"C{k:02d}" for k in range(1, 100) if (VERIF / f"harness/props/C{k:02d}.py").exists()]
        hits = []
        for p in props:
            e = dict(os.environ, VERIF_REPO=str(repo), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
                     VERIF_SEED=os.environ.get("VERIF_SEED", "1"), PYTHONHASHSEED="0")
            r = subprocess.run([PY, "harness/run.py", p, "--no-evidence", "--jobs", os.environ.get("PJOBS", "2")], cwd=VERIF, env=e,
                               capture_output=True, text=True)
            if r.returncode == 1:
                hits.append(p)
            elif r.returncode != 0:
                hits.append(f"{p}:rc{r.returncode}")
        return i, prop, hits
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, *rest = sys.argv[1:]
    if cmd == "make":
        make(runpy.run_path(rest[0])["SPECS"], rest[1:])
    else:
        every = "--all" in rest
        ids = [r for r in rest if r != "--all"] or sorted(p.name for p in SEEDED.iterdir())
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(confirm, i) if cmd == "confirm" else ex.submit(detect, i, every) for i in ids]
            for f in cf.as_completed(fs):
                r = f.result()
                if cmd == "confirm":
                    print("ok  " if r[1] else "BAD ", r[0], r[2], flush=True)
                else:
                    print("caught" if r[1] in r[2] else "MISSED", r[0], r[1], r[2], flush=True)
