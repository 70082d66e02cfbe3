"""Plant the bugs of a batch: python3 tools/plant.py BATCH.py [ID ...] [--check]

A batch defines BUGS: a list of dicts with id, property, edits (list of file, old, new),
needs, breaks and demo (source of demo.py). Each bug is applied to a scratch copy of
/repo, where the tests have to pass and the demo has to fail (and pass without the
bug). Confirmed bugs are written to /verif/seeded/<id>. With --check, the quick check of
the property is run against the scratch copy. Nothing in /verif reads the result.
"""
import json
import os
from pathlib import Path
import runpy
import shutil
import subprocess
import sys
import time

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
SCRATCH = Path("/tmp/plant")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, timeout=300, **env):
    try:
        return subprocess.run(
            cmd, cwd=cwd, shell=True, text=True, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env={**os.environ, **env},
        )
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, f"timeout\n{e.stdout}", "")


def tests(repo):
    env = dict(PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", QT_QPA_PLATFORM="offscreen")
    return sh(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=60 tests", repo, **env)


def plant(bug, check):
    id = bug["id"]
    repo = SCRATCH / id
    shutil.rmtree(repo, ignore_errors=True)
    SCRATCH.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    out = ROOT / "seeded" / id
    demo = SCRATCH / f"{id}.demo"
    shutil.rmtree(demo, ignore_errors=True)
    demo.mkdir()
    (demo / "demo.py").write_text(bug["demo"].lstrip())
    (demo / "demo.sh").write_text(DEMO)
    (demo / "demo.sh").chmod(0o755)
    try:
        clean = sh(f"bash {demo}/demo.sh", repo)
        if clean.returncode:
            return f"demo fails on clean tree:\n{clean.stdout[-1500:]}"
        for file, old, new in bug["edits"]:
            path = repo / file
            text = path.read_text()
            if text.count(old) != 1:
                return f"{text.count(old)} occurrences in {file} of {old!r}"
            path.write_text(text.replace(old, new))
        blame = []
        for file, old, new in bug["edits"]:
            text = sh(f"git blame -s HEAD -- {file}", repo).stdout.splitlines()
            diff = sh(f"git diff -U0 -- {file}", repo).stdout.splitlines()
            for line in diff:
                if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                    hits = [b for b in text if b.split(") ", 1)[-1] == line[1:]]
                    blame += [h for h in hits if "6b6cc3d" in h.split()[0]][:1]
        if not blame:
            return "changes no original lines"
        result = tests(repo)
        if result.returncode:
            return f"tests fail:\n{result.stdout[-700:]}"
        patched = sh(f"bash {demo}/demo.sh", repo)
        if not patched.returncode:
            return "demo passes with bug"
        diff = sh("git diff", repo).stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps(dict(
            property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]
        ), indent=1) + "\n")
        outcome = "planted"
        if check:
            t = time.time()
            run = sh(f"./run.sh {bug['property']} quick", ROOT, 900,
                     VERIF_REPO=str(repo), VERIF_SEED="1", VERIF_TIER="quick")
            last = [x for x in run.stdout.splitlines() if "VIOLATION" in x][:1]
            outcome += f"; check rc={run.returncode} {time.time() - t:.0f}s {last}"
            outcome = ("CAUGHT " if run.returncode == 1 and last else "MISSED ") + outcome
        return outcome
    finally:
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


if __name__ == "__main__":
    args = [arg for arg in sys.argv[1:] if not arg.startswith("--")]
    for bug in runpy.run_path(args[0])["BUGS"]:
        if len(args) == 1 or bug["id"] in args[1:]:
            print(bug["id"], bug["property"], plant(bug, "--check" in sys.argv), flush=True)
