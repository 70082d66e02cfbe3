"""Entry point: python -m lib.main <ID> quick|thorough [options]"""
import argparse
import json
import os
from pathlib import Path
import resource
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from lib import clock  # noqa: E402

clock.install()

from lib import harness  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("tier", choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--case", type=int)
    parser.add_argument("--cases", type=int)
    parser.add_argument("--seed", type=int)
    parser.add_argument("--keep-going", action="store_true")
    args = parser.parse_args()
    if not os.environ.get("VERIF_CURRENT"):
        sys.exit(isolated(args))
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    code = harness.run(args)
    sys.stdout.flush()
    sys.stderr.flush()
    # Without finalization: the order in which that destroys objects of Qt is arbitrary
    os._exit(code)


def isolated(args):
    """Runs the check in another process. The toolkits are written in C++: invalid use
    might crash the whole process, and code under test might not come to an end. Those
    count as violations by the case that was running."""
    with tempfile.TemporaryDirectory(prefix="verif-run-") as folder:
        current = Path(folder) / "current"
        env = dict(os.environ, VERIF_CURRENT=str(current))
        command = [sys.executable, "-W", "ignore", "-m", "lib.main", *sys.argv[1:]]
        child = subprocess.Popen(command, env=env)
        what = None
        while what is None:
            try:
                rc = child.wait(1)
            except subprocess.TimeoutExpired:
                if current.exists():
                    running = time.time() - current.stat().st_mtime
                    if running > harness.WATCHDOG_S:
                        child.kill()
                        child.wait()
                        what = f"hang: no end after {running:.0f} seconds"
                continue
            if rc >= 0:
                return rc
            what = f"crash: the process was ended by signal {-rc}"
        case = json.loads(current.read_text()) if current.exists() else {}
    replay = harness.ROOT / "replay" / f"{args.property}-ended.json"
    replay.parent.mkdir(exist_ok=True)
    replay.write_text(json.dumps({**case, "kind": what}))
    print(f"{what} in case {case}")
    print(f"VIOLATION property={args.property} replay={replay}")
    return 1


if __name__ == "__main__":
    main()
