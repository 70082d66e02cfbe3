"""Programs in a process with another locale, of which the encoding is ASCII"""
import importlib.util
import os
from pathlib import Path
import subprocess
import sys

from .harness import Violation


def run(folder, program, expected):
    # The program is the one to import it
    package = importlib.util.find_spec("collagraph")
    env = {
        **os.environ,
        "LC_ALL": "C",
        "PYTHONUTF8": "0",
        "PYTHONCOERCECLOCALE": "0",
        "PYTHONPATH": str(Path(package.origin).parent.parent),
        "PYTHONDONTWRITEBYTECODE": "1",
        "QT_QPA_PLATFORM": "offscreen",
    }
    env.pop("PYTHONIOENCODING", None)
    result = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", program],
        cwd=folder,
        env=env,
        capture_output=True,
        timeout=120,
        stdin=subprocess.DEVNULL,
    )
    output = result.stdout.decode(errors="replace").strip()
    if output != expected:
        errors = result.stderr.decode(errors="replace")[-600:]
        raise Violation("locale", f"{output!r} instead of {expected!r}\n{errors}")
