"""Mutation campaign: python3 tools/mutate.py FILE [--jobs N] [--only N,N] [--list]

Makes small changes to FILE (relative to /repo) one by one, each in a scratch copy. Those
that pass the existing tests are presented to the checks (of this copy of /verif, quick
tier). Prints the ones that aren't noticed by any check: those are either equivalent, or
show what the checks don't see."""
import argparse
import ast
from concurrent.futures import ThreadPoolExecutor
import difflib
import os
from pathlib import Path
import shutil
import subprocess
import sys
import tempfile

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
CHECKS = {
    "collagraph/collagraph.py": "C01 C03 C04 C07 C13 C11 C05 C06 C08 C10 C14 C15 C09 C12 C02 C16 C17 C18 R38",
    "collagraph/component.py": "C06 C08 C09 C21 C10 C16 C07 C20",
    "collagraph/compare.py": "C05 C04 C06",
    "collagraph/types.py": "C01 C07 C13",
    "collagraph/cgx/cgx.py": "C20 C22 C24 C21 C23 C25 C26",
    "collagraph/cgx/importer.py": "C26 C25",
    "collagraph/renderers/dict_renderer.py": "R30",
    "collagraph/renderers/dom_renderer.py": "R31",
    "collagraph/renderers/pygfx_renderer.py": "R36",
    "collagraph/renderers/pyside_renderer.py": "R37 R34 R33 R32 R35 R38",
    "collagraph/renderers/pyside/__init__.py": "R33 R34 R37 R32",
    "collagraph/renderers/pyside/objects": "R32 R35 R33 R34",
    "collagraph/__main__.py": "T40",
    "collagraph/__pyinstaller": "T41",
}
WRAPPERS = {"reversed", "sorted", "to_raw", "reactive", "readonly", "list", "set", "tuple",
            "str", "bool", "max", "min", "partial", "dict"}
SWAP = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
    ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
}


class Mutants(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = text.encode()
        self.found = []

    def span(self, node):
        return (
            self.starts[node.lineno - 1] + node.col_offset,
            self.starts[node.end_lineno - 1] + node.end_col_offset,
        )

    def seg(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def add(self, node, new, what):
        a, b = self.span(node)
        raw = self.raw[:a] + new.encode() + self.raw[b:]
        try:
            ast.parse(raw)
        except SyntaxError:
            return
        if raw != self.raw:
            old = " ".join(self.seg(node).split())[:70]
            self.found.append(
                (f"{node.lineno}: {what}: {old} -> {' '.join(new.split())[:70]}", raw)
            )

    def visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant
            ):
                node.body = body[1:]
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(
            node,
            (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break),
        ) and getattr(self, "depth", 0):
            self.add(node, "pass", "delete")
        if isinstance(node, ast.Return) and node.value is not None:
            self.add(node, "return None", "return")
            self.add(node, "pass", "delete")
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            self.add(node.test, f"(not ({self.seg(node.test)}))", "negate")
            if not isinstance(node, ast.While):
                self.add(node.test, "True", "always")
            self.add(node.test, "False", "never")
        if isinstance(node, ast.comprehension):
            for test in node.ifs:
                self.add(test, "True", "always")
        if isinstance(node, ast.BoolOp):
            for i in range(len(node.values)):
                rest = [self.seg(v) for j, v in enumerate(node.values) if j != i]
                op = " and " if isinstance(node.op, ast.And) else " or "
                self.add(node, "(" + op.join(rest) + ")", "drop")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = SWAP[type(node.ops[0])]
            left, right = self.seg(node.left), self.seg(node.comparators[0])
            self.add(node, f"({left} {new} {right})", "compare")
            if isinstance(node.ops[0], (ast.Is, ast.IsNot)):
                new = "==" if isinstance(node.ops[0], ast.Is) else "!="
                self.add(node, f"({left} {new} {right})", "identity")
        if isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                self.add(node, str(not node.value), "constant")
            elif type(node.value) is int:
                self.add(node, str(node.value + 1), "constant")
        if isinstance(node, ast.Call):
            if (
                isinstance(node.func, ast.Attribute)
                and not node.args
                and not node.keywords
            ):
                self.add(node, self.seg(node.func.value), "no-call")
            if isinstance(node.func, ast.Name) and node.func.id in WRAPPERS and node.args:
                for arg in node.args:
                    self.add(node, self.seg(arg), "unwrap")
            for keyword in node.keywords:
                if keyword.arg:
                    rest = [self.seg(a) for a in node.args] + [
                        self.seg(k) for k in node.keywords if k is not keyword
                    ]
                    self.add(
                        node, f"{self.seg(node.func)}({', '.join(rest)})", "drop-kw"
                    )
        if isinstance(node, (ast.Set, ast.Tuple, ast.List)) and len(node.elts) > 1:
            if isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
                for elt in node.elts:
                    rest = ", ".join(self.seg(e) for e in node.elts if e is not elt)
                    pair = {ast.Set: "{}", ast.Tuple: "()", ast.List: "[]"}[type(node)]
                    comma = "," if isinstance(node, ast.Tuple) else ""
                    self.add(node, pair[0] + rest + comma + pair[1], "drop-item")
        deeper = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        if deeper:
            self.depth = getattr(self, "depth", 0) + 1
        self.generic_visit(node)
        if deeper:
            self.depth -= 1


def sh(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           start_new_session=True, env={**os.environ, **env})
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def checks_for(file):
    return next(v for k, v in CHECKS.items() if file.startswith(k)).split()


def judge(file, number, what, raw):
    with tempfile.TemporaryDirectory(prefix="mutant-") as tmp:
        repo = Path(tmp) / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        (repo / file).write_bytes(raw)
        env = dict(PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", QT_QPA_PLATFORM="offscreen")
        rc, out = sh(f"timeout 100 {PY} -m pytest -q -x -p no:cacheprovider --timeout=20 tests",
                     repo, 120, **env)
        if rc:
            return "killed by the tests"
        verif = Path(tmp) / "verif"
        verif.mkdir()
        for name in ("lib", "checks", "run.sh", "known-findings.txt"):
            subprocess.run(["cp", "-a", str(ROOT / name), str(verif)], check=True)
        for check in checks_for(file):
            rc, out = sh(f"timeout 250 ./run.sh {check} quick", verif, 260,
                         VERIF_REPO=str(repo), VERIF_SEED="1")
            if rc:
                return f"caught by {check}"
        return "SURVIVED"


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("file")
    parser.add_argument("--jobs", type=int, default=6)
    parser.add_argument("--only")
    parser.add_argument("--lines")
    parser.add_argument("--list", action="store_true")
    parser.add_argument("--show", action="store_true")
    args = parser.parse_args()
    text = (Path("/repo") / args.file).read_text()
    mutants = Mutants(text)
    mutants.visit(ast.parse(text))
    todo = list(enumerate(mutants.found))
    if args.only:
        chosen = {int(n) for n in args.only.split(",")}
        todo = [item for item in todo if item[0] in chosen]
    if args.lines:
        a, b = (int(x) for x in args.lines.split("-"))
        todo = [t for t in todo if a <= int(t[1][0].split(":")[0]) <= b]
    todo = [t for t in todo if not t[1][0].endswith("return False -> return None")]
    if args.show:
        for n, (what, raw) in todo:
            diff = difflib.unified_diff(
                text.splitlines(), raw.decode().splitlines(), lineterm="", n=1
            )
            print(n, *list(diff)[2:], sep="\n")
        return
    if args.list:
        for n, (what, _) in todo:
            print(n, what)
        return

    def run(item):
        n, (what, raw) = item
        outcome = judge(args.file, n, what, raw)
        print(f"{outcome} | {n} | {what}", flush=True)

    with ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(run, todo))


if __name__ == "__main__":
    main()
