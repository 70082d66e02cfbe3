import importlib
import itertools
from pathlib import Path
import shutil
import sys
import tempfile
import traceback
import types

from collagraph.cgx import cgx

from lib.harness import Violation

QUICK, THOROUGH = 1500, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a CGX file with random blocks (blank lines, texts, comments, other tags, "
    "the template in random layouts) before, between and after the script and template "
    "tags, and a script with functions, methods, nested and decorated functions, "
    "lambdas, comprehensions, multi-line statements and strings. Each function carries "
    "the number of its line in the file (determined from the text of the file). The "
    "code objects, tracebacks of exceptions at import and at run time, and syntax errors "
    "are compared with it. Distinct: by the text of the file."
)
MIN = {"functions": 2000, "tracebacks": 500, "import errors": 50, "syntax errors": 50}
ASSUMPTIONS = ["the number of a line is one more than the number of preceding newlines"]
serial = itertools.count(1)
folder = None


def setup():
    global folder
    folder = Path(tempfile.mkdtemp(prefix="verif-c25-"))
    sys.path.insert(0, str(folder))


def finish(rep):
    sys.path.remove(str(folder))
    shutil.rmtree(folder)


def filler(rng):
    return "".join(
        rng.choice(
            [
                "\n",
                "\n\n\n",
                "  \n",
                "<!-- comment -->\n",
                "<!-- multi\n line <script> -->\n",
                "some text\n",
                "text with < and & \n",
                "<docs>\n  text\n</docs>\n",
                "<docs a='1\n2'/>\n",
            ]
        )
        for _ in range(rng.randrange(4))
    )


def template(rng):
    lines = ["<template>", "  <box", '    :a="1"', '    @b="lambda: 1"']
    lines.append(rng.choice(["  >", "    c", '    d="x\ny">'.replace(">", "") + ">"]))
    if not lines[-1].endswith(">"):
        lines.append("  >")
    for _ in range(rng.randrange(4)):
        lines.append(
            rng.choice(
                ["    <a/>", "    {{ 1 + 1 }}", "    <b v-if='True'>\n\n</b>", "", "text"]
            )
        )
    lines += ["  </box>", "</template>"]
    return "\n".join(lines) + rng.choice(["\n", "\n\n", ""])


class Script:
    def __init__(self, rng):
        self.rng = rng
        self.names = itertools.count(1)
        self.lines = []

    def add(self, line, indent=0):
        self.lines.append("    " * indent + line)

    def junk(self, indent):
        for _ in range(self.rng.randrange(3)):
            part = self.rng.choice(
                [
                    [""],
                    ["# comment </div> <template>"],
                    ["value = (", "    1,", "    2,", ")"],
                    ['text = """', "multi", "  </b> <!-- x -->", '"""'],
                    ["a = 1 \\", "    + 2"],
                    ["if True: pass"],
                    ["text = '</template>' '<script>'"],
                    # The last class of the script is taken for the component
                    ["class Inner:", "    x = [i for i in range(3)]"] if indent else [],
                    ["text = '''", "\tx\f", "'''"],
                ]
            )
            for line in part:
                # The content of multi-line strings may have any indent
                self.add(line, indent)

    def function(self, indent, method):
        rng = self.rng
        name = f"fn_{next(self.names)}"
        if not method and rng.random() < 0.3:
            self.add("@deco", indent)
        arg = "self, " if method else ""
        if rng.random() < 0.3:
            self.add(f"def {name}(", indent)
            self.add(f"    {arg}x=1,  # MARK-def-{name}", indent)
            self.add("):", indent)
        else:
            self.add(f"def {name}({arg}x=1):", indent)
        self.junk(indent + 1)
        kind = rng.choice(["plain", "nested", "lambda", "comp", "multi"])
        mark = f"# MARK-{name}"
        if kind == "plain":
            self.add(f"raise KeyError('{name}')  {mark}", indent + 1)
        elif kind == "nested":
            self.add(f"def nested_{name}():", indent + 1)
            self.junk(indent + 2)
            self.add(f"raise KeyError('{name}')  {mark}", indent + 2)
            self.junk(indent + 1)
            self.add(f"nested_{name}()", indent + 1)
        elif kind == "lambda":
            self.add("fn = lambda: (", indent + 1)
            self.add(f"    {{}}['{name}']  {mark}", indent + 1)
            self.add(")", indent + 1)
            self.add("fn()", indent + 1)
        elif kind == "comp":
            self.add("return [", indent + 1)
            self.add(f"    {{}}['{name}']  {mark}", indent + 1)
            self.add("    for i in range(3)", indent + 1)
            self.add("]", indent + 1)
        else:
            self.add("return (", indent + 1)
            self.add("    1 + ", indent + 1)
            self.add(f"    {{}}['{name}']  {mark}", indent + 1)
            self.add(")", indent + 1)
        return name

    def build(self, error=None):
        rng = self.rng
        functions, methods = [], []
        self.add("from collagraph import Component")
        self.add("def deco(fn): return fn")
        sections = ["fn"] * rng.randrange(3) + ["class"] + ["fn"] * rng.randrange(3)
        place = rng.randrange(len(sections) + 1)
        for idx, section in enumerate(sections):
            if error and idx == place:
                self.lines += error
            self.junk(0)
            if section == "fn":
                functions.append(self.function(0, False))
            else:
                self.add("class Comp(Component):")
                self.junk(1)
                self.add("base = 1", 1)
                for _ in range(rng.randrange(1, 4)):
                    methods.append(self.function(1, True))
                    self.junk(1)
        if error and place == len(sections):
            self.lines += error
        return functions, methods


SYNTAX_ERRORS = [
    ["x = = 3  # MARK-error"],
    ["return 3  # MARK-error"],
    ["def broken(:  # MARK-error", "    pass"],
    ["x = 'abc  # MARK-error"],
    ["if True:", "    break  # MARK-error"],
    ["class X:", "    def f(self):", "        nonlocal zz  # MARK-error"],
    ["def f():", "    x = 1", "      y = 2  # MARK-error"],
    ["x = 1", "f(a=1, 2)  # MARK-error"],
]
IMPORT_ERRORS = [
    ["{}['boom']  # MARK-error"],
    ["import no_such_module_at_all  # MARK-error"],
    ["class Broken:", "    x = 1", "    {}['boom']  # MARK-error"],
    ["value = [", "    1,", "    {}['boom'],  # MARK-error", "]"],
]


def case(rng, rep, size):
    r = rng.random()
    error = None
    if r < 0.2:
        error = rng.choice(SYNTAX_ERRORS)
    elif r < 0.4:
        error = rng.choice(IMPORT_ERRORS)
    script = Script(rng)
    functions, methods = script.build(error)
    tag = rng.choice(
        ["<script>", '<script lang="python">', "<script\n  lang='python'\n>", "<script >"]
    )
    start = rng.choice(["\n", "\n\n", "\n# comment\n", ""])
    blocks = [
        f"{tag}{start}" + "\n".join(script.lines) + rng.choice(["\n", "\n\n"]) + "</script>\n",
        template(rng),
    ]
    rng.shuffle(blocks)
    text = filler(rng) + blocks[0] + filler(rng) + blocks[1] + filler(rng)
    name = f"verif_c25_{next(serial)}"
    path = folder / f"{name}.cgx"
    with path.open("w", newline=rng.choice(["\n", "\n", "\r\n"])) as fh:
        fh.write(text)
    rep.note("file", text)
    where = {}
    lines = text.split("\n")
    for number, line in enumerate(lines, 1):
        if "MARK-" in line:
            where[line[line.index("MARK-") + 5 :].split()[0]] = number
        for word in ("def ", "class "):
            if line.strip().startswith(word) and not line.strip().startswith("def deco"):
                label = line.strip()[len(word) :].split("(")[0].split(":")[0]
                first = number
                while lines[first - 2].strip() == "@deco":
                    first -= 1
                where.setdefault(word.strip() + " " + label, first)

    method = rng.choice(["import", "string", "load"])
    try:
        if method == "import":
            importlib.invalidate_caches()
            space = vars(importlib.import_module(name))
        elif method == "load":
            _, space = cgx.load(path)
        else:
            _, space = cgx.load_from_string(text, path)
    except SyntaxError as exc:
        if error not in SYNTAX_ERRORS:
            raise
        rep.count("syntax errors")
        if exc.lineno != where["error"] or exc.filename != str(path):
            raise Violation(
                "syntax-error",
                f"{exc.filename}:{exc.lineno} instead of {path}:{where['error']}",
            )
        rep.signature(text)
        return
    except (KeyError, ImportError) as exc:
        if error not in IMPORT_ERRORS:
            raise
        rep.count("import errors")
        check_traceback(rep, exc, path, where["error"])
        rep.signature(text)
        return
    finally:
        path.unlink()
        sys.modules.pop(name, None)
    if error:
        raise Violation("no-error", f"{error} is accepted")

    comp = space["Comp"]
    for fn in functions:
        check_function(rep, space[fn], path, where, lambda f=fn: space[f]())
    start = text.count("\n", 0, text.index(blocks_script(blocks))) + 1
    end = start + blocks_script(blocks).rstrip().count("\n")
    check_render(rep, vars(comp)["render"].__code__, path, start, end)
    instance = types.SimpleNamespace()
    for fn in methods:
        check_function(
            rep, vars(comp)[fn], path, where, lambda f=fn: vars(comp)[f](instance)
        )
    rep.signature(text)


def blocks_script(blocks):
    return next(block for block in blocks if block.startswith("<script"))


def check_render(rep, code, path, start, end):
    """The code of the template isn't located within the script"""
    rep.count("render functions")
    if code.co_filename != str(path):
        raise Violation("filename", f"{code.co_filename} instead of {path}")
    lines = {code.co_firstlineno, *(line for _, _, line in code.co_lines())} - {None}
    wrong = sorted(line for line in lines if start <= line <= end)
    if wrong:
        raise Violation("render", f"lines {wrong} are part of script {start}-{end}")
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            check_render(rep, const, path, start, end)


def check_code(rep, code, path, where):
    rep.count("functions")
    if code.co_filename != str(path):
        raise Violation("filename", f"{code.co_filename} instead of {path}")
    line = where.get(f"def {code.co_name}")
    if line and code.co_firstlineno != line:
        raise Violation(
            "first-line", f"{code.co_firstlineno} instead of {line} of {code.co_name}"
        )
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            check_code(rep, const, path, where)


def check_function(rep, fn, path, where, call):
    check_code(rep, fn.__code__, path, where)
    try:
        call()
    except KeyError as exc:
        check_traceback(rep, exc, path, where[fn.__name__])
    else:
        raise Violation("no-exception", fn.__name__)


def check_traceback(rep, exc, path, line):
    rep.count("tracebacks")
    last = [f for f in traceback.extract_tb(exc.__traceback__) if f.filename == str(path)]
    if not last or last[-1].lineno != line:
        found = last and last[-1].lineno
        raise Violation("traceback", f"line {found} instead of {line} of {path.name}")
