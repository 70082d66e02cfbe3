"""PyInstaller itself isn't installed: the part of it that the hook uses is replaced."""
import ast
import importlib.util
import os
from pathlib import Path
import shutil
import sys
import tempfile
import types

from lib import posix
from lib.harness import Violation

QUICK, THOROUGH = 500, 9000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case writes a random tree of packages with modules, CGX files and data files. "
    "The scripts of the CGX files import other modules by all forms of the statement "
    "(absolute and relative, with aliases, within functions, classes, branches and "
    "try blocks). The hook runs for random modules, packages and scripts that use "
    "collagraph. Next to the generated list of imports, all CGX files are really "
    "imported by means of collagraph, with a recorder in the import system: whatever is "
    "imported on behalf of a CGX file has to be among the hidden imports. Distinct: by "
    "the tree and the scripts."
)
MIN = {
    "hook calls": 300,
    "hidden imports compared": 1200,
    "imports observed": 600,
    "relative imports": 250,
    "data files": 150,
}
ASSUMPTIONS = [
    "PyInstaller isn't installed: its analysis graph and collect_data_files are "
    "replaced by stand-ins according to its documentation",
    "imports by other means than import statements aren't judged",
]
number = 0


class Data:
    """collect_data_files of PyInstaller"""

    def __init__(self):
        self.calls = []
        self.packages = {}

    def collect_data_files(
        self,
        package,
        include_py_files=False,
        subdir=None,
        excludes=None,
        includes=None,
    ):
        folder = self.packages.get(package)
        if folder is None:
            # Not a package
            return []
        root = folder.parent
        if subdir:
            folder = folder / subdir
        result = []
        includes = ["**/*"] if includes is None else includes
        found = {path for pattern in includes for path in folder.glob(pattern)}
        found -= {path for pattern in excludes or [] for path in folder.glob(pattern)}
        for path in sorted(found):
            if path.is_dir() or (path.suffix in (".py", ".pyc") and not include_py_files):
                continue
            result.append((str(path), str(path.parent.relative_to(root))))
        return result


data = Data()


def setup():
    hooks = types.ModuleType("PyInstaller.utils.hooks")
    hooks.collect_data_files = lambda *args, **kwargs: data.collect_data_files(
        *args, **kwargs
    )
    for name in ("PyInstaller", "PyInstaller.utils"):
        sys.modules[name] = types.ModuleType(name)
        sys.modules[name].__path__ = []
    sys.modules["PyInstaller.utils.hooks"] = hooks


def load_hook():
    """The way PyInstaller finds the hook"""
    from collagraph import __pyinstaller

    result = []
    for folder in __pyinstaller.get_hook_dirs():
        for path in Path(folder).glob("hook-collagraph.py"):
            spec = importlib.util.spec_from_file_location("hook_collagraph", path)
            module = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)
            result.append(module)
    if len(result) != 1:
        raise Violation("hook", f"{len(result)} hooks found")
    return result[0]


class HookApi:
    def __init__(self, uses):
        self.imports = []
        self.datas = []
        graph = types.SimpleNamespace(get_code_using=self.get_code_using)
        self.analysis = types.SimpleNamespace(graph=graph)
        self.graph = graph
        self.uses = uses

    def get_code_using(self, name):
        if name != "collagraph":
            raise Violation("uses", f"code using {name} instead of collagraph")
        return dict(self.uses)

    def add_imports(self, *names):
        for name in names:
            if not isinstance(name, str):
                raise Violation("import-type", f"{name!r}")
        self.imports.extend(names)

    def add_datas(self, datas):
        self.datas.extend(datas)


# -- tree ------------------------------------------------------------------------------
class Package:
    def __init__(self, name, folder, regular):
        self.name = name
        self.folder = folder
        self.regular = regular
        self.modules = []
        self.components = []
        self.subs = []

    def everything(self):
        yield self
        for sub in self.subs:
            yield from sub.everything()


class Tree:
    def __init__(self, rng, rep, folder, prefix):
        self.rng, self.rep, self.prefix = rng, rep, prefix
        self.folder = folder
        self.fresh = 0
        # Modules that are always there
        self.packages = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.packages.append(self.make_package("", folder, rng.randrange(3), True))
        self.outside = self.name("outside")
        self.plain = [self.outside]
        self.write_module(folder / f"{self.outside}.py")
        for package in self.every():
            for module in package.modules:
                self.plain.append(f"{package.name}.{module}")
        # Expected hidden imports of each component
        self.expected = {}
        for package in self.every():
            for component in package.components:
                path = package.folder / f"{component}.cgx"
                script, names = self.script(package)
                path.write_text(self.around(script), encoding="utf-8")
                self.expected[path] = names

    def name(self, kind):
        self.fresh += 1
        return f"{self.prefix}{kind}{self.fresh}"

    def every(self):
        for package in self.packages:
            yield from package.everything()

    def make_package(self, parent, folder, depth, regular):
        rng = self.rng
        name = self.name("pkg")
        folder = folder / name
        folder.mkdir()
        package = Package(f"{parent}.{name}".strip("."), folder, regular)
        if regular:
            (folder / "__init__.py").write_text("")
        for _ in range(rng.randrange(1, 4)):
            package.modules.append(self.name("mod"))
            self.write_module(folder / f"{package.modules[-1]}.py")
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            package.components.append(self.name("Comp"))
        for other in rng.sample([".txt", ".cgx.bak", ".json", ".CGX2"], 2):
            (folder / f"{self.name('data')}{other}").write_text("import nothing")
        for _ in range(rng.randrange(3) if depth else 0):
            package.subs.append(
                self.make_package(
                    package.name, folder, depth - 1, rng.random() < 0.75
                )
            )
        return package

    def write_module(self, path):
        path.write_text("a = b = c = d = 1\n")

    def around(self, script):
        """Order of the parts of the file, and layout"""
        rng = self.rng
        template = (
            '<template>\n  <box import="x">\n    import z from y\n  </box>\n</template>\n'
        )
        parts = [template, f"<script>\n{script}\n</script>\n"]
        if rng.random() < 0.5:
            parts.reverse()
        return rng.choice(["", "\n", "\n\n\n"]).join(parts)

    # -- scripts -----------------------------------------------------------------------
    def script(self, package):
        """Script with imports: names that have to be collected"""
        rng = self.rng
        must, lines = set(), []
        component = self.name("Component")
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            statement, names = self.statement(package)
            must.update(names)
            lines.extend(self.wrap(statement))
        lines.append("import collagraph as cg")
        lines.append("")
        lines.append(f"class {component}(cg.Component):")
        if rng.random() < 0.4:
            statement, names = self.statement(package)
            must.update(names)
            lines.append(f"    {statement}")
        if rng.random() < 0.4:
            statement, names = self.statement(package)
            must.update(names)
            lines += ["    def method(self):", f"        {statement}"]
            if rng.random() < 0.5:
                # Executed as well, for the observation
                lines.append("    method(None)")
        lines.append("    pass")
        return "\n".join(lines), must

    def wrap(self, statement):
        """At any nesting"""
        kind = self.rng.randrange(9)
        if kind == 0:
            return ["try:", f"    {statement}", "except ImportError:", "    pass"]
        if kind == 1:
            return [
                "try:",
                "    import does_not_exist_at_all",
                "except ImportError:",
                f"    {statement}",
            ]
        if kind == 2:
            return ["if True:", f"    {statement}"]
        if kind == 3:
            return ["if False:", "    pass", "else:", f"    {statement}"]
        if kind == 4:
            name = self.name("func")
            return [f"def {name}():", f"    {statement}", f"{name}()"]
        if kind == 5:
            name = self.name("outer")
            return [
                f"def {name}():",
                "    class Inner:",
                f"        {statement}",
                f"{name}()",
            ]
        if kind == 6:
            return ["for _ in range(1):", "    with open('/dev/null'):"] + [
                f"        {statement}"
            ]
        if kind == 7:
            name = self.name("coro")
            return [f"async def {name}():", f"    {statement}"]
        return [statement]

    def statement(self, package):
        rng = self.rng
        alias = rng.choice(["", f" as {self.name('x')}"])
        kind = rng.randrange(8)
        target = rng.choice(self.plain)
        parent, _, last = target.rpartition(".")
        if kind == 0:
            return f"import {target}{alias}", {target}
        if kind == 1:
            second = rng.choice(self.plain)
            return f"import {target}{alias}, {second}", {target, second}
        if kind == 2 and parent:
            return f"from {parent} import {last}{alias}", {target}
        if kind in (2, 3):
            names = rng.sample("abcd", rng.randrange(1, 4))
            text = ", ".join(names)
            if rng.random() < 0.3:
                text = f"({text},)"
            return f"from {target} import {text}", {target}
        # Relative to the package, or a parent of it
        parts = package.name.split(".")
        level = rng.randrange(1, len(parts) + 1)
        base = ".".join(parts[: len(parts) - level + 1])
        modules = [name for name in self.plain if name.startswith(f"{base}.")]
        if not modules:
            return f"import {target}{alias}", {target}
        self.rep.count("relative imports")
        target = rng.choice(modules)
        below = target[len(base) + 1 :]
        parent, _, last = below.rpartition(".")
        dots = "." * level
        if kind in (4, 5):
            return f"from {dots}{parent} import {last}{alias}", {target}
        return f"from {dots}{below} import {rng.choice('abcd')}{alias}", {target}


def code(path):
    return compile("import collagraph", str(path), "exec")


def uses_of(rng, tree):
    """The modules, packages and scripts that import collagraph"""
    uses, roots = {}, []
    data.packages = {p.name: p.folder for p in tree.every() if p.regular}
    if rng.random() < 0.25:
        # A script next to the packages
        path = tree.folder / "main.py"
        path.write_text("import collagraph")
        uses[rng.choice([str(path), "main", "__main__"])] = code(path)
        roots.append(tree.folder)
    for package in tree.every():
        kind = rng.randrange(4)
        if kind == 0 and package.regular:
            uses[package.name] = code(package.folder / "__init__.py")
            roots.append(package.folder)
        elif kind == 1:
            module = rng.choice(package.modules)
            uses[f"{package.name}.{module}"] = code(package.folder / f"{module}.py")
            roots.append(package.folder)
    items = list(uses.items())
    rng.shuffle(items)
    return dict(items), roots


def case(rng, rep, size):
    global number
    number += 1
    folder = Path(tempfile.mkdtemp(prefix="verif-t41-"))
    try:
        # No name may occur twice in this process
        one(rng, rep, folder, f"v{number}")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def one(rng, rep, folder, prefix):
    tree = Tree(rng, rep, folder, prefix)
    uses, roots = uses_of(rng, tree)
    hook = load_hook()
    api = HookApi(uses)
    rep.note({str(p): p.read_text() for p in tree.expected}, list(uses))
    rep.signature(
        (prefix and sorted(uses), sorted(p.read_text() for p in tree.expected))
    )
    hook.hook(api)
    rep.count("hook calls")
    covered = [
        path for path in tree.expected if any(root in path.parents for root in roots)
    ]
    expected = {name for path in covered for name in tree.expected[path]}
    if covered:
        expected.add("collagraph")
    actual = set(api.imports)
    rep.count("hidden imports compared", len(expected))
    if expected - actual:
        raise Violation("missing", f"{sorted(expected - actual)}")
    allowed = tolerated(tree, covered)
    if actual - allowed:
        raise Violation("too-many", f"{sorted(actual - allowed)}")
    judge_data(rep, tree, uses, api)
    observe(rep, tree, covered, actual)


def tolerated(tree, covered):
    """All the names that statements mention: attributes might be modules, too"""
    result = {"collagraph"}
    for path in covered:
        script = path.read_text().partition("<script>")[2].partition("</script>")[0]
        package = ".".join(path.parent.relative_to(tree.folder).parts)
        for node in ast.walk(ast.parse(script)):
            if isinstance(node, ast.Import):
                result.update(alias.name for alias in node.names)
            elif isinstance(node, ast.ImportFrom):
                base = package.split(".")
                base = base[: len(base) - node.level + 1] if node.level else []
                module = ".".join([*base, *([node.module] if node.module else [])])
                result.add(module)
                result.update(f"{module}.{alias.name}" for alias in node.names)
    parents = set()
    for name in result:
        while "." in name:
            name = name.rpartition(".")[0]
            parents.add(name)
    return result | parents


def judge_data(rep, tree, uses, api):
    expected = set()
    for package in uses:
        folder = data.packages.get(package)
        if folder is not None:
            for path in tree.expected:
                if folder in path.parents:
                    target = path.parent.relative_to(folder.parent)
                    expected.add((str(path), str(target)))
    actual = {tuple(map(str, item)) for item in api.datas}
    rep.count("data files", len(expected))
    if expected - actual:
        raise Violation("missing-data", f"{sorted(expected - actual)}")
    if any(not path.endswith(".cgx") for path, _ in actual):
        raise Violation("other-data", f"{sorted(actual - expected)}")


def observe(rep, tree, covered, actual):
    """Import the components for real: all imports on behalf of them are expected"""
    sys.path.insert(0, str(tree.folder))
    importlib.invalidate_caches()
    folder = str(tree.folder) + os.sep
    components = {str(path) for path in covered}
    seen = set()

    class Recorder:
        def find_spec(self, name, path=None, target=None):
            # Whoever is importing at the moment
            frame = sys._getframe(1)
            while frame and "importlib" in frame.f_code.co_filename:
                frame = frame.f_back
            if frame and frame.f_code.co_filename in components:
                seen.add((name, frame.f_code.co_filename))

    before = set(sys.modules)
    sys.meta_path.insert(0, Recorder())
    try:
        for path in covered:
            parts = path.relative_to(tree.folder).with_suffix("").parts
            # Modules that are imported already aren't searched for once more
            for name in set(sys.modules) - before:
                if name.startswith(tree.prefix):
                    del sys.modules[name]
            importlib.import_module(".".join(parts))
    finally:
        del sys.meta_path[0]
        sys.path.remove(str(tree.folder))
        for name in set(sys.modules) - before:
            origin = getattr(sys.modules[name], "__file__", None) or ""
            if name.startswith(tree.prefix) or origin.startswith(folder):
                del sys.modules[name]
    for name, path in seen:
        if not name.startswith(tree.prefix):
            continue
        rep.count("imports observed")
        # Parents of modules are implied
        if not any(f"{other}.".startswith(f"{name}.") for other in actual):
            raise Violation("unexpected-import", f"{name} by {path}")


WORDS = """
<template><a :x="WORD">é漢</a></template>
<script>
import words.été
from collagraph import Component
WORD = "ü ☃"
class Words(Component):
    pass
</script>
"""
PROGRAM = """
import importlib.util
from pathlib import Path
import sys
import types
for name in ("PyInstaller", "PyInstaller.utils", "PyInstaller.utils.hooks"):
    sys.modules[name] = types.ModuleType(name)
sys.modules["PyInstaller.utils.hooks"].collect_data_files = lambda *a, **kw: []
from collagraph import __pyinstaller

(folder,) = __pyinstaller.get_hook_dirs()
path = Path(folder) / "hook-collagraph.py"
spec = importlib.util.spec_from_file_location("hook_collagraph", path)
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)


class Graph:
    def get_code_using(self, name):
        return {"pkg": compile("", str(Path("pkg", "__init__.py").resolve()), "exec")}


class Api:
    analysis = types.SimpleNamespace(graph=Graph())

    def add_imports(self, *names):
        print(ascii(sorted(set(names) - {"collagraph", "collagraph.Component"})))

    def add_datas(self, datas):
        pass


module.hook(Api())
"""


def directed(rep):
    def locale():
        folder = Path(tempfile.mkdtemp(prefix="verif-t41-"))
        try:
            (folder / "pkg").mkdir()
            (folder / "pkg" / "words.cgx").write_text(WORDS, encoding="utf-8")
            posix.run(folder, PROGRAM, ascii(["words.été"]))
            rep.count("hook calls")
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    # Like Python modules, the encoding doesn't depend on the locale
    yield "locale", locale
