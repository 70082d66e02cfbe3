import importlib
import itertools
import os
from pathlib import Path
import shutil
import sys
import tempfile

import collagraph as cg
from collagraph.cgx import cgx

from lib import mon, posix
from lib.harness import Violation

QUICK, THOROUGH = 500, 10000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a set of directories on the import path with (nested, also namespace) "
    "packages that contain CGX files and Python modules, partly with the same names, "
    "that import each other (absolute and relative). Modules are imported in random "
    "order and in several ways, again and again, files are changed and reloaded, and "
    "malformed files are repaired afterwards. Each import is compared with what the "
    "layout of the directories prescribes. Distinct: by the layout and the imports."
)
MIN = {
    "imports": 1000,
    "components rendered": 500,
    "rejected": 100,
    "python modules": 100,
    "reloads": 50,
    "repaired": 50,
}
ASSUMPTIONS = ["no circular imports between CGX files"]
serial = itertools.count(1)

FAULTS = {
    "two roots": ("<a/>{nl}<b/>", "class Comp(Component):\n    pass"),
    "no root": ("{nl}", "class Comp(Component):\n    pass"),
    "only text": ("some text", "class Comp(Component):\n    pass"),
    "only comment": ("<!-- <a/> -->", "class Comp(Component):\n    pass"),
    "root and template": (
        "<a/><template><b/></template>",
        "class Comp(Component):\n    pass",
    ),
    "no component": ("<a/>", "class Comp:\n    pass"),
    "last is no component": (
        "<a/>",
        "class Comp(Component):\n    pass\n\n\nclass Last:\n    pass",
    ),
    "last is exception": (
        "<a/>",
        "class Comp(Component):\n    pass\n\n\nclass Oops(ValueError):\n    pass",
    ),
    "lower base": ("<a/>", "class Comp(dict):\n    pass"),
}


class Mod:
    def __init__(self, name, folder, kind, rng, uses):
        self.name, self.folder, self.kind = name, folder, kind
        self.rng = rng
        self.uses = uses
        self.version = 0
        self.fault = None
        # Whether there is a file already
        self.exists = True
        self.extra = rng.choice(["", "Helper", "Two"])
        self.cls = rng.choice(["Comp", "Widget", "X"])

    @property
    def path(self):
        return self.folder / f"{self.name.rpartition('.')[2]}.{self.kind}"

    def write(self):
        self.version += 1
        package = self.name.rpartition(".")[0]
        lines = ["from collagraph import Component"]
        for idx, other in enumerate(self.uses):
            o_package, _, o_name = other.name.rpartition(".")
            form = "absolute"
            if package and o_package == package:
                form = self.rng.choice(["absolute", "relative", "relative module"])
            elif package and o_package == package.rpartition(".")[0] and o_package:
                form = self.rng.choice(["absolute", "parent"])
            lines.append(
                {
                    "absolute": f"from {other.name} import VERSION as OTHER_{idx}",
                    "relative": f"from .{o_name} import VERSION as OTHER_{idx}",
                    "relative module": f"from . import {o_name} as other_{idx}\n"
                    f"OTHER_{idx} = other_{idx}.VERSION",
                    "parent": f"from ..{o_name} import VERSION as OTHER_{idx}",
                }[form]
            )
        lines += [
            f"VERSION = ({self.name!r}, {str(self.path)!r}, {self.version})",
            "TOP = (__name__, __file__, __package__)",
            "COUNTER = [0]",
            "",
            "",
            "def names():",
            "    COUNTER[0] += 1",
            "    return __name__, __file__, __package__",
            "",
            "",
        ]
        if self.kind == "py":
            self.path.write_text("\n".join(lines).replace("from collagraph", "# ") + "\n")
            return
        classes = []
        if self.extra == "Helper":
            classes.append("class Helper:\n    pass")
        if self.extra == "Two":
            classes.append("class Helper(Component):\n    pass")
        classes.append(f"class {self.cls}(Component):\n    version = VERSION")
        template = '<root :version="version" :top="TOP"/>'
        script = "\n\n\n".join(["\n".join(lines), *classes]) + "\n\nAFTER = VERSION"
        if self.fault:
            template, body = FAULTS[self.fault]
            template = template.format(nl="\n")
            script = "\n".join(lines) + body
        parts = [
            f"<template>\n{template}\n</template>",
            f"<script>\n{script}\n</script>",
        ]
        self.rng.shuffle(parts)
        self.path.write_text("\n\n".join(parts) + "\n")


def layout(rng, base, prefix):
    """Directories, packages and modules"""
    roots = [base / f"root{i}" for i in range(rng.choice([1, 2, 3]))]
    for root in roots:
        root.mkdir()
    mods = {}
    order = []
    packages = [("", root) for root in roots]
    for i in range(rng.randrange(4)):
        parent, folder = rng.choice(packages)
        short = f"{prefix}pkg{i}"
        path = folder / short
        path.mkdir()
        if rng.random() < 0.8:
            (path / "__init__.py").write_text("")
        packages.append((f"{parent}.{short}".strip("."), path))
    for i in range(rng.randrange(3, 9)):
        package, folder = rng.choice(packages)
        short = rng.choice([f"{prefix}mod{i}", f"{prefix}same"])
        name = f"{package}.{short}".strip(".")
        kind = rng.choice(["cgx", "cgx", "cgx", "py"])
        uses = rng.sample(order, min(len(order), rng.choice([0, 0, 1, 2])))
        if any(other.name == name for other in order):
            # No circles
            uses = []
        mod = Mod(name, folder, kind, rng, uses)
        if (name, folder, kind) in mods:
            continue
        if kind == "cgx" and rng.random() < 0.25:
            mod.fault = rng.choice(sorted(FAULTS))
        mods[name, folder, kind] = mod
        order.append(mod)
    for i in range(rng.choice([0, 1, 2])):
        package, folder = rng.choice(packages)
        name = f"{package}.{prefix}late{i}".strip(".")
        written = [mod for mod in order if mod.exists]
        uses = rng.sample(written, min(len(written), rng.choice([0, 1])))
        mod = Mod(name, folder, "cgx", rng, uses)
        mod.exists = False
        order.append(mod)
    for mod in order:
        if mod.exists:
            mod.write()
    return roots, order


def find(mods, roots, name):
    """The file that should be used for the module"""
    found = [mod for mod in mods if mod.name == name]
    # Python modules take precedence, then the order of the path
    return min(found, key=lambda m: (m.kind != "py", order_of(roots, m)))


def order_of(roots, mod):
    return next(i for i, root in enumerate(roots) if root in mod.path.parents)


def case(rng, rep, size):
    prefix = f"v26_{next(serial)}_"
    base = Path(tempfile.mkdtemp(prefix="verif-c26-"))
    saved, cwd = list(sys.path), os.getcwd()
    try:
        # Writing of bytecode depends on modification times
        sys.dont_write_bytecode = True
        roots, mods = layout(rng, base, prefix)
        where = rng.choice(["front", "back"])
        names = [str(root) for root in roots]
        form = rng.choice(["absolute", "absolute", "empty", "relative"])
        if form == "empty":
            # Stands for the current directory
            idx = rng.randrange(len(roots))
            names[idx] = ""
            os.chdir(roots[idx])
        elif form == "relative":
            idx = rng.randrange(len(roots))
            names[idx] = roots[idx].name
            os.chdir(base)
        if rng.random() < 0.3:
            names.insert(rng.randrange(len(names) + 1), str(base / "nowhere"))
        if rng.random() < 0.3:
            names.append(rng.choice(names))
        rep.count(f"paths: {form}")
        sys.path[:] = names + saved if where == "front" else saved + names
        run(rng, rep, size, roots, mods)
        rep.signature(
            [(m.name, m.kind, str(m.path.relative_to(base)), m.fault) for m in mods]
        )
    finally:
        sys.path[:] = saved
        os.chdir(cwd)
        shutil.rmtree(base)
        for name in [n for n in sys.modules if n.startswith(prefix) or prefix in n]:
            del sys.modules[name]
        importlib.invalidate_caches()


def faulty(mods, roots, mod):
    """Whether the import of the module fails, possibly due to other modules. Only
    takes modules into account that haven't been imported"""
    if mod.name in sys.modules:
        return False
    if mod.fault:
        return True
    return any(faulty(mods, roots, find(mods, roots, m.name)) for m in mod.uses)


def run(rng, rep, size, roots, mods):
    names = sorted({mod.name for mod in mods})
    seen = {}
    # The version of the file at the time that the module was executed
    versions = {}
    for step in range(int(6 + 14 * size)):
        importlib.invalidate_caches()
        name = rng.choice(names)
        perform(rng, rep, roots, mods, name, seen, versions)
        record(roots, mods, names, versions)


def record(roots, mods, names, versions):
    """Modules might be imported by other ones, also by ones that are rejected"""
    for other in names:
        if other not in sys.modules:
            versions.pop(other, None)
        elif other not in versions:
            versions[other] = find(mods, roots, other).version


def perform(rng, rep, roots, mods, name, seen, versions):
    names = sorted({mod.name for mod in mods})
    mod = find(mods, roots, name)
    bad = faulty(mods, roots, mod)
    rep.note("import", name, str(mod.path), mod.fault, bad)
    if not mod.exists:
        if rng.random() < 0.4:
            mod.exists = True
            mod.write()
            rep.count("files created later")
        else:
            absent(rep, name)
        return
    action = rng.choice(["import", "import", "from", "change", "reload", "repair"])
    if action == "change":
        # Of no influence on modules that have been imported already
        if mod.fault is None:
            mod.write()
        return
    if action == "repair":
        faults = [m for m in mods if m.fault]
        if faults:
            mod = rng.choice(faults)
            mod.fault = None
            mod.write()
            rep.count("repaired")
        return
    if action == "reload" and name in sys.modules:
        if mod.fault or any(
            faulty(mods, roots, find(mods, roots, m.name)) for m in mod.uses
        ):
            return
        old = sys.modules[name]
        if importlib.reload(old) is not old:
            raise Violation("reload", f"another module for {name}")
        rep.count("reloads")
        versions[name] = mod.version
        check_module(rep, old, mod, versions)
        return
    try:
        if action == "from":
            scope = {}
            package, _, short = name.rpartition(".")
            text = f"from {package} import {short}" if package else f"import {name}"
            exec(f"{text} as module", scope)
            module = scope["module"]
        else:
            module = importlib.import_module(name)
    except ValueError as exc:
        if not bad:
            raise Violation("rejected", f"{name}: {exc}")
        rep.count("rejected")
        if name in sys.modules:
            raise Violation("left-behind", f"{name} in sys.modules after {exc}")
        return
    rep.count("imports")
    if bad:
        raise Violation("accepted", f"{name}: {mod.fault}")
    if name in seen and seen[name] is not module:
        raise Violation("identity", f"another module for {name}")
    seen[name] = module
    record(roots, mods, names, versions)
    check_module(rep, module, mod, versions)


def absent(rep, name):
    try:
        importlib.import_module(name)
    except ModuleNotFoundError as exc:
        rep.count("modules not found")
        if exc.name != name:
            raise Violation("not-found", f"{exc.name!r} instead of {name!r}")
    else:
        raise Violation("accepted", f"{name}, without any file")


def check_module(rep, module, mod, versions):
    if sys.modules.get(mod.name) is not module:
        raise Violation("sys-modules", mod.name)
    rep.count("modules checked")
    expected = (mod.name, str(mod.path), mod.name.rpartition(".")[0])
    # Files might be relative to the current directory
    def resolved(names):
        return (names[0], os.path.abspath(names[1]), names[2])

    found = resolved((module.__name__, module.__file__, module.__package__))
    if found != expected:
        raise Violation("dunders", f"{found} instead of {expected}")
    if os.path.abspath(module.__spec__.origin) != str(mod.path):
        raise Violation("origin", module.__spec__.origin)
    if resolved(module.names()) != expected:
        raise Violation("names-in-functions", f"{module.names()} instead of {expected}")
    if resolved(module.TOP) != expected:
        raise Violation("names-in-module", f"{module.TOP} instead of {expected}")
    version = (mod.name, str(mod.path), versions[mod.name])
    if module.VERSION != version:
        raise Violation("version", f"{module.VERSION} instead of {version}")
    # State that is shared by the functions and the module
    count = module.COUNTER[0]
    module.names()
    if module.COUNTER[0] != count + 1:
        raise Violation("state", "functions don't share the names of the module")
    if mod.kind == "py":
        rep.count("python modules")
        if hasattr(module, "Comp"):
            raise Violation("precedence", f"{mod.name} is no Python module")
        return
    cls = getattr(module, mod.cls)
    if not (isinstance(cls, type) and issubclass(cls, cg.Component)):
        raise Violation("component", f"{cls} is not a component")
    if cls.__module__ != mod.name:
        raise Violation("class-module", f"{cls.__module__} instead of {mod.name}")
    if module.AFTER != version:
        raise Violation("after", "code after the component isn't executed")
    if (mod.extra != "") != hasattr(module, "Helper"):
        raise Violation("helper", "names of the script are missing")
    if mod.extra and "render" in vars(module.Helper):
        raise Violation("helper", "the template belongs to another class")
    renderer = mon.MonRenderer()
    container = renderer.container()
    cg.Collagraph(renderer=renderer).render(cg.h(cls, {}), container)
    attrs = dict(container.children[0].attrs)
    attrs["top"] = resolved(attrs["top"])
    if attrs != {"version": version, "top": expected}:
        raise Violation("render", f"{attrs} instead of {version}, {expected}")
    rep.count("components rendered")


WORDS = """
<template><a :x="WORD">é漢</a></template>
<script>
from collagraph import Component
WORD = "ü ☃"
class Words(Component):
    pass
</script>
"""
PROGRAM = """
import sys
sys.path.insert(0, ".")
import collagraph as cg
import words
container = {}
gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
gui.render(cg.h(words.Words, {}), container)
(a,) = container["children"]
print(ascii([a["children"][0]["text"], a["attrs"]["x"]]))
"""


def directed(rep):
    def string(fault):
        def run():
            template, body = FAULTS[fault]
            text = (
                f"<template>{template.format(nl='')}</template>\n<script>\n"
                f"from collagraph import Component\n{body}\n</script>"
            )
            try:
                cgx.load_from_string(text)
            except ValueError:
                rep.count("rejected")
            else:
                raise Violation("accepted", fault)

        return run

    def locale():
        folder = Path(tempfile.mkdtemp(prefix="verif-c26-"))
        try:
            (folder / "words.cgx").write_text(WORDS, encoding="utf-8")
            posix.run(folder, PROGRAM, ascii(["é漢", "ü ☃"]))
            rep.count("imports")
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    # Like Python modules, the encoding doesn't depend on the locale
    yield "locale", locale
    for fault in FAULTS:
        yield f"string-{fault.replace(' ', '-')}", string(fault)
