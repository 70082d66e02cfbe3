"""The command line runs in forked processes. Those get the real toolkits (with the
offscreen platform of Qt); for pygfx, canvas and GPU are replaced."""
import asyncio
import importlib.util
import io
import json
import os
from pathlib import Path
import runpy
import select
import shutil
import signal
import sys
import tempfile
import threading
import traceback
import types

from lib import posix
from lib.harness import Violation

QUICK, THOROUGH = 160, 2500
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case runs `python -m collagraph` once in a process of its own, with a random "
    "component file (or something else in its place), random state (inline, in a file, "
    "invalid, or none), a random renderer (any available, unknown, or one of which the "
    "toolkit can't be imported) and arguments in random order and form. The component "
    "records its creation, its props and what's rendered; then props or state are "
    "changed while the application runs, and the rendered result is compared again. "
    "Distinct: by the arguments and the contents of the files."
)
MIN = {
    "rejected": 40,
    "rendered": 50,
    "updates compared": 80,
    "renderer dict": 15,
    "renderer pyside": 15,
    "renderer pygfx": 10,
}
ASSUMPTIONS = [
    "canvas, GPU renderer and main loop of wgpu are replaced for the pygfx renderer",
    "component files are valid: errors within them aren't judged",
]
LIMIT_S = 30

SCRIPT = """
<template>
  <{root} {title_attr}="shown_title()">
    <{child} v-for="item in shown_items()" {item_attr}="item" />
  </{root}>
</template>

<script>
import collagraph as cg
import verif_probe


class {name}(cg.Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["suffix"] = ""
        verif_probe.created(self)

    def shown_title(self):
        return verif_probe.title(self.props) + self.state["suffix"]

    def shown_items(self):
        return verif_probe.items(self.props)

    def mounted(self):
        verif_probe.mounted(self)
</script>
"""
TOOLKIT = {
    "dict": dict(root="box", child="item", title_attr=":title", item_attr=":text"),
    "pyside": dict(
        root="widget", child="label", title_attr=":object_name", item_attr=":text"
    ),
    "pygfx": dict(root="group", child="group", title_attr=":name", item_attr=":name"),
}
PACKAGE = {"pyside": "PySide6", "pygfx": "pygfx"}


def setup():
    # Imported once, such that the forked processes don't have to
    import pygfx  # noqa: F401
    from PySide6 import QtWidgets  # noqa: F401
    import wgpu.gui.auto  # noqa: F401

    if importlib.util.find_spec("js"):
        raise RuntimeError("js isn't expected to be available")
    if any(name.partition(".")[0] == "collagraph" for name in sys.modules):
        raise RuntimeError("the code under test should be imported by each process")


# -- generator -------------------------------------------------------------------------
def text(rng):
    return "".join(rng.choice("abc xyz012éß漢-_/'{}[]") for _ in range(rng.randrange(8)))


def value(rng, depth=2):
    kind = rng.randrange(9 if depth else 7)
    if kind == 0:
        return rng.randrange(-5, 100)
    if kind == 1:
        return rng.random() * 10 ** rng.randrange(-8, 8)
    if kind == 2:
        return rng.choice([True, False])
    if kind == 3:
        return None
    if kind < 7:
        return text(rng)
    n = rng.randrange(4)
    if kind == 7:
        return [value(rng, depth - 1) for _ in range(n)]
    return {text(rng): value(rng, depth - 1) for _ in range(n)}


def make_state(rng):
    state = {}
    if rng.random() < 0.9:
        state["title"] = f"T{text(rng)}".strip()
    if rng.random() < 0.8:
        state["items"] = [f"n{rng.randrange(50)}" for _ in range(rng.randrange(5))]
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        state[rng.choice(["name", "value", "state", text(rng)])] = value(rng)
    if rng.random() < 0.15:
        # Longer than the name of a file can be
        state["long"] = "/".join("x" * 200 for _ in range(rng.choice([1, 2, 30])))
    return state


def dump(rng, state):
    kwargs = {"ensure_ascii": rng.random() < 0.5}
    if rng.random() < 0.3:
        kwargs["indent"] = rng.choice([0, 1, 4])
    elif rng.random() < 0.5:
        kwargs["separators"] = (",", ":")
    return json.dumps(state, **kwargs)


BAD_STATE = [
    "",
    "{",
    "{'a': 1}",
    '{"a": 1,}',
    '{"a": 1} x',
    "nothing",
    "a=1",
    '{"a": 1}{"b": 2}',
    "state.json",
    '{"a": undefined}',
]
NO_OBJECT = ["[]", "[1, 2]", "3", '"text"', "true", '[["a", 1]]', "1.5"]


def state_argument(rng, folder):
    """Argument, and the state (or the kind of error)"""
    kind = rng.choice(["none", "inline", "inline", "inline", "file", "file", "file"])
    if rng.random() < 0.22:
        kind = rng.choice(["bad", "bad file", "no object", "no object file", "folder"])
    if kind == "none":
        return None, {}, kind
    if kind in ("inline", "file"):
        state = make_state(rng)
        content = dump(rng, state)
    elif kind in ("bad", "bad file"):
        state, content = None, rng.choice(BAD_STATE)
        if rng.random() < 0.4:
            # Valid contents, except for the last character
            content = dump(rng, make_state(rng))[:-1]
    elif kind == "folder":
        name = rng.choice(["folder", "state.json"])
        (folder / name).mkdir()
        return name, None, kind
    else:
        state, content = None, rng.choice(NO_OBJECT)
    if "file" not in kind:
        return content, state, kind
    path = folder / rng.choice(["state.json", "state", "my state.txt", "é.json"])
    path.write_text(content, encoding="utf-8")
    return place(rng, folder, path), state, kind


def place(rng, folder, path):
    """Any way to tell where the file is"""
    form = rng.randrange(5)
    if form == 0:
        return str(path)
    if form == 4:
        # The name of what's linked to has no meaning
        target = folder / rng.choice(["blob-1", "content.data", "other.py"])
        if not target.exists():
            path.rename(target)
            path.symlink_to(target)
    if form == 1:
        link = folder / f"link{path.suffix}"
        if not link.exists():
            link.symlink_to(path)
            return link.name
    if form == 2:
        return "./" + path.relative_to(folder).as_posix()
    return path.relative_to(folder).as_posix()


SUFFIXES = [".py", ".cgx.txt", ".CGX", ".cg", ".vue", ".xcgx", ".cgxx", ".cgx_", "cgx"]


def component_argument(rng, folder, renderer):
    name = rng.choice(["Counter", "App", "Component1"])
    source = SCRIPT.format(name=name, **TOOLKIT.get(renderer, TOOLKIT["dict"]))
    sub = folder / rng.choice(["", "", "sub", "my components", "a/b.cgx"])
    sub.mkdir(parents=True, exist_ok=True)
    kind = "valid"
    if rng.random() < 0.22:
        kind = rng.choice(
            ["missing", "folder", "suffix", "suffix", "no suffix", "link"]
        )
    stem = rng.choice(["counter", "my app", "x.y", "é", "counter.py"])
    path = sub / f"{stem}.cgx"
    if kind == "valid":
        path.write_text(source, encoding="utf-8")
        return place(rng, folder, path), kind
    if kind == "missing":
        if rng.random() < 0.5:
            # Similar files
            (sub / f"{stem}.py").write_text(source)
    elif kind == "folder":
        path.mkdir()
    elif kind == "suffix":
        path = sub / f"{stem}{rng.choice(SUFFIXES)}"
        path.write_text(source)
    elif kind == "link":
        path.write_text(source)
        link = sub / f"{stem}{rng.choice(SUFFIXES)}"
        link.symlink_to(path)
        path = link
    else:
        path = sub / rng.choice(["counter", "cgx", "countercgx"])
        path.write_text(source)
    return str(path.relative_to(folder)), kind


LOCALE_COMPONENT = """
<template><x :title="title" /></template>
<script>
import collagraph as cg


class Words(cg.Component):
    def mounted(self):
        print(ascii(self.props["title"]))
</script>
"""
LOCALE_PROGRAM = """
import sys
from collagraph.__main__ import run
sys.breakpointhook = lambda: None
sys.argv = ["collagraph", "--renderer", "dict", "--state", "state.json", "words.cgx"]
run()
"""


def directed(rep):
    def locale():
        folder = Path(tempfile.mkdtemp(prefix="verif-t40-"))
        try:
            (folder / "words.cgx").write_text(LOCALE_COMPONENT, encoding="utf-8")
            state = json.dumps({"title": "é漢"}, ensure_ascii=False)
            (folder / "state.json").write_text(state, encoding="utf-8")
            posix.run(folder, LOCALE_PROGRAM, ascii("é漢"))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    # JSON files are always UTF-8
    yield "locale", locale


def case(rng, rep, size):
    folder = Path(tempfile.mkdtemp(prefix="verif-t40-"))
    try:
        one(rng, rep, size, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def one(rng, rep, size, folder):
    blocked = rng.choice([None] * 5 + list(PACKAGE))
    renderer = rng.choice(["dict", "pyside", "pygfx", "dict", "pyside"])
    if rng.random() < 0.12:
        renderer = rng.choice(["dom", "unknown", "", "PySide", "pysid", "DictRenderer"])
    component, component_kind = component_argument(rng, folder, renderer)
    state_text, state, state_kind = state_argument(rng, folder)

    args = []
    default = renderer == "pyside" and blocked != "pyside" and rng.random() < 0.5
    if default:
        # The default
        args.append([])
    elif rng.random() < 0.5:
        args.append(["--renderer", renderer])
    else:
        args.append([f"--renderer={renderer}"])
    if state_text is not None:
        if rng.random() < 0.5 and not state_text.startswith("-"):
            args.append(["--state", state_text])
        else:
            args.append([f"--state={state_text}"])
    args.append([component])
    rng.shuffle(args)
    argv = [arg for group in args for arg in group]

    available = [name for name in TOOLKIT if name != blocked]
    reasons = []
    if renderer not in available:
        reasons.append(f"renderer {renderer!r} isn't available")
    if component_kind != "valid":
        reasons.append(f"component: {component_kind}")
    if state is None:
        reasons.append(f"state: {state_kind}")
    rep.note([arg[:300] for arg in argv], blocked, reasons)
    rep.signature((tuple(argv), blocked, json.dumps(state)))

    plan = {"renderer": renderer, "blocked": blocked}
    plan["updates"] = [
        ("suffix", f"-{rng.randrange(100)}{n}")
        if renderer != "dict" or rng.random() < 0.3
        else rng.choice(
            [
                ("title", f"new {rng.randrange(100)}{n}"),
                ("items", [f"m{rng.randrange(9)}" for _ in range(rng.randrange(4))]),
            ]
        )
        for n in range(int(2 + 2 * size))
    ]
    result = run(folder, argv, plan)
    rep.count(f"state {state_kind}")
    if reasons:
        judge_rejected(rep, result, reasons)
    else:
        rep.count(f"renderer {renderer}")
        judge_rendered(rep, result, plan, state)


def judge_rejected(rep, result, reasons):
    if result["log"]:
        raise Violation("rendered", f"{reasons}, but: {result['log'][0]}")
    if result["exit"] != 2:
        raise Violation("no-usage-error", f"{reasons}: {result['exit']}")
    if "usage" not in result["stderr"]:
        raise Violation("no-usage", f"{reasons}: {result['stderr'][-500:]}")
    rep.count("rejected")


def judge_rendered(rep, result, plan, state):
    log = result["log"]
    if result["exit"] not in (0, None):
        raise Violation("failed", f"{result['exit']} {result['stderr'][-999:]} {log}")
    made = [entry for entry in log if entry[0] == "created"]
    if len(made) != 1:
        raise Violation("created", f"{len(made)} components instead of 1")
    if not same(made[0][1], state):
        raise Violation("props", f"{made[0][1]} instead of {state}")
    for entry in log:
        if entry[0] == "problem":
            raise Violation(entry[1], f"{entry[2:]} {result['stderr'][-999:]}")
    views = [entry[1:] for entry in log if entry[0] == "view"]
    expected = {
        "title": state.get("title", "none"),
        "items": state.get("items", []),
        "suffix": "",
    }
    steps = [None, *plan["updates"]]
    if len(views) != len(steps):
        raise Violation("views", f"{len(views)} instead of {len(steps)}: {log[-1]}")
    for step, (title, items) in zip(steps, views):
        if step:
            expected[step[0]] = step[1]
        wanted = expected["title"] + expected["suffix"]
        if title != wanted:
            raise Violation("title", f"{title!r} instead of {wanted!r} after {step}")
        if items != expected["items"]:
            raise Violation("items", f"{items} instead of {expected['items']}")
        rep.count("updates compared")
    rep.count("rendered")


def same(one, other):
    """Equality, without mixing up booleans and numbers"""
    return json.dumps(one, sort_keys=True) == json.dumps(other, sort_keys=True)


# -- the process -----------------------------------------------------------------------
def run(folder, argv, plan):
    sys.stdout.flush()
    sys.stderr.flush()
    receiver, sender = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(receiver)
            os.setpgid(0, 0)
            child(folder, argv, plan, sender)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(sender)
    data = b""
    # The clock of this process might be a virtual one
    rounds = 0
    try:
        while True:
            ready, _, _ = select.select([receiver], [], [], 1)
            if ready:
                chunk = os.read(receiver, 65536)
                if not chunk:
                    break
                data += chunk
            else:
                rounds += 1
                if rounds > 2 * LIMIT_S:
                    raise Violation("hangs", f"{argv} doesn't come to an end")
    finally:
        os.close(receiver)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        status = os.waitpid(pid, 0)[1]
    if not data:
        raise Violation("crash", f"{argv}: status {status}")
    return json.loads(data)


def child(folder, argv, plan, sender):
    os.chdir(folder)
    log = []
    stderr = io.StringIO()
    sys.stderr, sys.stdout = stderr, io.StringIO()
    sys.argv = ["collagraph", *argv]
    block(plan["blocked"])

    def done(code):
        data = json.dumps({"exit": code, "stderr": stderr.getvalue(), "log": log})
        data = data.encode()
        while data:
            data = data[os.write(sender, data) :]
        os._exit(0)

    timer = threading.Timer(LIMIT_S, lambda: done("hangs"))
    timer.daemon = True
    timer.start()
    probe = Probe(log, plan)
    sys.modules["verif_probe"] = probe.module()
    sys.breakpointhook = probe.breakpoint
    if plan["renderer"] == "pygfx" and plan["blocked"] != "pygfx":
        probe.replace_canvas()
    try:
        runpy.run_module("collagraph", run_name="__main__", alter_sys=True)
        code = 0
    except SystemExit as exc:
        code = exc.code
    except BaseException as exc:
        code = repr(exc)[:500]
        stderr.write(traceback.format_exc())
    done(code)


def block(toolkit):
    if not toolkit:
        return
    package = PACKAGE[toolkit]

    class Finder:
        def find_spec(self, name, path=None, target=None):
            if name.partition(".")[0] == package:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)

    for name in list(sys.modules):
        if name.partition(".")[0] == package:
            del sys.modules[name]
    sys.meta_path.insert(0, Finder())


class Probe:
    def __init__(self, log, plan):
        self.log = log
        self.plan = plan
        self.component = None
        self.draw = None
        self.draws = 0
        self.scenes = []
        self.mounts = 0

    def module(self):
        module = types.ModuleType("verif_probe")
        module.created = self.created
        module.mounted = self.mounted
        module.title = lambda props: str(props["title"]) if "title" in props else "none"
        module.items = lambda props: list(props["items"]) if "items" in props else []
        return module

    def raw(self, value):
        from observ import to_raw

        return json.loads(json.dumps(to_raw(value)))

    def created(self, component):
        self.component = component
        self.log.append(("created", self.raw(component.props)))

    def mounted(self, component):
        self.mounts += 1
        if self.plan["renderer"] == "pyside" and self.mounts == 1:
            self.qt_steps = iter([None, *self.plan["updates"]])
            self.later()

    def problem(self, *what):
        self.log.append(("problem", *map(str, what)))

    # -- dict
    def breakpoint(self, *args, **kwargs):
        """What someone could do with the debugger"""
        component = self.component
        props = container = None
        frame = sys._getframe(1)
        while frame:
            for found in frame.f_locals.values():
                if isinstance(found, dict) and self.contains(found, component.element):
                    container = found
                if type(found).__name__.endswith("DictProxy"):
                    if self.raw(found) == self.raw(component.props):
                        if "Readonly" not in type(found).__name__:
                            props = found
            frame = frame.f_back
        if container is None:
            self.problem("container", "it isn't available in the debugger")
        for step in [None, *self.plan["updates"]]:
            if step and step[0] == "suffix":
                component.state["suffix"] = step[1]
            elif step and props is None:
                self.problem("no-props", "they aren't available in the debugger")
            elif step:
                props[step[0]] = step[1]
            el = component.element
            self.log.append(
                (
                    "view",
                    el["attrs"].get("title"),
                    [child["attrs"].get("text") for child in el.get("children", [])],
                )
            )
            if el["type"] != "box":
                self.problem("type", el)
            if container is not None and not self.contains(container, el):
                self.problem("container", "it doesn't have the element")

    @staticmethod
    def contains(container, element):
        return element is not None and (
            container.get("root") is element
            or any(child is element for child in container.get("children") or ())
        )

    # -- pyside
    def later(self):
        from PySide6 import QtCore

        QtCore.QTimer.singleShot(60, self.qt_step)

    def qt_step(self):
        from PySide6 import QtWidgets

        app = QtWidgets.QApplication.instance()
        try:
            self.qt_view(app)
            step = next(self.qt_steps, None)
            if step is None:
                step = next(self.qt_steps, None)
            if step is not None:
                self.component.state["suffix"] = step[1]
                self.later()
                return
        except BaseException:
            self.problem("exception", traceback.format_exc()[-800:])
        app.quit()

    def qt_view(self, app):
        from PySide6 import QtWidgets

        tops = [w for w in app.topLevelWidgets() if w.isVisible()]
        if tops != [self.component.element]:
            self.problem("windows", tops)
        element = self.component.element
        labels = element.findChildren(QtWidgets.QLabel)
        layout = element.layout()
        if layout is not None:
            labels.sort(key=layout.indexOf)
        self.log.append(
            ("view", element.objectName(), [label.text() for label in labels])
        )

    # -- pygfx
    def replace_canvas(self):
        import pygfx as gfx
        import wgpu.gui.auto

        probe = self

        class Canvas:
            def __init__(self, *args, **kwargs):
                pass

            def request_draw(self, draw=None):
                probe.draws += 1
                probe.draw = draw or probe.draw

            def get_logical_size(self):
                return 600, 400

            def is_closed(self):
                return False

            def close(self):
                pass

        class WgpuRenderer(gfx.renderers.WgpuRenderer):
            logical_size = (600, 400)

            def __init__(self, target, *args, **kwargs):
                gfx.objects._events.RootEventHandler.__init__(self)

            def render(self, scene, camera, **kwargs):
                if not isinstance(camera, gfx.Camera):
                    probe.problem("camera", camera)
                probe.scenes.append(scene)

            def flush(self):
                pass

        def run():
            asyncio.get_event_loop().run_until_complete(probe.gfx_steps())

        wgpu.gui.auto.WgpuCanvas = Canvas
        wgpu.gui.auto.run = run
        gfx.renderers.WgpuRenderer = WgpuRenderer

    async def gfx_steps(self):
        for step in [None, *self.plan["updates"]]:
            draws = self.draws
            if step is not None:
                self.component.state["suffix"] = step[1]
            for _ in range(40):
                await asyncio.sleep(0.002)
                if self.component is not None and self.draws > draws:
                    break
            if step is not None and self.draws == draws:
                self.problem("no-draw", f"after {step}")
            if self.draw is None:
                self.problem("no-draw", "nothing is drawn")
                return
            self.scenes.clear()
            self.draw()
            element = self.component.element
            if len(self.scenes) != 1 or element not in self.scenes[0].children:
                self.problem("scene", self.scenes, element)
            self.log.append(
                ("view", element.name, [child.name for child in element.children])
            )
