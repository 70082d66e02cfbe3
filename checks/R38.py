import asyncio
import itertools
import random
import sys

import collagraph as cg
from collagraph import h
from collagraph.renderers import PySideRenderer
from observ import computed, reactive, watch
from PySide6 import QtCore, QtWidgets

from lib import clock, qt
from lib.harness import Violation

QUICK, THOROUGH = 160, 6000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is an application with 1 or 2 user interfaces (windows with labels, buttons, "
    "boxes and dialogs by class components with local state, a computed value and a watcher) "
    "that runs in the event loop of Qt with the default settings. Units of "
    "work take long (virtual time), at random. Changes are made by timers, by "
    "clicking on buttons, by asyncio tasks and by ordinary callbacks: one at a time, or "
    "while earlier changes are still being worked on. The widgets are inspected in "
    "between all events. Distinct: by the actions and the final data."
)
MIN = {"updates": 500, "iterations": 5000, "changes while busy": 200, "clicks": 50, "tasks": 50}
ASSUMPTIONS = [
    "the offscreen platform of Qt",
    "an update is considered lost when it isn't there after 20 seconds",
]
COLLECT_IN_BETWEEN = True
LIMIT = 20
KINDS = ["label", "button", "box", "dialog"]
# Event loops of Qt end the application when they're deleted
POLICIES = []
BOX = {"type": "Box", "direction": "TopToBottom"}


def setup():
    qt.app()


class UI:
    """One user interface, with what it should look like"""

    def __init__(self, number, data, rng):
        self.number, self.data = number, data
        self.clicked = {}
        self.callbacks = 0
        ui = self

        class Item(cg.Component):
            def __init__(self, props, parent=None):
                super().__init__(props, parent)
                name = self.name = self.props["name"]
                self.state["n"] = 0
                self.state["seen"] = data["values"].get(name, 0)
                self.watcher = watch(lambda: data["values"].get(name, 0), self.on_value)
                self.double = computed(lambda: 2 * data["values"].get(name, 0))

            def on_value(self, new, old):
                ui.callbacks += 1
                self.state["seen"] = new

            def click(self):
                self.state["n"] += 1

            def text(self):
                value = data["values"].get(self.name, 0)
                return f"{value} {self.double()} {self.state['n']} {self.state['seen']}"

            def render(self):
                kind, name = self.props["kind"], self.name
                attrs = {"object_name": name, "text": self.text()}
                if kind == "label":
                    return h("label", attrs)
                if kind == "button":
                    return h("button", {**attrs, "on_clicked": self.click})
                count = data["values"].get(name, 0) % 3
                inner = [
                    h("label", {"object_name": f"{name}-{i}", "text": f"{i}"})
                    for i in range(count)
                ]
                return h(
                    "qdialog" if kind == "dialog" else "widget",
                    {"object_name": name, "layout": BOX},
                    h("label", {"object_name": f"{name}-text", "text": self.text()}),
                    *inner,
                )

        class Root(cg.Component):
            def render(self):
                return h(
                    "widget",
                    {"object_name": f"root{number}", "layout": BOX},
                    h("label", {"object_name": "title", "text": data["title"]}),
                    *[
                        h(Item, {"key": name, "name": name, "kind": kind})
                        for name, kind in dialogs_last(data["items"])
                    ],
                )

        self.Root = Root
        self.gui = cg.Collagraph(PySideRenderer(autoshow=rng.random() < 0.5))
        self.seen_by_watchers = {}

    def start(self):
        self.gui.render(h(self.Root, {}), qt.app())

    def expected(self):
        """Content of the window"""
        result = [("title", self.data["title"])]
        for name, kind in dialogs_last(self.data["items"]):
            value = self.data["values"].get(name, 0)
            text = f"{value} {2 * value} {self.clicked.get(name, 0)} {value}"
            if kind in {"box", "dialog"}:
                inner = [(f"{name}-{i}", f"{i}") for i in range(value % 3)]
                result.append((name, [(f"{name}-text", text), *inner]))
            else:
                result.append((name, text))
        return result

    def window(self):
        for widget in qt.app().topLevelWidgets():
            if qt.alive(widget) and widget.objectName() == f"root{self.number}":
                return widget

    def button(self, name):
        window = self.window()
        return window and window.findChild(QtWidgets.QPushButton, name)

    def actual(self):
        window = self.window()
        return None if window is None else content(window)


def dialogs_last(items):
    """Dialogs don't have a place within their parent"""
    dialogs = sorted(tuple(item) for item in items if item[1] == "dialog")
    return [item for item in items if item[1] != "dialog"] + dialogs


def content(widget):
    result = []
    dialogs = widget.findChildren(
        QtWidgets.QDialog, options=QtCore.Qt.FindDirectChildrenOnly
    )
    dialogs.sort(key=lambda dialog: dialog.objectName())
    for child in [*qt.layout_widgets(widget), *dialogs]:
        name = child.objectName()
        if child.layout() is not None:
            result.append((name, content(child)))
        else:
            result.append((name, child.text()))
    return result


def without_watched(tree):
    """Watchers run after the change, so that's another update"""
    if tree is None:
        return None
    return [
        (name, without_watched(text) if isinstance(text, list) else " ".join(text.split()[:3]))
        for name, text in tree
    ]


class Driver:
    """Performs the actions of the script within the event loop of Qt, and inspects the
    windows in between"""

    def __init__(self, rng, rep, uis, datas, calm, steps):
        self.rng, self.rep, self.uis, self.datas = rng, rep, uis, datas
        self.calm, self.steps = calm, steps
        self.names = itertools.count(1)
        self.pending = 0
        self.error = None
        self.trail = []
        self.wait = 0
        self.deadline = None
        self.extra = 0
        self.frames = None
        self.updates = 0
        self.timers = []
        # The same as the event loop of the application, but it can be left many times
        self.loop = QtCore.QEventLoop()

    def start(self):
        for ui in self.uis:
            ui.start()
        self.expect()
        self.again()
        self.loop.exec()
        if self.error:
            raise self.error

    def again(self):
        QtCore.QTimer.singleShot(0, self.tick)

    def expect(self):
        """From now on, the windows look as before or as they should look"""
        self.deadline = clock.real() + LIMIT
        if self.calm:
            self.frames = [
                (without_watched(ui.actual()), without_watched(ui.expected()))
                for ui in self.uis
            ]
            self.now = [0] * len(self.uis)

    def tick(self):
        try:
            done = self.step()
        except BaseException as e:  # noqa: B902
            self.error = e
            done = True
        if done:
            self.loop.quit()
        else:
            self.again()

    def step(self):
        self.rep.count("iterations")
        if self.errors:
            context = self.errors[0]
            raise context.get("exception") or Violation("event-loop", context["message"])
        for i, ui in enumerate(self.uis):
            if self.calm:
                self.check_frame(i, without_watched(ui.actual()))
        settled = not self.pending and all(ui.actual() == ui.expected() for ui in self.uis)
        if not settled and clock.real() > self.deadline:
            for ui in self.uis:
                if ui.actual() != ui.expected():
                    raise Violation(
                        "lost-update",
                        f"{ui.actual()} instead of {ui.expected()}, after {self.trail[-8:]}",
                    )
            raise Violation("pending", f"{self.pending} actions that didn't happen")
        if self.steps and (settled or not self.calm):
            if self.wait:
                self.wait -= 1
                return False
            self.steps -= 1
            self.wait = self.rng.choice([0, 0, 1, 2, 3, 5, 9])
            if not settled:
                self.rep.count("changes while busy")
            self.act()
            return False
        if not settled:
            self.extra = 0
            return False
        # Nothing should happen anymore
        self.extra += 1
        return self.extra > 6

    def check_frame(self, i, actual):
        before, after = self.frames[i]
        if actual == after:
            self.now[i] = 1
        elif before is None:
            # The window itself is being prepared
            window = self.uis[i].window()
            if window is not None and window.isVisible():
                raise Violation("torn-window", f"{actual} instead of {after}")
        elif actual != before or self.now[i]:
            what = "other-frame" if self.now[i] else "torn-frame"
            raise Violation(
                what, f"{actual} instead of {before} or {after}, after {self.trail[-3:]}"
            )

    def act(self):
        rng = self.rng
        action = self.change(rng)
        how = rng.choice(["direct", "direct", "timer", "task", "click", "click"])
        if how == "click":
            options = [
                (ui, name)
                for ui in self.uis
                for name, kind in ui.data["items"]
                if kind == "button" and ui.button(name)
            ]
            if not options:
                how = "direct"
        self.trail.append((how, action if how != "click" else ""))
        self.rep.note(how, action)
        self.rep.count("updates")
        if how == "click":
            ui, name = rng.choice(options)
            ui.clicked[name] = ui.clicked.get(name, 0) + 1
            self.expect()
            self.rep.count("clicks")
            ui.button(name).click()
        elif how == "direct":
            self.perform(action)
        elif how == "timer":
            self.later()
            timer = QtCore.QTimer(qt.app())
            timer.setSingleShot(True)
            timer.timeout.connect(lambda: self.perform(action, True))
            timer.start(rng.choice([0, 1, 2]))
            self.timers.append(timer)
            self.rep.count("timers")
        else:
            self.later()
            self.rep.count("tasks")
            loop = asyncio.get_event_loop_policy().get_event_loop()
            self.timers.append(loop.create_task(self.task(action, rng.randrange(3))))

    def later(self):
        self.pending += 1
        self.expect()

    async def task(self, action, times):
        for _ in range(times):
            await asyncio.sleep(0)
        self.perform(action, True)

    def perform(self, action, pending=False):
        """The data is changed (at once) according to the action"""
        data, what, *args = action
        data = self.datas[data]
        if pending:
            self.pending -= 1
        # What's visible now, before the data is changed
        before = [without_watched(ui.actual()) for ui in self.uis] if self.calm else None
        if what == "title":
            data["title"] = args[0]
        elif what == "value":
            data["values"][args[0]] = data["values"].get(args[0], 0) + 1
        elif what == "insert":
            data["items"].insert(min(args[0], len(data["items"])), (args[1], args[2]))
        elif what == "remove":
            if data["items"]:
                data["items"].pop(args[0] % len(data["items"]))
        else:
            old = [*data["items"]]
            new = old[::-1] if what == "reverse" else old[1:] + old[:1]
            # Equal values are no news to observ
            if new != old:
                data["items"] = new
        self.expect()
        if before:
            self.frames = [(b, after) for b, (_, after) in zip(before, self.frames)]

    def change(self, rng):
        number = rng.randrange(len(self.datas))
        items = [name for name, _ in self.datas[number]["items"]]
        what = rng.choice(
            ["title", "value", "value", "value", "insert", "insert", "remove", "reverse", "rotate"]
        )
        if what == "value" and not items or what == "remove" and not items:
            what = "insert"
        if what == "title":
            return number, what, f"title-{next(self.names)}"
        if what == "value":
            return number, what, rng.choice(items)
        if what == "insert":
            name = f"new{next(self.names)}"
            return number, what, rng.randrange(len(items) + 1), name, rng.choice(KINDS)
        if what == "remove":
            return number, what, rng.randrange(len(items))
        return number, what


def case(rng, rep, size):
    if rng.random() < 0.5:
        # As in any program that doesn't use asyncio by itself
        POLICIES.append(asyncio.get_event_loop_policy())
        asyncio.set_event_loop_policy(None)
    count = rng.choice([1, 1, 2])
    datas = [
        reactive(
            {
                "title": "start",
                "items": [
                    (f"item{i}{n}", rng.choice(KINDS)) for n in range(rng.randrange(6))
                ],
                "values": {f"item{i}{n}": rng.randrange(3) for n in range(6)},
            }
        )
        for i in range(rng.choice([1, count]))
    ]
    uis = [UI(i, datas[i % len(datas)], rng) for i in range(count)]
    calm = rng.random() < 0.5
    rate = rng.choice([1, 1, 0.5, 0.2, 0.05])
    steps = int(3 + 8 * size)
    rep.note(dict(calm=calm, rate=rate, uis=count), [d["items"] for d in datas])
    slow = rng.getrandbits(32)
    times = random.Random(slow)
    driver = Driver(rng, rep, uis, datas, calm, steps)
    errors = []
    # Exceptions in slots
    sys.excepthook = lambda *args: errors.append({"exception": args[1]})
    loop = asyncio.get_event_loop_policy().get_event_loop()
    loop.set_exception_handler(lambda loop, context: errors.append(context))
    driver.errors = errors
    clock.start(lambda: 20_000_000 if times.random() < rate else 0)
    try:
        driver.start()
    finally:
        clock.stop()
        sys.excepthook = sys.__excepthook__
        for ui in uis:
            window = ui.window()
            if window is not None:
                window.close()
                window.deleteLater()
        qt.clean_up()
    rep.signature((driver.trail, datas))
