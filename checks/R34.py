from collections import Counter
from functools import partial

from PySide6 import QtCore, QtGui, QtTest, QtWidgets
from collagraph.renderers import PySideRenderer

from lib import qt, tk
from lib.harness import Violation

QUICK, THOROUGH = 260, 9000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of Qt widgets, actions and dialogs with random handlers "
    "(closures, lambdas, partials, bound methods, callable objects, shared functions; "
    "with and without parameters) for signals and for Qt events, and a history of "
    "changes of the handlers and the tree, some of them made from within a handler. "
    "After each update the widgets are operated (clicked, typed into, events sent) while "
    "a spy on each signal and an event filter on each widget record what Qt emits: the "
    "current handler of each recorded emission should have been called exactly once, "
    "with its argument, and no other handler at all. Distinct: by changes and final tree."
)
MIN = {"updates": 500, "emissions": 5000, "handlers called": 1500, "changes by handlers": 20,
       "keys typed": 50}
ASSUMPTIONS = [
    "the offscreen platform of Qt",
    "handlers of Qt events accept the event",
    "functions with default arguments and *args are called with any number of arguments",
]
W = QtWidgets
Qt = QtCore.Qt
Type = QtCore.QEvent.Type
COLLECT_IN_BETWEEN = True


class Handlers(tk.Handlers):
    KINDS = [
        "closure",
        "closure0",
        "closure1",
        "lambda",
        "lambda0",
        "lambda1",
        "partial",
        "bound",
        "bound0",
        "bound1",
        "shared",
        "callable",
        "plain",
        "plain1",
        "slots",
        # The same object for several events
        "same-partial",
        "same-callable",
        "same-slots",
    ]
    SHARED = ("plain", "plain1", "shared", "same-partial", "same-callable", "same-slots")
    EVENT_KINDS = [kind for kind in KINDS if not kind.endswith("0")]

    def __init__(self):
        super().__init__()
        self.hook = None

    def gen(self, rng, event=False):
        kind = rng.choice(self.EVENT_KINDS if event else self.KINDS)
        shared = kind in self.SHARED
        return {"h": kind, "n": rng.randrange(4 if shared else 100000)}

    def called(self, kind, n, *args):
        self.log.append((kind, n, *args))
        hook, self.hook = self.hook, None
        if hook:
            hook()

    def make(self, spec):
        kind, n = spec["h"], spec["n"]
        called = self.called
        if kind == "closure":

            def handler(*args):
                called(kind, n)

            return handler
        if kind == "closure0":

            def handler0():
                called(kind, n)

            return handler0
        if kind == "closure1":

            def handler1(value):
                called(kind, n, value)

            return handler1
        if kind == "lambda":
            return lambda *args: called(kind, n)
        if kind == "lambda0":
            return lambda: called(kind, n)
        if kind == "lambda1":
            return lambda value: called(kind, n, value)
        if kind == "partial":
            return partial(without_args, called, kind, n)
        if kind in ("bound", "bound0", "bound1"):
            return getattr(Holder(called, n), kind)
        if kind == "slots":
            return WithSlots(called, n).method
        if kind == "callable":
            return Callable(called, n)
        key = (kind, n)
        # Otherwise the kind is reported without prefix
        same = kind.startswith("same-")
        if same and key not in self.cache:
            self.cache[key] = self.make({"h": kind[5:], "n": n})
        if same:
            return self.cache[key]
        if key not in self.cache:
            if kind == "shared":
                self.cache[key] = Holder(called, n)
            elif kind == "plain":
                self.cache[key] = lambda *args: called(kind, n)
            else:
                self.cache[key] = lambda value: called(kind, n, value)
        found = self.cache[key]
        return found.shared if kind == "shared" else found


def without_args(called, kind, n, *args):
    called(kind, n)


class Holder:
    def __init__(self, called, n):
        self.called, self.n = called, n

    def bound(self, *args):
        self.called("bound", self.n)

    def bound0(self):
        self.called("bound0", self.n)

    def bound1(self, value):
        self.called("bound1", self.n, value)

    def shared(self, *args):
        self.called("shared", self.n)


class WithSlots:
    """Without support for weak references"""

    __slots__ = ("called", "n")

    def __init__(self, called, n):
        self.called, self.n = called, n

    def method(self, *args):
        self.called("slots", self.n)


class Callable(Holder):
    def __call__(self, *args):
        self.called("callable", self.n)


def send(*events):
    """Send Qt events to the widget"""

    def fire(obj, rng):
        event = rng.choice(events)
        pos = QtCore.QPointF(2, 3)
        button, none = Qt.MouseButton.LeftButton, Qt.KeyboardModifier.NoModifier
        if event.startswith("Mouse"):
            args = (getattr(Type, event), pos, pos, button, button, none)
            event = QtGui.QMouseEvent(*args)
        elif event.startswith("Key"):
            event = QtGui.QKeyEvent(getattr(Type, event), Qt.Key.Key_F7, none)
        elif event == "Enter":
            event = QtGui.QEnterEvent(pos, pos, pos)
        else:
            event = QtCore.QEvent(getattr(Type, event))
        qt.app().sendEvent(obj, event)

    return fire


EVENTS = {
    "mouse_move": "MouseMove",
    "mouse_button_press": "MouseButtonPress",
    "key_press": "KeyPress",
    "key_release": "KeyRelease",
    "enter": "Enter",
    "leave": "Leave",
    "window_activate": "WindowActivate",
    "tool_tip_change": "ToolTipChange",
    "resize": "Resize",
    "show": "Show",
    "enabled_change": "EnabledChange",
}
SENT = ["MouseMove", "KeyPress", "KeyRelease", "Enter", "Leave", "WindowActivate"]


def tool_tip(obj, rng):
    obj.setToolTip(obj.toolTip() + "x")


def resize(obj, rng):
    obj.resize(obj.width() + 1, obj.height() + 1)


COMMON = [send(*SENT), send(*SENT), tool_tip, resize]


# What typing the key in a widget changes
TYPED = {
    "button": (Qt.Key.Key_Space, lambda obj: obj.isChecked()),
    "checkbox": (Qt.Key.Key_Space, lambda obj: obj.isChecked()),
    "lineedit": (Qt.Key.Key_A, lambda obj: (obj.text(), obj.selectedText())),
    "slider": (Qt.Key.Key_Up, lambda obj: obj.value()),
    "spinbox": (Qt.Key.Key_Up, lambda obj: obj.value()),
}


def type_key(name, obj):
    """Like a user does: the widgets still have to handle the events themselves"""
    key, value = TYPED[name]
    before = value(obj)
    QtTest.QTest.keyClick(obj, key)
    if value(obj) == before:
        raise Violation("event-not-handled", f"{name} is still {before!r}")


class Widget(tk.Type):
    def __init__(self, name, cls, signals, fires, events, **kwargs):
        super().__init__(name, new=cls, **kwargs)
        # name of the event -> name of the signal, with () if it has no parameters
        self.signals = signals
        self.qt_events = dict(events)
        self.events = {**signals, **events}
        self.fires = list(fires) + (COMMON if events else [])


def types(events):
    Typ = partial(Widget, events=events)  # noqa: N806
    leaves = ["button", "lineedit", "slider", "combobox", "checkbox", "spinbox", "label"]
    yield Typ(
        "button",
        W.QPushButton,
        {
            "clicked": "clicked",
            "pressed": "pressed()",
            "released": "released()",
            "toggled": "toggled",
        },
        [
            lambda obj, rng: obj.click(),
            lambda obj, rng: obj.toggle(),
            lambda obj, rng: obj.pressed.emit(),
        ],
        attrs={"checkable": tk.Attr(lambda rng: True, required=True)},
    )
    yield Typ(
        "lineedit",
        W.QLineEdit,
        {
            "text_changed": "textChanged",
            "text-edited": "textEdited",
            "return-pressed": "returnPressed()",
            "cursor_position_changed": "cursorPositionChanged",
        },
        [
            lambda obj, rng: obj.setText(obj.text() + rng.choice("abc")),
                lambda obj, rng: obj.textEdited.emit("foo"),
            lambda obj, rng: obj.returnPressed.emit(),
        ],
        names=["lineedit", "line-edit"],
    )
    yield Typ(
        "slider",
        W.QSlider,
        {"value-changed": "valueChanged", "slider_pressed": "sliderPressed()"},
        [
            lambda obj, rng: obj.setValue((obj.value() + 1) % 50),
            lambda obj, rng: obj.setSliderDown(not obj.isSliderDown()),
        ],
    )
    yield Typ(
        "combobox",
        W.QComboBox,
        {
            "current_index_changed": "currentIndexChanged",
            "current-text-changed": "currentTextChanged",
            "activated": "activated",
        },
        [
            lambda obj, rng: obj.setCurrentIndex((obj.currentIndex() + 1) % 3),
            lambda obj, rng: obj.activated.emit(2),
        ],
        attrs={"items": tk.Attr(lambda rng: ["a", "b", "c"], required=True)},
    )
    yield Typ(
        "checkbox",
        W.QCheckBox,
        {"state_changed": "stateChanged", "toggled": "toggled", "clicked": "clicked"},
        [lambda obj, rng: obj.click(), lambda obj, rng: obj.toggle()],
    )
    yield Typ(
        "spinbox",
        W.QSpinBox,
        {"value_changed": "valueChanged", "text_changed": "textChanged"},
        [lambda obj, rng: obj.setValue((obj.value() + 1) % 50)],
    )
    yield Typ("label", W.QLabel, {"link_activated": "linkActivated"}, [
        lambda obj, rng: obj.linkActivated.emit("foo"),
    ])
    yield Widget(
        "action",
        QtGui.QAction,
        {"triggered": "triggered", "toggled": "toggled", "hovered": "hovered()"},
        [
            lambda obj, rng: obj.trigger(),
            lambda obj, rng: obj.toggle(),
            lambda obj, rng: obj.hover(),
        ],
        {},
        attrs={"checkable": tk.Attr(lambda rng: True, required=True)},
    )
    more = ["box", "group", "tab", "toolbar", "dialog"]
    yield Typ(
        "box",
        W.QWidget,
        {"window_title_changed": "windowTitleChanged"},
        [lambda obj, rng: obj.setWindowTitle(obj.windowTitle() + "x")],
        names=["widget"],
        takes=leaves + more,
        children=children,
    )
    yield Typ(
        "group",
        W.QGroupBox,
        {"clicked": "clicked", "toggled": "toggled"},
        [
            lambda obj, rng: obj.setTitle(obj.title() + "x"),
            lambda obj, rng: obj.toggled.emit(True),
        ],
        names=["groupbox"],
        takes=leaves + more,
        children=children,
    )
    yield Typ(
        "tab",
        W.QTabWidget,
        {"current_changed": "currentChanged", "tab-bar-clicked": "tabBarClicked"},
        [
            lambda obj, rng: obj.setCurrentIndex(rng.randrange(max(1, obj.count()))),
            lambda obj, rng: obj.tabBarClicked.emit(1),
        ],
        names=["QTabWidget"],
        takes=["label", "button", "box", "lineedit"],
        children=lambda obj: [obj.widget(i) for i in range(obj.count())],
    )
    yield Typ(
        "toolbar",
        W.QToolBar,
        {"movable-changed": "movableChanged"},
        [lambda obj, rng: obj.setMovable(not obj.isMovable())],
        takes=["action"],
        ordered=False,
        children=lambda obj: [a for a in obj.actions() if a.objectName()],
    )
    yield Typ(
        "dialog",
        W.QDialog,
        {"finished": "finished", "accepted": "accepted()", "rejected": "rejected()"},
        [lambda obj, rng: obj.accept(), lambda obj, rng: obj.reject()],
        names=["QDialog"],
        takes=leaves,
        children=children,
        floating=True,
    )


def children(obj):
    option = Qt.FindChildOption.FindDirectChildrenOnly
    dialogs = obj.findChildren(W.QDialog, options=option)
    dialogs.sort(key=lambda dialog: dialog.objectName())
    return [w for w in qt.layout_widgets(obj) if w.objectName()] + dialogs


# Changing the tree while Qt is busy with layouts isn't supported by Qt
SAFE = {key: name for key, name in EVENTS.items() if key not in ("resize", "show")}
SCHEMAS = [{typ.name: typ for typ in types(events)} for events in (EVENTS, SAFE)]
ROOTS = ["box", "box", "group", "dialog"]


class Spy(QtCore.QObject):
    """Records all events that an object receives, and all signals it emits"""

    def __init__(self, obj, typ, log):
        super().__init__()
        self.obj, self.log = obj, log
        self.names = {name: event for event, name in typ.qt_events.items()}
        self.slots = []
        for event, name in typ.signals.items():
            # With exactly one parameter, when there are any
            signal = getattr(obj, name.removesuffix("()"))
            if name.endswith("()"):
                slot = partial(self.emitted, event)
            else:
                slot = self.receiver(event)
            signal.connect(slot)
            self.slots.append((signal, slot))
        obj.installEventFilter(self)

    def receiver(self, event):
        return lambda value: self.emitted(event, value)

    def emitted(self, event, *args):
        self.log.append((self.obj, event, args))

    def eventFilter(self, obj, event):
        name = event.type().name
        if name in self.names:
            self.log.append((self.obj, self.names[name], (event.type(),)))
        return False


class Events(tk.Toolkit):
    def gen(self, rng, name, depth, parent=None, key=None):
        spec = super().gen(rng, name, depth, parent, key or "root")
        for event in spec["on"]:
            spec["on"][event] = self.handler(rng, spec, event)
        return spec

    any_event = {"shared", "plain", "same-partial", "same-callable", "same-slots"}

    def handler(self, rng, spec, event):
        """With a parameter, or without, if needed"""
        typ = self.schema[spec["t"]]
        # The same handler for several events of the widget
        options = [h for h in spec["on"].values() if h and h["h"] in self.any_event]
        if options and rng.random() < 0.4:
            return dict(rng.choice(options))
        handler = self.handlers.gen(rng, event in typ.qt_events)
        while handler["h"].endswith("1") and typ.signals.get(event, "").endswith("()"):
            handler = self.handlers.gen(rng, False)
        return handler

    def mutate_node(self, rng, root, op):
        if op == "event" or rng.random() < 0.7:
            nodes = [node for node in self.nodes(root) if node["k"] == "el"]
            node = rng.choice(nodes)
            event = rng.choice(list(self.schema[node["t"]].events))
            # One of several events with the same handler
            same = [
                (node, event)
                for node in nodes
                for event, handler in node["on"].items()
                if handler["h"] in self.any_event
                and list(node["on"].values()).count(handler) > 1
            ]
            if same and rng.random() < 0.4:
                node, event = rng.choice(same)
                self.rep.count("changes of one of several events")
            if event in node["on"] and rng.random() < 0.4:
                del node["on"][event]
            else:
                node["on"][event] = self.handler(rng, node, event)
            return "event"
        return super().mutate_node(rng, root, op)


def setup():
    qt.app()


def case(rng, rep, size):
    reactive = rng.random() < 0.5
    toolkit = Events(
        rep,
        SCHEMAS[reactive],
        ROOTS,
        PySideRenderer(autoshow=rng.random() < 0.5),
        qt.app(),
        Handlers(),
        name_prop="object_name",
        name_of=lambda obj: obj.objectName(),
        max_size=25,
        wrap=0.1,
    )
    spies = {}
    try:
        run(rng, rep, size, toolkit, spies, reactive)
    finally:
        for spy in spies.values():
            if qt.alive(spy.obj):
                spy.obj.removeEventFilter(spy)
        qt.clean_up()


def run(rng, rep, size, toolkit, spies, reactive):
    handlers = toolkit.handlers
    log = []

    def root():
        if rng.random() < 0.5:
            qt.process()
        if toolkit.inst.obj is not None:
            return toolkit.inst.obj
        widgets = qt.app().topLevelWidgets()
        found = [w for w in widgets if w.objectName() == "root"]
        if len(found) != 1:
            raise Violation("root", f"{found}")
        return found[0]

    last = {}

    def expected(insts):
        """The calls that should have been made, and those by elements that have been
        removed in the meantime (which might still receive events from Qt)"""
        by_obj = {inst.obj: inst.spec["on"] for inst in insts}
        calls, others = [], []
        for obj, event, args in log:
            rep.count("emissions")
            handler = by_obj.get(obj, last.get(obj, {})).get(event)
            if handler:
                call = (handler["h"].removeprefix("same-"), handler["n"])
                if handler["h"].endswith("1"):
                    call += args[:1]
                if obj in by_obj:
                    rep.count("handlers called")
                    rep.count(f"handler {handler['h']}")
                    calls.append(repr(call))
                else:
                    others.append(repr(call))
        return Counter(calls), Counter(others)

    def fire(insts, inst):
        log.clear()
        handlers.log.clear()
        if inst.spec["t"] in TYPED and rng.random() < 0.1:
            type_key(inst.spec["t"], inst.obj)
            rep.count("keys typed")
        else:
            rng.choice(toolkit.schema[inst.spec["t"]].fires)(inst.obj, rng)
        if rng.random() < 0.1:
            qt.process()
        actual = Counter(map(repr, handlers.log))
        calls, others = expected(insts)
        if calls - actual or actual - calls - others:
            emitted = [(obj.objectName(), event, args) for obj, event, args in log]
            raise Violation("handlers", f"{actual} instead of {calls} for {emitted}")

    def watch(objs):
        for inst in objs:
            if inst.obj not in spies:
                typ = toolkit.schema[inst.spec["t"]]
                spies[inst.obj] = Spy(inst.obj, typ, log)
            last[inst.obj] = inst.spec["on"]

    def change_by_handler(objs):
        """A handler that changes the tree, possibly removing its own element"""
        spec, names = toolkit.mutate(rng, toolkit.spec, 3)
        if spec["t"] != toolkit.spec["t"]:
            return objs

        def hook():
            rep.count("changes by handlers")
            rep.note("change by handler", names, spec)
            toolkit.change(spec)

        handlers.hook = hook
        inst = rng.choice(objs)
        rng.choice(toolkit.schema[inst.spec["t"]].fires)(inst.obj, rng)
        handlers.hook = None
        objs = list(toolkit.check(toolkit.inst.obj).values())
        watch(objs)
        return objs

    def monitor(obj, names):
        objs = list(toolkit.check(obj).values())
        watch(objs)
        for inst in rng.sample(objs, min(len(objs), 6)):
            if rng.random() < 0.5:
                fire(objs, inst)
        if reactive and rng.random() < 0.6:
            objs = change_by_handler(objs)
        for inst in objs:
            fire(objs, inst)

    wrap = handlers.called

    def called(kind, n, *args):
        # Keep the type of an event instead of the event
        args = [arg.type() if isinstance(arg, QtCore.QEvent) else arg for arg in args]
        wrap(kind, n, *args)

    handlers.called = called
    tk.history(rng, rep, size, toolkit, root, monitor)
