import collagraph as cg
from collagraph import h
from collagraph.renderers import PySideRenderer
from observ import reactive
from PySide6 import QtCore, QtWidgets

from lib import qt
from lib.harness import Violation

QUICK, THOROUGH = 150, 1200
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case defines a random hierarchy of classes of widgets and layouts (with mixins), "
    "registers functions to insert, remove and set attributes for some of them, in "
    "random order and by every form of registration, registers the classes as elements "
    "and layouts, and renders random histories of keyed children and attributes with "
    "names in random spelling. Each call of a registered function is compared with the "
    "function for the most derived class; the children according to the calls are "
    "compared with the description after each update. Names of Qt classes and aliases "
    "in random spelling, unknown names and classes that can't be registered are tried, "
    "too. Distinct: by the hierarchy, the registrations and the updates."
)
MIN = {
    "inserts": 600,
    "removes": 100,
    "attributes": 1000,
    "custom attributes": 300,
    "names resolved": 600,
    "unknown names": 100,
    "rejected classes": 100,
    "layout children compared": 200,
}
ASSUMPTIONS = [
    "classes are registered before their elements are created for the first time",
    "one registered class for each chain of base classes (no ambiguity by mixins)",
]
COLLECT_IN_BETWEEN = True

ALIASES = {
    "button": "QPushButton",
    "checkbox": "QCheckBox",
    "combobox": "QComboBox",
    "label": "QLabel",
    "lineedit": "QLineEdit",
    "menu": "QMenu",
    "menubar": "QMenuBar",
    "radiobutton": "QRadioButton",
    "dialogbuttonbox": "QDialogButtonBox",
    "groupbox": "QGroupBox",
    "scrollarea": "QScrollArea",
    "slider": "QSlider",
    "spinbox": "QSpinBox",
    "statusbar": "QStatusBar",
    "textedit": "QTextEdit",
    "toolbar": "QToolBar",
    "treeview": "QTreeView",
    "treewidget": "QTreeWidget",
    "widget": "QWidget",
    "window": "QMainWindow",
    "dock": "QDockWidget",
}
CLASSES = [
    "QLabel",
    "QPushButton",
    "QFrame",
    "QDial",
    "QSplitter",
    "QTabWidget",
    "QDoubleSpinBox",
    "QPlainTextEdit",
    "QDateEdit",
    "QProgressBar",
    "QStackedWidget",
    "QListView",
    "QToolButton",
]
BASES = [
    QtWidgets.QWidget,
    QtWidgets.QFrame,
    QtWidgets.QLabel,
    QtWidgets.QGroupBox,
    QtWidgets.QPushButton,
]
unique = 0


def setup():
    qt.app()


def respell(rng, name):
    """Another spelling: case, dashes and underscores"""
    result = ""
    for char in name:
        if result and rng.random() < 0.15:
            result += rng.choice("-_")
        result += rng.choice([char, char.upper(), char.lower()])
    return result


def register(rng, function, types, func):
    """All the ways to register a function"""
    form = rng.randrange(3)
    if form == 0:
        returned = function(*types)(func)
        if returned is not func:
            raise Violation("decorator", f"{returned} instead of {func}")
    elif form == 1:
        function(*types, func=func)
    else:
        for typ in types:
            function(typ, func=func)


class Log:
    def __init__(self):
        self.calls = []
        self.children = {}


class Case:
    def __init__(self, rng, rep):
        global unique
        unique += 1
        self.prefix = f"v{unique}x"
        self.rng, self.rep = rng, rep
        # Functions may be registered by means of the class or an instance
        self.renderer = PySideRenderer(autoshow=False)
        self.api = rng.choice([PySideRenderer, self.renderer])
        self.log = []
        # parent -> list of children, according to the calls
        self.children = {}
        self.classes = []
        self.functions = {"insert": {}, "remove": {}, "set": {}}
        self.names = {}
        self.describe = []
        self.make_classes()
        self.register_functions()
        self.register_elements()

    # -- classes -------------------------------------------------------------------
    def make_classes(self):
        rng = self.rng
        roots = rng.sample(BASES, rng.choice([1, 1, 2]))
        for number, base in enumerate(roots):
            self.classes.append(self.make_class(f"Root{number}", base))
        for number in range(rng.randrange(1, 6)):
            # Rather deep than wide
            base = rng.choice(self.classes[-2:] * 2 + self.classes)
            self.classes.append(self.make_class(f"Class{number}", base))

    def make_class(self, name, base):
        # Mixins make for longer lists of ancestors
        mixins = [
            type(f"Mixin{n}", (), {}) for n in range(self.rng.choice([0, 0, 0, 1, 3]))
        ]
        self.describe.append((name, base.__name__, len(mixins)))
        return type(name, (*mixins, base), {})

    def register_functions(self):
        rng = self.rng
        jobs = []
        for kind in self.functions:
            chosen = [cls for cls in self.classes if rng.random() < 0.6]
            roots = [cls for cls in self.classes if cls.__name__.startswith("Root")]
            chosen = list(dict.fromkeys(roots + chosen))
            rng.shuffle(chosen)
            while chosen:
                n = rng.choice([1, 1, 1, 2])
                jobs.append((kind, chosen[:n]))
                del chosen[:n]
        rng.shuffle(jobs)
        functions = {
            "insert": self.api.register_insert,
            "remove": self.api.register_remove,
            "set": self.api.register_set_attr,
        }
        for kind, types in jobs:
            tag = object()
            func = getattr(self, f"make_{kind}")(tag)
            register(rng, functions[kind], types, func)
            for typ in types:
                self.functions[kind][typ] = tag
            self.describe.append((kind, [typ.__name__ for typ in types]))

    def make_insert(self, tag):
        def insert(obj, el, anchor=None):
            self.called("insert", tag, obj)
            children = self.children.setdefault(id(obj), [])
            if any(child is el for child in children):
                raise Violation("insert-twice", f"{el} into {obj}")
            index = len(children)
            if anchor is not None:
                found = [n for n, child in enumerate(children) if child is anchor]
                if not found:
                    raise Violation("anchor", f"{anchor} isn't a child of {obj}")
                index = found[0]
            children.insert(index, el)
            el.setParent(obj)

        return insert

    def make_remove(self, tag):
        def remove(obj, el):
            self.called("remove", tag, obj)
            children = self.children.setdefault(id(obj), [])
            if not any(child is el for child in children):
                raise Violation("remove-unknown", f"{el} of {obj}")
            children[:] = [child for child in children if child is not el]
            el.setParent(None)

        return remove

    def make_set(self, tag):
        def set_attribute(obj, attr, value):
            self.called("set", tag, obj)
            self.rep.count("attributes")
            setattr(obj, f"got_{attr}", value)

        return set_attribute

    def called(self, kind, tag, obj):
        """Compare the function with the one for the most derived class"""
        self.rep.count({"insert": "inserts", "remove": "removes", "set": "sets"}[kind])
        functions = self.functions[kind]
        expected = next(functions[t] for t in type(obj).__mro__ if t in functions)
        if tag is not expected:
            raise Violation(f"{kind}-function", f"another function for {obj}")

    # -- elements ------------------------------------------------------------------
    def register_elements(self):
        rng = self.rng
        for cls in self.classes:
            name = self.prefix + cls.__name__.lower()
            if rng.random() < 0.1:
                # Layouts have names of their own
                name = self.prefix + "layout"
                if name in self.names:
                    continue
            spelled = respell(rng, name)
            form = rng.randrange(3)
            if form == 0:
                returned = self.api.register_element(spelled)(cls)
                if returned is not cls:
                    raise Violation("decorator", f"{returned} instead of {cls}")
            elif form == 1:
                self.api.register_element(spelled, cls)
            else:
                self.api.register_element(spelled, typ=cls)
            self.names[name] = cls

    def element(self, key, attrs, *children):
        name = self.rng.choice(list(self.names))
        return self.spelled(name), {"key": key, **attrs}, name

    def spelled(self, name):
        return respell(self.rng, name)


def case(rng, rep, size):
    try:
        names(rng, rep)
        rejected(rng, rep)
        current = Case(rng, rep)
        rep.note(current.describe)
        custom = custom_attributes(current)
        trail = history(current, custom, size)
        layouts(current, size)
        rep.signature((current.describe, trail))
    finally:
        qt.clean_up()


def names(rng, rep):
    """Aliases and names of Qt classes"""
    renderer = PySideRenderer(autoshow=False)
    for name in rng.sample(list(ALIASES), 4):
        expect(rep, renderer, respell(rng, name), getattr(QtWidgets, ALIASES[name]))
    for name in rng.sample(CLASSES, 2):
        spelled = rng.choice([name, name.lower(), name.upper()])
        expect(rep, renderer, spelled, getattr(QtWidgets, name))
    word = "".join(rng.choice("abcxyzqQ") for _ in range(rng.randrange(5, 12)))
    for unknown in (word, f"Q{word}", f"{word}.{word}"):
        try:
            found = renderer.create_element(unknown)
        except TypeError:
            rep.count("unknown names")
        else:
            raise Violation("unknown-name", f"{found} for {unknown}")


def expect(rep, renderer, name, cls):
    found = renderer.create_element(name)
    again = renderer.create_element(name)
    rep.count("names resolved")
    for obj in (found, again):
        # The first ancestor that's a class of Qt
        origin = next(
            t for t in type(obj).__mro__ if t.__module__.startswith("PySide6")
        )
        if origin is not cls:
            raise Violation("name", f"{obj} instead of {cls} for {name}")
    if found is again:
        raise Violation("name-shared", f"{name} gives the same object twice")


def rejected(rng, rep):
    """Only widgets can be elements, and only layouts can be layouts"""
    bad = rng.choice(
        [object, int, QtCore.QObject, QtCore.QTimer, type("Some", (), {}), Log]
    )
    name = f"bad{rng.randrange(10**9)}"
    options = [
        (PySideRenderer.register_element, rng.choice([bad, QtWidgets.QBoxLayout])),
        (PySideRenderer.register_layout, rng.choice([bad, QtWidgets.QWidget])),
    ]
    for function, cls in options:
        try:
            if rng.random() < 0.5:
                function(name, cls)
            else:
                function(name)(cls)
        except TypeError:
            rep.count("rejected classes")
        else:
            raise Violation("not-rejected", f"{cls} by {function.__name__}")
    renderer = PySideRenderer(autoshow=False)
    try:
        found = renderer.create_element(name)
    except TypeError:
        pass
    else:
        raise Violation("rejected-name", f"{found} for {name}")


def custom_attributes(current):
    """Names of attributes that are set by a custom function on any element"""
    rng, api = current.rng, current.api
    groups = []
    for number in range(rng.choice([1, 1, 2])):
        attrs = [
            f"{current.prefix}attr{number}{n}" for n in range(rng.choice([1, 2]))
        ]
        groups.append(attrs)

        def func(el, attr, value, attrs=tuple(attrs)):
            if attr not in attrs:
                raise Violation("custom-function", f"{attr} instead of {attrs}")
            current.rep.count("custom attributes")
            setattr(el, f"custom_{attr}", value)

        register(rng, api.register_custom_attribute, attrs, func)
    return [attr for attrs in groups for attr in attrs]


def history(current, custom, size):
    """Keyed children of all types, with attributes"""
    rng, rep = current.rng, current.rep
    state = reactive({"version": 0})
    view = {"spec": None}
    keys = iter(range(10**6))

    def attributes():
        attrs = {}
        for attr in rng.sample(["one", "two", "three"], rng.randrange(3)):
            attrs[attr] = rng.randrange(5)
        for attr in custom:
            if rng.random() < 0.4:
                attrs[attr] = rng.randrange(5)
        return attrs

    def node(depth):
        name = rng.choice(list(current.names))
        n = rng.choice([0, 1, 2, 4]) if depth else 0
        return {
            "name": name,
            "spelled": current.spelled(name),
            "key": next(keys),
            "attrs": attributes(),
            "ch": [node(depth - 1) for _ in range(n)],
        }

    def build(spec):
        props = {"key": spec["key"], **spec["attrs"]}
        return h(spec["spelled"], props, *map(build, spec["ch"]))

    class Root(cg.Component):
        def render(self):
            state["version"]
            return build(view["spec"])

    def mutate(spec):
        nodes = [spec]
        for n in nodes:
            nodes.extend(n["ch"])
        target = rng.choice(nodes)
        ops = ["insert", "insert", "attrs", "insert"]
        if target["ch"]:
            ops += ["remove", "move", "shuffle", "remove", "move"]
        op = rng.choice(ops)
        ch = target["ch"]
        if op == "insert" and len(nodes) < 25:
            ch.insert(rng.randrange(len(ch) + 1), node(rng.randrange(2)))
        elif op == "remove":
            ch.pop(rng.randrange(len(ch)))
        elif op == "move":
            child = ch.pop(rng.randrange(len(ch)))
            ch.insert(rng.randrange(len(ch) + 1), child)
        elif op == "shuffle":
            rng.shuffle(ch)
        elif op == "attrs":
            # Attributes of custom setters can't be removed
            target["attrs"].update(attributes())
        return op

    view["spec"] = spec = node(2)
    spec["spelled"] = current.spelled(spec["name"])
    container = qt.app()
    gui = cg.Collagraph(
        current.renderer, event_loop_type=cg.EventLoopType.SYNC
    )
    created = []
    create = current.renderer.create_element

    def create_element(name):
        created.append(create(name))
        return created[-1]

    # Only to get hold of the root element
    current.renderer.create_element = create_element
    gui.render(h(Root, {}), container)
    root = created[0]
    roots = [el for el in created if el.parent() is None]
    if roots != [root]:
        raise Violation("roots", f"{roots}")
    objs = {}
    trail = []
    for step in range(int(4 + 12 * size)):
        compare(current, spec, root, objs, custom)
        trail.append(mutate(spec))
        rep.note(trail[-1], spec)
        rep.count("updates")
        state["version"] += 1
    compare(current, spec, root, objs, custom)
    return trail


def compare(current, spec, obj, objs, custom):
    if not isinstance(obj, current.names[spec["name"]]):
        raise Violation("class", f"{obj} for {spec['spelled']}")
    if objs.setdefault(spec["key"], obj) is not obj:
        raise Violation("identity", f"{obj} for {spec['spelled']}")
    for attr, value in spec["attrs"].items():
        name = f"custom_{attr}" if attr in custom else f"got_{attr}"
        actual = getattr(obj, name, None)
        if actual != value:
            raise Violation("attribute", f"{attr}: {actual} instead of {value}")
        other = f"got_{attr}" if attr in custom else f"custom_{attr}"
        if hasattr(obj, other):
            raise Violation("attribute-function", f"{attr} of {obj}")
    children = current.children.get(id(obj), [])
    if len(children) != len(spec["ch"]):
        raise Violation("children", f"{children} instead of {spec['ch']}")
    for child, child_spec in zip(children, spec["ch"]):
        compare(current, child_spec, child, objs, custom)


def layouts(current, size):
    """Layouts dispatch to the most derived class as well"""
    rng, rep, api = current.rng, current.rep, current.api
    tags = {}
    used = []

    class First(QtWidgets.QBoxLayout):
        def __init__(self, parent=None):
            super().__init__(QtWidgets.QBoxLayout.Direction.LeftToRight, parent)

    class Second(First):
        pass

    class Third(Second):
        pass

    classes = [First, Second, Third]

    def make(cls):
        def insert(obj, el, anchor=None):
            expected = next(tags[t] for t in type(obj).__mro__ if t in tags)
            if expected is not cls:
                raise Violation("layout-function", f"another function for {obj}")
            used.append(cls)
            index = obj.count()
            if anchor is not None:
                index = obj.indexOf(anchor)
            obj.insertWidget(index, el)

        return insert

    registered = [cls for cls in classes if rng.random() < 0.5]
    rng.shuffle(registered)
    for cls in registered:
        tags[cls] = cls
        register(rng, api.register_insert, [cls], make(cls))
    for number, cls in enumerate(classes):
        name = f"{current.prefix}layout" + ("" if number == 0 else str(number))
        spelled = respell(rng, name)
        if rng.random() < 0.5:
            api.register_layout(spelled, cls)
        else:
            returned = api.register_layout(spelled)(cls)
            if returned is not cls:
                raise Violation("decorator", f"{returned} instead of {cls}")
    number = rng.randrange(3)
    name = f"{current.prefix}layout" + ("" if number == 0 else str(number))
    state = reactive({"keys": rng.sample(range(8), rng.randrange(6))})
    spelled = respell(rng, name)

    class Root(cg.Component):
        def render(self):
            return h(
                "widget",
                {"object_name": f"{name}root", "layout": {"type": spelled}},
                *[
                    h("label", {"key": key, "object_name": f"n{key}"})
                    for key in self.props["keys"]
                ],
            )

    renderer = PySideRenderer(autoshow=False)
    gui = cg.Collagraph(renderer, event_loop_type=cg.EventLoopType.SYNC)
    gui.render(h(Root, state), qt.app())
    found = [
        w for w in qt.app().topLevelWidgets() if w.objectName() == f"{name}root"
    ]
    if len(found) != 1:
        raise Violation("layout-root", f"{found}")
    for _ in range(int(2 + 4 * size)):
        layout = found[0].layout()
        if not isinstance(layout, classes[number]):
            raise Violation("layout", f"{layout} for {spelled}")
        actual = [w.objectName() for w in qt.layout_widgets(found[0])]
        expected = [f"n{key}" for key in state["keys"]]
        rep.count("layout children compared", len(expected))
        if actual != expected:
            raise Violation("layout-children", f"{actual} instead of {expected}")
        count = len(used)
        before = set(state["keys"])
        state["keys"] = rng.sample(range(8), rng.randrange(6))
        after = set(state["keys"])
        if any(t in tags for t in classes[number].__mro__) and after - before:
            if len(used) == count:
                raise Violation("layout-unused", "the registered function isn't used")
