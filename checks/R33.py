from PySide6 import QtCore, QtGui, QtWidgets
from collagraph.renderers import PySideRenderer

from lib import qt, tk
from lib.harness import Violation

QUICK, THOROUGH = 260, 9000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of Qt widgets of 20 types with random attributes "
    "(properties in kebab- and snake-case, multi-argument setters, enumerations, size, "
    "layout settings, items of comboboxes, buttons of button boxes, custom attributes) "
    "with a history of changes: attributes are added, changed and removed, elements are "
    "inserted, moved and removed, and attributes that aren't described are altered from "
    "outside. After each update all attributes of all elements are read by means of Qt: "
    "described ones, those altered from outside and those that should have the value of "
    "a new object. Names of elements are written in different ways in each case, so that "
    "the renderer sees new types all the time. Distinct: by changes and final tree."
)
MIN = {
    "updates": 500,
    "attributes compared": 5000,
    "defaults compared": 5000,
    "perturbed attributes compared": 500,
}
ASSUMPTIONS = [
    "the offscreen platform of Qt",
    "attributes don't depend on one another (such as value and maximum of a slider)",
    "attributes that aren't Qt properties or custom attributes aren't removed",
    "settings aren't removed from the layout attribute",
]
Qt = QtCore.Qt
BUTTONS = ["Ok", "Cancel", "Apply", "Reset", "Help"]


def setter(name):
    method = "set" + name[0].upper() + name[1:]

    def write(obj, value):
        getattr(obj, method)(*value if isinstance(value, tuple) else [value])

    return write


def both(name):
    """snake_case and kebab-case"""
    snake = "".join(f"_{c.lower()}" if c.isupper() else c for c in name)
    return snake, [snake, snake.replace("_", "-")]


def prop(name, gen, convert=None, write=True, **kwargs):
    """Qt property that can be described, altered from outside and removed"""
    snake, names = both(name)
    read = lambda obj: obj.property(name)  # noqa: E731
    if convert:
        read = lambda obj: convert(obj.property(name))  # noqa: E731
    return snake, tk.Attr(
        gen, read, names=names, write=setter(name) if write else None, **kwargs
    )


def size(name):
    convert = lambda value: (value.width(), value.height())  # noqa: E731
    sizes = qt.number((10, 20), (30, 40), (5, 0), (110, 7))
    return prop(name, sizes, convert, build=tuple, norm=tuple)


def enum(name, cls, *names):
    # PySide sometimes returns numbers as the value of a property
    convert = lambda value: cls(value) if isinstance(value, int) else value  # noqa: E731
    get = lambda value: getattr(cls, value)  # noqa: E731
    return prop(name, qt.number(*names), convert, build=get, norm=get)


MISSING = "missing"


def custom(name, *options):
    """Not known to Qt: set as attribute of the object"""
    snake, names = both(name)

    def gen(rng):
        return rng.choice(options)

    attr = tk.Attr(gen, lambda obj: getattr(obj, snake, MISSING))
    attr.default = (MISSING,)
    return snake, attr


def call(name, gen, read, **kwargs):
    """No property, but with a setter. So it can't be removed."""
    snake, names = both(name)
    if name == "gridIndex":
        # Attributes that are custom for collagraph have just one name
        names = [snake]
    return snake, tk.Attr(gen, read, names=names, required=True, **kwargs)


def general():
    # Whether it's disabled by itself instead of by its parent
    disabled = Qt.WidgetAttribute.WA_ForceDisabled
    yield "enabled", tk.Attr(
        qt.flag(), lambda obj: not obj.testAttribute(disabled), write=setter("enabled")
    )
    yield prop("toolTip", qt.text())
    yield size("baseSize")
    yield prop("styleSheet", qt.number("", "color: red", "QLabel { color: blue }"))
    yield size("sizeIncrement")
    yield prop("accessibleName", qt.text())
    yield prop("acceptDrops", qt.flag())
    yield enum(
        "contextMenuPolicy",
        Qt.ContextMenuPolicy,
        "NoContextMenu",
        "CustomContextMenu",
        "ActionsContextMenu",
    )
    yield custom("my_value", 1, "two", (3, 4), True, [])
    yield custom("other", 0, "", False, [1])


def items(obj):
    return [obj.itemText(i) for i in range(obj.count())]


def gen_items(rng):
    return [rng.choice("abcdef") for _ in range(rng.choice([3, 3, 4, 5, 8]))]


def gen_any_items(rng):
    return [rng.choice("abcdef") for _ in range(rng.choice([0, 0, 1, 2, 3, 8]))]


def standard_buttons(obj):
    flags = QtWidgets.QDialogButtonBox.StandardButton
    found = [name for name in BUTTONS if obj.button(getattr(flags, name)) is not None]
    actual = [obj.standardButton(button) for button in obj.buttons()]
    if len(actual) != len(found):
        raise Violation("buttons", f"{actual} instead of {found}")
    return found


def gen_buttons(rng):
    return rng.sample(BUTTONS, rng.randrange(len(BUTTONS)))


def layout_read(obj):
    layout = obj.layout()
    margins = layout.contentsMargins()
    return [
        layout.spacing(),
        (margins.left(), margins.top(), margins.right(), margins.bottom()),
    ]


def layout_gen(**kwargs):
    def gen(rng):
        return {
            "spacing": rng.choice([0, 3, 12]),
            "contents_margins": [rng.randrange(20) for _ in range(4)],
            **{key: val(rng) if callable(val) else val for key, val in kwargs.items()},
        }

    return gen


def layout_build(value):
    value = dict(value, contents_margins=tuple(value["contents_margins"]))
    for key in ("column_stretch", "row_stretch"):
        if key in value:
            value[key] = [tuple(pair) for pair in value[key]]
    # Not all at the same time
    return value


def stretches(rng):
    return [[i, rng.randrange(5)] for i in range(3)]


def layout_attr(gen, read, norm):
    return "layout", tk.Attr(
        gen,
        lambda obj: layout_read(obj) + read(obj.layout()),
        build=layout_build,
        norm=lambda v: [v["spacing"], tuple(v["contents_margins"])] + norm(v),
        required=True,
    )


def grid_attr():
    return layout_attr(
        layout_gen(type="Grid", column_stretch=stretches, row_stretch=stretches),
        lambda layout: [[layout.columnStretch(i), layout.rowStretch(i)] for i in range(3)],
        lambda v: [
            [c[1], r[1]] for c, r in zip(v["column_stretch"], v["row_stretch"])
        ],
    )


def box_attr():
    directions = ["TopToBottom", "LeftToRight", "RightToLeft", "BottomToTop"]
    return layout_attr(
        layout_gen(type="box", direction=qt.number(*directions)),
        lambda layout: [layout.direction().name],
        lambda v: [v["direction"]],
    )


def types(names):
    leaves = []

    def leaf(name, cls, *attrs, common=True, **kwargs):
        every = dict(attrs)
        if common:
            every.update(general())
        leaves.append(name)
        typ = tk.Type(
            name,
            new=cls,
            names=[names(name), names(cls.__name__)],
            attrs=every,
            weight=1,
            **kwargs,
        )
        for key, attr in typ.attrs.items():
            if attr.default is None and not attr.required:
                attr.default = default(cls, (name, key), attr)
        return typ

    W = QtWidgets
    yield leaf(
        "label",
        W.QLabel,
        prop("text", qt.text()),
        prop("wordWrap", qt.flag()),
        prop("indent", qt.number(0, 4, 9)),
        enum("textFormat", Qt.TextFormat, "PlainText", "RichText", "MarkdownText"),
    )
    yield leaf(
        "button",
        W.QPushButton,
        prop("text", qt.text()),
        prop("flat", qt.flag()),
        prop("maximumHeight", qt.number(50, 100, 16777215, 77)),
        prop("minimumWidth", qt.number(0, 10, 33, 120)),
        prop("autoRepeatDelay", qt.number(10, 100)),
    )
    yield leaf("checkbox", W.QCheckBox, prop("text", qt.text()), prop("checked", qt.flag()))
    yield leaf("radiobutton", W.QRadioButton, prop("text", qt.text()))
    yield leaf(
        "lineedit",
        W.QLineEdit,
        prop("text", qt.text()),
        prop("placeholderText", qt.text()),
        prop("readOnly", qt.flag()),
        prop("maxLength", qt.number(100, 200)),
        enum("echoMode", W.QLineEdit.EchoMode, "Password", "NoEcho", "Normal"),
    )
    yield leaf(
        "textedit",
        W.QTextEdit,
        prop("plainText", qt.text()),
        prop("undoRedoEnabled", qt.flag()),
        prop("tabStopDistance", qt.number(20.0, 32.5)),
    )
    yield leaf(
        "slider",
        W.QSlider,
        call(
            "range",
            lambda rng: [rng.randrange(3), rng.randrange(100, 120)],
            lambda obj: [obj.minimum(), obj.maximum()],
            build=tuple,
        ),
        prop("value", qt.number(10, 50, 99), required=True),
        prop("tickInterval", qt.number(5, 10)),
        enum("orientation", Qt.Orientation, "Horizontal", "Vertical"),
    )
    yield leaf(
        "spinbox",
        W.QSpinBox,
        prop("prefix", qt.number("", "$", "€")),
        prop("suffix", qt.number("", "kg")),
        prop("singleStep", qt.number(1, 5)),
        prop("value", qt.number(0, 5, 99)),
    )
    yield leaf("progessbar", W.QProgressBar, prop("textVisible", qt.flag()))
    yield leaf(
        "combobox",
        W.QComboBox,
        call("items", gen_items, items, write=None),
        prop("currentIndex", qt.number(0, 1, 2), required=True),
        prop("maxVisibleItems", qt.number(3, 20)),
    )
    # Without an index that depends on the items
    yield leaf(
        "QComboBox",
        W.QComboBox,
        call("items", gen_any_items, items, write=None),
        common=False,
    )
    yield leaf(
        "dialogbuttonbox",
        W.QDialogButtonBox,
        call(
            "buttons",
            gen_buttons,
            standard_buttons,
            norm=lambda value: [name for name in BUTTONS if name in value],
        ),
        prop("centerButtons", qt.flag()),
    )
    yield leaf(
        "statusbar",
        W.QStatusBar,
        call(
            "text",
            lambda rng: rng.choice(["foo", "", ["baz", 100000], ["qux", 0]]),
            lambda obj: obj.currentMessage(),
            build=lambda value: tuple(value) if isinstance(value, list) else value,
            norm=lambda value: value[0] if isinstance(value, list) else value,
        ),
        prop("sizeGripEnabled", qt.flag()),
        unique="statusbar",
    )
    yield leaf(
        "fixed",
        W.QFrame,
        call(
            "fixedSize",
            lambda rng: [rng.randrange(1, 50), rng.randrange(1, 50)],
            lambda obj: [obj.maximumWidth(), obj.minimumHeight()],
            build=tuple,
        ),
        prop("lineWidth", qt.number(1, 2, 3)),
        prop("toolTip", qt.text()),
        common=False,
    )
    yield leaf(
        "action",
        QtGui.QAction,
        prop("text", qt.text()),
        prop("checkable", qt.flag()),
        prop("enabled", qt.flag()),
        prop("whatsThis", qt.number("foo", "bar")),
        custom("my_value", 1, "two"),
        common=False,
    )
    leaves.remove("action")
    leaves.remove("statusbar")
    inner = list(leaves)
    more = ["group", "grid", "box", "scroll"]
    for name, cls, attrs, children in [
        (
            "group",
            W.QGroupBox,
            [prop("title", qt.text()), prop("flat", qt.flag())],
            qt.layout_widgets,
        ),
        ("box", W.QWidget, [box_attr()], qt.layout_widgets),
        ("scroll", W.QScrollArea, [prop("widgetResizable", qt.flag())], single),
    ]:
        yield leaf(
            name,
            cls,
            *attrs,
            takes=inner + more,
            children=children,
            limit=1 if name == "scroll" else 8,
        )
    yield leaf(
        "grid",
        W.QWidget,
        grid_attr(),
        takes=["cell"],
        children=qt.layout_widgets,
        limit=8,
        ordered=False,
    )
    yield leaf(
        "cell",
        W.QLabel,
        call(
            "gridIndex",
            lambda rng: [rng.randrange(9), rng.randrange(9)],
            position,
            build=tuple,
        ),
    )
    bar = dict(takes=["action"], ordered=False, children=actions)
    yield leaf("toolbar", W.QToolBar, prop("movable", qt.flag()), **bar)
    yield leaf(
        "window",
        W.QMainWindow,
        prop("windowTitle", qt.text()),
        prop("documentMode", qt.flag()),
        call(
            "size",
            lambda rng: [rng.randrange(2000, 2900), rng.randrange(2000, 2900)],
            lambda obj: [obj.width(), obj.height()],
            build=tuple,
        ),
        takes=["central", "toolbar", "statusbar", "dock"],
        children=window_children,
        limit=5,
        ordered=False,
    )
    yield leaf(
        "central",
        W.QWidget,
        prop("windowTitle", qt.text()),
        takes=inner + more,
        children=qt.layout_widgets,
        unique="central",
    )
    yield leaf(
        "dock",
        W.QDockWidget,
        prop("windowTitle", qt.text()),
        takes=inner,
        limit=1,
        children=single,
        sticky=["area"],
        extra=lambda rng, parent: {"area": Qt.DockWidgetArea.LeftDockWidgetArea.value},
    )


def single(obj):
    return [] if obj.widget() is None else [obj.widget()]


def actions(obj):
    return [action for action in obj.actions() if action.objectName()]


def window_children(obj):
    option = QtCore.Qt.FindChildOption.FindDirectChildrenOnly
    found = obj.findChildren(QtWidgets.QWidget, options=option)
    return [w for w in found if w.objectName()]


def position(obj):
    layout = obj.parent().layout()
    return list(layout.getItemPosition(layout.indexOf(obj)))[:2]


ROOTS = ["box", "group", "grid", "scroll", "window", "window", "box"]
COLLECT_IN_BETWEEN = True
DEFAULTS = {}


def default(cls, key, attr):
    if key not in DEFAULTS:
        DEFAULTS[key] = (attr.read(cls()),)
    return DEFAULTS[key]


def setup():
    qt.app()


def scramble(rng):
    """Element names in different ways, so that types are new for the renderer"""
    special = {
        "fixed": "QFrame",
        "group": "groupbox",
        "box": "widget",
        "grid": "widget",
        "scroll": "scrollarea",
        "cell": "label",
        "central": "widget",
    }

    def name_for(name):
        name = special.get(name, name)
        name = "".join(rng.choice([c.upper(), c.lower()]) for c in name)
        return name

    return name_for


def case(rng, rep, size):
    name_for = scramble(rng)
    schema = {typ.name: typ for typ in types(name_for)}
    toolkit = Named(
        rep,
        schema,
        ROOTS,
        PySideRenderer(autoshow=rng.random() < 0.3),
        qt.app(),
        name_prop="object_name",
        name_of=lambda obj: obj.objectName(),
        max_size=25,
        wrap=0.1,
    )
    try:
        run(rng, rep, size, toolkit)
    finally:
        qt.clean_up()


class Named(tk.Toolkit):
    def build(self, spec):
        if spec["k"] == "el" and "area" in spec["a"]:
            area = Qt.DockWidgetArea(spec["a"]["area"])
            spec = dict(spec, a=dict(spec["a"], area=area))
        return super().build(spec)


def run(rng, rep, size, toolkit):
    def root():
        if rng.random() < 0.5:
            qt.process()
        if toolkit.inst.obj is not None:
            return toolkit.inst.obj
        widgets = qt.app().allWidgets()
        name = toolkit.spec["key"]
        found = [w for w in widgets if qt.alive(w) and w.objectName() == name]
        if len(found) != 1:
            raise Violation("root", f"{found}")
        return found[0]

    def monitor(obj, names):
        objs = toolkit.check(obj)
        if rng.random() < 0.5:
            toolkit.perturb(rng, objs.values(), 0.05)
            # Disabling parents also disables children, for instance
            toolkit.check(obj)

    first = toolkit.gen
    toolkit.gen = lambda rng, name, depth, parent=None, key=None: first(
        rng, name, depth, parent, key or "root"
    )
    tk.history(rng, rep, size, toolkit, root, monitor)
