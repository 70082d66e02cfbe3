from PySide6 import QtCore, QtWidgets

from collagraph.renderers import PySideRenderer

from lib import qt, tk
from lib.harness import Violation

QUICK, THOROUGH = 450, 12000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of Qt widgets (box, grid, form and stacked layouts, "
    "splitters, tabs, group boxes, scroll areas, button boxes, docks, windows with "
    "bars, dialogs), nested in fragments and components, with a history of random changes (insert, "
    "remove, move, shuffle, replace, transfer to another parent, insert with an earlier "
    "key, attributes). After each update the widgets in each container are listed by "
    "means of Qt and compared with the description: order or place, identity, labels, "
    "visibility; what has been removed isn't part of the hierarchy anymore. "
    "Distinct: by the changes and the final tree."
)
MIN = {"updates": 500, "elements compared": 3000, "visible": 500, "removed objects": 200}
ASSUMPTIONS = [
    "the offscreen platform of Qt",
    "dialogs are described after their siblings",
    "the type of a layout and the area of a dock or toolbar don't change",
    "no order of the widgets in a status bar",
]
AREAS = {
    "left": QtCore.Qt.DockWidgetArea.LeftDockWidgetArea,
    "right": QtCore.Qt.DockWidgetArea.RightDockWidgetArea,
}
BAR_AREAS = {
    "top": QtCore.Qt.ToolBarArea.TopToolBarArea,
    "left": QtCore.Qt.ToolBarArea.LeftToolBarArea,
}
WIDGETS = [
    "label",
    "button",
    "lineedit",
    "widget",
    "hbox",
    "group",
    "stacked",
    "grid",
    "form",
    "splitter",
    "tab",
    "scroll",
    "buttonbox",
]
ROLES = ["AcceptRole", "RejectRole", "HelpRole", "ActionRole"]


def extra(rng, parent):
    """What the parent needs to know about its children"""
    if parent == "grid":
        cell = [rng.randrange(30), rng.randrange(20)]
        return {"grid_index": tuple(cell + rng.choice([[], [], [2, 1]]))}
    if parent == "form":
        return {"form_label": rng.choice(["a", "", "long label"])}
    if parent == "tab":
        return {"tab_label": rng.choice(["one", "two", "three"])}
    if parent == "dock" and rng.random() < 0.3:
        return {"title": True}
    if parent == "buttonbox":
        return {"role": rng.choice(ROLES)}
    return {}


def dialogs(obj):
    children = obj.findChildren(
        QtWidgets.QDialog, options=QtCore.Qt.FindChildOption.FindDirectChildrenOnly
    )
    return sorted(children, key=lambda d: d.objectName())


def layout_children(obj):
    # Without the labels of forms
    return [w for w in qt.layout_widgets(obj) if w.objectName()] + dialogs(obj)


def extra_group(rng, parent):
    # Group boxes have a title of their own
    return {} if parent == "dock" else extra(rng, parent)


def dock_children(obj):
    title = obj.titleBarWidget()
    return ([] if title is None else [title]) + single(obj) + dialogs(obj)


def check_dock(toolkit, inst, children):
    for child in children:
        if child.spec["t"] == "dialog":
            continue
        actual = inst.obj.titleBarWidget() is child.obj
        # Group boxes have a title of their own
        title = "title" in child.spec["a"] and child.spec["t"] != "group"
        if actual is not title:
            raise Violation("dock-title", f"{actual} for {child.spec['a']}")


def pages(obj):
    return [obj.widget(i) for i in range(obj.count())]


def single(obj):
    widget = obj.widget()
    return [] if widget is None else [widget]


def direct(obj, *types):
    option = QtCore.Qt.FindChildOption.FindDirectChildrenOnly
    return [w for t in types for w in obj.findChildren(t, options=option)]


def window_children(obj):
    # Only those that have been described: Qt might create some by itself
    found = [obj.centralWidget()] if obj.centralWidget() is not None else []
    found += direct(obj, QtWidgets.QDockWidget, QtWidgets.QToolBar)
    found += direct(obj, QtWidgets.QMenuBar, QtWidgets.QStatusBar)
    return [w for w in found if w.objectName()] + dialogs(obj)


def check_grid(toolkit, inst, children):
    layout = inst.obj.layout()
    for child in children:
        if toolkit.schema[child.spec["t"]].floating:
            continue
        expected = child.spec["a"]["grid_index"]
        expected = (*expected, 1, 1)[:4] if len(expected) == 2 else expected
        actual = layout.getItemPosition(layout.indexOf(child.obj))
        if tuple(actual) != tuple(expected):
            raise Violation("grid-index", f"{actual} instead of {expected}")


def check_form(toolkit, inst, children):
    layout = inst.obj.layout()
    children = [c for c in children if not toolkit.schema[c.spec["t"]].floating]
    if children and layout.rowCount() != len(children):
        raise Violation("form-rows", f"{layout.rowCount()} rows for {len(children)}")
    for row, child in enumerate(children):
        found, _ = layout.getWidgetPosition(child.obj)
        if found != row:
            raise Violation("form-row", f"{found} instead of {row}")
        label = layout.labelForField(child.obj)
        text = label.text() if label is not None else ""
        if text != child.spec["a"]["form_label"]:
            raise Violation("form-label", f"{text} in {child.spec['a']}")
    # Also the labels should be gone, together with the rows
    labels = [w for w in direct(inst.obj, QtWidgets.QLabel) if not w.objectName()]
    expected = sum(1 for child in children if child.spec["a"]["form_label"])
    if len(labels) != expected:
        raise Violation("form-labels", f"{len(labels)} labels instead of {expected}")


def standard(box, button):
    return box.standardButton(button).name


def check_buttons(toolkit, inst, children):
    for child in children:
        actual = inst.obj.buttonRole(child.obj).name
        if actual != child.spec["a"]["role"]:
            raise Violation("button-role", f"{actual} instead of {child.spec['a']}")


def check_dialog(toolkit, inst, children):
    if inst.obj.windowType() != QtCore.Qt.WindowType.Dialog:
        raise Violation("dialog", f"{inst.obj} is a {inst.obj.windowType()}")


def check_tab(toolkit, inst, children):
    for idx, child in enumerate(children):
        actual = inst.obj.tabText(idx)
        if actual != child.spec["a"]["tab_label"]:
            raise Violation("tab-label", f"{actual} instead of {child.spec['a']}")


def check_window(toolkit, inst, children):
    for child in children:
        name, obj = child.spec["t"], child.obj
        if name == "dock":
            actual = inst.obj.dockWidgetArea(obj)
            if actual != AREAS[child.spec["a"]["area"]]:
                raise Violation("dock-area", f"{actual} for {child.spec['a']}")
        elif name == "toolbar" and "area" in child.spec["a"]:
            actual = inst.obj.toolBarArea(obj)
            if actual != BAR_AREAS[child.spec["a"]["area"]]:
                raise Violation("toolbar-area", f"{actual} for {child.spec['a']}")
        elif name == "menubar" and inst.obj.menuWidget() is not obj:
            raise Violation("menubar", f"{inst.obj.menuWidget()} instead of {obj}")
        elif name == "statusbar" and inst.obj.statusBar() is not obj:
            raise Violation("statusbar", f"{inst.obj.statusBar()} instead of {obj}")


def perturb_tab(obj, rng):
    if obj.count():
        obj.setCurrentIndex(rng.randrange(obj.count()))


def types():
    takes = WIDGETS

    def widget(name, cls=QtWidgets.QWidget, layout=None, takes=takes, **kwargs):
        attrs = dict(kwargs.pop("attrs", {}))
        if layout:
            attrs["layout"] = tk.Attr(
                lambda rng: layout, lambda obj: None, required=True
            )
            attrs["layout"].read = None
        kwargs.setdefault("children", layout_children)
        kwargs.setdefault("extra", extra)
        if takes is WIDGETS and name not in ("tab", "splitter", "scroll", "stacked"):
            takes = WIDGETS + ["dialog"]
        kwargs.setdefault("sticky", ["title"])
        return tk.Type(
            name, new=cls, attrs=attrs, takes=takes, weight=1, **kwargs
        )

    direction = tk.Attr(
        lambda rng: {
            "type": rng.choice(["Box", "box"]),
            "direction": rng.choice(["LeftToRight", "RightToLeft", "BottomToTop"]),
        },
        lambda obj: obj.layout().direction().name,
        norm=lambda value: value["direction"],
        required=True,
    )
    # Besides the buttons that are elements
    buttons = tk.Attr(
        lambda rng: rng.sample(["Apply", "Cancel", "Ok"], rng.randrange(4)),
        lambda obj: sorted({standard(obj, b) for b in obj.buttons()} - {"NoButton"}),
        norm=sorted,
        required=True,
    )
    yield qt.label(extra=extra, sticky=["title"], weight=3)
    yield qt.button(extra=extra, sticky=["title", "role"], weight=2)
    yield qt.lineedit(extra=extra, sticky=["title"], weight=2)
    yield widget("widget", names=["widget", "Widget", "QWidget"])
    yield widget("hbox", attrs={"layout": direction}, names=["widget"])
    yield widget(
        "group",
        QtWidgets.QGroupBox,
        attrs={"title": qt.prop(qt.text(), "title")},
        names=["groupbox", "group-box"],
        extra=extra_group,
    )
    yield widget("stacked", layout={"type": "Stacked"}, names=["Widget"])
    yield widget(
        "grid", layout={"type": "Grid"}, names=["widget"], ordered=False, check=check_grid
    )
    yield widget("form", layout={"type": "form"}, names=["widget"], check=check_form)
    yield widget(
        "splitter", QtWidgets.QSplitter, names=["qsplitter", "QSplitter"], children=pages
    )
    yield widget(
        "buttonbox",
        QtWidgets.QDialogButtonBox,
        names=["dialogbuttonbox", "QDialogButtonBox"],
        takes=["button"],
        ordered=False,
        children=lambda obj: [b for b in obj.buttons() if standard(obj, b) == "NoButton"],
        check=check_buttons,
        attrs={"buttons": buttons},
    )
    yield widget(
        "tab",
        QtWidgets.QTabWidget,
        names=["qtabwidget", "QTabWidget"],
        children=pages,
        check=check_tab,
        perturb=perturb_tab,
    )
    yield widget(
        "scroll",
        QtWidgets.QScrollArea,
        names=["scroll-area", "scrollarea"],
        children=single,
        limit=1,
    )
    yield widget(
        "dialog",
        QtWidgets.QDialog,
        names=["QDialog", "qdialog"],
        floating=True,
        extra=None,
        check=check_dialog,
    )
    yield widget(
        "dock",
        QtWidgets.QDockWidget,
        names=["dock", "QDockWidget"],
        children=dock_children,
        check=check_dock,
        limit=1,
        sticky=["area"],
        extra=lambda rng, parent: {"area": rng.choice(list(AREAS))},
    )
    yield widget("menubar", QtWidgets.QMenuBar, takes=[], unique="menubar", extra=None)
    yield widget(
        "statusbar",
        QtWidgets.QStatusBar,
        takes=["label", "button"],
        unique="statusbar",
        extra=None,
        ordered=False,
        children=lambda obj: [w for w in direct(obj, QtWidgets.QWidget) if w.objectName()],
    )
    yield widget(
        "toolbar",
        QtWidgets.QToolBar,
        takes=[],
        sticky=["area"],
        extra=lambda rng, parent: (
            {"area": rng.choice(list(BAR_AREAS))} if rng.random() < 0.5 else {}
        ),
    )
    central = []
    for name in WIDGETS:
        if name in ("label", "stacked", "form", "splitter", "scroll", "widget"):
            central.append(name)
    yield widget(
        "window",
        QtWidgets.QMainWindow,
        takes=["dock", "toolbar", "menubar", "statusbar", "central", "dialog"],
        limit=7,
        names=["window", "Window", "QMainWindow"],
        children=window_children,
        check=check_window,
        ordered=False,
        extra=None,
    )
    yield widget("central", names=["widget"], unique="central", extra=None)


SCHEMA = {typ.name: typ for typ in types()}
ROOTS = ["window", "window", "widget", "hbox", "group", "grid", "form", "splitter", "tab"]
COLLECT_IN_BETWEEN = True


class Areas(tk.Toolkit):
    """Areas are described by name"""

    def build(self, spec):
        if spec["k"] == "el" and "area" in spec["a"]:
            areas = AREAS if spec["t"] == "dock" else BAR_AREAS
            spec = dict(spec, a=dict(spec["a"], area=areas[spec["a"]["area"]]))
        return super().build(spec)


def setup():
    qt.app()


def case(rng, rep, size):
    shown = rng.random() < 0.7
    toolkit = Areas(
        rep,
        SCHEMA,
        ROOTS,
        PySideRenderer(autoshow=shown),
        qt.app(),
        name_prop="object_name",
        name_of=lambda obj: obj.objectName(),
        max_size=30,
    )
    try:
        run(rng, rep, size, toolkit, shown)
    finally:
        qt.clean_up()


def run(rng, rep, size, toolkit, shown):
    current = {}

    def root():
        # Qt shows new widgets by means of an event, so a widget that's removed before
        # that event was processed might be shown after all
        if shown or rng.random() < 0.7:
            qt.process()
        if toolkit.inst.obj is not None:
            return toolkit.inst.obj
        # The first time
        name = toolkit.spec["key"]
        found = [w for w in all_widgets() if w.objectName() == name]
        if len(found) != 1:
            raise Violation("root", f"{found}")
        return found[0]

    def all_widgets():
        return [w for w in qt.app().allWidgets() if qt.alive(w)]

    def monitor(obj, names):
        nonlocal current
        objs = toolkit.check(obj)
        qt.check_valid([inst.obj for inst in objs.values()])
        new = {inst.obj: inst for inst in objs.values()}
        for old in current:
            if old not in new and qt.alive(old):
                rep.count("removed objects")
                check_removed(old, obj, shown)
        current = new
        for inst in list(objs.values()):
            check_parents(toolkit, inst)
        if shown:
            qt.process()
            visible = [
                child
                for inst in objs.values()
                if inst.spec["t"] not in ("tab", "stacked", "statusbar", "splitter")
                for child in inst.elements()
            ]
            for inst in visible:
                rep.count("visible")
                if inst.obj.isHidden():
                    raise Violation("hidden", f"{inst.obj} is hidden")
        for inst in objs.values():
            perturb = toolkit.schema[inst.spec["t"]].perturb
            if perturb and rng.random() < 0.3:
                perturb(inst.obj, rng)

    first = toolkit.gen
    toolkit.gen = lambda rng, name, depth, parent=None, key=None: first(
        rng, name, depth, parent, key or "root"
    )
    tk.history(rng, rep, size, toolkit, root, monitor)


def ancestor_of(obj):
    while obj.parent() is not None:
        obj = obj.parent()
    return obj


def in_dialog(obj):
    """Whether the object is in a dialog that's part of something else"""
    while obj is not None:
        if isinstance(obj, QtWidgets.QDialog) and obj.parent() is not None:
            return True
        obj = obj.parent()
    return False


def check_removed(old, root, shown):
    """Removed widgets are neither part of the hierarchy nor visible"""
    ancestor = old
    while ancestor is not None:
        if ancestor is root:
            if not isinstance(old, QtWidgets.QDialog):
                raise Violation("removed-in-hierarchy", f"{old} in {old.parent()}")
        ancestor = ancestor.parent()
    if ancestor_of(old) is not root and in_dialog(old):
        # Dialogs disappear once the parent that has been removed is destroyed
        return
    if shown and old.isVisible():
        raise Violation("removed-visible", f"{old} is still visible")


def check_parents(toolkit, inst):
    """All children are descendants of their parents"""
    for child in inst.elements():
        ancestor = child.obj.parent()
        while ancestor is not None and ancestor is not inst.obj:
            ancestor = ancestor.parent()
        if ancestor is None:
            raise Violation("parent", f"{child.obj.parent()} of {child.obj}")
