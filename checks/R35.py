from PySide6 import QtCore, QtGui, QtWidgets

from collagraph.renderers import PySideRenderer

from lib import qt, tk
from lib.harness import Violation

QUICK, THOROUGH = 500, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a window with a menu bar of nested menus with actions and toolbars of "
    "actions and widgets, or a tree widget of nested items, or a view with an item "
    "model of nested standard items and a selection model, with fragments and "
    "components in between, and a history of random changes (insert, remove, move, "
    "shuffle, replace, insert with an earlier key, attributes). Users expand, collapse "
    "and select tree items of which that's not described. After each update entries, "
    "items, rows and tools are listed by means of Qt and compared with the description: "
    "order, identity, texts, expanded and selected state, nested content; actions are "
    "triggered and reach exactly their handlers. Items with a place in the model are "
    "moved to other (free) places. Distinct: by the changes and the final tree."
)
MIN = {
    "updates": 500,
    "elements compared": 3000,
    "expanded compared": 500,
    "events fired": 300,
    "tools visible": 100,
    "places compared": 100,
}
ASSUMPTIONS = [
    "the offscreen platform of Qt",
    "items with a model_index aren't removed and move to places that are free",
    "a selection model is replaced together with the item model",
    "tree widgets with several selected items",
]
COLLECT_IN_BETWEEN = True
# Texts of tree items have the same columns all the time or fewer
CONTENT = ["", "a", "b", "c c"]


STATE = {"expanded", "selected"}


def texts(rng):
    columns = rng.choice([[0], [0, 1], [0, 1, 2], [1]])
    return {str(col): rng.choice(CONTENT) for col in columns}


def read_texts(item):
    return {str(col): item.text(col) for col in range(3) if item.text(col)}


def entries(obj):
    """Entries of menus and menu bars"""
    return [action.menu() or action for action in obj.actions()]


def tools(obj):
    result = []
    for action in obj.actions():
        if isinstance(action, QtWidgets.QWidgetAction):
            result.append(action.defaultWidget())
        else:
            result.append(action)
    return result


def tree_items(obj):
    if isinstance(obj, QtWidgets.QTreeWidget):
        return [obj.topLevelItem(i) for i in range(obj.topLevelItemCount())]
    return [obj.child(i) for i in range(obj.childCount())]


def rows(obj):
    if isinstance(obj, QtGui.QStandardItemModel):
        return [obj.item(i) for i in range(obj.rowCount())]
    return [obj.child(i) for i in range(obj.rowCount())]


def view_children(obj):
    result = [] if obj.model() is None else [obj.model()]
    selection = obj.selectionModel()
    if selection is not None and selection.objectName():
        result.append(selection)
    return result


def bars(obj):
    option = QtCore.Qt.FindChildOption.FindDirectChildrenOnly
    types = (QtWidgets.QMenuBar, QtWidgets.QToolBar)
    found = [w for t in types for w in obj.findChildren(t, options=option)]
    return sorted((w for w in found if w.objectName()), key=lambda w: w.objectName())


def item_extra(rng, parent):
    return {
        name: rng.random() < 0.5
        for name in ("expanded", "selected")
        if rng.random() < 0.6
    }


def check_item(toolkit, inst, children):
    """State of items, either described or changed by the user"""
    actual = {"expanded": inst.obj.isExpanded(), "selected": inst.obj.isSelected()}
    for name, value in actual.items():
        expected = inst.spec["a"].get(name, inst.perturbed.get(name, False))
        toolkit.rep.count("expanded compared")
        if value is not expected:
            raise Violation(
                f"item-{name}", f"{value} instead of {expected}: {inst.spec}"
            )


def perturb_items(toolkit, rng, insts):
    for inst in insts:
        if inst.spec["t"] != "item" or rng.random() > 0.2:
            continue
        for name, setter in (("expanded", "setExpanded"), ("selected", "setSelected")):
            if name not in inst.spec["a"] and rng.random() < 0.5:
                value = rng.random() < 0.6
                getattr(inst.obj, setter)(value)
                inst.perturbed[name] = value
                toolkit.rep.count("changes by the user")


def check_tools(toolkit, inst, children):
    for child in children:
        if not isinstance(child.obj, QtWidgets.QWidget):
            continue
        ancestor = child.obj.parent()
        if ancestor is not inst.obj:
            raise Violation("tool-parent", f"{child.obj}: {ancestor}")


def check_view(toolkit, inst, children):
    for child in children:
        if child.spec["t"] == "selection" and child.obj.model() is not inst.obj.model():
            raise Violation("selection-model", f"{child.obj.model()}")


def check_bar(toolkit, inst, children):
    if inst.obj.parent() is None:
        raise Violation("bar-parent", f"{inst.obj} has no parent")


def standard_prop(name, gen, getter):
    return name, tk.Attr(gen, lambda obj: getattr(obj, getter)(), required=True)


def trigger(obj, rng):
    if not obj.isEnabled():
        return NotImplemented
    obj.trigger()
    return (False,)


def types():
    yield tk.Type(
        "action",
        new=QtGui.QAction,
        names=["action", "QAction", "Action"],
        attrs={
            "text": qt.prop(qt.text(), "text"),
            "enabled": qt.prop(qt.flag(), "enabled"),
            "tool_tip": qt.prop(qt.number("tip", "ü"), "toolTip", required=True),
        },
        events={"triggered": trigger},
        weight=3,
    )
    yield tk.Type(
        "menu",
        new=QtWidgets.QMenu,
        names=["menu", "QMenu"],
        attrs={"title": qt.prop(qt.text(), "title")},
        takes=["action", "menu"],
        limit=6,
        children=entries,
        weight=2,
    )
    yield tk.Type(
        "menubar",
        new=QtWidgets.QMenuBar,
        names=["menubar", "QMenuBar", "menu-bar"],
        takes=["menu"],
        children=entries,
        unique="menubar",
        check=check_bar,
    )
    yield qt.label()
    yield qt.button()
    yield qt.lineedit()
    yield tk.Type(
        "toolbar",
        new=QtWidgets.QToolBar,
        names=["toolbar", "tool-bar", "QToolBar"],
        takes=["action", "label", "button", "lineedit"],
        children=tools,
        check=check_tools,
        limit=6,
        weight=2,
    )
    yield tk.Type(
        "window",
        new=QtWidgets.QMainWindow,
        names=["window", "QMainWindow"],
        attrs={"size": tk.Attr(lambda rng: [2000, 800], None, required=True)},
        takes=["menubar", "toolbar"],
        children=bars,
        ordered=False,
        limit=4,
    )
    mode = QtWidgets.QAbstractItemView.SelectionMode.MultiSelection
    yield tk.Type(
        "tree",
        new=QtWidgets.QTreeWidget,
        names=["treewidget", "QTreeWidget"],
        attrs={
            "column_count": tk.Attr(lambda rng: 3, required=True),
            "selection_mode": tk.Attr(lambda rng: mode, required=True),
        },
        takes=["item"],
        children=tree_items,
        limit=6,
    )
    yield tk.Type(
        "item",
        new=QtWidgets.QTreeWidgetItem,
        names=["treewidgetitem", "tree-widget-item", "QTreeWidgetItem"],
        attrs={
            "content": tk.Attr(
                texts,
                read_texts,
                build=lambda value: {int(col): text for col, text in value.items()},
                norm=lambda value: {col: text for col, text in value.items() if text},
                required=True,
            )
        },
        takes=["item"],
        children=tree_items,
        extra=item_extra,
        check=check_item,
    )
    for name in ("QTreeView", "QListView", "QTableView"):
        yield tk.Type(
            name,
            new=getattr(QtWidgets, name),
            names=[name, name[1:].lower()] if name == "QTreeView" else [name],
            takes=["model", "selection"],
            children=view_children,
            check=check_view,
            limit=2,
            wrappers=False,
        )
    yield tk.Type(
        "selection",
        new=QtCore.QItemSelectionModel,
        names=["itemselectionmodel", "QItemSelectionModel"],
        unique="selection",
    )
    yield tk.Type(
        "model",
        new=QtGui.QStandardItemModel,
        names=["itemmodel", "item-model", "QStandardItemModel"],
        takes=["standard"],
        children=rows,
        limit=6,
        unique="model",
        weight=4,
    )
    yield tk.Type(
        "standard",
        new=QtGui.QStandardItem,
        names=["standarditem", "standard-item", "QStandardItem"],
        attrs=dict(
            [
                standard_prop("text", qt.text(), "text"),
                standard_prop("tool_tip", qt.text(), "toolTip"),
                standard_prop("checkable", qt.flag(), "isCheckable"),
                standard_prop("enabled", qt.flag(), "isEnabled"),
            ]
        ),
        takes=["standard"],
        children=rows,
    )


SCHEMA = {typ.name: typ for typ in types()}
ROOTS = ["window", "window", "tree", "tree", "QTreeView", "QListView", "QTableView"]


class Models(tk.Toolkit):
    """A selection model needs an item model, which it's described after"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.names = {}

    def normalize(self, spec):
        super().normalize(spec)
        if spec.get("t") == "item":
            # Attributes of items can't be removed
            names = self.names.setdefault(spec["key"], spec["a"].keys() & STATE)
            for name in STATE - names:
                spec["a"].pop(name, None)
            for name in names:
                spec["a"].setdefault(name, True)
        if spec["t" if spec["k"] == "el" else "k"] not in ROOTS[4:]:
            return
        models = [ch for ch in spec["ch"] if ch["t"] == "model"]
        others = [ch for ch in spec["ch"] if ch["t"] == "selection"]
        for other in others:
            if models:
                other["key"] = models[0]["key"] + "-selection"
        spec["ch"][:] = models + (others if models else [])


def setup():
    qt.app()


def case(rng, rep, size):
    if rng.random() < 0.12:
        return places(rng, rep, size)
    shown = rng.random() < 0.7
    toolkit = Models(
        rep,
        SCHEMA,
        ROOTS,
        PySideRenderer(autoshow=shown),
        qt.app(),
        name_prop="object_name",
        name_of=lambda obj: obj.objectName(),
        max_size=40,
    )
    try:
        run(rng, rep, size, toolkit, shown)
    finally:
        qt.clean_up()


def run(rng, rep, size, toolkit, shown):
    current = {}

    def root():
        if shown or rng.random() < 0.7:
            qt.process()
        if toolkit.inst.obj is not None:
            return toolkit.inst.obj
        return find("root")

    def monitor(obj, names):
        nonlocal current
        objs = toolkit.check(obj, events=rng)
        insts = list(objs.values())
        qobjects = [i.obj for i in insts if isinstance(i.obj, QtCore.QObject)]
        qt.check_valid(qobjects)
        for old in current:
            if old not in qobjects and qt.alive(old):
                rep.count("removed objects")
                check_removed(old, obj)
        current = qobjects
        if shown:
            check_visible(rep, insts)
        perturb_items(toolkit, rng, insts)

    first = toolkit.gen
    toolkit.gen = lambda rng, name, depth, parent=None, key=None: first(
        rng, name, depth, parent, key or "root"
    )
    tk.history(rng, rep, size, toolkit, root, monitor)


def find(name):
    found = [w for w in qt.app().topLevelWidgets() if qt.alive(w)]
    found = [w for w in found if w.objectName() == name]
    if len(found) != 1:
        raise Violation("root", f"{found}")
    return found[0]


def check_removed(old, root):
    if isinstance(old, QtWidgets.QWidget):
        if old.isVisible():
            raise Violation("removed-visible", f"{old} is still visible")
        if root.isAncestorOf(old):
            raise Violation("removed-in-hierarchy", f"{old} in {old.parent()}")


def check_visible(rep, insts):
    qt.process()
    for inst in insts:
        if inst.spec["t"] != "toolbar":
            continue
        for child in inst.elements():
            if isinstance(child.obj, QtWidgets.QWidget):
                rep.count("tools visible")
                if child.obj.isHidden():
                    raise Violation("tool-hidden", f"{child.obj} is hidden")


def places(rng, rep, size):
    """Items that have a place in an item model"""
    import collagraph as cg
    from collagraph import h
    from observ import reactive

    width, height = rng.choice([(1, 5), (3, 3), (4, 2)])
    cells = [(row, col) for row in range(height) for col in range(width)]
    n = rng.randrange(1, len(cells))
    used = rng.sample(cells, n)
    order = [f"i{idx}" for idx in range(n)]
    state = reactive(
        {"items": {key: [list(cell), key] for key, cell in zip(order, used)}}
    )
    nested = rng.random() < 0.4
    item = "standarditem"

    class Root(cg.Component):
        def render(self):
            items = [
                h(item, {"key": key, "model_index": tuple(cell), "text": text})
                for key, (cell, text) in self.props["items"].items()
            ]
            if nested:
                items = [h(item, {"text": "outer"}, *items)]
            return h(
                "QTreeView",
                {"object_name": "root"},
                h("itemmodel", {"object_name": "model"}, *items),
            )

    gui = cg.Collagraph(
        PySideRenderer(autoshow=False), event_loop_type=cg.EventLoopType.SYNC
    )
    try:
        gui.render(h(Root, state), qt.app())
        view = find("root")
        objs = {}
        moves = []
        for _ in range(int(3 + 8 * size)):
            compare_places(rep, view, state, cells, objs, nested)
            key = rng.choice(order)
            taken = [tuple(cell) for cell, _ in state["items"].values()]
            free = [cell for cell in cells if cell not in taken]
            if free and rng.random() < 0.7:
                cell = rng.choice(free)
                moves.append((key, cell))
                rep.note("place", key, cell)
                state["items"][key][0] = list(cell)
            else:
                text = rng.choice(["a", "b", "", key])
                rep.note("text", key, text)
                state["items"][key][1] = text
            rep.count("updates")
        compare_places(rep, view, state, cells, objs, nested)
        rep.signature((width, height, nested, moves))
    finally:
        qt.clean_up()


def compare_places(rep, view, state, cells, objs, nested):
    model = view.model()
    parent = model.item(0) if nested else None
    expected = {tuple(cell): (key, text) for key, (cell, text) in state["items"].items()}
    for cell in cells:
        found = parent.child(*cell) if nested else model.item(*cell)
        rep.count("places compared")
        if cell not in expected:
            if found is not None:
                raise Violation("place", f"{found.text()} at {cell}")
            continue
        key, text = expected[cell]
        if found is None or found.text() != text:
            what = found and found.text()
            raise Violation("place", f"{what} instead of {text} at {cell}")
        if objs.setdefault(key, found) is not found:
            raise Violation("place-identity", f"another item for {key} at {cell}")
