"""Widgets for the checks on the PySide renderer"""
from PySide6 import QtCore, QtGui, QtWidgets
import shiboken6

from collagraph.renderers import PySideRenderer

from . import tk
from .harness import Violation

Qt = QtCore.Qt


_app = None


def app():
    # The wrapper of the application has to be kept: another one might be of type
    # QCoreApplication
    global _app
    if _app is None:
        _app = QtWidgets.QApplication.instance() or QtWidgets.QApplication([])
    return _app


def process():
    """Handle everything that's pending, including deferred deletions"""
    application = app()
    for _ in range(2):
        application.processEvents()
        application.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)


def clean_up():
    """No widgets of one case should be left over for the next one"""
    application = app()
    for widget in application.topLevelWidgets():
        # Those with a parent belong to Qt (popups of toolbars, for instance)
        if not shiboken6.isValid(widget) or not isinstance(widget, QtWidgets.QWidget):
            continue
        if widget.parent() is None:
            widget.close()
            widget.deleteLater()
    process()


def alive(obj):
    return shiboken6.isValid(obj)


def layout_widgets(obj):
    """The widgets in the layout, in order. Doesn't ask for the items of the layout:
    the wrappers of PySide for those might outlive the items, and might then be mistaken
    for other objects."""
    layout = obj.layout()
    if layout is None:
        return []
    option = QtCore.Qt.FindChildOption.FindDirectChildrenOnly
    widgets = obj.findChildren(QtWidgets.QWidget, options=option)
    widgets = [widget for widget in widgets if layout.indexOf(widget) >= 0]
    if layout.count() != len(widgets):
        raise Violation("layout", f"{layout.count()} items for {widgets}")
    if isinstance(layout, QtWidgets.QFormLayout):
        role = QtWidgets.QFormLayout.ItemRole.FieldRole
        rows = []
        for widget in widgets:
            row, found = layout.getWidgetPosition(widget)
            if found == role:
                rows.append((row, widget))
        rows.sort(key=lambda row: row[0])
        return [widget for _, widget in rows]
    return sorted(widgets, key=layout.indexOf)


def text():
    return lambda rng: rng.choice(["", "a", "b", "text", "ä & b"])


def number(*options):
    return lambda rng: rng.choice(options)


def flag():
    return lambda rng: rng.random() < 0.5


def prop(gen, name, **kwargs):
    """Attribute that can be read by means of the property with that name"""
    return tk.Attr(gen, lambda obj: obj.property(name), **kwargs)


def label(**kwargs):
    return tk.Type(
        "label",
        new=QtWidgets.QLabel,
        names=["label", "Label", "QLabel"],
        attrs={"text": prop(text(), "text")},
        **kwargs,
    )


def button(**kwargs):
    return tk.Type(
        "button",
        new=QtWidgets.QPushButton,
        names=["button", "QPushButton"],
        attrs={"text": prop(text(), "text")},
        **kwargs,
    )


def lineedit(**kwargs):
    return tk.Type(
        "lineedit",
        new=QtWidgets.QLineEdit,
        names=["lineedit", "line-edit", "QLineEdit"],
        attrs={"text": prop(text(), "text")},
        **kwargs,
    )


class Root:
    """Renders into the application, and finds the one window that should be there"""

    def __init__(self, autoshow):
        self.renderer = PySideRenderer(autoshow=autoshow)
        self.before = set(map(id, app().topLevelWidgets()))

    def __call__(self, inst):
        process()
        return inst


def check_valid(objs):
    for obj in objs:
        if not alive(obj):
            raise Violation("deleted", f"{obj} has been deleted")
