"""A renderer that records and judges every single operation that it's asked to do.

The renderer itself is lenient (it makes the best of invalid requests, the way that a
forgiving UI toolkit would do), such that the resulting tree can be judged separately
from the protocol. Invalid requests end up in `errors`.
"""
import itertools

from collagraph import EventLoopType
from collagraph.renderers import Renderer

from .harness import Violation


class El:
    """Element. Compares by identity; `hidden` elements evaluate to False."""

    __slots__ = (
        "uid",
        "type",
        "parent",
        "children",
        "attrs",
        "listeners",
        "text",
        "state",
        "falsy",
        "owner",
        "__weakref__",
    )

    def __init__(self, uid, type, falsy=False, owner=None):
        self.uid = uid
        # The renderer that created the element
        self.owner = owner
        self.type = type
        self.parent = None
        self.children = []
        self.attrs = {}
        self.listeners = {}
        self.text = None
        # new -> attached -> (detached -> attached)* -> gone
        self.state = "new"
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy

    def __repr__(self):
        return f"<{self.type}#{self.uid}>"

    def root(self):
        el = self
        while el.parent is not None:
            el = el.parent
        return el

    def walk(self):
        stack = [self]
        while stack:
            el = stack.pop()
            yield el
            stack.extend(reversed(el.children))


class MonRenderer(Renderer):
    def __init__(self, loop_type=EventLoopType.SYNC, budget=200_000, falsy=False):
        self.loop_type = loop_type
        self.uids = itertools.count(1)
        self.errors = []
        self.ops = []
        self.budget = budget
        self.total_ops = 0
        self.falsy = falsy
        self.created = []
        self.on_op = None

    def preferred_event_loop_type(self):
        return self.loop_type

    # -- helpers -------------------------------------------------------------------
    def container(self):
        el = El(0, "ROOT", owner=self)
        el.state = "attached"
        return el

    def error(self, kind, *info):
        self.errors.append((kind, tuple(map(repr, info))))

    def op(self, *op):
        self.total_ops += 1
        if self.total_ops > self.budget:
            raise Violation("no-progress", f"more than {self.budget} renderer operations")
        self.ops.append(op)
        if self.on_op:
            self.on_op(op)

    def take_ops(self):
        ops, self.ops = self.ops, []
        return ops

    def known(self, el, what):
        if not isinstance(el, El):
            self.error(f"{what}-of-unknown-element", el)
            return False
        if el.owner is not None and el.owner is not self:
            self.error(f"{what}-of-element-of-other-renderer", el)
        return True

    def usable(self, el, what):
        if not self.known(el, what):
            return False
        if el.state == "gone":
            self.error(f"{what}-of-removed-element", el)
        return True

    def end_of_update(self):
        """Detached elements at the end of an update are removed for good; new elements
        should have been inserted by now."""
        for el in self.created:
            if el.state == "new":
                self.error("created-but-not-inserted", el)
            elif el.state == "detached":
                for item in el.walk():
                    item.state = "gone"
        self.created = [el for el in self.created if el.state != "gone"]

    # -- Renderer interface --------------------------------------------------------
    def create_element(self, type):
        el = El(next(self.uids), type, falsy=self.falsy, owner=self)
        self.created.append(el)
        if not isinstance(type, str):
            self.error("create-with-invalid-type", type)
        self.op("create", el)
        return el

    def create_text_element(self):
        el = El(next(self.uids), "TEXT", falsy=self.falsy, owner=self)
        self.created.append(el)
        self.op("create", el)
        return el

    def insert(self, el, parent, anchor=None):
        self.op("insert", el, parent, anchor)
        if not self.usable(el, "insert") or not self.usable(parent, "insert-parent"):
            return
        if el.parent is not None:
            self.error("insert-of-attached-element", el, el.parent, parent)
            el.parent.children = [c for c in el.parent.children if c is not el]
        if any(item is parent for item in el.walk()) if el.children else el is parent:
            self.error("insert-into-itself", el, parent)
            return
        if parent.type == "TEXT":
            self.error("insert-into-text", el, parent)
        index = len(parent.children)
        if anchor is not None:
            for idx, child in enumerate(parent.children):
                if child is anchor:
                    index = idx
                    break
            else:
                self.error("insert-with-foreign-anchor", el, parent, anchor)
        parent.children.insert(index, el)
        el.parent = parent
        el.state = "attached"

    def remove(self, el, parent):
        self.op("remove", el, parent)
        if not self.usable(el, "remove") or not self.usable(parent, "remove-parent"):
            return
        if el.parent is not parent:
            self.error("remove-from-wrong-parent", el, el.parent, parent)
        if el.parent is not None:
            el.parent.children = [c for c in el.parent.children if c is not el]
        el.parent = None
        el.state = "detached"

    def set_element_text(self, el, value):
        self.op("text", el, value)
        if not self.usable(el, "text"):
            return
        if el.type != "TEXT":
            self.error("text-of-non-text-element", el)
        el.text = value

    def set_attribute(self, el, attr, value):
        self.op("set", el, attr, value)
        if not self.usable(el, "set"):
            return
        if el.type == "TEXT":
            self.error("attribute-of-text-element", el, attr)
        el.attrs[attr] = value

    def remove_attribute(self, el, attr, value):
        self.op("unset", el, attr, value)
        if not self.usable(el, "unset"):
            return
        if attr not in el.attrs:
            self.error("removal-of-missing-attribute", el, attr)
        else:
            if not same(el.attrs[attr], value):
                self.error("removal-with-other-value", el, attr, el.attrs[attr], value)
            del el.attrs[attr]

    def add_event_listener(self, el, event_type, value):
        self.op("listen", el, event_type, value)
        if not self.usable(el, "listen"):
            return
        if el.type == "TEXT":
            self.error("listener-on-text-element", el, event_type)
        listeners = el.listeners.setdefault(event_type, [])
        if any(item is value for item in listeners):
            self.error("listener-added-twice", el, event_type)
        elif listeners:
            self.error("listener-added-next-to-other", el, event_type)
        if not callable(value):
            self.error("listener-not-callable", el, event_type, value)
        listeners.append(value)

    def remove_event_listener(self, el, event_type, value):
        self.op("unlisten", el, event_type, value)
        if not self.usable(el, "unlisten"):
            return
        listeners = el.listeners.get(event_type, [])
        for idx, item in enumerate(listeners):
            if item is value or item == value:
                del listeners[idx]
                break
        else:
            self.error("removal-of-missing-listener", el, event_type, value)


def same(a, b):
    try:
        return bool(a is b or a == b)
    except Exception:
        return False


def fire(el, event, *args, **kwargs):
    for handler in list(el.listeners.get(event, ())):
        handler(*args, **kwargs)


def snapshot(el):
    """Complete observable state of an element tree (listeners by identity)"""
    out = []
    stack = [(el, 0)]
    while stack:
        item, depth = stack.pop()
        out.append(
            (
                depth,
                item.uid,
                item.type,
                tuple(sorted((k, repr(v)) for k, v in item.attrs.items())),
                item.text,
                tuple(
                    (k, tuple(id(x) for x in v))
                    for k, v in sorted(item.listeners.items())
                    if v
                ),
            )
        )
        stack.extend((child, depth + 1) for child in reversed(item.children))
    return out


def plain(el, attrs=True):
    """Nested lists describing the tree below the element, for messages"""
    if el.type == "TEXT":
        return el.text
    result = [el.type + (repr(el.attrs) if attrs and el.attrs else "")]
    result.extend(plain(child, attrs) for child in el.children)
    return result
