"""Reference reconciler: what is the rendered tree after each successive description, and
which parts of it are still the same thing?

Every node has a token: the identity of its element (host, text), or of its component
instance. Children of a parent are matched with the previous children by key (in
order for those without a key) and are preserved when the type is the same.
"""
import itertools

EMPTY = object()


class Node:
    __slots__ = (
        "kind",
        "type",
        "key",
        "token",
        "attrs",
        "on",
        "text",
        "children",
        "parent",
        "local",
        "spec",
        "fresh",
        "changed",
        "moved",
        "slots",
        "provided",
    )

    def __init__(self, kind, type, key, token, parent):
        self.kind = kind
        self.type = type
        self.key = key
        self.token = token
        self.parent = parent
        self.attrs = {}
        self.on = {}
        self.text = None
        self.children = []
        self.local = None
        self.spec = None
        # Changes in the last step
        self.fresh = True
        self.changed = set()
        self.moved = False
        self.slots = None
        self.provided = None

    def __repr__(self):
        return f"<{self.kind} {self.type} key={self.key} token={self.token}>"

    def walk(self):
        stack = [self]
        while stack:
            node = stack.pop()
            yield node
            stack.extend(reversed(node.children))


class Local:
    """Local state of a component instance"""

    __slots__ = ("n", "tree")

    def __init__(self):
        self.n = 0
        self.tree = []


class Delta:
    def __init__(self):
        self.created = []
        self.removed = []
        self.kept = []
        self.reordered = []


class Model:
    def __init__(self):
        self.tokens = itertools.count(1)
        self.root = Node("root", None, None, 0, None)
        self.by_nid = {}

    def step(self, spec):
        """Process a next description of the root element"""
        return self.step_many([spec])

    def step_many(self, specs):
        delta = Delta()
        self.by_nid = {}
        self._children(self.root, specs, delta)
        return delta

    def _children(self, parent, specs, delta):
        old = list(parent.children)
        pool = list(old)
        new = []
        for spec in specs:
            if spec is None or spec["k"] == "none":
                continue
            key = spec.get("key")
            match = None
            for candidate in pool:
                if candidate.key == key:
                    match = candidate
                    break
            if match is not None:
                pool.remove(match)
            kind, type = spec["k"], spec.get("t") or spec.get("c")
            if match is not None and (match.kind, match.type) == (kind, type):
                node = match
                node.fresh = False
                delta.kept.append(node)
            else:
                if match is not None:
                    pool.append(match)
                    # It can't be matched again, since it has been claimed
                    match.key = EMPTY
                node = Node(kind, type, key, next(self.tokens), parent)
                if kind == "cls":
                    node.local = self.new_local(spec)
                delta.created.append(node)
            node.changed = set()
            new.append((node, spec))

        for node in pool:
            delta.removed.append(node)

        kept = [node for node, _ in new if not node.fresh]
        order = {id(node): idx for idx, node in enumerate(old)}
        positions = [order[id(node)] for node in kept]
        parent.children = [node for node, _ in new]
        if positions != sorted(positions):
            delta.reordered.append(parent)

        for node, spec in new:
            self._update(node, spec, delta)

    def new_local(self, spec):
        return Local()

    def _update(self, node, spec, delta):
        attrs = {k: v for k, v in spec.get("a", {}).items()}
        on = dict(spec.get("on", {}))
        text = spec.get("v")
        if not node.fresh:
            if attrs != node.attrs:
                node.changed.add("attrs")
            if on != node.on:
                node.changed.add("on")
            if text != node.text:
                node.changed.add("text")
            if node.spec is not None and node.spec != spec:
                node.changed.add("spec")
        node.attrs = attrs
        node.on = on
        node.text = text
        node.spec = spec
        if node.kind == "cls":
            self.by_nid[spec["nid"]] = node
        self._children(node, self.expand(node, spec), delta)

    def expand(self, node, spec):
        """The descriptions of the children of the node. Has to correspond with what is
        returned from the render methods in world.py"""
        kind = node.kind
        if kind in ("el", "tpl"):
            return spec["ch"]
        if kind == "text":
            return []
        if kind == "fn":
            return [expand_fn(node.type, spec)]
        if kind == "cls":
            return [expand_cls(node.type, spec, node.local, node)]
        raise AssertionError(kind)


def el(type, attrs=None, ch=(), key=None, on=None):
    return {
        "k": "el",
        "t": type,
        "key": key,
        "a": attrs or {},
        "on": on or {},
        "ch": list(ch),
    }


def wrapped(spec):
    """Text isn't an element on its own"""
    if spec is not None and spec["k"] == "text":
        return {"k": "tpl", "key": None, "ch": [spec]}
    return spec


def expand_fn(name, spec):
    return wrapped(expand_fn_(name, spec))


def expand_cls(name, spec, local, node):
    return wrapped(expand_cls_(name, spec, local, node))


def expand_fn_(name, spec):
    if name == "F":
        return el("fn-f", spec["a"], spec["ch"])
    if name == "G":
        return {"k": "tpl", "key": None, "ch": spec["ch"]}
    if name == "P":
        for child in spec["ch"]:
            return child
        return None
    raise AssertionError(name)


def rekey(children, prefix):
    """Siblings from different sources have distinct keys"""
    return [
        {**child, "key": (prefix, child["key"])}
        if child.get("key") is not None
        else child
        for child in children
    ]


class Cid:
    """Stands for the id of the component instance"""

    def __init__(self, token):
        self.token = token

    def __eq__(self, other):
        return isinstance(other, Cid) and self.token == other.token

    __hash__ = None

    def __repr__(self):
        return f"Cid({self.token})"


def expand_cls_(name, spec, local, node):
    own = {"n": local.n}
    extra = rekey(local.tree, "local")
    if node is not None:
        own["cid"] = Cid(node.token)
    if name in ("A", "Root"):
        return el("cls-a", {**spec["a"], **own}, [*spec["ch"], *extra])
    if name == "B":
        return {
            "k": "tpl",
            "key": None,
            "ch": [el("label", {**spec["a"], **own}), *spec["ch"], *extra],
        }
    if name == "C":
        for child in [*extra, *spec["ch"]]:
            return child
        return None
    if name == "S":
        # Slots: extra, (label), default, and default once more within an element
        ch = []
        ch.extend(rekey(spec["sl"].get("extra", ()), "extra"))
        ch.append(el("label", {**spec["a"], **own}))
        ch.extend(spec["sl"].get("default", ()))
        ch.append(el("inner", {}, spec["sl"].get("other", ())))
        ch.extend(extra)
        return el("cls-s", {}, ch)
    raise AssertionError(name)


def dom_children(node):
    """The topmost host nodes below the node, in order"""
    result = []
    stack = list(reversed(node.children))
    while stack:
        item = stack.pop()
        if item.kind in ("el", "text"):
            result.append(item)
        else:
            stack.extend(reversed(item.children))
    return result


def describe(node):
    """Nested lists describing the expected tree, for messages"""
    if node.kind == "text":
        return node.text
    name = node.type or "ROOT"
    if node.attrs:
        name += repr(node.attrs)
    return [name, *(describe(child) for child in dom_children(node))]


def closest_component(node):
    node = node.parent
    while node is not None and node.kind != "cls":
        node = node.parent
    return node


def host_parent(node):
    node = node.parent
    while node is not None and node.kind not in ("el", "root"):
        node = node.parent
    return node
