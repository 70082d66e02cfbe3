import copy
import itertools
import operator

import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive, to_raw

from lib import aio, mon
from lib.harness import Violation

QUICK, THOROUGH = 260, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of (function and class) components. Each passes props that "
    "are constants, opaque objects, own props, reactive data from a shared store, or a "
    "complete (plain or reactive) dictionary of props. A history of changes replaces "
    "what's passed or writes to the reactive data in place; in some cases an asyncio "
    "loop does the updates, possibly of several changes at once. Distinct: by the "
    "sequence of kinds of changes plus the final tree."
)
MIN = {"props compared": 2000, "writes to props": 100, "changes in place": 100}
ASSUMPTIONS = [
    "values that compare equal don't have to lead to an update, but are to be seen",
]
NAMES = ["a", "b", "c", "d"]
# Changes that leave all the components in place
MERGE = ["store", "store-remove", "in-place", "whole", "pass"]
STORE = ["s0", "s1", "s2", "s3"]


class Thing:
    """Equal to all other things with the same number"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Thing) and self.n == other.n

    __hash__ = None

    def __repr__(self):
        return f"Thing({self.n})"


class ArrayLike:
    """Compares per item and has no truth value, like arrays in numpy"""

    def __init__(self, *items):
        self.items = items

    def per_item(self, other, fn):
        if not isinstance(other, ArrayLike):
            other = ArrayLike(*[other] * len(self.items))
        return Outcome([fn(a, b) for a, b in zip(self.items, other.items)])

    def __eq__(self, other):
        return self.per_item(other, operator.eq)

    def __ne__(self, other):
        return self.per_item(other, operator.ne)

    __hash__ = None

    def __repr__(self):
        return f"ArrayLike{self.items}"


class Outcome:
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        raise ValueError("The truth value is ambiguous")


def exact(a, b):
    """Same values, also as for the types and the identity of opaque objects"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(exact, a, b))
    if isinstance(a, (Thing, ArrayLike)):
        return a is b
    return a == b


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, ArrayLike) or isinstance(b, ArrayLike):
        return type(a) is type(b) and a.items == b.items
    return a == b


def raw(value):
    """Plain copy of (reactive) data, opaque objects stay the same"""
    if hasattr(value, "target"):
        value = value.target
    if isinstance(value, dict):
        return {k: raw(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return type(value)(raw(v) for v in value)
    return value


def touch(value):
    """Read everything, through the proxies"""
    if hasattr(value, "target"):
        if isinstance(value.target, dict):
            return {k: touch(v) for k, v in value.items()}
        if isinstance(value.target, list):
            return [touch(v) for v in value]
        return raw(value)
    return raw(value)


def gen_value(rng, depth=2, array=False):
    kinds = ["int", "none", "bool", "str", "float", "thing"]
    if array:
        # Not supported in reactive data
        kinds.append("array")
    if depth:
        kinds += ["list", "dict", "dict", "list", "tuple"]
    kind = rng.choice(kinds)
    if kind == "int":
        return rng.randrange(3)
    if kind == "none":
        return None
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "str":
        return rng.choice(["", "x", "y"])
    if kind == "float":
        return rng.choice([0.0, 1.0, 1.5])
    if kind == "thing":
        return Thing(rng.randrange(2))
    if kind == "array":
        return ArrayLike(rng.randrange(2), rng.randrange(2))
    if kind == "dict":
        return {
            k: gen_value(rng, depth - 1)
            for k in rng.sample(["k", "l", "m"], rng.randrange(4))
        }
    items = [gen_value(rng, depth - 1) for _ in range(rng.randrange(3))]
    return tuple(items) if kind == "tuple" else items


class Scene:
    def __init__(self, rng, rep, loop=None):
        self.loop = loop
        self.rng, self.rep = rng, rep
        self.ids = itertools.count(1)
        self.live = {}
        self.last = {}
        self.store = reactive({})
        self.raw_store = {}
        for key in STORE:
            if rng.random() < 0.7:
                self.put(key, gen_value(rng))
        # Dictionaries that are passed as they are
        self.consts = [
            {n: gen_value(rng) for n in rng.sample(NAMES, rng.randrange(4))}
            for _ in range(2)
        ]
        self.consts_before = copy.copy(self.consts), [copy.copy(c) for c in self.consts]
        self.whole = [
            reactive({n: gen_value(rng, 1) for n in rng.sample(NAMES, rng.randrange(4))})
            for _ in range(2)
        ]
        self.nodes = {}
        self.versions = reactive({})
        self.root = self.gen_node(3)
        # This one isn't rendered again
        self.root["pass"] = ("each", {n: ("const", gen_value(rng)) for n in NAMES[:2]})
        self.make()

    def put(self, key, value):
        self.store[key] = value

    # -- description -----------------------------------------------------------
    def gen_source(self):
        rng = self.rng
        kind = rng.choice(["const", "const", "own", "own", "store", "store", "nested"])
        if kind == "const":
            array = rng.random() < 0.3
            return ("const", gen_value(rng, 0 if array else 2, array))
        if kind == "own":
            return ("own", rng.choice(NAMES))
        if kind == "store":
            return ("store", rng.choice(STORE))
        return ("nested", rng.choice(STORE), rng.choice(["k", "l", "m", 0, 1]))

    def gen_pass(self):
        rng = self.rng
        kind = rng.choice(["each", "each", "each", "each", "const-dict", "reactive-dict"])
        if kind == "each":
            names = rng.sample(NAMES, rng.randrange(5))
            return ("each", {n: self.gen_source() for n in names})
        return (kind, rng.randrange(2))

    def gen_node(self, depth):
        rng = self.rng
        nid = next(self.ids)
        node = {
            "nid": nid,
            "pass": self.gen_pass(),
            "wrap": rng.choice([None, None, "el", "tpl", "fn"]),
            "ch": [],
        }
        self.nodes[nid] = node
        self.versions[nid] = 0
        if depth:
            node["ch"] = [
                self.gen_node(depth - 1) for _ in range(rng.choice([0, 1, 1, 2]))
            ]
        return node

    # -- evaluation, with either reactive or raw data ----------------------------
    def source(self, src, own, store):
        """Value, or a missing value in the form of ()"""
        if src[0] == "const":
            return (src[1],)
        data = own if src[0] == "own" else store
        # Note that it takes `keys` to be notified about keys that come and go
        if src[1] not in list(data.keys()):
            return ()
        value = data[src[1]]
        if src[0] == "nested":
            try:
                if isinstance(raw(value), tuple):
                    return ()
                return (value[src[2]],)
            except (KeyError, IndexError, TypeError):
                return ()
        return (value,)

    def passed(self, node, own, store, whole):
        kind, what = node["pass"]
        if kind == "const-dict":
            return self.consts[what]
        if kind == "reactive-dict":
            return whole[what]
        result = {}
        for name, src in what.items():
            for value in self.source(src, own, store):
                result[name] = value
        return result

    def expected(self):
        """All props of all components, as plain data"""
        store, whole = raw(self.store), [raw(w) for w in self.whole]
        result = {}

        def visit(node, own):
            props = self.passed(node, own, store, whole)
            result[node["nid"]] = raw(props)
            for child in node["ch"]:
                visit(child, props)

        visit(self.root, {})
        return result

    # -- the real thing ------------------------------------------------------------
    def make(scene):
        class Node(cg.Component):
            def __init__(self, props, parent=None):
                super().__init__(props, parent)
                self.state["count"] = 0

            def render(self):
                nid = scene.nid_of[id(type(self))]
                scene.live[nid] = self
                scene.versions[nid]
                # Compare what's seen with what was passed most recently
                seen = raw(self.props)
                passed = scene.given.get(nid)
                scene.rep.count("renders")
                if passed is not None and not exact(seen, raw(passed)):
                    raise Violation("props-in-render", f"{seen} instead of {passed}")
                if scene.by_name[nid]:
                    # Just like templates do
                    scene.last[nid] = {
                        n: touch(self.props[n]) for n in NAMES if n in self.props
                    }
                else:
                    scene.last[nid] = touch(self.props)
                return scene.render_node(scene.nodes[nid], self.props, self)

            def before_unmount(self):
                scene.live.pop(scene.nid_of[id(type(self))], None)

        scene.Node = Node
        scene.classes = {}
        scene.nid_of = {}
        scene.by_name = {}
        scene.given = {}
        scene.renderer = mon.MonRenderer(
            EventLoopType.DEFAULT if scene.loop else EventLoopType.SYNC
        )
        scene.gui = cg.Collagraph(renderer=scene.renderer)
        scene.container = scene.renderer.container()

    def cls(self, nid):
        # A class for each of the nodes: props can be left to what's being tested
        if nid not in self.classes:
            cls = type(f"Node{nid}", (self.Node,), {})
            self.classes[nid] = cls
            self.nid_of[id(cls)] = nid
            self.by_name[nid] = self.rng.random() < 0.5
        return self.classes[nid]

    def fn(self, nid):
        key = "fn", nid
        if key not in self.classes:
            cls = self.cls(nid)

            def fn(props):
                given = dict(props.items())
                self.given[nid] = given
                return h(cls, given)

            self.classes[key] = fn
        return self.classes[key]

    def describe(self, node, own):
        props = self.passed(node, own, self.store, self.whole)
        nid = node["nid"]
        if node["wrap"] == "fn":
            return h(self.fn(nid), props)
        self.given[nid] = props
        result = h(self.cls(nid), props)
        if node["wrap"] == "el":
            return h("wrap", {}, result)
        if node["wrap"] == "tpl":
            return h("template", {}, result)
        return result

    def render_node(self, node, own, component):
        return h(
            "node",
            {"nid": node["nid"], "count": component.state["count"]},
            *(self.describe(child, own) for child in node["ch"]),
        )

    def settle(self):
        if self.loop:
            self.rep.count("slices of work", self.loop.settle())

    def compare(self):
        self.settle()
        expected = self.expected()
        if set(self.live) != set(expected):
            raise Violation("components", f"{set(self.live)} for {set(expected)}")
        for nid, props in expected.items():
            self.rep.count("props compared", 1 + len(props))
            seen = raw(self.live[nid].props)
            if not equal(seen, props):
                raise Violation("props", f"{seen} instead of {props}")
            # What it was when rendered
            if not equal(self.last[nid], props):
                raise Violation(
                    "rendered-props", f"rendered with {self.last[nid]} instead of {props}"
                )
        for const, (before) in zip(self.consts, self.consts_before[1]):
            if not exact(const, before):
                raise Violation("props-changed", f"{const} was {before}")


def case(rng, rep, size):
    if rng.random() < 0.2:
        with aio.loop(rng) as loop:
            return run(rng, rep, size, Scene(rng, rep, loop))
    run(rng, rep, size, Scene(rng, rep))


def run(rng, rep, size, s):
    rep.note("tree", s.root, "store", raw(s.store), s.consts)
    s.gui.render(s.describe(s.root, {}), s.container)
    s.compare()
    trail = []
    counts = {nid: 0 for nid in s.nodes}
    for _ in range(int(4 + 12 * size)):
        op = rng.choice(
            [
                "store",
                "store",
                "store-remove",
                "in-place",
                "in-place",
                "in-place",
                "whole",
                "whole",
                "pass",
                "pass",
                "write",
                "local",
                "local",
                "children",
                "equal",
            ]
        )
        before = raw(s.store), [raw(w) for w in s.whole]
        live = sorted(s.live)
        if op == "store":
            key, value = rng.choice(STORE), gen_value(rng)
            if not notified(s.store, key, value):
                continue
            rep.note(op, key, value)
            s.store[key] = value
        elif op == "equal":
            # Equal but distinct values
            pairs = [(Thing(0), Thing(0)), (1, True), (0, False), (1.0, 1), ([], [])]
            node = s.nodes[rng.choice(live)]
            if node is s.root or node["pass"][0] != "each":
                continue
            parent = parent_of(s.root, node)
            name, (a, b) = rng.choice(NAMES), rng.choice(pairs)
            for value in (a, b):
                node["pass"][1][name] = ("const", value)
                rep.note(op, node["nid"], name, value)
                s.versions[parent["nid"]] += 1
                s.compare()
        elif op == "store-remove":
            key = rng.choice(STORE)
            if key not in s.store:
                continue
            rep.note(op, key)
            del s.store[key]
        elif op == "in-place":
            key = rng.choice(STORE)
            if key not in s.store:
                continue
            change_in_place(rng, rep, s.store[key])
            rep.count("changes in place")
        elif op == "whole":
            target = rng.choice(s.whole)
            name = rng.choice(NAMES)
            if name in target and rng.random() < 0.4:
                rep.note("del", s.whole.index(target), name)
                del target[name]
            else:
                value = gen_value(rng, 1)
                if not notified(target, name, value):
                    continue
                rep.note("set", s.whole.index(target), name, value)
                target[name] = value
            rep.count("changes in place")
        elif op == "pass":
            node = s.nodes[rng.choice(live)]
            if node is s.root:
                continue
            if node["pass"][0] == "each" and rng.random() < 0.7:
                sources = node["pass"][1]
                name = rng.choice(NAMES)
                if name in sources and rng.random() < 0.5:
                    del sources[name]
                else:
                    sources[name] = s.gen_source()
            else:
                node["pass"] = s.gen_pass()
            rep.note("pass", node["nid"], node["pass"])
            s.versions[parent_of(s.root, node)["nid"]] += 1
        elif op == "children":
            node = s.nodes[rng.choice(live)]
            if node["ch"] and rng.random() < 0.5:
                gone = node["ch"].pop()
                for nid in all_nids(gone):
                    counts.pop(nid)
            elif len(live) < 12:
                node["ch"].append(s.gen_node(rng.randrange(2)))
                for nid in all_nids(node["ch"][-1]):
                    counts[nid] = 0
            rep.note("children", node["nid"], node["ch"])
            s.versions[node["nid"]] += 1
        elif op == "write":
            component = s.live[rng.choice(live)]
            props = raw(component.props)
            rep.count("writes to props")
            rep.note("write", component.__class__.__name__)
            write(rng, component)
            if not exact(raw(component.props), props):
                raise Violation("props-written", f"{raw(component.props)} from {props}")
        elif op == "local":
            nid = rng.choice(live)
            rep.note("local", nid)
            counts[nid] += 1
            s.live[nid].state["count"] += 1
        trail.append(op)
        if s.loop and op in MERGE and rng.random() < 0.3:
            # The next change becomes part of the same update
            rep.count("merged changes")
            continue
        s.settle()
        if op in ("pass", "write", "local", "children", "equal"):
            # Nothing that the program itself did changed the data
            after = raw(s.store), [raw(w) for w in s.whole]
            if not exact(before[0], after[0]) or not all(map(exact, before[1], after[1])):
                raise Violation("data-changed", f"{after} from {before}")
        s.compare()
        state = {nid: s.live[nid].state["count"] for nid in s.live}
        if state != counts:
            raise Violation("state", f"{state} instead of {counts}")
        shown = {
            el.attrs["nid"]: el.attrs["count"]
            for el in s.container.walk()
            if el.type == "node"
        }
        if shown != counts:
            raise Violation("shown-state", f"{shown} instead of {counts}")
    s.compare()
    rep.signature((trail, s.root))


def parent_of(root, node):
    stack = [root]
    while stack:
        item = stack.pop()
        if node in item["ch"] and any(node is c for c in item["ch"]):
            return item
        stack.extend(item["ch"])


def all_nids(node):
    result = [node["nid"]]
    for child in node["ch"]:
        result.extend(all_nids(child))
    return result


def notified(target, key, value):
    """Observ doesn't notify about equal values, nor about new keys without a value"""
    return not equal(raw(target.get(key)), value)


def change_in_place(rng, rep, value):
    """Change something in the (reactive) container"""
    while True:
        data = getattr(value, "target", None)
        inner = []
        if isinstance(data, dict):
            inner = [k for k, v in data.items() if isinstance(v, (dict, list))]
        elif isinstance(data, list):
            inner = [k for k, v in enumerate(data) if isinstance(v, (dict, list))]
        else:
            return
        if inner and rng.random() < 0.6:
            value = value[rng.choice(inner)]
            continue
        break
    new = gen_value(rng, 1)
    if isinstance(data, dict):
        key = rng.choice(["k", "l", "m"])
        if key in data and rng.random() < 0.3:
            rep.note("in-place del", key)
            del value[key]
        elif notified(value, key, new):
            rep.note("in-place set", key, new)
            value[key] = new
    else:
        r = rng.random()
        rep.note("in-place list", r, new)
        if data and r < 0.3:
            value.pop()
        elif data and r < 0.6 and not equal(raw(data[0]), new):
            value[0] = new
        elif len(data) < 5:
            value.append(new)


def write(rng, component):
    """None of these should have any effect"""
    props = component.props
    name = rng.choice(NAMES)

    def nested():
        for key in props:
            value = props[key]
            if hasattr(value, "target"):
                if isinstance(value.target, dict):
                    value["k"] = object()
                else:
                    value.append(object())

    def override():
        component.props = {"other": 1}

    def delete():
        del props[name]

    attempt = rng.choice(
        [
            lambda: props.__setitem__(name, object()),
            lambda: props.update({name: object()}),
            lambda: props.pop(name, None),
            lambda: props.clear(),
            lambda: props.setdefault("new", 1),
            nested,
            nested,
            override,
            delete,
        ]
    )
    try:
        attempt()
    except Exception:
        pass
