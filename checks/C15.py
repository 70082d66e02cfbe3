import contextlib
import copy
import itertools

import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive

from lib import aio, mon
from lib.harness import Violation

QUICK, THOROUGH = 500, 30000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of class and function components (also in slots) that read "
    "nested reactive data conditionally, and a history of writes to all of the data: "
    "scalars, lists, nested dictionaries, new keys, local state. For each write the model "
    "tells whether the latest render has used it. Distinct: by the program and writes."
)
MIN = {"writes to unused data": 1000, "writes to used data": 1000, "flips": 100}
ASSUMPTIONS = [
    "all components read data item by item, so that the use of data is well-defined"
]
SCALARS = [
    *((f"k{i}",) for i in range(5)),
    *((d, k) for d in ("d0", "d1") for k in ("a", "b")),
    *(("d0", "e", k) for k in ("x", "y")),
]
LISTS = [("l0",), ("l1",), ("d1", "l")]
DICTS = [("d0",), ("d1",), ("d0", "e")]


def new_data(rng):
    def scalar():
        return rng.randrange(4)

    return {
        **{f"k{i}": scalar() for i in range(5)},
        "d0": {"a": scalar(), "b": scalar(), "e": {"x": scalar(), "y": scalar()}},
        "d1": {"a": scalar(), "b": scalar(), "l": [scalar()]},
        "l0": [],
        "l1": [scalar(), scalar()],
    }


def get(data, path):
    for part in path:
        data = data[part]
    return data


class Program:
    def __init__(self, rng):
        self.rng = rng
        self.ids = itertools.count(1)
        self.root = self.gen(3, "cls")

    def stmts(self, depth):
        rng = self.rng
        result = []
        for _ in range(rng.randrange(0, 3)):
            kind = rng.choice(["show", "show", "if", "len", "each", "prop", "local"])
            if kind == "if" and depth:
                result.append(
                    (kind, rng.choice(SCALARS), self.stmts(depth - 1), self.stmts(depth - 1))
                )
            elif kind in ("len", "each"):
                result.append((kind, rng.choice(LISTS)))
            elif kind in ("prop", "local"):
                result.append((kind,))
            else:
                result.append(("show", rng.choice(SCALARS)))
        return result

    def gen(self, depth, kind=None):
        rng = self.rng
        node = {
            "id": next(self.ids),
            "kind": kind or rng.choice(["cls", "cls", "fn", "slot", "el", "tpl"]),
            "body": self.stmts(2),
            "when": rng.choice([None, None, rng.choice(SCALARS)]),
            "pass": rng.choice([None, rng.choice(SCALARS)]),
            "ch": [],
        }
        if depth:
            node["ch"] = [self.gen(depth - 1) for _ in range(rng.choice([0, 1, 2, 2]))]
        return node


class Reader:
    """Evaluates the program; keeps track of what's used"""

    def __init__(self, data):
        self.data = data
        self.used = set()

    def read(self, path):
        for n in range(1, len(path) + 1):
            self.used.add(path[:n])
        return get(self.data, path)


def body(stmts, reader, prop, local):
    """Items to show, as (tag, value). Used by both the model and the components."""
    result = []
    for stmt in stmts:
        if stmt[0] == "show":
            result.append(("v", reader.read(stmt[1])))
        elif stmt[0] == "if":
            branch = stmt[2] if reader.read(stmt[1]) else stmt[3]
            result.extend(body(branch, reader, prop, local))
        elif stmt[0] == "len":
            result.append(("len", len(reader.read(stmt[1]))))
        elif stmt[0] == "each":
            result.extend(("each", item) for item in reader.read(stmt[1]))
        elif stmt[0] == "prop":
            result.append(("prop", prop()))
        elif stmt[0] == "local":
            result.append(("local", local()))
    return result


class Model:
    def __init__(self, data, locals_):
        self.reader = Reader(data)
        self.locals = locals_
        self.local_used = set()
        self.ids = set()

    def tree(self, node, owner):
        """Nested lists of what's to be rendered"""
        if node["when"] and not self.reader.read(node["when"]):
            return []
        self.ids.add(node["id"])
        prop = self.reader.read(node["pass"]) if node["pass"] else None
        if node["kind"] == "cls":
            owner = node["id"]

        def local():
            self.local_used.add(owner)
            return self.locals.get(owner, 0)

        items = [
            [tag, value] for tag, value in body(
                node["body"], self.reader, lambda: prop, local
            )
        ]
        for child in node["ch"]:
            items += self.tree(child, owner)
        if node["kind"] == "tpl":
            return items
        return [[node["kind"], *items]]


class Live:
    def __init__(self, program, state):
        self.state = state
        self.live = {}
        self.renders = 0
        live = self
        self.classes = {}

        class Wrapper(cg.Component):
            def render(self):
                live.renders += 1
                return h("slot-wrapper", {}, *self.render_slot("default"))

        self.Wrapper = Wrapper
        self.root = program.root

    def component(self, node):
        live = self
        if node["id"] in self.classes:
            return self.classes[node["id"]]
        if node["kind"] == "cls":

            class Node(cg.Component):
                def __init__(self, props, parent=None):
                    super().__init__(props, parent)
                    self.state["n"] = 0
                    self.state["unused"] = 0
                    live.live[node["id"]] = self

                def render(self):
                    live.renders += 1
                    return h(
                        "cls",
                        {},
                        *live.content(node, lambda: self.props["p"], self),
                    )

                def before_unmount(self):
                    del live.live[node["id"]]

            result = Node
        else:

            def result(props):
                live.renders += 1
                owner = props["owner"]
                return h("fn", {}, *live.content(node, lambda: props["p"], owner()))

        self.classes[node["id"]] = result
        return result

    def content(self, node, prop, owner):
        reader = Reader(self.state)
        vnodes = [
            h(tag, {"v": value})
            for tag, value in body(node["body"], reader, prop, lambda: owner.state["n"])
        ]
        for child in node["ch"]:
            vnodes += self.build(child, owner)
        return vnodes

    def build(self, node, owner):
        reader = Reader(self.state)
        if node["when"] and not reader.read(node["when"]):
            return []
        value = reader.read(node["pass"]) if node["pass"] else None
        # Each child has its own key, since children come and go
        key = node["id"]
        if node["kind"] == "cls":
            return [h(self.component(node), {"p": value, "key": key})]
        if node["kind"] == "fn":
            props = {"p": value, "key": key, "owner": lambda: owner}
            return [h(self.component(node), props)]
        if node["kind"] == "slot":
            return [
                h(
                    self.Wrapper,
                    {"key": key},
                    lambda props: self.content(node, lambda: value, owner),
                )
            ]
        tag = "template" if node["kind"] == "tpl" else "el"
        return [h(tag, {"key": key}, *self.content(node, lambda: value, owner))]


def shown(el):
    tag = "slot" if el.type == "slot-wrapper" else el.type
    if tag in ("cls", "fn", "slot", "el"):
        return [tag, *(shown(child) for child in el.children)]
    return [tag, el.attrs.get("v")]


def case(rng, rep, size):
    with contextlib.ExitStack() as stack:
        loop = stack.enter_context(aio.loop(rng)) if rng.random() < 0.4 else None
        run(rng, rep, size, loop)


def run(rng, rep, size, loop):
    program = Program(rng)
    data = new_data(rng)
    state = reactive(copy.deepcopy(data))
    live = Live(program, state)
    program.root["when"] = None
    program.root["pass"] = None
    renderer = mon.MonRenderer(
        loop_type=EventLoopType.DEFAULT if loop else EventLoopType.SYNC
    )
    gui = cg.Collagraph(renderer=renderer)
    container = renderer.container()
    rep.note("program", program.root, data)
    gui.render(h(live.component(program.root), {"p": None}), container)
    locals_ = {}
    dropped = []

    def settle():
        if loop:
            loop.settle()

    def compare():
        model = Model(data, locals_)
        (expected,) = model.tree(program.root, None)
        actual = shown(container.children[0])
        if actual != expected:
            raise Violation("stale", f"{actual} instead of {expected}")
        for key in list(locals_):
            if key not in model.ids:
                del locals_[key]
        return model

    settle()
    model = compare()
    trail = []
    for step in range(int(6 + 25 * size)):
        live.renders = 0
        renderer.take_ops()
        before = model.ids
        used, what = write(rng, data, state, live, locals_, model, dropped, step)
        if what is None:
            continue
        rep.note(*what)
        trail.append(what)
        rep.count(f"writes to {'used' if used else 'unused'} data")
        if not used:
            if loop and not loop.idle():
                raise Violation("work-for-unused-data", f"scheduled for {what}")
            ops = renderer.take_ops()
            if live.renders or ops:
                raise Violation(
                    "work-for-unused-data", f"{live.renders} renders, {ops} for {what}"
                )
        for item in [live.live[i] for i in sorted(live.live)]:
            if item not in dropped:
                dropped.append(item)
        settle()
        if used and not live.renders:
            raise Violation("no-update", f"for {what}")
        model = compare()
        rep.count("flips", model.ids != before)
    rep.signature((program.root, trail))


def write(rng, data, state, live, locals_, model, dropped, step):
    kind = rng.choice(["scalar"] * 5 + ["list"] * 2 + ["dict", "new", "local", "other"])
    used = model.reader.used
    if kind == "scalar":
        # Both used and unused data
        path = rng.choice(SCALARS)
        value = rng.choice([v for v in range(4) if v != get(data, path)])
        for root in (data, state):
            get(root, path[:-1])[path[-1]] = value
        return path in used, (kind, path, value)
    if kind == "list":
        path = rng.choice(LISTS)
        size = len(get(data, path))
        op = rng.choice(["append", "pop", "insert", "clear", "set"])
        if not size and op in ("pop", "clear", "set") or size > 5:
            op = "append" if not size else "clear"
        value = rng.randrange(10, 100)
        for root in (data, state):
            items = get(root, path)
            if op == "append":
                items.append(value)
            elif op == "insert":
                items.insert(0, value)
            elif op == "pop":
                items.pop()
            elif op == "set":
                items[0] = value + 100 * step
            else:
                items.clear()
        return path in used, (kind, path, op)
    if kind == "dict":
        path = rng.choice(DICTS)
        new = get(new_data(rng), path)
        if new == get(data, path):
            return False, None
        for root in (data, state):
            get(root, path[:-1])[path[-1]] = copy.deepcopy(new)
        return path in used, (kind, path, new)
    if kind == "new":
        path = rng.choice([(), *DICTS])
        for root in (data, state):
            get(root, path)[f"new{step}"] = step
        return False, (kind, path)
    if kind == "local":
        ids = sorted(live.live)
        nid = rng.choice(ids)
        locals_[nid] = locals_.get(nid, 0) + 1
        live.live[nid].state["n"] += 1
        return nid in model.local_used, (kind, nid)
    # Data that isn't used by anything, or by components that are gone
    if rng.random() < 0.5:
        nid = rng.choice(sorted(live.live))
        live.live[nid].state["unused"] += 1
        return False, ("unused state", nid)
    gone = [c for c in dropped if c not in live.live.values()]
    if not gone:
        return False, None
    rng.choice(gone).state["n"] += 1
    return False, ("state of removed component",)
