import contextlib
import sys

import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive

from lib import aio, mon
from lib.harness import Violation

QUICK, THOROUGH = 24, 1500
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a tree with a chain of elements, fragments, function and class components "
    "and/or slots with more levels than the recursion limit of the interpreter, or with "
    "thousands of siblings (of mixed kinds), that is rendered, updated, reordered, removed "
    "and rendered anew. Distinct: by shape, size and changes."
)
MIN = {"levels": 8000, "siblings": 5000, "mounted": 3000}
ASSUMPTIONS = ["the recursion limit of the interpreter is 1000"]


class Hooks:
    def __init__(self):
        self.mounted = self.unmounted = self.updated = self.created = 0


def make(hooks, state, chain):
    """Components of which each renders the rest of the chain"""

    def rest(level):
        """The chain below the level, up to the next component"""
        stretch = []
        while level < len(chain) and chain[level] in ("el", "tpl"):
            stretch.append(chain[level])
            level += 1
        if level >= len(chain):
            node = h("leaf", {"value": state["value"]})
        elif chain[level] == "fn":
            node = h(fn, {"level": level})
        elif chain[level] == "slot":
            node = h(Slotted, {"level": level}, lambda props: rest(level + 1))
        else:
            node = h(Deep, {"level": level})
        for kind in reversed(stretch):
            node = h("template" if kind == "tpl" else "el", {}, node)
        return node

    class Base(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            hooks.created += 1

        def mounted(self):
            hooks.mounted += 1
            if self.props["level"] == state["probe"]:
                state["found"] = self.inject("top", "missing")

        def updated(self):
            hooks.updated += 1

        def before_unmount(self):
            hooks.unmounted += 1

    class Deep(Base):
        def render(self):
            return rest(self.props["level"] + 1)

    class Slotted(Base):
        def render(self):
            return h("slotted", {}, *self.render_slot("default"))

    def fn(props):
        return rest(props["level"] + 1)

    class Root(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            self.provide("top", "value")

        def render(self):
            parts = []
            for name in state["parts"]:
                if name == "deep":
                    parts.append(h("holder", {"key": name}, rest(0)))
                else:
                    parts.append(h("other", {"key": name}))
            return h("root", {}, *parts)

    return Root


def case(rng, rep, size):
    with contextlib.ExitStack() as stack:
        loop = None
        if rng.random() < 0.3:
            loop = stack.enter_context(aio.loop(rng, rng.choice([0.02, 0.1])))
        (deep if rng.random() < 0.6 else wide)(rng, rep, size, loop)


def start(loop):
    renderer = mon.MonRenderer(
        loop_type=EventLoopType.DEFAULT if loop else EventLoopType.SYNC
    )
    gui = cg.Collagraph(renderer=renderer)
    return renderer, gui, renderer.container()


def complete(renderer, loop):
    if loop:
        loop.settle()
    renderer.end_of_update()
    renderer.take_ops()
    if renderer.errors:
        kind, info = renderer.errors[0]
        raise Violation("protocol-" + kind, " ".join(info)[:500])


def deep(rng, rep, size, loop):
    limit = sys.getrecursionlimit()
    levels = rng.randrange(int(limit * 1.2), int(limit * 2.2))
    kinds = rng.choice(
        [
            ["el"],
            ["tpl"],
            ["cls"],
            ["fn"],
            ["slot"],
            ["el", "cls"],
            ["tpl", "fn", "el"],
            ["el", "tpl", "cls", "fn", "slot"],
        ]
    )
    chain = [rng.choice(kinds) for _ in range(levels)]
    hooks = Hooks()
    state = reactive(
        {"value": 0, "parts": ["a", "deep", "b"], "probe": None, "found": None}
    )
    components = [n for n, kind in enumerate(chain) if kind in ("cls", "slot")]
    if components:
        state["probe"] = components[-1]
    rep.note("deep", levels, kinds, bool(loop))
    rep.count("levels", levels)
    renderer, gui, container = start(loop)
    gui.render(h(make(hooks, state, chain), {}), container)
    complete(renderer, loop)

    names = {"el": "el", "slot": "slotted"}
    expected = [names[kind] for kind in chain if kind in names] + ["leaf"]

    def check():
        (root,) = container.children
        wanted = ["holder" if p == "deep" else "other" for p in state["parts"]]
        if [el.type for el in root.children] != wanted:
            raise Violation("order", f"{root.children} for {state['parts']}")
        for el in root.children:
            if el.type == "holder":
                types = []
                while el.children:
                    if len(el.children) != 1:
                        raise Violation("chain", f"{len(el.children)} children")
                    el = el.children[0]
                    types.append(el.type)
                if types != expected:
                    raise Violation("chain", f"{len(types)} instead of {len(expected)}")
                if el.attrs.get("value") != state["value"]:
                    raise Violation("leaf", f"{el.attrs} instead of {state['value']}")

    rounds = 1
    present = True

    def counts():
        total = rounds * len(components)
        gone = total if not present else total - len(components)
        if (hooks.created, hooks.mounted, hooks.unmounted) != (total, total, gone):
            raise Violation("hooks", f"{vars(hooks)} instead of {total}, {gone}")

    check()
    counts()
    if components and state["found"] != "value":
        raise Violation("inject", repr(state["found"]))
    trail = []
    for _ in range(rng.randrange(2, 5)):
        op = rng.choice(["value", "move", "toggle", "toggle", "nothing"])
        trail.append(op)
        rep.note(op)
        if op == "value":
            state["value"] += 1
        elif op == "move":
            state["parts"] = rng.sample(list(state["parts"]), len(state["parts"]))
        elif op == "toggle":
            if present:
                state["parts"] = [p for p in state["parts"] if p != "deep"]
            else:
                state["parts"] = ["deep", *state["parts"]]
                rounds += 1
            present = not present
        complete(renderer, loop)
        check()
        counts()
    rep.count("mounted", hooks.mounted)
    rep.signature(("deep", levels, kinds, trail))


def wide(rng, rep, size, loop):
    number = rng.randrange(1000, 2500)
    kinds = rng.choice(
        [["el"], ["el", "text"], ["tpl"], ["cls"], ["fn", "el"], ["el", "cls", "tpl", "fn"]]
    )
    keyed = "text" not in kinds and rng.random() < 0.8
    hooks = Hooks()
    state = reactive({"items": [], "value": 0})

    class Item(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            hooks.created += 1

        def render(self):
            return h("item", {"name": self.props["name"]})

        def mounted(self):
            hooks.mounted += 1

        def before_unmount(self):
            hooks.unmounted += 1

    def fn(props):
        return h("item", {"name": props["name"]})

    def item(name):
        kind = kinds[name % len(kinds)]
        props = {"name": name, **({"key": name} if keyed else {})}
        if kind == "text":
            return str(name)
        if kind == "cls":
            return h(Item, props)
        if kind == "fn":
            return h(fn, props)
        if kind == "tpl":
            key = {"key": name} if keyed else {}
            return h("template", key, h("item", {"name": name}), h("item", {"name": name}))
        return h("item", props)

    class Root(cg.Component):
        def render(self):
            return h("root", {}, *[item(name) for name in state["items"]])

    items = list(range(number))
    state["items"] = items
    rep.note("wide", number, kinds, keyed, bool(loop))
    rep.count("siblings", number)
    renderer, gui, container = start(loop)
    gui.render(h(Root, {}), container)
    complete(renderer, loop)
    trail = []

    def check():
        (root,) = container.children
        expected = []
        for name in state["items"]:
            kind = kinds[name % len(kinds)]
            expected += [name, name] if kind == "tpl" else [name]
        actual = [
            int(el.text) if el.type == "TEXT" else el.attrs["name"] for el in root.children
        ]
        if actual != expected:
            raise Violation("order", f"{len(actual)} and {len(expected)} items")
        components = sum(kinds[name % len(kinds)] == "cls" for name in state["items"])
        if hooks.mounted != hooks.created or hooks.mounted - hooks.unmounted != components:
            raise Violation("hooks", f"{vars(hooks)} for {components}")

    check()
    for _ in range(rng.randrange(1, 4)):
        op = rng.choice(["shuffle", "reverse", "half", "insert", "clear", "rotate"])
        trail.append(op)
        rep.note(op)
        items = list(state["items"])
        if op == "shuffle":
            rng.shuffle(items)
        elif op == "reverse":
            items.reverse()
        elif op == "half":
            items = items[::2]
        elif op == "insert":
            items[len(items) // 2 : 0] = range(number, number + 300)
            items = list(dict.fromkeys(items))
        elif op == "rotate":
            items = items[1:] + items[:1]
        elif items:
            items = []
        else:
            items = list(range(number))
        state["items"] = items
        complete(renderer, loop)
        check()
    rep.count("mounted", hooks.mounted)
    rep.signature(("wide", number, kinds, trail))
