"""The program under observation: real components that render whatever the specs say.

All components report what happens to them (creation, render, hooks) to the world.
"""
import functools
from functools import partial
import itertools

import collagraph as cg
from collagraph import h
from observ import reactive

from . import model as M
from .harness import Violation

UNSET = object()
RENDER_BUDGET = 100_000


class Box:
    """Opaque value for passing specs as props: equal when the specs are equal"""

    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __eq__(self, other):
        return isinstance(other, Box) and self.node == other.node

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class Holder:
    """An object with methods to be used as handlers"""

    def __init__(self, world, spec, event):
        self.world, self.spec, self.event = world, spec, event

    def method(self, *args, **kwargs):
        self.world.fire(self.spec["h"], self.spec["v"], self.event, args, kwargs)


    @functools.lru_cache(maxsize=0)
    def cached(self, *args, **kwargs):
        self.world.fire(self.spec["h"], self.spec["v"], self.event, args, kwargs)


class EqualHolder(Holder):
    """All of these objects are equal to each other"""

    def __eq__(self, other):
        return isinstance(other, EqualHolder)

    __hash__ = None


class CallableHandler(Holder):
    def __call__(self, *args, **kwargs):
        self.world.fire(self.spec["h"], self.spec["v"], self.event, args, kwargs)


class World:
    current = None

    def __init__(self):
        self.root_state = reactive({"version": 0})
        self.root_spec = None
        self.uids = itertools.count(1)
        # Class component instances that haven't been unmounted
        self.live = {}
        # Everything that happens: (what, uid, ...)
        self.events = []
        self.fired = []
        # What will be changed after rendering, with the final value
        self.captures = []
        self.renders = 0
        self.render_budget = RENDER_BUDGET
        # Position in the renderer's list of operations
        self.clock = lambda: 0
        # Called as on_event(world, what, instance)
        self.on_event = None
        self.on_render = None
        self.Root = None
        self.components = {}
        self.make_components()

    # -- what is reported ----------------------------------------------------------
    def event(self, what, instance):
        self.events.append((what, instance.uid, self.clock()))
        if self.on_event:
            self.on_event(what, instance)

    def rendered(self, instance=None):
        self.renders += 1
        if self.renders > self.render_budget:
            raise Violation(
                "no-progress", f"components rendered more than {self.render_budget} times"
            )
        if self.on_render:
            self.on_render(instance)

    def fire(self, kind, value, event, args, kwargs):
        self.fired.append((kind, value, event, args, tuple(sorted(kwargs.items()))))

    def take_events(self):
        events, self.events = self.events, []
        return events

    # -- handlers ------------------------------------------------------------------
    def handler(self, spec, event):
        """Creates a new function for the handler in the spec"""
        kind, value = spec["h"], spec["v"]
        fire = self.fire
        if kind == "closure":

            def handle_closure(*args, **kwargs):
                fire("closure", value, event, args, kwargs)

            return handle_closure
        if kind == "default":
            return lambda *args, fire=fire, value=value, event=event, **kwargs: fire(
                "default", value, event, args, kwargs
            )
        if kind == "kwdefault":

            def handle_kwdefault(*args, value=value, **kwargs):
                fire("kwdefault", value, event, args, kwargs)

            return handle_kwdefault
        if kind == "posdefault":

            def posdefault(a=UNSET, b=UNSET, c=UNSET, value=value, event=event, **kwargs):
                args = tuple(arg for arg in (a, b, c) if arg is not UNSET)
                fire("posdefault", value, event, args, kwargs)

            return posdefault
        if kind == "partial":
            return partial(fire_partial, fire, value, event)
        if kind == "partialkw":
            return partial(fire_partial_kw, fire=fire, value=value, event_name=event)
        if kind == "bound":
            return Holder(self, spec, event).method
        if kind == "nested":

            def inner(*args, **kwargs):
                fire("nested", value, event, args, kwargs)

            return lambda *args, **kwargs: inner(*args, **kwargs)
        if kind == "mutable":
            captured = [value]
            return lambda *args, **kwargs: fire(
                "mutable", captured[0], event, args, kwargs
            )
        if kind == "callable":
            return CallableHandler(self, spec, event)
        if kind == "late":
            return lambda *args, **kwargs: fire(
                "late", self.root_state.get("late", 0), event, args, kwargs
            )
        if kind == "module":
            space = {"fire": fire, "value": value, "event": event}
            exec(MODULE, space)
            return space["handler"]
        if kind in ("same-bound", "same-callable", "same-cached"):
            return self.same(kind, spec, event)
        if kind == "equal-bound":
            return EqualHolder(self, spec, event).method
        if kind == "settled":
            # Equal to all others at first
            captured = [None]
            self.captures.append((partial(captured.__setitem__, 0), value))
            return lambda *args, **kwargs: fire(
                "settled", captured[0], event, args, kwargs
            )
        if kind == "unset":

            def unset(*args, **kwargs):
                fire("unset", later, event, args, kwargs)

            def assign(number):
                nonlocal later
                later = number

            self.captures.append((assign, value))
            if False:
                later = None
            return unset
        if kind == "types":
            captured = TYPES[value]()
            return lambda *args, **kwargs: fire(
                "types", type_index(captured), event, args, kwargs
            )
        if kind == "frozen":
            captured = frozenset([TYPES[value]()])
            return lambda *args, **kwargs: fire(
                "frozen", type_index(*captured), event, args, kwargs
            )
        if kind == "fresh":
            # A new object each time, but equal to the others
            captured = FRESH[value]()
            return lambda *args, **kwargs: fire(
                "fresh", fresh_index(captured), event, args, kwargs
            )
        if kind == "length":
            captured = (None,) * value
            return lambda *args, **kwargs: fire(
                "length", len(captured), event, args, kwargs
            )
        if kind == "func":
            return partial(FUNCS[value], fire, event)
        if kind == "self":

            def again(*args, times=2, **kwargs):
                if times:
                    return again(*args, times=times - 1, **kwargs)
                fire("self", value, event, args, kwargs)

            return again
        if kind == "mutual":

            def ping(*args, times=2, **kwargs):
                if times:
                    return pong(*args, times=times, **kwargs)
                fire("mutual", value, event, args, kwargs)

            def pong(*args, times, **kwargs):
                return ping(*args, times=times - 1, **kwargs)

            return ping
        if kind in LOOKALIKES:
            return LOOKALIKES[kind][value](fire, event)
        if kind == "plain":
            return self.plain_handler(value, event)
        raise AssertionError(kind)

    def same(self, kind, spec, event):
        """A method of the same object each time, or the same callable object"""
        cache = self.__dict__.setdefault("_same", {})
        key = kind, spec["v"], event
        if key not in cache:
            cls = CallableHandler if kind == "same-callable" else Holder
            cache[key] = cls(self, dict(spec), event)
        if kind == "same-bound":
            return cache[key].method
        if kind == "same-cached":
            return cache[key].cached
        return cache[key]

    def settle(self, on=True):
        """Change what has been captured by handlers"""
        for assign, value in self.captures:
            assign(value if on else None)

    def plain_handler(self, value, event):
        """The same function each time"""
        cache = self.__dict__.setdefault("_plain", {})
        if (value, event) not in cache:
            cache[value, event] = lambda *args, **kwargs: self.fire(
                "plain", value, event, args, kwargs
            )
        return cache[value, event]

    def expected_fire(self, spec, event, args, kwargs=()):
        value = spec["v"]
        if spec["h"] == "late":
            value = self.root_state.get("late", 0)
        return (spec["h"], value, event, args, tuple(sorted(dict(kwargs).items())))

    # -- building of elements ------------------------------------------------------
    def props(self, spec):
        props = {
            k: list(v) if isinstance(v, list) else v for k, v in spec["a"].items()
        }
        for event, handler in spec.get("on", {}).items():
            props[f"on_{event}"] = self.handler(handler, event)
        if spec.get("key") is not None:
            props["key"] = spec["key"]
        return props

    def build(self, spec, component=None):
        if spec is None:
            return None
        kind = spec["k"]
        if kind == "text":
            return spec["v"]
        if kind == "none":
            return None
        props = self.props(spec) if kind != "tpl" else {}
        if kind == "tpl":
            if spec["key"] is not None:
                props["key"] = spec["key"]
            return h("template", props, *self.build_all(spec["ch"], component))
        if kind == "el":
            for key, val in props.items():
                if isinstance(val, M.Cid):
                    props[key] = component.uid
            return h(spec["t"], props, *self.build_all(spec["ch"], component))
        if kind == "fn":
            return h(self.components["fn", spec["c"]], {**props, "spec": Box(spec)})
        if kind == "cls":
            props["spec"] = Box(spec)
            slots = {}
            for name, children in spec["sl"].items():
                slots[name] = self.slot(children, component)
            args = [slots] if slots else []
            return h(self.components["cls", spec["c"]], props, *args)
        raise AssertionError(kind)

    def slot(self, children, component):
        def content(props):
            return self.build_all(children, component)

        return content

    def build_all(self, specs, component):
        return [self.build(child, component) for child in specs]

    def make_components(world):
        def fn(name):
            def function_component(props):
                world.rendered(None)
                spec = props["spec"].node
                return world.build(M.expand_fn(name, spec))

            # The names have no meaning: made by a factory those are all the same
            return function_component

        for name in "FGP":
            world.components["fn", name] = fn(name)

        class Base(cg.Component):
            def __init__(self, props, parent=None):
                super().__init__(props, parent)
                self.uid = next(world.uids)
                self.nid = None
                self.state["n"] = 0
                self.state["v"] = 0
                self.local_tree = []
                world.live[self.uid] = self
                world.event("init", self)

            def local(self):
                local = M.Local()
                local.n = self.state["n"]
                self.state["v"]
                local.tree = self.local_tree
                return local

            def render(self):
                world.rendered(self)
                spec = self.props["spec"].node
                self.nid = spec["nid"]
                return self.render_spec(spec)

            def render_spec(self, spec):
                spec = M.expand_cls(self.kind, spec, self.local(), _NODE)
                return world.build(spec, self)

            def mounted(self):
                world.event("mounted", self)

            def updated(self):
                world.event("updated", self)

            def before_unmount(self):
                world.event("before_unmount", self)
                world.live.pop(self.uid, None)

        def make(letter):
            class Item(Base):
                kind = letter

            return Item

        class S(Base):
            kind = "S"

            def render_spec(self, spec):
                local = self.local()
                label = dict(spec["a"], n=local.n, cid=self.uid)
                ch = [
                    *keyed_elements(self.render_slot("extra"), "extra"),
                    h("label", label),
                    *self.render_slot("default"),
                    h("inner", {}, *self.render_slot("other")),
                    *world.build_all(M.rekey(local.tree, "local"), self),
                ]
                return h("cls-s", {}, *ch)

        class Root(Base):
            """Root component: depends on the version of the world"""

            kind = "Root"

            def render(self):
                world.rendered(self)
                world.root_state["version"]
                spec = world.root_spec
                self.nid = spec["nid"]
                return self.render_spec(spec)

        world.Root = Root
        world.components["cls", "Root"] = Root
        for cls in (make("A"), make("B"), make("C"), S):
            world.components["cls", cls.kind] = cls


def keyed_elements(elements, prefix):
    """See model.rekey"""
    for element in elements:
        if element is not None and not isinstance(element, str):
            if element.key is not None:
                element.key = (prefix, element.key)
        yield element


def fire_partial(fire, value, event, *args, **kwargs):
    fire("partial", value, event, args, kwargs)


def fire_partial_kw(*args, fire, value, event_name, **kwargs):
    fire("partialkw", value, event_name, args, kwargs)


def func_0(fire, event, *args, **kwargs):
    fire("func", 0, event, args, kwargs)


def func_1(fire, event, *args, **kwargs):
    fire("func", 1, event, args, kwargs)


def func_2(fire, event, *args, **kwargs):
    fire("func", 2, event, args, kwargs)


def func_3(fire, event, *args, **kwargs):
    fire("func", 3, event, args, kwargs)


FUNCS = [func_0, func_1, func_2, func_3]

# Equal values, of different types
TYPES = [lambda: 1, lambda: True, lambda: 1.0, lambda: 1 + 0j]


def type_index(value):
    return [int, bool, float, complex].index(type(value))


# Equal values, that are not the same object
FRESH = [
    lambda: float("1.5"),
    lambda: complex(1.5, 2),
    lambda: "".join(["some", " ", "text"]),
    lambda: bytes([200, 201, 202]),
]


def fresh_index(value):
    return [float, complex, str, bytes].index(type(value))


# The same code can be part of any number of modules
MODULE = compile(
    "def handler(*args, **kwargs):\n"
    "    fire('module', value, event, args, kwargs)\n",
    "handlers.py",
    "exec",
)


def value_0():
    return 0


def value_1():
    return 1


def value_2():
    return 2


def value_3():
    return 3


class values:  # noqa: N801
    v0, v1, v2, v3 = range(4)


def ordered(fire, event):
    """Handlers that have all of their code in common, except for the order in which they
    refer to their variables"""
    a, b, c, d = range(4)
    return [
        lambda *args, **kwargs: fire("order", (a, b, c, d)[0], event, args, kwargs),
        lambda *args, **kwargs: fire("order", (b, a, c, d)[0], event, args, kwargs),
        lambda *args, **kwargs: fire("order", (c, a, b, d)[0], event, args, kwargs),
        lambda *args, **kwargs: fire("order", (d, a, b, c)[0], event, args, kwargs),
    ]


def fail():
    raise KeyError


def covered(inside, outside):
    """Handlers with the very same instructions that only differ in which of those are
    covered by the innermost try statement"""

    def first(fire, event):
        def handler(*args, **kwargs):
            try:
                try: fail(); fail()  # noqa: E701, E702
                except KeyError:
                    value = inside
            except KeyError:
                value = outside
            fire("covered", value, event, args, kwargs)

        return handler

    def second(fire, event):
        def handler(*args, **kwargs):
            try:
                fail()
                try: fail()  # noqa: E701
                except KeyError:
                    value = inside
            except KeyError:
                value = outside
            fire("covered", value, event, args, kwargs)

        return handler

    return [first, second]


# Functions that look like each other
LOOKALIKES = {
    # Only the statements that are covered by try differ
    "covered": [*covered(0, 1), *covered(2, 3)],
    # Only the names of globals differ
    "names": [
        lambda fire, e: lambda *a, **k: fire("names", value_0(), e, a, k),
        lambda fire, e: lambda *a, **k: fire("names", value_1(), e, a, k),
        lambda fire, e: lambda *a, **k: fire("names", value_2(), e, a, k),
        lambda fire, e: lambda *a, **k: fire("names", value_3(), e, a, k),
    ],
    # Only the names of attributes differ
    "attrs": [
        lambda fire, e: lambda *a, **k: fire("attrs", values.v0, e, a, k),
        lambda fire, e: lambda *a, **k: fire("attrs", values.v1, e, a, k),
        lambda fire, e: lambda *a, **k: fire("attrs", values.v2, e, a, k),
        lambda fire, e: lambda *a, **k: fire("attrs", values.v3, e, a, k),
    ],
    # Only constants differ
    "consts": [
        lambda fire, e: lambda *a, **k: fire("consts", 0, e, a, k),
        lambda fire, e: lambda *a, **k: fire("consts", 1, e, a, k),
        lambda fire, e: lambda *a, **k: fire("consts", 2, e, a, k),
        lambda fire, e: lambda *a, **k: fire("consts", 3, e, a, k),
    ],
    # Only a constant of a function within differs
    "deep": [
        lambda fire, e: lambda *a, **k: (lambda: fire("deep", 0, e, a, k))(),
        lambda fire, e: lambda *a, **k: (lambda: fire("deep", 1, e, a, k))(),
        lambda fire, e: lambda *a, **k: (lambda: fire("deep", 2, e, a, k))(),
        lambda fire, e: lambda *a, **k: (lambda: fire("deep", 3, e, a, k))(),
    ],
    # Only the code differs
    "order": [
        lambda fire, e, n=n: ordered(fire, e)[n] for n in range(4)
    ],
}


class _Anything:
    token = None


_NODE = _Anything()
