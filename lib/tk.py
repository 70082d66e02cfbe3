"""Random histories of descriptions of elements of a real toolkit.

A schema describes the types of elements: which attributes they have (how to generate
and read them), what children they take, how to list the children and how to fire
events. Descriptions are JSON-able dicts:

  {"k": "el", "t": type, "key": key, "a": {attr: value}, "on": {event: handler}, "ch": []}
  {"k": "tpl" | "fn" | "cls", "key": key, "ch": []}

All siblings have unique keys. After each update the objects of the toolkit are compared
with the description: types, order and identity of children, values of attributes.
"""
import copy
from functools import partial
import itertools

import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive

from .harness import Violation
from .world import Box


class Attr:
    def __init__(self, gen, read=None, build=None, norm=None, write=None, **options):
        self.gen = gen
        self.read = read
        # From JSON-able value to the value of the prop
        self.build = build or (lambda value: value)
        # From JSON-able value to what is read
        self.norm = norm or (lambda value: value)
        # write(obj, value): change the value from outside
        self.write = write
        self.required = options.get("required", False)
        # Names for the prop, one of which is used for each element
        self.names = options.get("names")
        # Value for new objects (see Schema.defaults)
        self.default = None


class Type:
    def __init__(
        self,
        name,
        new=None,
        names=(),
        attrs=(),
        events=(),
        takes=(),
        limit=5,
        children=None,
        check=None,
        weight=1,
        wrappers=True,
        extra=None,
        perturb=None,
        unique=False,
        floating=False,
        ordered=True,
        sticky=(),
    ):
        self.name = name
        self.names = list(names) or [name]
        self.new = new
        self.attrs = dict(attrs)
        # event -> fire(obj, rng); returns the expected arguments (None: don't compare)
        self.events = dict(events)
        # Types of children
        self.takes = list(takes)
        self.limit = limit
        self.children = children or (lambda obj: [])
        # check(toolkit, obj, spec, children): further checks
        self.check = check
        self.weight = weight
        self.wrappers = wrappers
        # extra(rng, parent type): further attributes that depend on the parent
        self.extra = extra
        # perturb(obj, rng): what users and code outside of collagraph might do
        self.perturb = perturb
        # At most one of these in a parent
        self.unique = unique
        # Not in the list of children of the parent, and described after all others
        self.floating = floating
        # Names of extra attributes that never change
        self.sticky = set(sticky)
        # Otherwise the children are compared by name
        self.ordered = ordered


class Inst:
    """Element or wrapper of the description with an identity"""

    def __init__(self, spec):
        self.spec = spec
        self.ch = []
        self.obj = None
        # Values of attributes that aren't described, changed from outside
        self.perturbed = {}

    def elements(self):
        """The elements among the children"""
        for child in self.ch:
            if child.spec["k"] == "el":
                yield child
            else:
                yield from child.elements()

    def walk(self):
        yield self
        for child in self.ch:
            yield from child.walk()


def same(a, b):
    return a["k"] == b["k"] and a.get("t") == b.get("t") and a["key"] == b["key"]


def reconcile(old, spec):
    inst = old if old is not None and same(old.spec, spec) else Inst(spec)
    for name in spec.get("a", ()):
        inst.perturbed.pop(name, None)
    inst.spec = spec
    by_key = {child.spec["key"]: child for child in inst.ch}
    inst.ch = [reconcile(by_key.get(ch["key"]), ch) for ch in spec["ch"]]
    return inst


class Handlers:
    KINDS = ["closure", "lambda", "partial", "bound", "callable", "plain"]

    def __init__(self, kinds=None):
        self.log = []
        self.kinds = kinds or self.KINDS
        self.cache = {}

    def gen(self, rng):
        return {"h": rng.choice(self.kinds), "n": rng.randrange(5)}

    def make(self, spec):
        n = spec["n"]
        kind = spec["h"]
        log = self.log
        if kind == "closure":

            def handler(*args):
                log.append((kind, n))

            return handler
        if kind == "noargs":
            return lambda: log.append((kind, n))
        if kind == "onearg":
            return lambda value: log.append((kind, n, value))
        if kind == "lambda":
            return lambda *args, n=n: log.append((kind, n))
        if kind == "partial":
            return partial(record, log, kind, n)
        if kind == "bound":
            return Holder(log, n).method
        if kind == "shared":
            # Methods of one and the same object
            if n not in self.cache:
                self.cache[n] = Holder(log, n)
            return self.cache[n].shared
        if kind == "callable":
            return Callable(log, n)
        if kind == "plain":
            key = (kind, n)
            if key not in self.cache:
                self.cache[key] = lambda *args: log.append((kind, n))
            return self.cache[key]
        raise AssertionError(kind)


def record(log, kind, n, *args):
    log.append((kind, n))


class Holder:
    def __init__(self, log, n):
        self.log, self.n = log, n

    def method(self, *args):
        self.log.append(("bound", self.n))

    def shared(self, *args):
        self.log.append(("shared", self.n))


class Callable(Holder):
    def __call__(self, *args):
        self.log.append(("callable", self.n))


class Toolkit:
    def __init__(self, rep, schema, roots, renderer, container, handlers=None, **options):
        self.rep = rep
        self.schema = schema
        self.roots = roots
        self.renderer = renderer
        self.container = container
        self.handlers = handlers or Handlers()
        self.keys = itertools.count(1)
        self.state = reactive({"version": 0})
        self.spec = None
        self.inst = None
        self.pool = options.get("pool", 0.3)
        self.wrap = options.get("wrap", 0.15)
        self.same_keys = options.get("same_keys", True)
        self.max_size = options.get("max_size", 40)
        # Prop that's used to give each object its key as name, and how to read that
        self.name_prop = options.get("name_prop")
        self.name_of = options.get("name_of")
        # Attributes that never change once the element was created
        self.fixed = set(options.get("fixed", ()))
        self.removed = {}
        self.gui = cg.Collagraph(
            renderer=renderer, event_loop_type=EventLoopType.SYNC
        )
        toolkit = self

        class Wrapper(cg.Component):
            def render(self):
                return h("template", {}, *map(toolkit.build, self.props["spec"].node))

        class Root(cg.Component):
            def render(self):
                toolkit.state["version"]
                return toolkit.build(toolkit.spec)

        def Function(props):
            return h("template", {}, *map(toolkit.build, props["spec"].node))

        self.Root, self.Wrapper, self.Function = Root, Wrapper, Function

    # -- generation ----------------------------------------------------------------
    def gen(self, rng, name, depth, parent=None, key=None):
        typ = self.schema[name]
        spec = {"k": "el", "t": name, "key": key, "a": {}, "on": {}, "ch": []}
        spec["a"] = self.gen_attrs(rng, typ)
        if typ.extra:
            spec["a"].update(typ.extra(rng, parent))
        for event in typ.events:
            if rng.random() < 0.3:
                spec["on"][event] = self.handlers.gen(rng)
        if depth > 0 and typ.takes:
            n = rng.choice([0, 1, 2, 3, typ.limit])
            spec["ch"] = self.gen_children(rng, name, min(n, typ.limit), depth - 1)
        return spec

    def gen_attrs(self, rng, typ):
        attrs = {}
        names = list(typ.attrs)
        rng.shuffle(names)
        # Other attributes might need the required ones
        order = list(typ.attrs)
        names.sort(
            key=lambda name: order.index(name) - len(order)
            if typ.attrs[name].required
            else 1
        )
        for attr in names:
            if typ.attrs[attr].required or rng.random() < 0.3:
                attrs[attr] = typ.attrs[attr].gen(rng)
        return attrs

    def gen_children(self, rng, parent, n, depth):
        return [self.gen_child(rng, parent, depth) for _ in range(n)]

    def gen_child(self, rng, parent, depth):
        typ = self.schema[parent]
        key = f"k{next(self.keys)}"
        if typ.limit > 1 and typ.wrappers and rng.random() < self.wrap:
            ch = self.gen_children(rng, parent, rng.choice([0, 1, 1, 2]), depth)
            return {"k": rng.choice(["tpl", "fn", "cls"]), "key": key, "ch": ch}
        weights = [self.schema[t].weight for t in typ.takes]
        child = rng.choices(typ.takes, weights)[0]
        return self.gen(rng, child, depth, parent, key)

    def lists(self, spec, parent=None, depth=0):
        """All lists of children with the type of the element they belong to"""
        name = spec.get("t", parent)
        if spec["k"] != "el" or self.schema[name].takes:
            yield spec["ch"], name, depth, spec["k"] == "el"
        for child in spec["ch"]:
            yield from self.lists(child, name, depth + 1)

    def nodes(self, spec):
        yield spec
        for child in spec["ch"]:
            yield from self.nodes(child)

    def mutate(self, rng, spec, max_depth=3):
        spec = copy.deepcopy(spec)
        names = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            names.append(self.mutate_once(rng, spec, max_depth))
        self.normalize(spec)
        return spec, names

    def normalize(self, spec):
        """Remove whatever the schema doesn't allow"""
        for child in spec["ch"]:
            self.normalize(child)
        if spec["k"] != "el":
            return
        seen = set()
        left = self.schema[spec["t"]].limit

        def allowed(child, direct):
            nonlocal left
            if child["k"] != "el":
                child["ch"][:] = [ch for ch in child["ch"] if allowed(ch, False)]
                return True
            typ = self.schema[child["t"]]
            if left <= 0 or (typ.unique and typ.unique in seen):
                return False
            if typ.floating and not direct:
                return False
            left -= 1
            seen.add(typ.unique)
            return True

        spec["ch"][:] = [ch for ch in spec["ch"] if allowed(ch, True)]
        spec["ch"].sort(key=lambda ch: ch["k"] == "el" and self.schema[ch["t"]].floating)

    def count_elements(self, children):
        return sum(
            1 if ch["k"] == "el" else self.count_elements(ch["ch"]) for ch in children
        )

    def room(self, spec, target):
        """Number of elements that can be added to the list"""

        def visit(node, limit_list):
            # Returns the top-level list (of an element) that contains the target
            if node["ch"] is target:
                return limit_list if node["k"] != "el" else node
            for child in node["ch"]:
                found = visit(child, node if node["k"] == "el" else limit_list)
                if found is not None:
                    return found
            return None

        owner = visit(spec, None)
        limit = self.schema[owner["t"]].limit
        return limit - self.count_elements(owner["ch"])

    def mutate_once(self, rng, root, max_depth):
        lists = list(self.lists(root))
        op = rng.choice(
            ["insert"] * 4
            + ["remove"] * 3
            + ["move"] * 3
            + ["shuffle", "reverse", "replace", "swap", "transfer", "clear"]
            + ["attr"] * 4
            + ["attrs", "event", "event", "reinsert", "reinsert"]
            + ["extra"] * 2
        )
        if op == "extra":
            return self.mutate_extra(rng, lists)
        if op in ("attr", "attrs", "event"):
            return self.mutate_node(rng, root, op)
        if not lists:
            return "skip"
        weights = [len(ch) + 1 for ch, *_ in lists]
        ch, parent, depth, direct = rng.choices(lists, weights)[0]
        typ = self.schema[parent]
        if op == "insert":
            room = self.room(root, ch)
            if room <= 0 or sum(1 for _ in self.nodes(root)) > self.max_size:
                return "skip"
            n = rng.choice([1, 1, 2, 3])
            for _ in range(min(n, room)):
                depth_left = max(0, max_depth - depth - 1)
                child = self.gen_child(rng, parent, rng.randrange(depth_left + 1))
                if self.count_elements([child]) > self.room(root, ch):
                    continue
                ch.insert(rng.randrange(len(ch) + 1), child)
        elif op == "reinsert":
            # With the key of something that was there before, in the same place or not
            options = self.removed.get(parent)
            if not options:
                return "skip"
            child = copy.deepcopy(rng.choice(options))
            used = {node["key"] for node in self.nodes(root)}
            if any(node["key"] in used for node in self.nodes(child)):
                return "skip"
            if self.count_elements([child]) > self.room(root, ch):
                return "skip"
            ch.insert(rng.randrange(len(ch) + 1), child)
        elif op == "remove":
            if not ch:
                return "skip"
            for _ in range(rng.choice([1, 1, 2])):
                if ch:
                    self.drop(parent, ch.pop(rng.randrange(len(ch))))
        elif op == "clear":
            for child in ch:
                self.drop(parent, child)
            ch.clear()
        elif op == "move":
            if len(ch) < 2:
                return "skip"
            ch.insert(rng.randrange(len(ch)), ch.pop(rng.randrange(len(ch))))
        elif op == "swap":
            if len(ch) < 2:
                return "skip"
            a, b = rng.sample(range(len(ch)), 2)
            ch[a], ch[b] = ch[b], ch[a]
        elif op == "shuffle":
            rng.shuffle(ch)
        elif op == "reverse":
            ch.reverse()
        elif op == "replace":
            if not ch:
                return "skip"
            idx = rng.randrange(len(ch))
            old = ch[idx]
            child = self.gen_child(rng, parent, rng.randrange(2))
            if child["k"] == "el" and old["k"] == "el" and self.replaces(old, child):
                # Same key with a (possibly) different type
                child["key"] = old["key"]
                if child["t"] == old["t"]:
                    self.keep_sticky(old, child)
            room = self.room(root, ch) + self.count_elements([old])
            if self.count_elements([child]) > room:
                return "skip"
            ch[idx] = child
        elif op == "transfer":
            # To another parent that takes the same kind of children
            if not ch or typ.extra:
                return "skip"
            idx = rng.randrange(len(ch))
            inside = [id(item[0]) for item in self.lists(ch[idx], parent)]
            others = [
                other
                for other, name, *_ in lists
                if name == parent and other is not ch and id(other) not in inside
            ]
            if not others:
                return "skip"
            other = rng.choice(others)
            if self.count_elements([ch[idx]]) > self.room(root, other):
                return "skip"
            other.insert(rng.randrange(len(other) + 1), ch.pop(idx))
        return op

    def replaces(self, old, new):
        """Whether new can have the key of old, as an element with another name"""
        if self.fixed.intersection(self.schema[old["t"]].attrs):
            return False
        names = [self.element_name(node["t"], old["key"]) for node in (old, new)]
        return self.same_keys and (old["t"] == new["t"] or names[0] != names[1])

    def element_name(self, name, key):
        names = self.schema[name].names
        return names[len(key or "") % len(names)]

    def keep_sticky(self, old, new):
        for name in self.schema[new["t"]].sticky - set(self.schema[new["t"]].attrs):
            new["a"].pop(name, None)
            if name in old["a"]:
                new["a"][name] = old["a"][name]

    def mutate_extra(self, rng, lists):
        """New values of the attributes that depend on the parent"""
        options = [
            (child, parent)
            for ch, parent, *_ in lists
            for child in ch
            if child["k"] == "el" and self.schema[child["t"]].extra
        ]
        if not options:
            return "skip"
        node, parent = rng.choice(options)
        typ = self.schema[node["t"]]
        new = dict(node, a=typ.extra(rng, parent))
        self.keep_sticky(node, new)
        attrs = {name: val for name, val in node["a"].items() if name in typ.attrs}
        if set(new["a"]) | set(attrs) != set(node["a"]):
            return "skip"
        node["a"] = {**attrs, **new["a"]}
        return "extra"

    def drop(self, parent, child):
        self.removed.setdefault(parent, []).append(copy.deepcopy(child))

    def mutate_node(self, rng, root, op):
        nodes = [node for node in self.nodes(root) if node["k"] == "el"]
        if op == "event":
            nodes = [node for node in nodes if self.schema[node["t"]].events]
            if not nodes:
                return "skip"
            node = rng.choice(nodes)
            event = rng.choice(list(self.schema[node["t"]].events))
            if event in node["on"] and rng.random() < 0.4:
                del node["on"][event]
            else:
                node["on"][event] = self.handlers.gen(rng)
            return op
        nodes = [node for node in nodes if self.schema[node["t"]].attrs]
        if not nodes:
            return "skip"
        node = rng.choice(nodes)
        typ = self.schema[node["t"]]
        keep = {
            attr: val
            for attr, val in node["a"].items()
            if attr in self.fixed or attr not in typ.attrs
        }
        if op == "attrs":
            new = self.gen_attrs(rng, typ)
            new = {attr: val for attr, val in new.items() if attr not in self.fixed}
            node["a"] = {**keep, **new}
            return op
        # The attributes that are specific for the type come first
        names = list(typ.attrs)
        attr = rng.choice(names if rng.random() < 0.6 else names[:4])
        if attr in self.fixed:
            return "skip"
        if attr in node["a"] and not typ.attrs[attr].required and rng.random() < 0.4:
            del node["a"][attr]
        else:
            node["a"][attr] = typ.attrs[attr].gen(rng)
        return op

    # -- rendering -----------------------------------------------------------------
    def build(self, spec):
        if spec["k"] == "tpl":
            return h("template", {"key": spec["key"]}, *map(self.build, spec["ch"]))
        if spec["k"] in ("fn", "cls"):
            target = self.Function if spec["k"] == "fn" else self.Wrapper
            return h(target, {"key": spec["key"], "spec": Box(spec["ch"])})
        typ = self.schema[spec["t"]]
        props = {"key": spec["key"]} if spec["key"] is not None else {}
        if self.name_prop and spec["key"] is not None:
            props[self.name_prop] = spec["key"]
        for attr, value in spec["a"].items():
            if attr in typ.attrs:
                value = typ.attrs[attr].build(value)
                names = typ.attrs[attr].names or [attr]
                attr = names[len(spec["key"] or "") % len(names)]
            props[attr] = value
        for event, handler in spec["on"].items():
            props[f"on_{event}"] = self.handlers.make(handler)
        name = self.element_name(spec["t"], spec["key"])
        return h(name, props, *map(self.build, spec["ch"]))

    def start(self, spec):
        self.spec = spec
        self.inst = reconcile(None, spec)
        self.gui.render(h(self.Root, {}), self.container)

    def change(self, spec):
        self.spec = spec
        self.inst = reconcile(self.inst, spec)
        self.state["version"] += 1

    # -- comparison ----------------------------------------------------------------
    def bind(self, inst, obj):
        if inst.obj is None:
            inst.obj = obj
        elif inst.obj is not obj:
            raise Violation("identity", f"another object for {inst.spec['t']}: {obj}")

    def check(self, root_obj, defaults=True, events=None):
        """Compare the complete tree of objects, given the root element"""
        self.bind(self.inst, root_obj)
        stack = [self.inst]
        objs = {}
        while stack:
            inst = stack.pop()
            spec, obj = inst.spec, inst.obj
            typ = self.schema[spec["t"]]
            if typ.new and not isinstance(obj, typ.new):
                raise Violation("type", f"{obj} instead of {spec['t']}")
            if id(obj) in objs:
                raise Violation("shared", f"{obj} for several elements")
            objs[id(obj)] = inst
            children = list(inst.elements())
            actual = list(typ.children(obj))
            if not typ.ordered:
                children.sort(key=lambda inst: inst.spec["key"])
                actual.sort(key=self.name_of)
            else:
                children.sort(key=self.floating_key)
            if len(children) != len(actual) or any(
                c.obj is not None and c.obj is not a for c, a in zip(children, actual)
            ):
                expected = [(c.spec["t"], c.spec["key"], c.obj) for c in children]
                raise Violation(
                    "children",
                    f"{actual} instead of {expected} in {spec['t']} {spec['key']}",
                )
            for child, a in zip(children, actual):
                self.bind(child, a)
            self.rep.count("elements compared")
            self.check_attrs(typ, inst, defaults)
            if typ.check:
                typ.check(self, inst, children)
            if events is not None:
                self.check_events(typ, obj, spec, events)
            stack.extend(children)
        return objs

    def floating_key(self, inst):
        if self.schema[inst.spec["t"]].floating:
            return (1, inst.spec["key"])
        return (0,)

    def perturb(self, rng, insts, chance=0.2):
        """Change attributes that aren't described, as users would do"""
        for inst in insts:
            for name, attr in self.schema[inst.spec["t"]].attrs.items():
                if not attr.write or name in inst.spec["a"] or rng.random() > chance:
                    continue
                value = attr.gen(rng)
                attr.write(inst.obj, attr.build(value))
                inst.perturbed[name] = attr.norm(value)
                self.rep.count("perturbed")

    def check_attrs(self, typ, inst, defaults):
        spec, obj = inst.spec, inst.obj
        for name, attr in typ.attrs.items():
            if attr.read is None:
                continue
            if name in spec["a"]:
                expected = attr.norm(spec["a"][name])
                self.rep.count("attributes compared")
            elif name in inst.perturbed:
                expected = inst.perturbed[name]
                self.rep.count("perturbed attributes compared")
            elif defaults and attr.default is not None:
                expected = attr.default[0]
                self.rep.count("defaults compared")
            else:
                continue
            actual = attr.read(obj)
            if not close(actual, expected):
                kind = "attribute" if name in spec["a"] else "default"
                raise Violation(
                    kind, f"{name} of {spec['t']}: {actual!r} instead of {expected!r}"
                )

    def check_events(self, typ, obj, spec, rng):
        for event, fire in typ.events.items():
            self.handlers.log.clear()
            args = fire(obj, rng)
            if args is NotImplemented:
                continue
            self.rep.count("events fired")
            expected = []
            if event in spec["on"]:
                handler = spec["on"][event]
                call = (handler["h"], handler["n"])
                if handler["h"] == "onearg":
                    call += tuple(args[:1])
                expected = [call]
                self.rep.count("handlers called")
            if self.handlers.log != expected:
                raise Violation(
                    "handlers",
                    f"{event} of {spec['t']}: {self.handlers.log} instead of {expected}",
                )


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) < 1e-4
        except TypeError:
            return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b


def find_defaults(schema, make):
    """Read the values that attributes have for a new element: make(type name)"""
    for typ in schema.values():
        attrs = [a for a in typ.attrs.values() if a.read]
        if not attrs:
            continue
        obj = make(typ.names[0])
        for attr in attrs:
            attr.default = (attr.read(obj),)


def history(rng, rep, size, toolkit, get_root, monitor, steps=None, max_depth=3):
    root = rng.choice(toolkit.roots)
    spec = toolkit.gen(rng, root, rng.choice([1, 2, max_depth]))
    toolkit.normalize(spec)
    rep.note("initial", spec)
    toolkit.start(spec)
    monitor(get_root(), None)
    trail = []
    for _ in range(steps or int(3 + 12 * size)):
        spec, names = toolkit.mutate(rng, toolkit.spec, max_depth)
        rep.note("change", names, spec)
        trail.append(names)
        toolkit.change(spec)
        rep.count("updates")
        for name in names:
            rep.count(f"change {name}")
        monitor(get_root(), names)
    rep.signature((trail, spec))
