import contextlib
import itertools

import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive

from lib import aio, mon
from lib.harness import Violation

QUICK, THOROUGH = 300, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case has 2 to 4 Collagraph instances, synchronous and/or asynchronous, with their "
    "own or a shared renderer, that render the same component classes (or the very same "
    "description) with shared and separate state. A history changes "
    "shared data, data of a single instance, local state, or renders other things. Hooks of "
    "one instance change the data of others. "
    "Distinct: by configuration, changes and final state."
)
MIN = {
    "changes of one instance": 300,
    "changes of several": 200,
    "untouched": 500,
    "changes from hooks": 100,
}
ASSUMPTIONS = ["each instance has its own container"]


class Instance:
    def __init__(self, number, renderer, loop_type):
        self.number = number
        self.renderer = renderer
        self.container = renderer.container()
        self.container.uid = -number
        self.gui = cg.Collagraph(renderer=renderer, event_loop_type=loop_type)
        self.data = reactive({"items": [], "value": 0})
        self.mode = "own"
        self.counts = {}
        self.live = {}


def case(rng, rep, size):
    loops = rng.choice(["sync", "async", "async", "mixed"])
    with contextlib.ExitStack() as stack:
        loop = stack.enter_context(aio.loop(rng)) if loops != "sync" else None
        run(rng, rep, size, loops, loop)


def run(rng, rep, size, loops, loop):
    shared = reactive({"items": ["s0"], "value": 0, "values": {}})
    names = itertools.count(1)
    uids = itertools.count(1)
    rendered = []
    instances = []

    budget = [0]
    affected = set()

    def from_hook(what, where):
        """Hooks of one instance change the data of another"""
        if not budget[0] or rng.random() < 0.5:
            return
        budget[0] -= 1
        other = rng.choice(instances)
        rep.count("changes from hooks", other is not where)
        if rng.random() < 0.4:
            shared["value"] += 1
            affected.update(i.number for i in instances if i.mode in ("shared", "both"))
            return
        if other.mode in ("own", "both"):
            affected.add(other.number)
        if rng.random() < 0.5:
            other.data["value"] += 1
        else:
            other.data["items"] = change(rng, other.data["items"], names, "i")
            forget(other, expected_items(other))

    class Item(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            self.uid = next(uids)
            self.state["n"] = 0
            self.where = instances[self.props["i"]]
            self.where.live[self.uid] = self

        def render(self):
            rendered.append(self.where.number)
            name = self.props["name"]
            values = shared["values"]
            attrs = {
                "name": name,
                "n": self.state["n"],
                "uid": self.uid,
                "value": values[name] if name in values.keys() else None,
            }
            return h("item", attrs, h("part", {}, h("piece")), h("part"))

        def mounted(self):
            from_hook("mounted", self.where)

        def updated(self):
            from_hook("updated", self.where)

        def before_unmount(self):
            from_hook("before_unmount", self.where)
            del self.where.live[self.uid]

    class Root(cg.Component):
        def render(self):
            inst = instances[self.props["i"]]
            rendered.append(inst.number)
            mode = self.props["mode"]
            items, attrs = [], {}
            if mode in ("own", "both"):
                items += inst.data["items"]
                attrs["own"] = inst.data["value"]
            if mode in ("shared", "both"):
                items += shared["items"]
                attrs["shared"] = shared["value"]
            return h(
                "root",
                attrs,
                *(h(Item, {"key": n, "name": n, "i": inst.number}) for n in items),
            )

    def root(inst):
        return h(Root, {"i": inst.number, "mode": inst.mode})

    one = mon.MonRenderer()
    sharing = rng.random() < 0.5
    count = rng.randrange(2, 5)
    for number in range(count):
        kind = {"sync": EventLoopType.SYNC, "async": EventLoopType.DEFAULT}.get(loops)
        kind = kind or rng.choice(list(EventLoopType))
        renderer = one if sharing else mon.MonRenderer()
        inst = Instance(number, renderer, kind)
        inst.mode = rng.choice(["own", "own", "shared", "both"])
        inst.data["items"] = [f"i{next(names)}" for _ in range(rng.randrange(6))]
        instances.append(inst)
    rep.note(loops, sharing, [(i.mode, i.data["items"]) for i in instances])
    renderers = list({id(i.renderer): i.renderer for i in instances}.values())

    def settle():
        if loop:
            loop.settle()

    owner = {}

    def learn():
        for inst in instances:
            for el in inst.container.walk():
                owner[el.uid, id(inst.renderer)] = inst.number

    def touched():
        """The instances of which elements were part of an operation"""
        learn()
        result = set()
        for renderer in renderers:
            for op in renderer.take_ops():
                for part in op[1:]:
                    if isinstance(part, mon.El):
                        result.add(owner.get((part.uid, id(renderer))))
        # Some were both created and removed in the meantime
        return result - {None}

    def expected_items(inst):
        items = []
        if inst.mode in ("own", "both"):
            items += [*inst.data["items"]]
        if inst.mode in ("shared", "both"):
            items += [*shared["items"]]
        return items

    known = {}

    def compare():
        for inst in instances:
            if inst.mode is None:
                if [c.type for c in inst.container.children] != ["nothing"]:
                    raise Violation("tree", repr(mon.plain(inst.container)))
                if inst.live:
                    raise Violation("instances", repr(inst.live))
                continue
            (root_el,) = inst.container.children
            attrs = {}
            if inst.mode != "shared":
                attrs["own"] = inst.data["value"]
            if inst.mode != "own":
                attrs["shared"] = shared["value"]
            items = expected_items(inst)
            actual = []
            found = set()
            for el in root_el.children:
                uid = el.attrs["uid"]
                found.add(uid)
                name = el.attrs["name"]
                if known.setdefault(uid, (inst.number, name)) != (inst.number, name):
                    raise Violation("shared-instance", f"{el}")
                actual.append((name, el.attrs["n"], el.attrs.get("value")))
            wanted = []
            for name in items:
                n = inst.counts.get(name, 0)
                wanted.append((name, n, shared["values"].get(name)))
            if actual != wanted or root_el.attrs != attrs:
                raise Violation(
                    "tree",
                    f"instance {inst.number}: {actual} {root_el.attrs} "
                    f"instead of {wanted} {attrs}",
                )
            if found != set(inst.live):
                raise Violation("instances", f"{found} instead of {set(inst.live)}")
        for renderer in renderers:
            if renderer.errors:
                kind, info = renderer.errors[0]
                raise Violation("protocol-" + kind, " ".join(info))

    for inst in instances:
        inst.gui.render(root(inst), inst.container)
        if rng.random() < 0.5:
            settle()
    settle()
    learn()
    compare()
    touched()
    trail = [(loops, sharing, [i.mode for i in instances])]
    for _ in range(int(4 + 12 * size)):
        ops = rng.choice([1, 1, 2, 3, 5])
        affected.clear()
        rendered.clear()
        budget[0] = rng.choice([0, 0, 1, 2, 4])
        for _ in range(ops):
            inst = rng.choice(instances)
            op = rng.choice(["own", "own", "value", "shared", "svalue", "item", "item"])
            op = rng.choice([op] * 6 + ["local", "local", "render"])
            live = sorted(
                uid for uid in inst.live if inst.live[uid].props["name"] in known_names(inst)
            )
            if op == "own":
                inst.data["items"] = change(rng, inst.data["items"], names, "i")
                forget(inst, expected_items(inst))
                if inst.mode in ("own", "both"):
                    affected.add(inst.number)
            elif op == "value":
                inst.data["value"] += 1
                if inst.mode in ("own", "both"):
                    affected.add(inst.number)
            elif op == "shared":
                shared["items"] = change(rng, shared["items"], names, "s")
                for other in instances:
                    forget(other, expected_items(other))
                    if other.mode in ("shared", "both"):
                        affected.add(other.number)
            elif op == "svalue":
                shared["value"] += 1
                affected.update(i.number for i in instances if i.mode in ("shared", "both"))
            elif op == "item":
                choices = sorted({n for i in instances for n in expected_items(i)})
                if not choices:
                    continue
                name = rng.choice(choices)
                shared["values"][name] = shared["values"].get(name, 0) + 1
                # The values are a dictionary that is used by all items
                affected.update(
                    i.number for i in instances if i.mode and expected_items(i)
                )
                affected.update(i.number for i in instances if i.live)
            elif op == "local" and live:
                settle()
                live = sorted(inst.live)
                if not live:
                    continue
                item = inst.live[rng.choice(live)]
                name = item.props["name"]
                inst.counts[name] = inst.counts.get(name, 0) + 1
                item.state["n"] += 1
                affected.add(inst.number)
            elif op == "render":
                settle()
                inst.mode = rng.choice(["own", "shared", "both", None])
                if inst.mode is None:
                    inst.counts.clear()
                    inst.gui.render(h("nothing"), inst.container)
                else:
                    inst.gui.render(root(inst), inst.container)
                forget(inst, expected_items(inst))
                settle()
                affected.add(inst.number)
            rep.note(op, inst.number)
            trail.append((op, inst.number))
            if loop is None or rng.random() < 0.3:
                settle()
            elif rng.random() < 0.8:
                # Leave the updates unfinished
                for _ in range(rng.randrange(1, 12)):
                    loop.tick()
                    if loop.idle():
                        break
                rep.count("changes in between iterations", not loop.idle())
        settle()
        kind = "one instance" if len(affected) == 1 else "several"
        rep.count("changes of " + kind)
        compare()
        others = touched() - affected
        if others:
            raise Violation("operations", f"on {others} instead of only {affected}")
        if set(rendered) - affected:
            raise Violation("renders", f"{set(rendered)} instead of only {affected}")
        rep.count("untouched", len(instances) - len(affected))
    rep.signature((trail, shared, [i.data for i in instances]))


def known_names(inst):
    return {item.props["name"] for item in inst.live.values()}


def forget(inst, items):
    """The state of items that are gone is lost"""
    for name in list(inst.counts):
        if name not in items:
            del inst.counts[name]


def change(rng, items, names, prefix):
    items = list(items)
    op = rng.choice(["insert", "remove", "shuffle"])
    if len(items) > 4:
        op = "remove"
    if op == "remove" and items:
        items.pop(rng.randrange(len(items)))
    elif op == "shuffle" and len(items) > 1:
        rng.shuffle(items)
    else:
        items.insert(rng.randrange(len(items) + 1), f"{prefix}{next(names)}")
    return items
