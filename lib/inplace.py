"""Reactive dictionaries that are passed as props of elements and components, and that
are changed in place: none of the components renders because of that."""
import collagraph as cg
from collagraph import EventLoopType, h
from observ import reactive, to_raw

from . import mon, spec as S
from .harness import Violation
from .world import World

RULE = (
    " Separate cases pass reactive dictionaries as props to elements and components, and "
    "change those in place (attributes and handlers are added, replaced and removed)."
    " All pairs of successive handlers that look like each other are rendered as well."
)


def case(rng, rep, loop=None, hooks=()):
    """With a loop (of aio), changes are made in between its iterations. Hooks are names
    of hooks (or "init") that make changes as well."""
    world = World()
    emitters = {}
    budget = [0]
    wrong = []

    def on_hook(hook):
        if hook in hooks and budget[0] > 0 and rng.random() < 0.4:
            budget[0] -= 1
            rep.count(f"changes in place in {hook}")
            operation(hook)

    class Child(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            emitters[props["name"]] = self
            on_hook("init")

        def mounted(self):
            on_hook("mounted")

        def updated(self):
            on_hook("updated")

        def before_unmount(self):
            on_hook("before_unmount")

        def render(self):
            passed = [
                {**item["props"]}
                for item in to_raw(data["items"])
                if item["props"]["name"] == self.props["name"]
            ]
            # (without depending on all of the props)
            seen = to_raw(self.props)
            if passed and without_events(seen) != without_events(passed[0]):
                wrong.append(f"{seen} instead of {passed[0]}")
            rep.count("renders with props that are changed in place")
            # What's rendered doesn't refer to the handlers
            attrs = {key: self.props[key] for key in S.ATTRS if key in self.props}
            return h("child", {"name": self.props["name"], **attrs})

    def Function(props):
        return h("function", props)

    kinds = [kind for kind in S.HANDLER_KINDS if kind != "late"]
    if rng.random() < 0.5:
        kinds = rng.sample(kinds, 2)
    # Only changes to the props of components
    focus = hooks and rng.random() < 0.5
    names = iter(range(10**6))
    profile = S.Profile(handlers=kinds, list_attrs=False)

    def gen():
        name = f"n{next(names)}"
        on = S.gen_events(rng, profile)
        kind = "cls" if focus else rng.choice(["el", "cls", "cls", "fn", "deep"])
        item = {"kind": kind, "props": {}}
        item["props"] = {"key": name, "name": name, **S.gen_attrs(rng, profile)}
        for event, handler in on.items():
            item["props"][f"on_{event}"] = world.handler(handler, event)
        handlers[name] = on
        return item

    handlers = {}
    data = reactive({"items": [gen() for _ in range(rng.randrange(1, 5))], "round": 0})

    def build(item):
        kind, props = item["kind"], item["props"]
        if kind == "deep":
            key = props["key"]
            return h("template", {"key": key}, h("box", {}, h("leaf", props)))
        return h({"el": "leaf", "cls": Child, "fn": Function}[kind], props)

    def Root(props):
        return h(
            "root",
            {"round": data["round"]},
            *[build(item) for item in data["items"]],
        )

    loop_type = EventLoopType.DEFAULT if loop else EventLoopType.SYNC
    renderer = mon.MonRenderer(loop_type=loop_type)
    container = renderer.container()
    gui = cg.Collagraph(renderer=renderer)

    def check():
        if loop:
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
                if not loop.idle():
                    loop.tick()
                    rep.count("iterations")
            if not loop.idle() and rng.random() < 0.7:
                rep.count("changes while work is in progress")
                return
            loop.settle()
            rep.count("settled")
        if wrong:
            raise Violation("in-place-seen", wrong[0])
        found = []
        for el in container.children[0].children:
            found.append(el.children[0] if el.type == "box" else el)
        expected = [item["props"]["name"] for item in data["items"]]
        if [el.attrs.get("name") for el in found] != expected:
            raise Violation("in-place-children", f"{found} instead of {expected}")
        for el, item in zip(found, data["items"]):
            name = item["props"]["name"]
            attrs = {k: v for k, v in item["props"].items() if k in S.ATTRS}
            actual = {k: v for k, v in el.attrs.items() if k in S.ATTRS}
            rep.count("attributes after changes in place", len(attrs))
            if to_raw(attrs) != to_raw(actual):
                raise Violation(
                    "in-place-attributes", f"{item}: {actual} instead of {attrs}"
                )
            for event in S.EVENTS:
                args = (event, rng.randrange(100)) if rng.random() < 0.5 else ()
                kwargs = {"kw": rng.randrange(9)} if rng.random() < 0.3 else {}
                world.fired.clear()
                if item["kind"] == "cls":
                    emitters[name].emit(event, *args, **kwargs)
                    rep.count("events emitted")
                else:
                    mon.fire(el, event, *args, **kwargs)
                    rep.count("events fired")
                expected = []
                if event in handlers[name]:
                    rep.count("handlers called")
                    spec = handlers[name][event]
                    expected = [world.expected_fire(spec, event, args, kwargs)]
                if world.fired != expected:
                    raise Violation(
                        "in-place-handler",
                        f"{event} of {item['kind']} {name}: {world.fired} instead of "
                        f"{expected}",
                    )

    trail = []

    def operation(where):
        items = data["items"]
        ops = ["event"] * 4 + ["event-removed"] * 3 + ["attr"] * 2
        ops += ["attr-removed", "insert", "remove", "move", "round", "several", "update"]
        if focus:
            ops = ["event", "event-removed", "attr", "attr-removed", "update", "several"]
        op = rng.choice(ops if items else ["insert"])
        trail.append((where, op))
        rep.note(where, op)
        if op == "insert":
            items.insert(rng.randrange(len(items) + 1), gen())
        elif op == "remove":
            del items[rng.randrange(len(items))]
        elif op == "move":
            items.insert(rng.randrange(len(items)), items.pop())
        elif op == "round":
            data["round"] += 1
        else:
            for _ in range(3 if op == "several" else 1):
                # Changes might lead to other changes by hooks
                if not items:
                    break
                item = rng.choice(list(items))
                change(rng, item, op, handlers, world, profile, loop)
            rep.count("changes in place")

    budget[0] = rng.randrange(5)
    gui.render(h(Root, {}), container)
    check()
    for _ in range(rng.randrange(5, 60 if loop else 20)):
        budget[0] = rng.randrange(5)
        operation("outside")
        check()
    if loop:
        while not loop.idle():
            loop.settle()
        check()
    rep.signature(("in place", trail, str(handlers)))


def without_events(props):
    return {k: ... if k.startswith("on_") else v for k, v in props.items()}


def change(rng, item, op, handlers, world, profile, loop):
    props = item["props"]
    on = handlers[props["name"]]
    if op == "several":
        op = rng.choice(["event", "event-removed", "attr", "attr-removed", "update"])
    if op == "event":
        event, spec = rng.choice(S.EVENTS), S.gen_handler(rng, profile)
        if (props["name"], event) in handlers:
            # Being removed right now (by observ): this is a change by a hook
            return
        on[event] = spec
        props[f"on_{event}"] = world.handler(spec, event)
    elif op == "event-removed" and on:
        event = rng.choice(sorted(on))
        del on[event]
        removal = (props["name"], event)
        handlers[removal] = "being removed"
        del props[f"on_{event}"]
        del handlers[removal]
    elif op in {"attr", "update"}:
        # Names that have been removed from a dictionary aren't added again (observ loses
        # track of such names in synchronous loops)
        names = [
            name for name in S.ATTRS if loop or (props["name"], name) not in handlers
        ]
        if names:
            # With just a few values, it's likely to be what it was before
            value = rng.choice([2, 3]) if loop else S.gen_value(rng, profile)
            if op == "attr":
                props[rng.choice(names)] = value
            else:
                names = rng.sample(names, rng.randrange(1, len(names) + 1))
                props.update({name: value for name in names})
    elif op == "attr-removed":
        names = [name for name in S.ATTRS if name in props]
        if names:
            name = rng.choice(names)
            handlers[props["name"], name] = "removed"
            del props[name]


def pairs(rep, kind, component):
    """Each combination of successive handlers of the same kind"""
    world = World()
    instances = []

    class Child(cg.Component):
        def render(self):
            instances.append(self)
            return h("child")

    for old in range(4):
        for new in range(4):
            data = reactive({"value": old})

            def Root(props):
                spec = {"h": kind, "v": 0 if kind == "late" else data["value"]}
                props = {"on_drop": world.handler(spec, "drop"), "value": data["value"]}
                return h("root", {}, h(Child if component else "leaf", props))

            renderer = mon.MonRenderer(loop_type=EventLoopType.SYNC)
            container = renderer.container()
            gui = cg.Collagraph(renderer=renderer)
            gui.render(h(Root, {}), container)
            for value in (new, old):
                data["value"] = value
                world.settle()
                world.fired.clear()
                if component:
                    instances[-1].emit("drop", 1)
                else:
                    mon.fire(container.children[0].children[0], "drop", 1)
                spec = {"h": kind, "v": 0 if kind == "late" else value}
                expected = [world.expected_fire(spec, "drop", (1,))]
                if world.fired != expected:
                    raise Violation(
                        "successive-handlers", f"{world.fired} instead of {expected}"
                    )
                rep.count("successive handlers")
            world.settle(False)
            world.captures.clear()


def directed(rep, component):
    for kind in [*S.HANDLER_KINDS, "settled", "unset"]:
        yield f"pairs-{kind}", lambda kind=kind: pairs(rep, kind, component)
