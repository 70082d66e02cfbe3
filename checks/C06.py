import collagraph as cg
from collagraph import EventLoopType, h

from lib import core, inplace, mon, sim
from lib.harness import Violation
from lib.spec import EVENTS, HANDLER_KINDS

QUICK, THOROUGH = 220, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + inplace.RULE + (
    " After each update all components emit all events; handlers are also added and "
    "removed by hand. Separate cases let handlers change the state."
)
MIN = {"events emitted": 500, "handlers called": 100, "re-entrant emits": 20, "changes in place": 50, "successive handlers": 900}
ASSUMPTIONS = ["event names are lower-case", "handlers are callables"]


def case(rng, rep, size):
    if rng.random() < 0.15:
        return inplace.case(rng, rep)
    if rng.random() < 0.2:
        return reentrant(rng, rep)
    kinds = HANDLER_KINDS
    if rng.random() < 0.5:
        kinds = rng.sample(HANDLER_KINDS, 3)
    profile = core.profile_for(rng, handlers=kinds, text=False, none=False)
    profile.weights.update(el=2, cls=6)
    manual = {}

    def monitor(s, step):
        s.check({"children"})
        if rng.random() < 0.2:
            s.world.root_state["late"] = rng.randrange(10)
        for nid, node in s.model.by_nid.items():
            instance = next(i for i in s.world.live.values() if i.nid == nid)
            mine = manual.setdefault(instance.uid, [])
            if rng.random() < 0.15:
                event, value = rng.choice(EVENTS), rng.randrange(1000)

                def extra(*args, event=event, value=value, **kwargs):
                    s.world.fire("extra", value, event, args, kwargs)

                instance.add_event_handler(event, extra)
                if rng.random() < 0.3:
                    # Doesn't make a difference
                    instance.add_event_handler(event, extra)
                mine.append((event, value, extra))
                rep.count("handlers added by hand")
            elif mine and rng.random() < 0.3:
                event, value, extra = mine.pop(rng.randrange(len(mine)))
                instance.remove_event_handler(event, extra)
                rep.count("handlers removed by hand")
            for event in [*EVENTS, "unknown"]:
                args = (event, rng.randrange(100)) if rng.random() < 0.5 else ()
                kwargs = {"kw": rng.randrange(9)} if rng.random() < 0.3 else {}
                s.world.fired.clear()
                instance.emit(event, *args, **kwargs)
                rep.count("events emitted")
                kw = tuple(sorted(kwargs.items()))
                expected = [
                    ("extra", value, ev, args, kw) for ev, value, _ in mine if ev == event
                ]
                if event in node.on and node.type != "Root":
                    expected.append(
                        s.world.expected_fire(node.on[event], event, args, kwargs)
                    )
                    rep.count("kind " + node.on[event]["h"])
                rep.count("handlers called", len(expected))
                if sorted(s.world.fired) != sorted(expected):
                    raise Violation(
                        "handler",
                        f"{event} of {node}: {s.world.fired} instead of {expected}",
                    )

    core.history(rng, rep, size, profile, monitor, local=0.1, loops=0.2)


def reentrant(rng, rep):
    """Handlers that change the state of the parent, and with it the emitting component"""
    log = []
    instances = {}

    class Child(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            instances[props["name"]] = self

        def render(self):
            return h("child", {"name": self.props["name"], "round": self.props["round"]})

        def before_unmount(self):
            if instances.get(self.props["name"]) is self:
                del instances[self.props["name"]]

    class Parent(cg.Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            self.state["names"] = ["a", "b", "c"]
            self.state["round"] = 0
            self.state["listen"] = True

        def handle(self, name, round, *args):
            log.append((name, round, args))
            action = args[0]
            if action == "remove":
                self.state["names"] = [n for n in self.state["names"] if n != name]
            elif action == "bump":
                self.state["round"] += 1
            elif action == "reverse":
                self.state["names"] = list(reversed(self.state["names"]))
            elif action == "deaf":
                self.state["listen"] = False
            elif action == "nested":
                others = [n for n in self.state["names"] if n != name]
                if others:
                    instances[others[0]].emit("act", "bump")
            elif action == "self-remove-handler":
                self.state["listen"] = False
                self.state["round"] += 1

        def render(self):
            children = []
            for name in self.state["names"]:
                props = {"key": name, "name": name, "round": self.state["round"]}
                if self.state["listen"]:
                    round = self.state["round"]
                    props["on_act"] = lambda *args, name=name, round=round: self.handle(
                        name, round, *args
                    )
                children.append(h(Child, props))
            return h("parent", {}, *children)

    renderer = mon.MonRenderer(loop_type=EventLoopType.SYNC)
    gui = cg.Collagraph(renderer=renderer)
    container = renderer.container()
    gui.render(h(Parent, {}), container)
    names, round, listen = ["a", "b", "c"], 0, True
    actions = []
    for _ in range(rng.randrange(3, 9)):
        if not names:
            break
        action = rng.choice(
            ["remove", "bump", "bump", "reverse", "deaf", "nested", "self-remove-handler"]
        )
        name = rng.choice(names)
        actions.append((name, action))
        rep.note("emit", name, action)
        rep.count("re-entrant emits")
        log.clear()
        instances[name].emit("act", action, len(actions))
        expected = []
        if listen:
            expected.append((name, round, (action, len(actions))))
            if action == "remove":
                names = [n for n in names if n != name]
            elif action == "bump":
                round += 1
            elif action == "reverse":
                names = list(reversed(names))
            elif action == "deaf":
                listen = False
            elif action == "self-remove-handler":
                listen = False
                round += 1
            elif action == "nested":
                others = [n for n in names if n != name]
                if others:
                    expected.append((others[0], round, ("bump",)))
                    round += 1
        if log != expected:
            raise Violation("re-entrant-handler", f"{log} instead of {expected}")
        tree = [
            (el.attrs["name"], el.attrs["round"])
            for el in container.children[0].children
        ]
        if tree != [(n, round) for n in names]:
            raise Violation("re-entrant-tree", f"{tree} instead of {names} {round}")
    rep.signature(("re-entrant", actions))


def directed(rep):
    yield from inplace.directed(rep, component=True)
