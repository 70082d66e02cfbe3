from lib import core, inplace, mon, sim
from lib.harness import Violation
from lib.spec import EVENTS, HANDLER_KINDS

QUICK, THOROUGH = 220, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + inplace.RULE + (
    " After each update all events are fired on all elements, and the calls are compared "
    "with what the latest description specifies."
)
MIN = {"events fired": 500, "handlers called": 100, "changes in place": 50, "successive handlers": 900}
ASSUMPTIONS = ["event names are lower-case", "handlers are callables"]


def case(rng, rep, size):
    if rng.random() < 0.15:
        return inplace.case(rng, rep)
    kinds = [*HANDLER_KINDS, "settled", "unset"]
    if rng.random() < 0.7:
        kinds = rng.sample(kinds, 3)
    profile = core.profile_for(rng, handlers=kinds, text=False, none=False)
    profile.weights.update(el=10)
    profile.more = ["events"] * 20

    def monitor(s, step):
        s.check({"children"})
        if rng.random() < 0.2:
            s.world.root_state["late"] = rng.randrange(10)
        s.world.settle()
        fire_all(s, rng, rep)
        s.world.settle(False)

    core.history(rng, rep, size, profile, monitor, local=0.1, loops=0.2)


def fire_all(s, rng, rep):
    nodes = [n for n in s.model.root.walk() if n.kind == "el"]
    for node in nodes:
        el = s.el_of.get(node.token)
        if el is None:
            s.compare()
            el = s.el_of[node.token]
        for event in EVENTS:
            args = (event, rng.randrange(100)) if rng.random() < 0.5 else ()
            kwargs = {"kw": rng.randrange(9)} if rng.random() < 0.3 else {}
            s.world.fired.clear()
            mon.fire(el, event, *args, **kwargs)
            rep.count("events fired")
            expected = []
            if event in node.on:
                rep.count("handlers called")
                rep.count("kind " + node.on[event]["h"])
                expected = [s.world.expected_fire(node.on[event], event, args, kwargs)]
            if s.world.fired != expected:
                raise Violation(
                    "handler",
                    f"{event} of {el}: {s.world.fired} instead of {expected}",
                )


def directed(rep):
    yield from inplace.directed(rep, component=False)
