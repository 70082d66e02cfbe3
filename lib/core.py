"""Common workload of the checks on the core: random histories with a monitor"""
import contextlib
import copy

from collagraph import EventLoopType

from . import aio, sim, spec as S
from .mon import MonRenderer

RULE = (
    "A case is a random tree of elements, text, fragments, slots, function and class "
    "components with a history of random changes (insert, remove, move, swap, shuffle, "
    "re-type, re-key, wrap in a fragment, transfer to another parent, attributes, "
    "events, text, back to an earlier tree) to the whole tree or to the local state of "
    "components, or several nested lists of siblings that are all rearranged at once in "
    "each update. A share of the cases of C01 to C07 and C09 runs in an asyncio loop "
    "that divides the work over slices. Distinct: by the sequence of kinds of changes plus the final tree; "
    "non-trivial: there was at least one update after the first."
)


def profile_for(rng, **kwargs):
    options = dict(
        max_depth=rng.choice([2, 3, 4]),
        max_children=rng.choice([3, 5, 8]),
        keys=rng.choice([0, 0.5, 0.9, 1]),
    )
    options.update(kwargs)
    return S.Profile(**options)


class Source:
    """Successive descriptions of a tree"""

    def __init__(self, rng, profile, pooled=None):
        self.rng = rng
        self.profile = profile
        self.pool = None
        self.nested = pooled is None and rng.random() < 0.25
        self.pooled = rng.random() < 0.4 if pooled is None else pooled
        self.trees = []

    def initial(self):
        rng, profile = self.rng, self.profile
        spec = sim.root_spec(rng, profile)
        if self.nested:
            # Nested lists of keyed siblings that are all re-arranged at once
            self.pool = S.gen_nested(rng, profile, 3)
            place = wrap_in(rng, spec)
            place.extend(S.choose_nested(rng, self.pool))
        elif self.pooled:
            # One list of (mostly) keyed siblings that is re-arranged all the time
            self.pool = S.gen_pool(rng, profile, rng.randrange(3, 11))
            place = wrap_in(rng, spec)
            place.extend(S.choose(rng, self.pool, [], profile))
        self.trees.append(spec)
        return spec

    def next(self, current):
        rng = self.rng
        if self.nested:
            spec, names = copy.deepcopy(current), ["choose-nested"]
            find_place(spec)[:] = S.choose_nested(rng, self.pool)
        elif self.pool:
            spec, names = copy.deepcopy(current), ["choose"]
            place = find_place(spec)
            place[:] = S.choose(rng, self.pool, place, self.profile)
        else:
            spec, names = S.mutate(rng, current, self.profile, self.trees)
        self.trees.append(spec)
        return spec, names


def history(
    rng,
    rep,
    size,
    profile,
    monitor,
    steps=None,
    sim_class=None,
    local=0.25,
    pooled=None,
    loops=0.0,
):
    """Runs a random history and calls the monitor with (sim, step) after each update.
    The step is None for the initial render. With probability `loops`, the updates are
    done by an asyncio loop, in several slices of work."""
    source = Source(rng, profile, pooled)
    spec = source.initial()
    falsy = rng.random() < 0.1
    trail = []
    with contextlib.ExitStack() as stack:
        if rng.random() < loops:
            renderer = MonRenderer(EventLoopType.DEFAULT, falsy=falsy)
            loop = stack.enter_context(aio.loop(rng))
            trail.append(loop.rate)
        else:
            renderer = MonRenderer(falsy=falsy)
            loop = None
        s = (sim_class or sim.Sim)(spec, renderer=renderer)
        rep.note("initial", spec, "rate", loop and loop.rate)

        def finish():
            if loop:
                n = loop.settle()
                rep.count("slices of work", n)
                trail.append(n)
            return s.finish_update()

        s.start()
        finish()
        monitor(s, None)
        def change():
            if rng.random() < local:
                step = s.local_change(rng, profile)
                if step is not None:
                    rep.note(*step)
                    trail.append(step[0])
                return step
            spec, names = source.next(s.spec)
            rep.note("change", names, spec)
            trail.append(names)
            s.change(spec)
            return ("change", names)

        for _ in range(steps or int(3 + 12 * size)):
            step = change()
            if step is None:
                continue
            while loop and rng.random() < 0.3:
                # Several changes end up in the same update
                step = change() or step
                rep.count("merged changes")
            delta = finish()
            rep.count("updates")
            rep.count("nodes created", len(delta.created))
            rep.count("nodes kept", len(delta.kept))
            rep.count("nodes removed", len(delta.removed))
            rep.count("reordered lists", len(delta.reordered))
            monitor(s, step)
    rep.signature((trail, s.spec))
    return s


class Restless:
    """A history of changes that are made between and during the iterations of an
    asyncio loop, regardless of work that's still in progress. Changes can also result
    from operations of the renderer, like a signal of a widget."""

    def __init__(self, rng, rep, profile, loop, settled):
        self.rng, self.rep, self.profile, self.loop = rng, rep, profile, loop
        self.settled = settled
        self.source = Source(rng, profile)
        self.renderer = MonRenderer(loop_type=EventLoopType.DEFAULT)
        self.renderer.on_op = self.on_op
        self.sim = sim.Sim(self.source.initial(), renderer=self.renderer)
        self.trail = [loop.rate]
        self.pending = []

    def on_op(self, op):
        # E.g. a signal of a widget as result of an attribute that is set
        if self.pending and op[0] in ("create", "set", "insert"):
            self.change(self.pending.pop())
            self.rep.count("changes during operations")

    def change(self, local):
        rng, s = self.rng, self.sim
        if local and s.world.live:
            uid = rng.choice(sorted(s.world.live))
            step = sim.change_instance(s.world.live[uid], rng, self.profile)
        else:
            spec, names = self.source.next(s.spec)
            step = ("change", names, spec)
            s.change(spec)
        self.rep.note(*step)
        self.rep.count("changes")
        self.trail.append(step[:2])

    def settle(self):
        self.trail.append(self.loop.settle())
        self.rep.count("settled")
        self.renderer.end_of_update()
        self.settled(self.sim)
        self.renderer.take_ops()
        if self.rng.random() < 0.2:
            # Like consecutive calls of asyncio.run
            self.loop.renew()
            self.trail.append("renew")
            self.rep.count("other loops")

    def run(self, steps):
        rng, rep, loop = self.rng, self.rep, self.loop
        rep.note("initial", self.sim.spec, "rate", loop.rate)
        self.sim.start()
        for _ in range(steps):
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.15:
                    self.pending.append(rng.random() < 0.5)
                else:
                    if not loop.idle():
                        rep.count("changes while work is in progress")
                    self.change(rng.random() < 0.4)
            if rng.random() < 0.25:
                self.settle()
            else:
                n = rng.choice([0, 1, 1, 2, 3, 5, 10, 30])
                self.trail.append(n)
                for _ in range(n):
                    if loop.idle():
                        break
                    loop.tick()
                    rep.count("iterations")
        self.pending.clear()
        self.settle()
        rep.signature((self.trail, self.sim.spec))


def wrap_in(rng, spec):
    """Set up the tree with one special list somewhere and return that list"""
    place = []
    kind = rng.choice(["root", "el", "tpl", "fnF", "fnG", "A", "B", "S", "deep"])
    before = [{"k": "el", "t": "first", "key": None, "a": {}, "on": {}, "ch": []}]
    after = [{"k": "el", "t": "last", "key": None, "a": {}, "on": {}, "ch": []}]
    nodes = {
        "el": {"k": "el", "t": "box", "key": None, "a": {}, "on": {}, "ch": place},
        "tpl": {"k": "tpl", "key": None, "ch": place},
        "fnF": {"k": "fn", "c": "F", "key": None, "a": {}, "ch": place},
        "fnG": {"k": "fn", "c": "G", "key": None, "a": {}, "ch": place},
    }
    for name in "AB":
        nodes[name] = {
            "k": "cls",
            "c": name,
            "key": None,
            "nid": next(S.nids),
            "a": {},
            "on": {},
            "ch": place,
            "sl": {},
        }
    nodes["S"] = {**nodes["A"], "c": "S", "ch": [], "sl": {"default": place}}
    nodes["deep"] = {"k": "tpl", "key": None, "ch": [nodes["B"]]}
    if kind == "root":
        spec["ch"] = place
    else:
        spec["ch"] = [*rng.choice([before, []]), nodes[kind], *rng.choice([after, []])]
    spec["place"] = kind
    return place


def find_place(spec):
    kind = spec["place"]
    if kind == "root":
        return spec["ch"]
    for node in spec["ch"]:
        if node.get("t") not in ("first", "last"):
            if kind == "deep":
                node = node["ch"][0]
            return node["sl"]["default"] if kind == "S" else node["ch"]
