import contextlib
import gc
import weakref

from collagraph import Collagraph, Component, EventLoopType, h
from observ import reactive

from lib import aio, core, mon, sim, spec as S
from lib.harness import Violation

QUICK, THOROUGH = 60, 5000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " Weak references to all component instances, elements and handlers tell which of "
    "them are still alive after a garbage collection, now and then and after the "
    "Collagraph instance has been dropped. Moreover, a cycle of trees is repeated over and "
    "over and the total number of objects in the interpreter is compared."
)
MIN = {"collections": 200, "objects created": 10000, "cycles": 100}
ASSUMPTIONS = ["objects in cycles of references are released by the garbage collector"]


def setup():
    gc.collect()
    gc.freeze()


def collect():
    """Objects with finalizers can keep (what belongs to) them until the next time"""
    for _ in range(5):
        if not gc.collect():
            break


# These are methods, or they are kept by the world
KEPT = ("bound", "same-callable", "same-cached")


class Renderer(mon.MonRenderer):
    """Keeps track of elements, but doesn't hold on to them"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.elements = weakref.WeakSet()

    def create_element(self, type):
        el = super().create_element(type)
        self.elements.add(el)
        return el

    def create_text_element(self):
        el = super().create_text_element()
        self.elements.add(el)
        return el


class Tracked:
    def __init__(self, s):
        self.s = s
        self.instances = weakref.WeakSet()
        self.handlers = weakref.WeakSet()
        self.total = 0
        world = s.world
        world.on_event = self.on_event
        make = world.handler
        handlers = self.handlers

        def handler(spec, event):
            result = make(spec, event)
            if spec["h"] != "plain" and not spec["h"].endswith(KEPT):
                handlers.add(result)
                self.total += 1
            return result

        world.handler = handler

    def on_event(self, what, instance):
        if what == "init":
            self.instances.add(instance)
            self.total += 1

    def alive(self):
        return dict(
            instances=len(self.instances),
            elements=len(self.s.renderer.elements),
            handlers=len(self.handlers),
        )


def clean(s):
    """Nothing of the monitors themselves should keep anything alive"""
    s.renderer.end_of_update()
    s.renderer.take_ops()
    s.renderer.errors.clear()
    s.world.take_events()
    s.world.fired.clear()


def case(rng, rep, size):
    with contextlib.ExitStack() as stack:
        loop = stack.enter_context(aio.loop(rng)) if rng.random() < 0.3 else None
        run(rng, rep, size, loop)


def run(rng, rep, size, loop):
    profile = core.profile_for(rng)
    profile.weights.update(cls=5)
    source = core.Source(rng, profile)
    renderer = Renderer(
        loop_type=EventLoopType.DEFAULT if loop else EventLoopType.SYNC,
        budget=10_000_000,
    )
    s = sim.Sim(source.initial(), renderer=renderer)
    s.world.render_budget = 10_000_000
    rep.note("initial", s.spec)
    s.start()
    tracked = Tracked(s)

    def settle():
        if loop:
            loop.settle()
        clean(s)

    settle()
    largest = 0
    trail = []

    def measure():
        nonlocal largest
        collect()
        rep.count("collections")
        alive = tracked.alive()
        for name, number in alive.items():
            rep.maximum("alive " + name, number)
            rep.maximum(name + " per element", round(number / (20 + largest), 2))
            # At most two generations of trees, with several handlers per element
            if number > (6 if name == "handlers" else 2) * (20 + largest):
                raise Violation(
                    "not-released", f"{number} {name} for trees of at most {largest}"
                )

    def tree_size():
        # Elements and components that are in use
        return sum(1 for _ in s.container.walk()) + len(s.world.live)

    for step in range(int(20 + 40 * size)):
        if rng.random() < 0.3 and s.world.live:
            uid = rng.choice(sorted(s.world.live))
            what = sim.change_instance(s.world.live[uid], rng, profile)
        else:
            tree, names = source.next(s.spec)
            what = ("change", names, tree)
            s.change(tree)
        trail.append(what[:2])
        if loop and rng.random() < 0.3:
            loop.tick()
        else:
            settle()
        largest = max(largest, tree_size())
        if step % 12 == 11:
            settle()
            measure()
    settle()
    # The same cycle of trees, over and over
    for instance in list(s.world.live.values()):
        instance.local_tree = []
        instance.state["v"] += 1
    instance = None
    settle()
    full = max([*source.trees, s.spec], key=S.size)
    trees = [full, {**full, "ch": []}, full]
    for _ in range(rng.randrange(5)):
        trees.append(S.mutate(rng, full, profile)[0])
    counts = []
    for cycle in range(8):
        for tree in trees:
            s.change(tree)
            settle()
        collect()
        rep.count("cycles")
        counts.append((len(gc.get_objects()), *tracked.alive().values()))
    # Noise that settles doesn't matter, but steady growth does
    growth = [b[0] - a[0] for a, b in zip(counts[2:], counts[3:])]
    if all(g > 0 for g in growth) and sum(growth) >= 3 * len(growth):
        raise Violation("growth", f"objects: {[c[0] for c in counts]}")
    measure()
    rep.signature((trail, s.spec))
    rep.count("objects created", tracked.total + renderer.total_ops)

    # All is gone when the instance is gone, with or without the tree
    if rng.random() < 0.5:
        s.gui.render(h("empty", {}), s.container)
        settle()
    s.gui = None
    s.container = None
    for uid in list(s.world.live):
        del s.world.live[uid]
    renderer.created.clear()
    collect()
    for name, number in tracked.alive().items():
        if number:
            raise Violation("not-released-at-end", f"{number} {name}")


def directed(rep):
    for what in ("instance", "element", "state", "props", "hook"):
        yield f"kept-{what}", lambda what=what: kept(rep, what)


def kept(rep, what):
    """What is kept of a component by others, doesn't keep its ancestors alive"""
    keep, parents = [], weakref.WeakSet()

    class Child(Component):
        def mounted(self):
            keep.append(
                {
                    "instance": self,
                    "element": self.element,
                    "state": self.state,
                    "props": self.props,
                    "hook": self.mounted,
                }[what]
            )

        def render(self):
            return h("child", {})

    class Middle(Component):
        def __init__(self, props, parent=None):
            super().__init__(props, parent)
            parents.add(self)

        def render(self):
            return h("middle", {}, h(Child, {"n": 1}))

    class Parent(Middle):
        def render(self):
            return h(Middle, {})

    def app(props):
        return h("app", {}, *([h(Parent, {})] if props["on"] else []))

    renderer = Renderer(loop_type=EventLoopType.SYNC)
    container = renderer.container()
    gui = Collagraph(renderer)
    state = reactive({"on": True})
    gui.render(h(app, state), container)
    for _ in range(4):
        state["on"] = False
        state["on"] = True
    state["on"] = False
    renderer.end_of_update()
    renderer.take_ops()
    collect()
    rep.count("collections")
    # At most two generations of trees
    if len(parents) > 4:
        raise Violation("kept", f"{what} keeps {len(parents)} components alive")
    del gui, container, state
    renderer.created.clear()
    collect()
    if len(parents):
        raise Violation("kept-at-end", f"{what} keeps {len(parents)} components alive")
