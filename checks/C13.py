from collagraph import EventLoopType
from observ import scheduler, watch

from lib import aio, core, inplace, life, mon, sim
from lib.harness import Violation
from lib.mon import MonRenderer

QUICK, THOROUGH = 200, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " Hooks, constructors, event handlers and the callbacks of watchers (made by the "
    "constructors of components) make (a limited number of) random changes "
    "to the local state of components and to the whole tree, with both types of event "
    "loop. When all is handled, the container is compared with a fresh render."
    + inplace.RULE
)
MIN = {"changes in mounted": 50, "changes in before_unmount": 20, "changes in init": 20,
       "watcher callbacks": 100, "changes in watchers": 30}
ASSUMPTIONS = ["hooks make a finite number of changes"]


def case(rng, rep, size):
    if rng.random() < 0.3:
        # Watchers are scheduled globally
        scheduler.clear()
        scheduler.waiting = False
        hooks = ["init", "mounted", "updated", "before_unmount"]
        hooks = rng.sample(hooks, rng.randrange(1, 5))
        if rng.random() < 0.5:
            return inplace.case(rng, rep, hooks=hooks)
        with aio.loop(rng) as loop:
            return inplace.case(rng, rep, loop, hooks)
    if rng.random() < 0.5:
        run(rng, rep, size, MonRenderer(loop_type=EventLoopType.SYNC), None)
    else:
        with aio.loop(rng) as loop:
            run(rng, rep, size, MonRenderer(loop_type=EventLoopType.DEFAULT), loop)


def run(rng, rep, size, renderer, loop):
    profile = core.profile_for(rng)
    profile.weights.update(cls=5)
    source = core.Source(rng, profile)
    # Watchers are scheduled globally
    scheduler.clear()
    scheduler.waiting = False
    s = sim.Sim(source.initial(), renderer=renderer)
    monitor = life.Life()
    rep.note("initial", s.spec, "async" if loop else "sync")
    budget = [0]
    chance = rng.choice([0.1, 0.3, 0.6, 1])
    hooks = rng.sample(
        ["init", "mounted", "updated", "before_unmount"], rng.randrange(1, 5)
    )
    watching = rng.choice([0, 0.2, 0.5])
    watchers = {}
    if watching and rng.random() < 0.8:
        hooks.append("watchers")
    trail = [hooks, bool(loop)]
    depth = [0]

    def change(instance, where):
        """A change of this instance, another instance or the whole tree"""
        r = rng.random()
        if r < 0.4 and instance is not None:
            step = sim.change_instance(instance, rng, profile)
        elif r < 0.65 and s.world.live:
            uid = rng.choice(sorted(s.world.live))
            step = sim.change_instance(s.world.live[uid], rng, profile)
        elif r < 0.8 and instance is not None and instance.parent is not None:
            step = sim.change_instance(instance.parent, rng, profile)
        else:
            spec, names = source.next(s.spec)
            step = ("change", names, spec)
            s.change(spec)
        rep.note(where, *step)
        trail.append((where, step[:2]))

    def make_watcher(instance):
        """What's seen by the watcher should keep up"""
        root_state = s.world.root_state
        what = rng.choice(["n", "n", "v", "version"])
        if what == "version":
            get = lambda: root_state["version"]  # noqa: E731
        else:
            other = rng.choice([instance, instance, instance.parent])
            if other is None or what not in other.state:
                other = instance
            get = lambda: other.state[what]  # noqa: E731

        def callback(new, old):
            rep.count("watcher callbacks")
            watcher["seen"].append(new)
            on_event("watchers", instance)

        watcher = {"get": get, "seen": [get()]}
        watcher["watch"] = watch(get, callback)
        watchers[instance.uid] = watcher

    def on_event(what, instance):
        if what == "init" and rng.random() < watching:
            make_watcher(instance)
        if what not in hooks or budget[0] <= 0 or depth[0]:
            return
        if rng.random() < chance:
            budget[0] -= 1
            rep.count(f"changes in {what}")
            # Synchronous changes from a hook can lead to other hooks
            depth[0] += rng.random() < 0.5
            nested = depth[0]
            try:
                change(instance, what)
            finally:
                depth[0] -= nested and 1

    def settle():
        if loop:
            trail.append(loop.settle())
        renderer.end_of_update()
        monitor.process(s.world.take_events(), rep)
        monitor.at_rest(s.world.live)
        s.compare_fresh()
        for uid in s.world.live:
            if uid in watchers:
                watcher = watchers[uid]
                if watcher["seen"][-1] != watcher["get"]():
                    raise Violation("watcher", f"{watcher['seen']} of component {uid}")
        life.check_protocol(renderer)
        life.check_events(s, rng, rep)
        renderer.take_ops()
        rep.count("settled")

    def on_fire():
        """Event handlers that change state"""
        elements = [el for el in s.container.walk() if any(el.listeners.values())]
        if not elements:
            return
        el = rng.choice(elements)
        event = rng.choice(sorted(e for e, v in el.listeners.items() if v))
        # The handlers report to this list
        s.world.fired = Trigger(lambda: fire_changes(change, rep, rng))
        try:
            mon.fire(el, event)
        finally:
            s.world.fired = []

    s.world.on_event = on_event
    budget[0] = rng.randrange(0, 6)
    s.start()
    settle()
    for _ in range(int(2 + 7 * size)):
        budget[0] = rng.randrange(0, 6)
        r = rng.random()
        if r < 0.3:
            on_fire()
        else:
            change(None, "outside")
        if loop and rng.random() < 0.4:
            for _ in range(rng.randrange(4)):
                loop.tick()
            change(None, "outside")
        settle()
    rep.signature((trail, s.spec))


def fire_changes(change, rep, rng):
    rep.count("changes in handlers")
    for _ in range(rng.choice([1, 1, 2])):
        change(None, "handler")


class Trigger(list):
    def __init__(self, callback):
        super().__init__()
        self.callback = callback

    def append(self, item):
        super().append(item)
        self.callback()
