from collagraph import EventLoopType, h
from observ import scheduler

from lib import aio, core, sim
from lib.harness import Violation
from lib.mon import MonRenderer, snapshot

QUICK, THOROUGH = 180, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " With both types of event loop; with asyncio, units of work take long at random and "
    "changes are also made while work is in progress. Hooks and the callback itself make "
    "changes too, callbacks are replaced by other ones or none, by rendering again."
)
MIN = {"callbacks": 300, "updates with changes by the callback": 20,
       "replaced callbacks": 20, "changes without update": 50,
       "changes while work is in progress": 50}
ASSUMPTIONS = ["the callback and the hooks make a finite number of changes"]


def case(rng, rep, size):
    # Watchers are scheduled globally
    scheduler.clear()
    scheduler.waiting = False
    if rng.random() < 0.5:
        run(rng, rep, size, MonRenderer(loop_type=EventLoopType.SYNC), None)
    else:
        with aio.loop(rng, rng.choice([1, 0.7, 0.4, 0.1])) as loop:
            run(rng, rep, size, MonRenderer(loop_type=EventLoopType.DEFAULT), loop)


def run(rng, rep, size, renderer, loop):
    profile = core.profile_for(rng)
    source = core.Source(rng, profile)
    s = sim.Sim(source.initial(), renderer=renderer)
    rep.note("initial", s.spec, "async" if loop else "sync")
    trail = [bool(loop)]
    budget = [0, 0]
    calls = []
    mounted = set()
    changing = [False]

    def change(where):
        if rng.random() < 0.4 and s.world.live:
            uid = rng.choice(sorted(s.world.live))
            step = sim.change_instance(s.world.live[uid], rng, profile)
        else:
            spec, names = source.next(s.spec)
            step = ("change", names, spec)
            s.change(spec)
        rep.note(where, *step)
        trail.append((where, step[:2]))

    def on_event(what, instance):
        if what == "mounted":
            mounted.add(instance.uid)
        if what != "init" and budget[0] > 0 and not changing[0] and rng.random() < 0.2:
            budget[0] -= 1
            changing[0] = True
            try:
                change(what)
            finally:
                changing[0] = False

    def make(number):
        def callback():
            rep.count("callbacks")
            calls.append(
                {
                    "number": number,
                    "ops": len(renderer.ops),
                    "events": len(s.world.events),
                    "pending": sorted(set(s.world.live) - mounted),
                    "content": snapshot(s.container),
                }
            )
            if budget[1] > 0 and rng.random() < 0.5:
                budget[1] -= 1
                rep.count("updates with changes by the callback")
                change("callback")

        return callback

    current = [None]

    def render():
        number = len(trail)
        current[0] = number if rng.random() < 0.8 else None
        kwargs = {}
        if current[0] is not None:
            kwargs["callback"] = make(number)
        s.gui.render(h(s.world.Root, {}), s.container, **kwargs)

    def settle(what, undisturbed):
        if loop:
            trail.append(loop.settle())
        renderer.end_of_update()
        s.compare_fresh()
        rep.count("updates")
        for call in calls:
            if call["number"] != current[0]:
                raise Violation("replaced-callback", f"{call['number']} is called")
            if call["pending"] and undisturbed:
                raise Violation("callback-hooks", f"{call['pending']} not mounted yet")
        if current[0] is not None:
            if not calls:
                if renderer.ops or s.world.events:
                    raise Violation("no-callback", f"after {what}")
            else:
                last = calls[-1]
                content = snapshot(s.container)
                if last["content"] != content or last["ops"] != len(renderer.ops):
                    raise Violation("callback-content", "changed after the callback")
                if last["events"] != len(s.world.events):
                    raise Violation("callback-hooks", "hooks are called afterwards")
                if undisturbed and any(c["content"] != content for c in calls):
                    raise Violation("callback-early", f"{len(calls)} callbacks")
        calls.clear()
        s.world.take_events()
        renderer.take_ops()

    s.world.on_event = on_event
    s.world.root_spec = s.spec
    budget[:] = rng.choice([[0, 0], [2, 0], [0, 2]])
    undisturbed = budget == [0, 0]
    render()
    settle("render", undisturbed)
    for _ in range(int(3 + 8 * size)):
        budget[:] = rng.choice([[0, 0], [0, 0], [2, 0], [0, 2], [2, 2]])
        undisturbed = budget == [0, 0]
        r = rng.random()
        if r < 0.15:
            trail.append("render")
            rep.count("replaced callbacks")
            render()
        elif r < 0.3:
            # Nothing depends on this
            rep.count("changes without update")
            s.world.root_state[f"unused {len(trail)}"] = 1
            trail.append("unused")
            if loop:
                loop.settle()
            if calls:
                raise Violation("callback-without-update", f"{len(calls)} callbacks")
            continue
        else:
            change("outside")
        if loop and rng.random() < 0.3:
            for _ in range(rng.randrange(1, 4)):
                if not loop.idle():
                    loop.tick()
            if not loop.idle():
                rep.count("changes while work is in progress")
            undisturbed = False
            change("outside")
        settle(trail[-1], undisturbed)
    rep.signature((trail, s.spec))
