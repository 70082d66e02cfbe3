from collagraph import EventLoopType

from checks.C04 import EQUIVALENT
from lib import aio, core, sim
from lib.harness import Violation
from lib.mon import MonRenderer, snapshot

QUICK, THOROUGH = 250, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " The asyncio loop is run one iteration at a time with a virtual clock that lets "
    "units of work take long at random. A snapshot of the whole container is taken "
    "after every iteration: there may only be one transition per update."
)
MIN = {"iterations": 500, "updates that took several iterations": 50}
ASSUMPTIONS = ["changes are made when no work is in progress (see C11 for the others)"]


def case(rng, rep, size):
    profile = core.profile_for(rng, handlers=sorted(EQUIVALENT))
    source = core.Source(rng, profile)
    renderer = MonRenderer(loop_type=EventLoopType.DEFAULT)
    with aio.loop(rng, rng.choice([1, 1, 0.7, 0.4, 0.1])) as loop:
        s = sim.Sim(source.initial(), renderer=renderer)
        rep.note("initial", s.spec, "rate", loop.rate)
        trail = [loop.rate]
        seen = [snapshot(s.container)]
        transitions = []

        def observe():
            rep.count("iterations")
            current = snapshot(s.container)
            if current != seen[-1]:
                transitions.append(loop.ticks)
                seen.append(current)

        def finish(what):
            n = loop.settle(observe)
            trail.append((what, n))
            if n > 1:
                rep.count("updates that took several iterations")
            rep.count("updates")
            if len(transitions) > 1:
                raise Violation(
                    "partial-update", f"container changed in iterations {transitions}"
                )
            transitions.clear()
            renderer.end_of_update()
            s.compare_fresh()
            del seen[:-1]

        s.start()
        observe()
        transitions.clear()
        finish("start")
        for _ in range(int(3 + 10 * size)):
            if rng.random() < 0.3 and s.world.live:
                uid = rng.choice(sorted(s.world.live))
                step = sim.change_instance(s.world.live[uid], rng, profile)
            else:
                spec, names = source.next(s.spec)
                step = ("change", names, spec)
                s.change(spec)
            rep.note(*step)
            observe()
            if transitions:
                raise Violation("not-deferred", "container changed right away")
            finish(step[:2])
        rep.signature((trail, s.spec))
