from lib import aio, core, inplace, life

QUICK, THOROUGH = 250, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + inplace.RULE + (
    " The asyncio loop is run one iteration at a time with a virtual clock that lets "
    "units of work take long at random; changes are made between iterations and from "
    "within renderer operations. Once idle, the container is compared with a fresh "
    "render of the final state. Distinct: also by the sequence of loop iterations."
)
MIN = {"iterations": 500, "changes while work is in progress": 100, "settled": 50,
       "other loops": 20}
ASSUMPTIONS = ["no real threads: the event loop is the only source of concurrency"]


def case(rng, rep, size):
    if rng.random() < 0.2:
        with aio.loop(rng) as loop:
            return inplace.case(rng, rep, loop)
    profile = core.profile_for(rng)
    monitor = life.Life()

    def settled(s):
        monitor.process(s.world.take_events(), rep)
        monitor.at_rest(s.world.live)
        s.compare_fresh()
        life.check_protocol(s.renderer)
        life.check_events(s, rng, rep)

    with aio.loop(rng) as loop:
        core.Restless(rng, rep, profile, loop, settled).run(int(3 + 10 * size))
