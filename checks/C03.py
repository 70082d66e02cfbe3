import collections

from lib import aio, core
from lib.harness import Violation

QUICK, THOROUGH = 380, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + " The renderer judges each operation against the current tree."
MIN = {"op insert": 100, "op remove": 50, "op unset": 20, "op unlisten": 20}
ASSUMPTIONS = ["no attributes with value None", "keys of siblings are unique"]


def case(rng, rep, size):
    profile = core.profile_for(rng)

    def monitor(s, step):
        for op, n in collections.Counter(op[0] for op in s.renderer.take_ops()).items():
            rep.count(f"op {op}", n)
        if s.renderer.errors:
            kind, info = s.renderer.errors[0]
            raise Violation(kind, " ".join(info), errors=s.renderer.errors[:10])
        for el in s.container.walk():
            if el.state == "gone":
                raise Violation("removed-element-in-tree", repr(el))
        # What is detached doesn't stay part of the tree
        for el in s.renderer.created:
            if el.state == "attached" and el.root() is not s.container:
                # Children of a removed element are removed along with it
                if el.root().state != "gone":
                    raise Violation("orphan", repr(el))

    if rng.random() < 0.2:
        with aio.loop(rng) as loop:
            restless = core.Restless(rng, rep, profile, loop, lambda s: monitor(s, None))
            return restless.run(int(3 + 10 * size))
    core.history(rng, rep, size, profile, monitor, loops=0.1)
