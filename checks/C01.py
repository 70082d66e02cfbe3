import random

from lib import core, inplace, mon, sim, spec as S

QUICK, THOROUGH = 380, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + inplace.RULE + (
    " After each update the container is compared with the reference model; some "
    "cases render other root elements in the same container instead."
)
MIN = {"updates": 50, "root renders": 5, "changes in place": 50}
ASSUMPTIONS = ["keys of siblings are unique", "values are compared with =="]


def case(rng, rep, size):
    if rng.random() < 0.1:
        return inplace.case(rng, rep)
    profile = core.profile_for(rng, none_attrs=True)
    if rng.random() < 0.15:
        return roots(rng, rep, profile)
    core.history(rng, rep, size, profile, lambda s, step: s.check(sim.TREE), loops=0.2)


class RootSim(sim.Sim):
    """Renders elements directly, without a root component"""

    def start(self):
        self.render()

    def render(self):
        self.gui.render(self.world.build(self.spec), self.container)


def roots(rng, rep, profile):
    def new():
        kind = rng.choice(["el", "el", "tpl", "fn", "cls", "cls"])
        node = S.gen_node(rng, profile, 3, kind=kind)
        if rng.random() < 0.3:
            node["key"] = S.gen_key(rng, set())
        return node

    s = RootSim(new())
    rep.note("root", s.spec)
    s.start()
    s.finish_update()
    s.check(sim.TREE)
    trail = []
    for _ in range(rng.randrange(3, 10)):
        r = rng.random()
        if r < 0.35:
            step = s.local_change(rng, profile)
            if step is None:
                continue
            rep.note(*step)
            trail.append(step[0])
        else:
            if r < 0.8:
                s.spec, names = S.mutate(rng, s.spec, profile)
            else:
                s.spec, names = new(), "root"
            rep.note("render", names, s.spec)
            trail.append(names)
            s.render()
            rep.count("root renders")
        s.finish_update()
        rep.count("updates")
        s.check(sim.TREE)
    rep.signature((trail, s.spec))
