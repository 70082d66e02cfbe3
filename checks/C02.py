from lib import core, sim

QUICK, THOROUGH = 380, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " After each update every element and component instance is paired with the node "
    "of the reference model; the pairing has to be one-to-one and has to persist."
)
MIN = {"updates": 50, "nodes kept": 500, "reordered lists": 5}
ASSUMPTIONS = ["keys of siblings are unique", "children without key match in order"]


def case(rng, rep, size):
    profile = core.profile_for(rng, keys=rng.choice([0, 0.5, 0.9, 1, 1]))

    def monitor(s, step):
        s.check(sim.IDENTITY | {"children"})
        rep.count("identities checked", len(s.el_of))

    core.history(rng, rep, size, profile, monitor, loops=0.2)
