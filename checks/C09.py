from lib import core, model as M, sim
from lib.harness import Violation

QUICK, THOROUGH = 220, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " Components provide random values (also falsy ones) for random keys when created "
    "and later on. After each update, and within hooks, parent, inject and element of "
    "each component are compared with the model."
)
MIN = {"injects": 2000, "parents": 500, "elements": 500, "injects in init": 200}
ASSUMPTIONS = []
KEYS = ["theme", "user", "0", 7, ("tuple", 1)]
VALUES = [None, 0, "", False, "x", 1, [], ["item"], {"a": 1}]
DEFAULTS = [None, "default", 0]


def case(rng, rep, size):
    profile = core.profile_for(rng)
    profile.weights.update(cls=6, el=4)
    provided = {}
    at_init = []
    seen = []
    sims = []

    def on_event(what, instance):
        if what == "init":
            mine = provided[instance.uid] = {}
            for key in rng.sample(KEYS, rng.choice([0, 0, 1, 2])):
                mine[key] = rng.choice(VALUES)
                instance.provide(key, mine[key])
            for key in rng.sample(KEYS, 2):
                default = rng.choice(DEFAULTS)
                at_init.append(
                    (instance.uid, key, default, instance.inject(key, default))
                )
        else:
            seen.append((what, instance, instance.element, instance.parent))
            if what == "before_unmount" and instance.element is not None:
                if instance.element.root() is not sims[0].container:
                    raise Violation("element-before-unmount", repr(instance.element))

    class Sim(sim.Sim):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.world.on_event = on_event
            sims.append(self)

    def expected_inject(s, node, key, default):
        parent = M.closest_component(node)
        while parent is not None:
            mine = provided[s.uid_of[parent.token]]
            if key in mine:
                return mine[key]
            parent = M.closest_component(parent)
        return default

    def same(a, b):
        return type(a) is type(b) and a == b

    def monitor(s, step):
        s.check(sim.TREE | sim.IDENTITY)
        nodes = {}
        for node in s.model.by_nid.values():
            uid = s.uid_of[node.token]
            nodes[uid] = node

        def parent_of(node):
            parent = M.closest_component(node)
            return parent and s.world.live[s.uid_of[parent.token]]

        def element_of(node):
            for child in M.dom_children(node):
                return s.el_of[child.token]

        # What could be seen from init and from hooks
        for uid, key, default, value in at_init:
            expected = expected_inject(s, nodes[uid], key, default)
            rep.count("injects in init")
            if not same(value, expected):
                raise Violation("inject-in-init", f"{key}: {value!r} != {expected!r}")
        at_init.clear()
        for what, instance, element, parent in seen:
            if what == "before_unmount":
                continue
            node = nodes[instance.uid]
            rep.count("seen from " + what)
            if element is not element_of(node):
                raise Violation(
                    "element-in-" + what, f"{element} instead of {element_of(node)}"
                )
            if parent is not parent_of(node):
                raise Violation("parent-in-" + what, f"{parent}")
        seen.clear()

        for uid, node in nodes.items():
            instance = s.world.live[uid]
            rep.count("parents")
            if instance.parent is not parent_of(node):
                raise Violation(
                    "parent", f"{instance.parent} instead of {parent_of(node)}"
                )
            rep.count("elements")
            if instance.element is not element_of(node):
                raise Violation(
                    "element", f"{instance.element} instead of {element_of(node)}"
                )
            for key in KEYS:
                default = rng.choice(DEFAULTS)
                if default is None and rng.random() < 0.5:
                    value = instance.inject(key)
                else:
                    value = instance.inject(key, default)
                expected = expected_inject(s, node, key, default)
                rep.count("injects")
                if not same(value, expected):
                    raise Violation("inject", f"{key}: {value!r} != {expected!r}")
        if rng.random() < 0.3 and s.world.live:
            instance = s.world.live[rng.choice(sorted(s.world.live))]
            key, value = rng.choice(KEYS), rng.choice(VALUES)
            provided[instance.uid][key] = value
            instance.provide(key, value)
            rep.note("provide", instance.uid, key, value)

    core.history(rng, rep, size, profile, monitor, sim_class=Sim, loops=0.2)
