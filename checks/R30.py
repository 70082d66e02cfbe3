import itertools

from collagraph.renderers import DictRenderer

from lib import core, sim, tee
from lib.harness import Violation

QUICK, THOROUGH = 500, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "Half of the cases perform random valid operations directly on a DictRenderer, with "
    "many elements that are equal as dictionaries, and compare all elements with a "
    "reference after every operation. The other half renders random histories ("
    + core.RULE
    + ") with Collagraph by means of a DictRenderer."
)
MIN = {"operations": 2000, "updates": 300, "equal siblings": 100}
ASSUMPTIONS = ["operations are valid (see C03)"]




def case(rng, rep, size):
    if rng.random() < 0.5:
        operations(rng, rep, size)
    else:
        rendering(rng, rep, size)


def compare(rep, t, els):
    for el in els:
        real = t.reals[el.uid]
        if type(real) is not dict:
            raise Violation("element-type", f"{type(real)} for {el}")
        expected_type = "TEXT_ELEMENT" if el.type == "TEXT" else el.type
        if el.uid and real.get("type") != expected_type:
            raise Violation("type", f"{real.get('type')} instead of {expected_type}")
        children = real.get("children", [])
        expected = [t.reals[child.uid] for child in el.children]
        if [id(c) for c in children] != [id(c) for c in expected]:
            raise Violation(
                "children",
                f"{[t.els.get(id(c)) for c in children]} instead of {el.children}",
            )
        if len(children) > 1 and any(a == b for a, b in zip(children, children[1:])):
            rep.count("equal siblings")
        if real.get("attrs", {}) != el.attrs:
            raise Violation("attrs", f"{real.get('attrs')} instead of {el.attrs}")
        if real.get("text") != el.text:
            raise Violation("text", f"{real.get('text')} instead of {el.text}")
        handlers = {k: set(v) for k, v in real.get("handlers", {}).items() if v}
        expected = {k: set(v) for k, v in el.listeners.items() if v}
        if handlers != expected:
            raise Violation("handlers", f"{handlers} instead of {expected}")
        extra = set(real) - {"type", "children", "attrs", "text", "handlers", "root"}
        if extra:
            raise Violation("extra", repr(extra))


class Unequal:
    """Not even equal to itself"""

    def __eq__(self, other):
        return False

    def __repr__(self):
        return "Unequal"


VALUES = [1, 1, None, "v", [1], {"a": 1}, True, 0, "", float("nan"), Unequal()]


class Holder:
    def method(self):
        pass


def operations(rng, rep, size):
    container = {"type": "root"}
    t = tee.Tee(DictRenderer(), container)
    few = rng.random() < 0.5
    holders = [Holder(), Holder()]
    functions = [lambda n=n: n for n in range(4)]
    for _ in tee.random_ops(
        rng,
        rep,
        t,
        container,
        int(10 + 60 * size),
        types=["a"] if few else list("abcdef"),
        attrs=["x"] if few else ["x", "y", "z", "type", "children"],
        events=["click", "change"],
        values=lambda rng: rng.choice(VALUES),
        handlers=lambda rng: rng.choice([*functions, *(h.method for h in holders)]),
    ):
        rep.count("operations")
        t.check_workload()
        els = {}
        for el in [*t.els.values()]:
            els[el.uid] = el
        compare(rep, t, els.values())


def rendering(rng, rep, size):
    # Few distinct types and attributes: lots of equal dictionaries
    profile = core.profile_for(rng, list_attrs=False)

    def make(spec, renderer):
        return tee.TeeSim(spec, DictRenderer(), {"type": "root"})

    def monitor(s, step):
        compare(rep, s.renderer, s.container.walk())
        s.check(sim.TREE | sim.IDENTITY)

    core.history(rng, rep, size, profile, monitor, sim_class=make)


def directed(rep):
    def permutations():
        """All permutations of equal siblings"""
        for n in range(1, 5):
            for order in itertools.permutations(range(n)):
                renderer = DictRenderer()
                parent = renderer.create_element("p")
                els = [renderer.create_element("c") for _ in range(n)]
                for el in els:
                    renderer.insert(el, parent)
                expected = list(els)
                for idx in order:
                    el = els[idx]
                    renderer.remove(el, parent)
                    expected = [e for e in expected if e is not el]
                    if [id(e) for e in parent["children"]] != [id(e) for e in expected]:
                        raise Violation("permutation", f"{n} {order}")
                    anchor = expected[0] if expected else None
                    renderer.insert(el, parent, anchor=anchor)
                    expected.insert(0, el)
                    if [id(e) for e in parent["children"]] != [id(e) for e in expected]:
                        raise Violation("permutation", f"{n} {order}")
                    rep.count("operations", 2)

    yield "permutations", permutations
