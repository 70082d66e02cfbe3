from lib import fakedom

if __name__ == "checks.R31":
    # Before collagraph gets imported
    fakedom.install()

from collagraph.renderers.dom_renderer import DomRenderer  # noqa: E402

from lib import core, sim, spec as S, tee  # noqa: E402
from lib.harness import Violation  # noqa: E402

QUICK, THOROUGH = 450, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "Half of the cases perform random valid operations directly on a DomRenderer that "
    "works on a strict model of the DOM (which raises DOM exceptions, keeps attributes "
    "as strings, manages listeners like Pyodide does and has elements that evaluate to "
    "False), with all nodes compared with a reference after every operation and events "
    "dispatched. The other half renders random histories with Collagraph ("
    + core.RULE
    + ")."
)
MIN = {"operations": 2000, "updates": 300, "events dispatched": 2000, "calls": 200}
ASSUMPTIONS = [
    "a model of the DOM instead of a browser",
    "lower-case names of attributes and elements",
]


def case(rng, rep, size):
    document = fakedom.current()
    if rng.random() < 0.5:
        document.formlike = set(rng.sample(["box", "row", "leaf", "a", "b"], 3))
        rep.count("cases with falsy elements")
    if rng.random() < 0.5:
        operations(rng, rep, size, document)
    else:
        rendering(rng, rep, size, document)


def compare(rep, t, els):
    for el in els:
        node = t.reals[el.uid]
        expected = [t.reals[child.uid] for child in el.children]
        if [id(n) for n in node.childNodes] != [id(n) for n in expected]:
            raise Violation("children", f"{node.childNodes} instead of {expected}")
        for child in expected:
            if child.parentNode is not node:
                raise Violation("parent", f"{child.parentNode} instead of {node}")
        if el.type == "TEXT":
            if not isinstance(node, fakedom.Text):
                raise Violation("node-type", f"{node} instead of text")
            if node.data != (el.text or ""):
                raise Violation("text", f"{node.data!r} instead of {el.text!r}")
            continue
        if el.uid and (
            not isinstance(node, fakedom.Element) or node.localName != el.type
        ):
            raise Violation("node-type", f"{node} instead of {el}")
        attrs = {key: fakedom.js_string(val) for key, val in el.attrs.items()}
        if node._attributes != attrs:
            raise Violation("attrs", f"{node._attributes} instead of {attrs}")
        listeners = {k: {id(h) for h in v} for k, v in el.listeners.items() if v}
        actual = {k: set(v) for k, v in node._listeners.items() if v}
        if listeners != actual:
            raise Violation("listeners", f"{actual} instead of {listeners}")


def operations(rng, rep, size, document):
    t = tee.Tee(DomRenderer(), document.body)
    calls = []

    def handler(n):
        return lambda *args: calls.append((n, args))

    functions = {handler(n): n for n in range(5)}
    for _ in tee.random_ops(
        rng,
        rep,
        t,
        document.body,
        int(10 + 60 * size),
        types=["a", "b", "box", "row"],
        attrs=["x", "y", "class", "data-x"],
        events=["click", "change"],
        values=lambda rng: rng.choice([1, None, "v", True, False, 0, "", 1.0, "<&"]),
        handlers=lambda rng: rng.choice(list(functions)),
    ):
        rep.count("operations")
        t.check_workload()
        els = {el.uid: el for el in t.els.values()}
        compare(rep, t, els.values())
        for el in els.values():
            for event in ("click", "change"):
                calls.clear()
                t.reals[el.uid].dispatch(event, 1)
                rep.count("events dispatched")
                expected = [(functions[h], (1,)) for h in el.listeners.get(event, ())]
                rep.count("calls", len(expected))
                if sorted(calls) != sorted(expected):
                    raise Violation("calls", f"{calls} instead of {expected}")


def rendering(rng, rep, size, document):
    profile = core.profile_for(rng)

    def make(spec, renderer):
        return tee.TeeSim(spec, DomRenderer(), document.body)

    def monitor(s, step):
        compare(rep, s.renderer, s.container.walk())
        s.check(sim.TREE | sim.IDENTITY)
        for node in s.model.root.walk():
            if node.kind != "el":
                continue
            real = s.renderer.reals[s.el_of[node.token].uid]
            for event in S.EVENTS:
                s.world.fired.clear()
                real.dispatch(event, 7)
                rep.count("events dispatched")
                expected = []
                if event in node.on:
                    rep.count("calls")
                    expected = [s.world.expected_fire(node.on[event], event, (7,), {})]
                if s.world.fired != expected:
                    raise Violation(
                        "handler", f"{event} of {real}: {s.world.fired}, not {expected}"
                    )

    core.history(rng, rep, size, profile, monitor, sim_class=make)
