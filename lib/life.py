"""Monitors that apply to any execution"""
from . import mon
from .harness import Violation
from .spec import EVENTS


class Life:
    """Every instance goes through its life exactly once"""

    ALLOWED = {
        "init": {"none"},
        "mounted": {"init"},
        "updated": {"mounted"},
        "before_unmount": {"mounted"},
    }

    def __init__(self):
        self.state = {}

    def process(self, events, rep=None):
        for what, uid, _ in events:
            state = self.state.get(uid, "none")
            if rep:
                rep.count(what)
            if state not in self.ALLOWED[what]:
                raise Violation("lifecycle", f"{what} of component in state {state}")
            if what != "updated":
                self.state[uid] = what

    def at_rest(self, live):
        """All that has been created has been mounted, or unmounted again by now"""
        for uid, state in self.state.items():
            if state == "init":
                raise Violation("never-mounted", f"component {uid}")
            if (state == "mounted") != (uid in live):
                raise Violation("lifecycle", f"component {uid} is {state}")


def check_protocol(renderer):
    if renderer.errors:
        kind, info = renderer.errors[0]
        raise Violation("protocol-" + kind, " ".join(info))


def check_events(s, rng, rep, share=0.3):
    """Events have the effect of the latest handlers"""
    for node in s.model.root.walk():
        if node.kind != "el" or rng.random() > share:
            continue
        el = s.el_of[node.token]
        for event in EVENTS:
            s.world.fired.clear()
            mon.fire(el, event, 1)
            rep.count("events fired")
            expected = []
            if event in node.on:
                expected = [s.world.expected_fire(node.on[event], event, (1,))]
            if s.world.fired != expected:
                raise Violation(
                    "event", f"{event} of {el}: {s.world.fired} instead of {expected}"
                )
