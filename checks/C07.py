import collections
import copy

import collagraph as cg
from observ import reactive

from lib import core, model as M, sim
from lib.harness import Violation
from lib.mon import MonRenderer
from lib.world import World
from checks.C04 import EQUIVALENT

QUICK, THOROUGH = 220, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " Every hook call is recorded with its position among the renderer operations and "
    "judged with the reference model. In a quarter of the cases there's a list of "
    "components with all kinds of props that are added, removed and changed, of which "
    "the elements only show some."
)
MIN = {
    "mounted": 100,
    "before_unmount": 50,
    "updated required": 50,
    "updated forbidden": 50,
    "updates of props": 100,
    "only removed props": 20,
}
ASSUMPTIONS = [
    "hooks don't change state (see C13)",
    "updated isn't judged when the component only gained, lost or moved children",
]


def case(rng, rep, size):
    if rng.random() < 0.25:
        return props_case(rng, rep, size)
    profile = core.profile_for(rng, handlers=sorted(EQUIVALENT))
    profile.weights.update(cls=5, el=5)
    life = {}
    previous = {"elements": {}}

    def monitor(s, step):
        s.check({"children", "missing-instance", "duplicate-instances"})
        judge(s, rep, life, previous, step)

    core.history(rng, rep, size, profile, monitor, local=0.35, loops=0.2)


def subtree_elements(s, node):
    return [
        s.el_of[n.token]
        for n in node.walk()
        if n.kind in ("el", "text") and n.token in s.el_of
    ]


def judge(s, rep, life, previous, step):
    ops = s.renderer.take_ops()
    events = s.world.take_events()

    # Protocol per instance
    for what, uid, _ in events:
        state = life.get(uid, "none")
        allowed = {
            "init": {"none"},
            "mounted": {"init"},
            "updated": {"mounted"},
            "before_unmount": {"mounted"},
        }[what]
        rep.count(what)
        if state not in allowed:
            raise Violation("protocol", f"{what} of component in state {state}")
        if what != "updated":
            life[uid] = what

    calls = collections.Counter((what, uid) for what, uid, _ in events)
    for (what, uid), n in calls.items():
        if n > 1:
            raise Violation("called-more-than-once", f"{what} {n} times in one update")

    position = {(what, uid): idx for idx, (what, uid, _) in enumerate(events)}
    clock = {(what, uid): at for what, uid, at in events}

    components = [n for n in s.model.root.walk() if n.kind == "cls"]
    for node in components:
        uid = s.uid_of[node.token]
        if node.fresh and ("mounted", uid) not in clock:
            raise Violation("not-mounted", repr(node))
        if not node.fresh and ("mounted", uid) in clock:
            raise Violation("mounted-again", repr(node))
        for hook in ("mounted", "updated"):
            if (hook, uid) not in clock:
                continue
            # Hooks of the components below come first
            for child in node.walk():
                if child.kind == "cls" and child is not node:
                    cuid = s.uid_of[child.token]
                    for other in ("mounted", "updated"):
                        if position.get((other, cuid), -1) > position[hook, uid]:
                            raise Violation(
                                "hook-order",
                                f"{hook} of {node} before {other} of child {child}",
                            )
            # All the operations on the elements come before the hook
            mine = {el.uid for el in subtree_elements(s, node)}
            at = clock[hook, uid]
            for op in ops[at:]:
                if op[1].uid in mine:
                    raise Violation(
                        "hook-too-early", f"{hook} of {node} before {op[:3]}"
                    )
            # ... and they are part of the container by then
            for el in subtree_elements(s, node):
                if el.root() is not s.container:
                    raise Violation("hook-while-detached", f"{hook} of {node}: {el}")

    # Removed components
    removed = [n for top in s.delta.removed for n in top.walk() if n.kind == "cls"]
    for node in removed:
        uid = s.uid_of.get(node.token)
        if ("before_unmount", uid) not in clock:
            raise Violation("no-before-unmount", repr(node))
        at = clock["before_unmount", uid]
        mine = previous["elements"].get(node.token, ())
        gone_before = {op[1].uid for op in ops[:at] if op[0] == "remove"}
        back = {op[1].uid for op in ops[:at] if op[0] == "insert"}
        for uids in mine:
            # The element and its ancestors up to the container
            if any(u in gone_before and u not in back for u in uids):
                raise Violation("before-unmount-too-late", repr(node))
    if len(removed) != sum(1 for what, _, _ in events if what == "before_unmount"):
        raise Violation("unmounted", "number of before_unmount calls")

    # The updated hook
    reordered = {id(node) for node in s.delta.reordered}
    dirty = {id(top.parent) for top in s.delta.removed}
    territory = collections.defaultdict(list)
    for node in s.model.root.walk():
        if node.kind != "root":
            territory[id(M.closest_component(node))].append(node)
    for node in components:
        if node.fresh:
            continue
        uid = s.uid_of[node.token]
        called = ("updated", uid) in clock
        own = node.type != "Root" and "spec" in node.changed
        mine = territory[id(node)]
        changed = [
            n
            for n in mine
            if not n.fresh and n.kind in ("el", "text") and n.changed - {"spec"}
        ]
        if own or changed:
            rep.count("updated required")
            if not called:
                raise Violation(
                    "updated-not-called", f"{node}: own={own} changed={changed}"
                )
        else:
            same = not any(
                n.fresh or n.changed or id(n) in reordered or id(n) in dirty
                for n in [*mine, node]
                if n is not node or id(n) in reordered or id(n) in dirty
            )
            if same:
                rep.count("updated forbidden")
                if called:
                    raise Violation("updated-without-change", repr(node))

    # For the next update
    previous["elements"] = {
        node.token: [ancestors(el) for el in subtree_elements(s, node)]
        for node in components
    }


def ancestors(el):
    result = []
    while el is not None:
        result.append(el.uid)
        el = el.parent
    return result


def props_case(rng, rep, size):
    """Components that have all kinds of props, of which their elements show some"""
    calls = []

    def make(shown):
        class Item(cg.Component):
            def render(self):
                attrs = {k: self.props[k] for k in shown if k in self.props}
                return cg.h("item", attrs)

            def report(self, what):
                calls.append((what, self.props["id"], sorted(self.props.items())))

            def mounted(self):
                self.report("mounted")

            def updated(self):
                self.report("updated")

            def before_unmount(self):
                self.report("before_unmount")

        return Item

    names = ["a", "b", "c", "d"]
    types = {n: make(rng.sample(names, n)) for n in range(3)}
    kind = {key: rng.randrange(3) for key in range(6)}
    nested = rng.random() < 0.5

    def app(props):
        items = [
            cg.h(types[kind[item["id"]]], {**item, "key": item["id"]})
            for item in props["items"]
        ]
        return cg.h("app", {}, *(cg.h("box", {"key": x.key}, x) for x in items) if nested else items)

    def value():
        return rng.choice([rng.randrange(2, 5), "a", "", False, None, 0.5])

    def fresh(key):
        props = {"id": key}
        for name in rng.sample(names, rng.randrange(4)):
            props[name] = value()
        return props

    items = [fresh(key) for key in rng.sample(range(6), rng.randrange(5))]
    state = reactive({"items": copy.deepcopy(items)})
    gui = cg.Collagraph(MonRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    gui.render(cg.h(app, state), gui.renderer.container())
    before, trail = {}, []
    for step in range(int(3 + 12 * size)):
        judge_props(rep, before, items, calls)
        before = {item["id"]: item for item in copy.deepcopy(items)}
        what = rng.choice(["remove", "remove", "add", "change", "none", "items"])
        for item in rng.sample(items, min(len(items), rng.choice([1, 1, 2]))):
            mine = sorted({*item} - {"id"})
            if what == "remove" and mine:
                del item[rng.choice(mine)]
            elif what == "add" and len(mine) < len(names):
                # Whether a prop without a value makes a difference isn't specified
                new = rng.choice([n for n in names if n not in mine])
                item[new] = value() or "x"
            elif what == "change" and mine:
                name = rng.choice(mine)
                item[name] = value() if item[name] is not None else "y"
        if what == "items":
            if rng.random() < 0.5 or not items:
                others = [k for k in range(6) if k not in {x["id"] for x in items}]
                if others:
                    items.insert(rng.randrange(len(items) + 1), fresh(rng.choice(others)))
            else:
                items.pop(rng.randrange(len(items)))
        rep.note(what, copy.deepcopy(items))
        trail.append(what)
        state["items"] = copy.deepcopy(items)
    rep.signature((trail, items))


def judge_props(rep, before, items, calls):
    done, calls[:] = list(calls), []
    now = {item["id"]: item for item in items}
    rep.count("updates of props")
    for key in {*before, *now}:
        mine = [call for call in done if call[1] == key]
        old, new = before.get(key), now.get(key)
        if old is None or new is None:
            expected = ["mounted" if old is None else "before_unmount"]
        else:
            expected = ["updated"] if old != new else []
            removed = {*old} - {*new}
            if removed and {**new, **{n: old[n] for n in removed}} == old:
                rep.count("only removed props")
        if [what for what, *_ in mine] != expected:
            raise Violation("props", f"{old} -> {new}: {mine} instead of {expected}")
        if mine and new is not None:
            rep.count("props seen by hooks")
            if dict(mine[0][2]) != {**new, "key": key}:
                raise Violation("props-seen", f"{mine[0][2]} instead of {new}")
