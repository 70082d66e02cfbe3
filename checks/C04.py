import collections

from lib import core, model as M, sim
from lib.harness import Violation

QUICK, THOROUGH = 260, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = core.RULE + (
    " All operations of each update are compared with the difference between the "
    "successive trees of the reference model."
)
MIN = {"updates": 50, "attributes expected to be set": 50, "moves": 10}
ASSUMPTIONS = [
    "no attributes with value None",
    "handlers of equal code and equal immutable captured values are equivalent",
]
# Re-created handlers of these kinds are equivalent when they have the same value
EQUIVALENT = {
    "closure",
    "default",
    "kwdefault",
    "posdefault",
    "partial",
    "partialkw",
    "nested",
    "late",
    "plain",
    "same-bound",
    "same-callable",
    "same-cached",
    "types",
    "fresh",
    "length",
    "func",
}


def case(rng, rep, size):
    profile = core.profile_for(rng)

    def monitor(s, step):
        ops = s.renderer.take_ops()
        s.check({"children"})
        judge(s, ops, rep, step)
        if step is None or rng.random() < 0.2:
            # An update without any change
            s.world.root_state["version"] += 1
            s.finish_update()
            ops = [op for op in s.renderer.take_ops() if not recreated(s, op)]
            rep.count("updates without changes")
            if ops:
                raise Violation("operations-without-change", repr(ops[:10]))

    core.history(rng, rep, size, profile, monitor, loops=0.2)


def recreated(s, op):
    """Replacement of a listener that isn't equivalent"""
    if op[0] not in ("listen", "unlisten"):
        return False
    token = s.token_of.get(op[1].uid)
    for node in s.model.root.walk():
        if node.token == token:
            handler = node.on.get(op[2])
            return handler is not None and handler["h"] not in EQUIVALENT
    return False


def judge(s, ops, rep, step):
    per_el = collections.defaultdict(list)
    created = 0
    for op in ops:
        if op[0] == "create":
            created += 1
        per_el[op[1].uid].append(op)

    hosts = [n for n in s.model.root.walk() if n.kind in ("el", "text")]
    fresh = [n for n in hosts if n.fresh]
    if created != len(fresh):
        raise Violation("created", f"{created} elements created instead of {len(fresh)}")

    reordered = {id(node) for node in s.delta.reordered}

    for node in hosts:
        el = s.el_of.get(node.token)
        if el is None:
            s.compare()
            el = s.el_of[node.token]
        mine = per_el.pop(el.uid, [])
        counts = collections.Counter(op[0] for op in mine)
        old_attrs, old_on, old_text = ({}, {}, None)
        if not node.fresh:
            old_attrs, old_on, old_text = s.before[node.token]
        sets = collections.Counter(op[2] for op in mine if op[0] == "set")
        unsets = collections.Counter(op[2] for op in mine if op[0] == "unset")
        listens = collections.Counter(op[2] for op in mine if op[0] == "listen")
        unlistens = collections.Counter(op[2] for op in mine if op[0] == "unlisten")
        sets.pop("key", None)
        unsets.pop("key", None)
        expected_sets = collections.Counter(
            k for k, v in node.attrs.items() if k not in old_attrs or old_attrs[k] != v
        )
        expected_unsets = collections.Counter(k for k in old_attrs if k not in node.attrs)
        rep.count("attributes expected to be set", sum(expected_sets.values()))
        if sets != expected_sets or unsets != expected_unsets:
            raise Violation(
                "attributes",
                f"of {el}: set {dict(sets)} instead of {dict(expected_sets)}, "
                f"removed {dict(unsets)} instead of {dict(expected_unsets)}",
            )
        texts = counts["text"]
        if node.kind == "text" and node.fresh:
            if texts > 1:
                raise Violation("text", f"of new {el} set {texts} times")
        elif texts != (1 if node.text != old_text else 0):
            raise Violation("text", f"of {el} set {texts} times: {old_text}->{node.text}")
        for event in {*old_on, *node.on, *listens, *unlistens}:
            old, new = old_on.get(event), node.on.get(event)
            n, m = listens[event], unlistens[event]
            if old is None or new is None:
                more = new is not None and new["h"] not in EQUIVALENT
                expected = (0 if new is None else 1), (0 if old is None else 1)
                if (n, m) != expected and not more:
                    raise Violation(
                        "listeners", f"{event} of {el}: {n} added, {m} removed"
                    )
            elif old == new and old["h"] in EQUIVALENT:
                rep.count("equivalent handlers")
                if n or m:
                    raise Violation(
                        "listener-replaced", f"{event} of {el}: equivalent {old}"
                    )
            elif n != m:
                raise Violation("listeners", f"{event} of {el}: {n} added, {m} removed")
        inserts, removes = counts["insert"], counts["remove"]
        if node.fresh:
            if (inserts, removes) != (1, 0):
                raise Violation("inserts", f"new {el}: {inserts} inserts, {removes} removes")
        elif inserts or removes:
            allowed = False
            item = node
            while item is not None:
                parent = item.parent
                if id(parent) in reordered:
                    allowed = True
                if parent is None or parent.kind in ("el", "root"):
                    break
                item = parent
            rep.count("moves")
            if not allowed or (inserts, removes) != (1, 1):
                raise Violation(
                    "moves",
                    f"{el}: {inserts} inserts, {removes} removes, "
                    f"order changed: {allowed}",
                )

    # What remains are the operations on elements that have been removed
    top = set()
    for node in s.delta.removed:
        if node.kind in ("el", "text"):
            tops = [node]
        else:
            tops = M.dom_children(node)
        top.update(s.el_of[n.token].uid for n in tops if n.token in s.el_of)
    for uid, mine in per_el.items():
        if uid == 0:
            continue
        kinds = [op[0] for op in mine]
        if uid not in top or kinds != ["remove"]:
            raise Violation("other-operations", repr(mine[:5]))
        top.discard(uid)
    if top:
        raise Violation("not-removed", repr(top))
