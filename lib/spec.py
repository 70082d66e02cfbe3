"""Random descriptions of element trees ("specs") and random changes to them.

A spec is a JSON-able nested dict:

  {"k": "el", "t": type, "key": key, "a": {attr: value}, "on": {event: handler}, "ch": []}
  {"k": "text", "v": text}
  {"k": "none"}
  {"k": "tpl", "key": key, "ch": []}                    fragment
  {"k": "fn", "c": name, "key": key, "a": {}, "ch": []}        function component
  {"k": "cls", "c": name, "key": key, "nid": id, "a": {}, "on": {}, "ch": [], "sl": {}}

`nid` is unique for every description of a class component.
"""
import copy
import itertools

EL_TYPES = ["box", "row", "leaf", "item"]
FN_NAMES = ["F", "G", "P"]
CLS_NAMES = ["A", "B", "C", "S"]
ATTRS = ["x", "y", "z", "w"]
EVENTS = ["click", "change", "drop"]
HANDLER_KINDS = [
    "closure",
    "default",
    "kwdefault",
    "posdefault",
    "partial",
    "partialkw",
    "bound",
    "nested",
    "mutable",
    "callable",
    "late",
    "module",
    "names",
    "attrs",
    "consts",
    "deep",
    "order",
    "plain",
    "same-bound",
    "same-callable",
    "same-cached",
    "equal-bound",
    "types",
    "fresh",
    "length",
    "func",
    "self",
    "mutual",
    "covered",
    "frozen",
]

nids = itertools.count(1)


class Profile:
    """What kind of things may be generated"""

    def __init__(self, **kwargs):
        self.fn = True
        self.cls = True
        self.tpl = True
        self.none = True
        self.text = True
        self.slots = True
        self.events = True
        self.none_attrs = False
        self.list_attrs = True
        self.keys = 0.5
        self.handlers = HANDLER_KINDS
        self.max_children = 5
        # Kinds of changes that are made more often
        self.more = []
        self.max_depth = 4
        self.weights = dict(el=6, text=2, none=1, tpl=1.5, fn=1.5, cls=2.5)
        self.cls_names = CLS_NAMES
        self.fn_names = FN_NAMES
        for key, val in kwargs.items():
            if not hasattr(self, key):
                raise KeyError(key)
            setattr(self, key, val)

    def kinds(self):
        w = dict(self.weights)
        for name in ("text", "none", "tpl", "fn", "cls"):
            if not getattr(self, name):
                w.pop(name)
        return list(w), list(w.values())


def gen_value(rng, profile):
    r = rng.random()
    if profile.none_attrs and r < 0.1:
        return None
    if r < 0.5:
        # No 0 and 1: those are equal to False and True
        return rng.randrange(2, 6)
    if r < 0.7:
        return rng.choice(["", "a", "b", "ä{}"])
    if r < 0.8:
        return rng.choice([True, False])
    if r < 0.9 and profile.list_attrs:
        return [rng.randrange(3) for _ in range(rng.randrange(3))]
    return rng.choice([0.5, -1, "0"])


def gen_attrs(rng, profile):
    return {
        name: gen_value(rng, profile)
        for name in rng.sample(ATTRS, rng.choice([0, 0, 1, 1, 2, 3]))
    }


def gen_handler(rng, profile):
    kind, value = rng.choice(profile.handlers), rng.randrange(4)
    # These don't refer to any value, so are all the same
    return {"h": kind, "v": 0 if kind == "late" else value}


def gen_events(rng, profile):
    if not profile.events:
        return {}
    return {
        name: gen_handler(rng, profile)
        for name in rng.sample(EVENTS, rng.choice([0, 0, 0, 1, 1, 2]))
    }


def gen_key(rng, used):
    for _ in range(20):
        key = rng.choice(
            [rng.randrange(12), rng.choice("abcdefgh"), "k%d" % rng.randrange(20)]
        )
        if key not in used:
            used.add(key)
            return key
    return None


def gen_children(rng, profile, depth, n=None):
    if depth <= 0:
        return []
    if n is None:
        n = rng.choice([0, 1, 1, 2, 2, 3, profile.max_children])
    used = set()
    keyed = rng.random() < profile.keys
    result = []
    for _ in range(n):
        node = gen_node(rng, profile, depth - 1)
        if node["k"] not in ("text", "none"):
            if keyed and rng.random() < 0.9:
                node["key"] = gen_key(rng, used)
        result.append(node)
    return result


def gen_node(rng, profile, depth, kind=None):
    if kind is None:
        names, weights = profile.kinds()
        kind = rng.choices(names, weights)[0]
    if kind == "text":
        return {"k": "text", "v": rng.choice(["", "t", "u", "long text", "%s"])}
    if kind == "none":
        return {"k": "none"}
    if kind == "tpl":
        return {"k": "tpl", "key": None, "ch": gen_children(rng, profile, depth)}
    if kind == "fn":
        return {
            "k": "fn",
            "c": rng.choice(profile.fn_names),
            "key": None,
            "a": gen_attrs(rng, profile),
            "ch": gen_children(rng, profile, depth),
        }
    if kind == "cls":
        name = rng.choice(profile.cls_names)
        if name == "S" and not profile.slots:
            name = "A"
        node = {
            "k": "cls",
            "c": name,
            "key": None,
            "nid": next(nids),
            "a": gen_attrs(rng, profile),
            "on": gen_events(rng, profile),
            "ch": gen_children(rng, profile, depth),
            "sl": {},
        }
        if name == "S":
            for slot in rng.sample(["default", "extra", "other"], rng.randrange(4)):
                node["sl"][slot] = gen_children(rng, profile, depth)
        return node
    return {
        "k": "el",
        "t": rng.choice(EL_TYPES),
        "key": None,
        "a": gen_attrs(rng, profile),
        "on": gen_events(rng, profile),
        "ch": gen_children(rng, profile, depth),
    }


def child_lists(node):
    """All the lists of children in the spec with their depth"""
    stack = [(node, 0)]
    while stack:
        item, depth = stack.pop()
        if "ch" in item:
            yield item["ch"], depth
            stack.extend((ch, depth + 1) for ch in item["ch"])
        for children in item.get("sl", {}).values():
            yield children, depth
            stack.extend((ch, depth + 1) for ch in children)


def nodes(node):
    stack = [node]
    while stack:
        item = stack.pop()
        yield item
        stack.extend(item.get("ch", ()))
        for children in item.get("sl", {}).values():
            stack.extend(children)


def size(node):
    return sum(1 for _ in nodes(node))


def fresh_copy(node):
    """Deep copy in which components are descriptions of new components"""
    node = copy.deepcopy(node)
    for item in nodes(node):
        if "nid" in item:
            item["nid"] = next(nids)
    return node


def fix_keys(children):
    """Make sure that the keys of siblings are unique"""
    used = set()
    for child in children:
        key = child.get("key")
        if key is not None:
            if key in used:
                child["key"] = None
            used.add(key)


def mutate(rng, root, profile, history=(), count=None):
    """Returns a changed copy of the spec and the list of names of changes"""
    if history and rng.random() < 0.07:
        # Back to how it was at some point
        return copy.deepcopy(rng.choice(history)), ["revert"]
    root = copy.deepcopy(root)
    names = []
    for _ in range(count or rng.choice([1, 1, 1, 2, 3, 5])):
        names.append(mutate_once(rng, root, profile))
    return root, names


def mutate_once(rng, root, profile):
    lists = list(child_lists(root))
    all_nodes = [n for n in nodes(root) if n is not root]
    op = rng.choice(
        [
            "insert",
            "insert",
            "insert-many",
            "remove",
            "remove",
            "remove-many",
            "clear",
            "move",
            "move",
            "swap",
            "shuffle",
            "reverse",
            "rotate",
            "attrs",
            "attrs",
            "events",
            "events",
            "text",
            "retype",
            "replace",
            "rekey",
            "wrap",
            "unwrap",
            "none",
            "copy",
            "transfer",
            "slots",
            "nothing",
            *profile.more,
        ]
    )
    if lists and op not in ("insert", "insert-many"):
        # Prefer lists in which there's something to change
        weights = [len(children) ** 2 + 0.2 for children, _ in lists]
        children, depth = rng.choices(lists, weights)[0]
    else:
        children, depth = rng.choice(lists) if lists else (None, 0)
    budget = max(0, min(3, profile.max_depth - depth - 1))

    def new_node():
        node = gen_node(rng, profile, rng.randrange(budget + 1))
        if node["k"] not in ("text", "none") and rng.random() < profile.keys:
            node["key"] = gen_key(rng, {c.get("key") for c in children})
        return node

    if op in ("insert", "insert-many") and children is not None:
        if len(children) > 14 or size(root) > 120:
            return "skip"
        for _ in range(1 if op == "insert" else rng.randrange(2, 5)):
            children.insert(rng.randrange(len(children) + 1), new_node())
    elif op in ("remove", "remove-many") and children:
        for _ in range(1 if op == "remove" else rng.randrange(2, 4)):
            if children:
                del children[rng.randrange(len(children))]
    elif op == "clear" and children is not None:
        children.clear()
    elif op == "move" and children:
        node = children.pop(rng.randrange(len(children)))
        children.insert(rng.randrange(len(children) + 1), node)
    elif op == "swap" and children and len(children) > 1:
        a, b = rng.sample(range(len(children)), 2)
        children[a], children[b] = children[b], children[a]
    elif op == "shuffle" and children:
        rng.shuffle(children)
    elif op == "reverse" and children:
        children.reverse()
    elif op == "rotate" and children:
        children.append(children.pop(0))
    elif op == "attrs":
        candidates = [n for n in [root, *all_nodes] if "a" in n]
        if not candidates:
            return "skip"
        node = rng.choice([n for n in candidates if n["a"]] or candidates)
        r = rng.random()
        if r < 0.4 and node["a"]:
            del node["a"][rng.choice(sorted(node["a"]))]
        elif r < 0.8:
            node["a"][rng.choice(ATTRS)] = gen_value(rng, profile)
        else:
            node["a"] = gen_attrs(rng, profile)
    elif op == "events":
        candidates = [n for n in [root, *all_nodes] if "on" in n]
        if not candidates or not profile.events:
            return "skip"
        node = rng.choice(candidates)
        r = rng.random()
        if r < 0.3 and node["on"]:
            del node["on"][rng.choice(sorted(node["on"]))]
        elif r < 0.6 and node["on"]:
            many = rng.random() < 0.5
            for node in candidates if many else [node]:
                for name in sorted(node["on"]):
                    handler = node["on"][name]
                    if handler["h"] != "late" and rng.random() < 0.5:
                        handler["v"] = rng.randrange(4)
        elif r < 0.9:
            node["on"][rng.choice(EVENTS)] = gen_handler(rng, profile)
        else:
            node["on"] = gen_events(rng, profile)
    elif op == "text":
        candidates = [n for n in all_nodes if n["k"] == "text"]
        if not candidates:
            return "skip"
        rng.choice(candidates)["v"] = rng.choice(["", "t", "v", "other"])
    elif op in ("retype", "replace", "rekey", "wrap", "unwrap", "none") and children:
        idx = rng.randrange(len(children))
        node = children[idx]
        if op == "none":
            children[idx] = {"k": "none"}
        elif op == "replace":
            key = node.get("key")
            children[idx] = gen_node(rng, profile, budget)
            if "key" in children[idx] and rng.random() < 0.7:
                children[idx]["key"] = key
        elif op == "retype":
            if node["k"] == "el":
                node["t"] = rng.choice(EL_TYPES)
            elif node["k"] == "fn":
                node["c"] = rng.choice(profile.fn_names)
            elif node["k"] == "cls" and node["c"] != "S":
                node["c"] = rng.choice([c for c in profile.cls_names if c != "S"] or ["A"])
                node["nid"] = next(nids)
        elif op == "rekey":
            if "key" in node:
                node["key"] = (
                    None
                    if rng.random() < 0.2
                    else gen_key(rng, {c.get("key") for c in children})
                )
        elif op == "wrap":
            if not profile.tpl:
                return "skip"
            end = min(len(children), idx + rng.randrange(1, 4))
            part = children[idx:end]
            wrapper = {"k": "tpl", "key": None, "ch": part}
            if rng.random() < profile.keys:
                wrapper["key"] = gen_key(rng, {c.get("key") for c in children})
            children[idx:end] = [wrapper]
        elif op == "unwrap":
            if node["k"] != "tpl":
                return "skip"
            children[idx : idx + 1] = node["ch"]
            fix_keys(children)
    elif op == "copy" and children:
        if size(root) > 100:
            return "skip"
        node = fresh_copy(rng.choice(children))
        if "key" in node:
            node["key"] = gen_key(rng, {c.get("key") for c in children})
        children.insert(rng.randrange(len(children) + 1), node)
    elif op == "transfer" and children and len(lists) > 1:
        # Move from one parent to another
        idx = rng.randrange(len(children))
        node = children[idx]
        inner = {id(lst) for lst, _ in child_lists(node)}
        others = [lst for lst, _ in lists if lst is not children and id(lst) not in inner]
        if not others:
            return "skip"
        del children[idx]
        target = rng.choice(others)
        target.insert(rng.randrange(len(target) + 1), node)
        fix_keys(target)
    elif op == "slots":
        candidates = [n for n in all_nodes if n["k"] == "cls" and n["c"] == "S"]
        if not candidates:
            return "skip"
        node = rng.choice(candidates)
        slot = rng.choice(["default", "extra", "other"])
        if slot in node["sl"] and rng.random() < 0.4:
            del node["sl"][slot]
        else:
            node["sl"][slot] = gen_children(rng, profile, max(1, budget))
    else:
        return "skip" if op != "nothing" else "nothing"
    return op


def gen_pool(rng, profile, n):
    """Descriptions of keyed siblings from which to choose"""
    pool = []
    for idx in range(n):
        node = gen_node(rng, profile, rng.choice([0, 1, 1, 2]))
        while node["k"] in ("text", "none"):
            node = gen_node(rng, profile, rng.choice([0, 1, 1, 2]))
        node["key"] = f"p{idx}"
        pool.append(node)
    return pool


def choose(rng, pool, current, profile):
    """Another selection from the pool, in another order"""
    r = rng.random()
    chosen = [node for node in pool if node["key"] in {c.get("key") for c in current}]
    order = {c.get("key"): idx for idx, c in enumerate(current)}
    chosen.sort(key=lambda node: order[node["key"]])
    others = [node for node in pool if node["key"] not in order]
    if r < 0.25 or not chosen:
        chosen = rng.sample(pool, rng.randrange(len(pool) + 1))
    elif r < 0.4:
        rng.shuffle(chosen)
    elif r < 0.55:
        for _ in range(rng.randrange(1, 3)):
            chosen.insert(rng.randrange(len(chosen)), chosen.pop(rng.randrange(len(chosen))))
    elif r < 0.7:
        rng.shuffle(others)
        for node in others[: rng.randrange(1, 4)]:
            chosen.insert(rng.randrange(len(chosen) + 1), node)
    elif r < 0.8:
        for _ in range(min(len(chosen), rng.randrange(1, 4))):
            chosen.pop(rng.randrange(len(chosen)))
    elif r < 0.85:
        chosen.reverse()
    elif r < 0.9:
        chosen.append(chosen.pop(0))
    elif r < 0.95:
        chosen.insert(0, chosen.pop())
    else:
        # Replace some in place
        for idx in range(len(chosen)):
            if others and rng.random() < 0.4:
                chosen[idx] = others.pop()
    if rng.random() < 0.4 and pool:
        # Change one of the items as well
        node = rng.choice(pool)
        idx = pool.index(node)
        if node["k"] == "cls" or rng.random() < 0.5:
            holder = copy.deepcopy(node)
            mutate_once(rng, holder, profile)
            pool[idx] = holder
        else:
            holder = gen_node(rng, profile, rng.choice([0, 1, 2]))
            if holder["k"] not in ("text", "none"):
                holder["key"] = node["key"]
                pool[idx] = holder
        chosen = [pool[idx] if c["key"] == node["key"] else c for c in chosen]
    # Some parts without a key in between
    result = copy.deepcopy(chosen)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        result.insert(
            rng.randrange(len(result) + 1),
            rng.choice([{"k": "none"}, {"k": "text", "v": "t"}, {"k": "text", "v": "u"}]),
        )
    return result


def gen_nested(rng, profile, depth):
    """Descriptions of keyed siblings, with such siblings as their children"""
    kinds = ["el", "tpl", "tpl"] * profile.tpl + ["fn"] * profile.fn + ["cls"] * profile.cls
    pool = []
    for idx in range(rng.choice([2, 3, 3, 4])):
        if not depth or rng.random() < 0.4:
            node = gen_node(rng, profile, 0, kind="el")
        else:
            node = gen_node(rng, profile, 0, kind=rng.choice(kinds))
            if node["k"] == "cls":
                node["c"], node["sl"] = rng.choice(["A", "B"]), {}
            node["ch"] = gen_nested(rng, profile, depth - 1)
        node["key"] = f"p{idx}"
        pool.append(node)
    return pool


def choose_nested(rng, pool):
    """Another selection from the pool and from the pools of the chosen ones"""
    result = []
    for node in pool:
        if rng.random() < 0.7:
            children = choose_nested(rng, node["ch"])
            result.append({**copy.deepcopy({**node, "ch": []}), "ch": children})
    r = rng.random()
    if r < 0.4:
        rng.shuffle(result)
    elif r < 0.5:
        result.reverse()
    return result
