import itertools

import collagraph as cg
from collagraph import EventLoopType, h, render_slot
from observ import reactive

from lib import aio, model as M, mon
from lib.harness import Violation

QUICK, THOROUGH = 700, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random composition of class and function components with slots: the "
    "layout of each component has slots in random places (also several times, nested, "
    "conditional, passed on to the slots of inner components) and the content refers to "
    "reactive data and to the props of the slot. The history changes layouts, content, "
    "which slots are passed, data and local state; in some cases an asyncio loop does "
    "the updates. Distinct: by the sequence of kinds "
    "of changes plus the final descriptions."
)
MIN = {"slots rendered": 1000, "slots without content": 200, "instances kept": 500}
ASSUMPTIONS = ["the keys of siblings are unique"]
SLOTS = ["default", "head", "tail"]
DATA = ["x", "y", "z"]


class Env:
    """Where content comes from: the slots of its owner and the props of the slot"""

    def __init__(self, slots, props):
        self.slots, self.props = slots, props


class Reference(M.Model):
    def __init__(self, scene):
        super().__init__()
        self.scene = scene

    def ev_all(self, items, env):
        return [spec for item in items for spec in self.ev(item, env)]

    def ev(self, item, env):
        kind = item["k"]
        if kind == "text":
            return [{"k": "text", "v": item["v"]}]
        if kind == "el":
            return [M.el("el", {}, self.ev_all(item["ch"], env), key=item["key"])]
        if kind == "prop":
            props = env.props or {}
            return [M.el("prop", {"v": props.get(item["name"], "-")}, key=item["key"])]
        if kind == "data":
            value = self.scene.store[item["name"]]
            if value == "hide":
                return [{"k": "none"}]
            return [M.el("data", {"v": value}, key=item["key"])]
        if kind == "leaf":
            return [
                {"k": "cls", "c": "Leaf", "key": item["key"], "nid": object(), "a": {}}
            ]
        if kind == "host":
            slots = {name: (cid, env) for name, cid in item["sl"].items()}
            return [
                {
                    "k": "cls" if item["c"] == "Host" else "fn",
                    "c": item["c"],
                    "key": item["key"],
                    "nid": object(),
                    "a": {"hid": item["hid"]},
                    "slots": slots,
                }
            ]
        if kind == "outer":
            children = []
            if item["name"] in env.slots:
                cid, inner = env.slots[item["name"]]
                content = self.scene.contents[cid]
                props = {p: self.value(src) for p, src in item["props"].items()}
                children = self.ev_all(content["items"], Env(inner.slots, props))
                self.scene.rep.count("slots rendered")
            else:
                self.scene.rep.count("slots without content")
            if item["form"] == "el":
                return [M.el("place", {}, children, key=item["key"])]
            if item["form"] == "tpl":
                return [{"k": "tpl", "key": item["key"], "ch": children}]
            return M.rekey(children, item["key"])
        raise AssertionError(kind)

    def value(self, src):
        return self.scene.store[src] if src in DATA else src

    def expand(self, node, spec):
        if node.kind == "cls" and node.type == "Leaf":
            return [M.el("leaf", {"n": node.local.n, "cid": M.Cid(node.token)})]
        if node.kind in ("cls", "fn"):
            layout = self.scene.layouts[spec["a"]["hid"]]
            attrs = {"hid": spec["a"]["hid"]}
            if node.kind == "cls":
                attrs["cid"] = M.Cid(node.token)
            children = self.ev_all(layout["items"], Env(spec["slots"], None))
            if layout["root"] == "tpl":
                # Nothing but the content
                return [
                    {"k": "tpl", "key": None, "ch": [M.el("label", attrs), *children]}
                ]
            return [M.el("host", attrs, children)]
        return super().expand(node, spec)


class Scene:
    def __init__(self, rng, rep, loop=None):
        self.loop = loop
        self.rng, self.rep = rng, rep
        self.ids = itertools.count(1)
        self.uids = itertools.count(1)
        self.keys = itertools.count(1)
        self.layouts, self.contents = {}, {}
        self.versions = reactive({})
        self.state = reactive({name: 0 for name in DATA})
        self.store = dict(self.state)
        self.live = {}
        self.uid_of, self.token_of, self.el_of = {}, {}, {}
        self.root = self.gen_layout(3)
        self.make()
        self.model = Reference(self)
        self.renderer = mon.MonRenderer(
            EventLoopType.DEFAULT if loop else EventLoopType.SYNC
        )
        self.container = self.renderer.container()
        self.gui = cg.Collagraph(renderer=self.renderer)

    # -- generation ------------------------------------------------------------------
    def key(self):
        return f"k{next(self.keys)}" if self.rng.random() < 0.6 else None

    def gen_items(self, depth, layout, n=None):
        n = self.rng.randrange(1, 5) if n is None else n
        return [self.gen_item(depth, layout) for _ in range(n)]

    def gen_item(self, depth, layout):
        rng = self.rng
        kinds = ["text", "data", "leaf", "prop"]
        if depth > 0:
            kinds += ["el", "host", "host"]
        # Both layouts and content may have the slots of the owner
        kinds += ["outer"] * (5 if layout else 2)
        kind = rng.choice(kinds)
        if kind == "text":
            return {"k": "text", "v": rng.choice(["t", "u"])}
        item = {"k": kind, "key": self.key()}
        if kind == "prop":
            item["name"] = rng.choice("pq")
        elif kind == "data":
            item["name"] = rng.choice(DATA)
        elif kind == "el":
            item["ch"] = self.gen_items(depth - 1, layout)
        elif kind == "host":
            item["c"] = rng.choice(["Host", "Host", "FnHost"])
            item["hid"] = self.gen_layout(depth - 1)
            item["sl"] = {}
            for name in rng.sample(SLOTS, rng.randrange(4)):
                item["sl"][name] = self.gen_content(depth - 1)
            item["bare"] = list(item["sl"]) == ["default"] and rng.random() < 0.7
        elif kind == "outer":
            item["name"] = rng.choice(SLOTS)
            item["form"] = rng.choice(["el", "tpl", "splice"])
            item["key"] = f"o{next(self.keys)}"
            item["props"] = {
                p: rng.choice([1, "v", *DATA])
                for p in rng.sample("pq", rng.randrange(3))
            }
        return item

    def gen_layout(self, depth):
        hid = next(self.ids)
        self.layouts[hid] = {
            "items": self.gen_items(depth, True),
            "root": self.rng.choice(["el", "el", "tpl"]),
        }
        self.versions[f"l{hid}"] = 0
        return hid

    def gen_content(self, depth):
        cid = next(self.ids)
        self.contents[cid] = {
            "items": self.gen_items(depth, False, self.rng.choice([0, 1, 1, 2, 3])),
            "form": self.rng.choice(["list", "tuple", "single", "generator"]),
        }
        self.versions[f"c{cid}"] = 0
        return cid

    # -- the real thing ----------------------------------------------------------------
    def make(scene):
        class Base(cg.Component):
            def __init__(self, props, parent=None):
                super().__init__(props, parent)
                self.uid = next(scene.uids)
                self.state["n"] = 0
                scene.live[self.uid] = self

            def before_unmount(self):
                del scene.live[self.uid]

        class Leaf(Base):
            def render(self):
                return h("leaf", {"n": self.state["n"], "cid": self.uid})

        class Host(Base):
            def render(self):
                attrs = {"hid": self.props["hid"], "cid": self.uid}
                return scene.render_layout(attrs, self.render_slot)

        def FnHost(props, slots=None):
            def slot(name, slot_props=None):
                return render_slot(name, slot_props, slots or {})

            return scene.render_layout({"hid": props["hid"]}, slot)

        scene.classes = {"Leaf": Leaf, "Host": Host, "FnHost": FnHost}

    def render_layout(self, attrs, slot):
        hid = attrs["hid"]
        self.versions[f"l{hid}"]
        layout = self.layouts[hid]
        children = self.build_all(layout["items"], slot, None)
        if layout["root"] == "tpl":
            return h("template", {}, h("label", attrs), *children)
        return h("host", attrs, *children)

    def build_all(self, items, slot, props):
        return [vnode for item in items for vnode in self.build(item, slot, props)]

    def build(self, item, slot, props):
        kind = item["k"]
        if kind == "text":
            return [item["v"]]
        attrs = {} if item["key"] is None else {"key": item["key"]}
        if kind == "el":
            return [h("el", attrs, *self.build_all(item["ch"], slot, props))]
        if kind == "prop":
            return [h("prop", {**attrs, "v": (props or {}).get(item["name"], "-")})]
        if kind == "data":
            value = self.state[item["name"]]
            return [None if value == "hide" else h("data", {**attrs, "v": value})]
        if kind == "leaf":
            return [h(self.classes["Leaf"], attrs)]
        if kind == "host":
            slots = {
                name: self.content(cid, slot) for name, cid in item["sl"].items()
            }
            args = [slots] if slots else []
            if item["bare"] and slots:
                args = [slots["default"]]
            return [h(self.classes[item["c"]], {**attrs, "hid": item["hid"]}, *args)]
        if kind == "outer":
            slot_props = {
                p: self.state[src] if src in DATA else src
                for p, src in item["props"].items()
            }
            children = list(slot(item["name"], slot_props))
            if item["form"] == "el":
                return [h("place", attrs, *children)]
            if item["form"] == "tpl":
                return [h("template", attrs, *children)]
            for child in children:
                if isinstance(child, str) or child is None or child.key is None:
                    continue
                child.key = (item["key"], child.key)
            return children
        raise AssertionError(kind)

    def content(self, cid, slot):
        def content(props):
            self.versions[f"c{cid}"]
            content = self.contents[cid]
            result = self.build_all(content["items"], slot, props)
            if content["form"] == "single" and len(result) == 1:
                if not isinstance(result[0], str) and result[0] is not None:
                    return result[0]
            if content["form"] == "tuple":
                return tuple(result)
            if content["form"] == "generator":
                return (item for item in result)
            return result

        return content

    # -- comparison ----------------------------------------------------------------
    def root_spec(self):
        return {
            "k": "cls",
            "c": "Host",
            "key": None,
            "nid": object(),
            "a": {"hid": self.root},
            "slots": {},
        }

    def settle(self):
        if self.loop:
            self.rep.count("slices of work", self.loop.settle())

    def compare(self):
        kept = len(self.model.step(self.root_spec()).kept)
        self.rep.count("nodes kept", kept)
        uids = set()
        stack = [(self.model.root, self.container)]
        while stack:
            node, element = stack.pop()
            nodes = M.dom_children(node)
            types = ["TEXT" if n.kind == "text" else n.type for n in nodes]
            if types != [el.type for el in element.children]:
                raise Violation(
                    "children",
                    f"in {element}",
                    expected=M.describe(self.model.root),
                    actual=mon.plain(self.container),
                )
            for n, el in zip(nodes, element.children):
                if self.el_of.setdefault(n.token, el) is not el:
                    raise Violation("element", f"{el} and {self.el_of[n.token]}")
                if n.kind == "text":
                    if n.text != el.text:
                        raise Violation("text", f"{el.text} instead of {n.text}")
                    continue
                attrs = {k: v for k, v in el.attrs.items() if k != "key"}
                expected = dict(n.attrs)
                if "cid" in expected:
                    token, uid = expected.pop("cid").token, attrs.pop("cid", None)
                    uids.add(uid)
                    if token in self.uid_of:
                        self.rep.count("instances kept")
                    if self.uid_of.setdefault(token, uid) != uid:
                        raise Violation("instance", f"{el}: {uid}, {self.uid_of[token]}")
                    if self.token_of.setdefault(uid, token) != token:
                        raise Violation("shared-instance", f"{el}: {uid}")
                if attrs != expected:
                    raise Violation(
                        "attrs", f"{el} has {attrs} instead of {expected}"
                    )
                stack.append((n, el))
        if uids != set(self.live):
            raise Violation("instances", f"{uids} instead of {set(self.live)}")


def shuffle_items(rng, scene, items, layout):
    op = rng.choice(["insert", "remove", "shuffle", "replace"])
    if op == "insert" or not items:
        items.insert(rng.randrange(len(items) + 1), scene.gen_item(1, layout))
    elif op == "remove":
        items.pop(rng.randrange(len(items)))
    elif op == "shuffle":
        rng.shuffle(items)
    else:
        items[rng.randrange(len(items))] = scene.gen_item(1, layout)
    return op


def hosts(items):
    for item in items:
        if item["k"] == "host":
            yield item
        yield from hosts(item.get("ch", ()))


def case(rng, rep, size):
    if rng.random() < 0.2:
        with aio.loop(rng) as loop:
            return run(rng, rep, size, Scene(rng, rep, loop))
    run(rng, rep, size, Scene(rng, rep))


def run(rng, rep, size, s):
    rep.note("initial", s.layouts, s.contents)
    s.gui.render(h(s.classes["Host"], {"hid": s.root}), s.container)
    s.settle()
    s.compare()
    trail = []
    for _ in range(int(4 + 12 * size)):
        op = rng.choice(
            ["layout", "content", "content", "slots", "slots", "data", "data", "leaf"]
        )
        # Only what's in use
        live_layouts, live_contents = in_use(s)
        if op == "layout":
            hid = rng.choice(live_layouts)
            if len(s.model_nodes()) > 150:
                s.layouts[hid]["items"] = []
            how = shuffle_items(rng, s, s.layouts[hid]["items"], True)
            rep.note(op, how, hid, s.layouts[hid])
            s.versions[f"l{hid}"] += 1
        elif op == "content":
            if not live_contents:
                continue
            cid = rng.choice(live_contents)
            if len(s.model_nodes()) > 150:
                s.contents[cid]["items"] = []
            how = shuffle_items(rng, s, s.contents[cid]["items"], False)
            rep.note(op, how, cid, s.contents[cid])
            s.versions[f"c{cid}"] += 1
        elif op == "slots":
            places = [(f"l{hid}", s.layouts[hid]["items"]) for hid in live_layouts]
            places += [(f"c{cid}", s.contents[cid]["items"]) for cid in live_contents]
            places = [(name, host) for name, items in places for host in hosts(items)]
            if not places:
                continue
            place, host = rng.choice(places)
            name = rng.choice(SLOTS)
            if name in host["sl"]:
                del host["sl"][name]
            else:
                host["sl"][name] = s.gen_content(1)
            host["bare"] = host["bare"] and list(host["sl"]) == ["default"]
            rep.note(op, place, host)
            s.versions[place] += 1
        elif op == "data":
            name, value = rng.choice(DATA), rng.choice([1, 2, 3, "hide"])
            rep.note(op, name, value)
            s.store[name] = value
            s.state[name] = value
        else:
            leaves = [
                n for n in s.model_nodes() if n.kind == "cls" and n.type == "Leaf"
            ]
            if not leaves:
                continue
            leaf = rng.choice(leaves)
            leaf.local.n += 1
            s.live[s.uid_of[leaf.token]].state["n"] += 1
            rep.note(op, leaf.key)
        trail.append(op)
        if s.loop and op == "data" and rng.random() < 0.5:
            # The next change becomes part of the same update
            rep.count("merged changes")
            continue
        s.settle()
        s.renderer.end_of_update()
        s.compare()
        if s.renderer.errors:
            kind, info = s.renderer.errors[0]
            raise Violation("protocol-" + kind, " ".join(info))
    rep.signature((trail, s.layouts, s.contents))


def in_use(s):
    layouts, contents = [], []

    def visit_items(items):
        for host in hosts(items):
            visit(host["hid"])
            for cid in host["sl"].values():
                contents.append(cid)
                visit_items(s.contents[cid]["items"])

    def visit(hid):
        layouts.append(hid)
        visit_items(s.layouts[hid]["items"])

    visit(s.root)
    return layouts, contents


Scene.model_nodes = lambda self: list(self.model.root.walk())
