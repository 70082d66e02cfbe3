"""Drives a world with a real Collagraph instance, next to the reference model."""
import copy

import collagraph as cg
from collagraph import EventLoopType, h

from . import model as M, spec as S
from .harness import Violation
from .mon import MonRenderer, plain
from .world import World


def root_spec(rng, profile, depth=None):
    spec = S.gen_node(rng, profile, depth or profile.max_depth, kind="el")
    spec.update(k="cls", c="Root", nid=next(S.nids), sl={})
    del spec["t"]
    spec["on"] = {}
    spec["a"] = {}
    return spec


class Sim:
    def __init__(self, spec, renderer=None, world=None, container=None, gui=None):
        self.spec = spec
        self.world = world or World()
        self.renderer = renderer or MonRenderer()
        self.container = (
            container if container is not None else self.renderer.container()
        )
        self.gui = gui or cg.Collagraph(renderer=self.renderer)
        self.world.clock = lambda: len(self.renderer.ops)
        self.model = M.Model()
        self.el_of = {}
        self.token_of = {}
        self.uid_of = {}
        self.token_of_uid = {}
        self.delta = None
        self.sync = self.renderer.loop_type is EventLoopType.SYNC

    # -- driving -------------------------------------------------------------------
    def start(self):
        self.world.root_spec = self.spec
        self.gui.render(h(self.world.Root, {}), self.container)

    def change(self, spec):
        """Replace the description of the whole tree"""
        self.spec = spec
        self.world.root_spec = spec
        self.world.root_state["version"] += 1

    def local_change(self, rng, profile):
        """Change the local state of one of the components"""
        if not self.world.live:
            return None
        uid = rng.choice(sorted(self.world.live))
        instance = self.world.live[uid]
        node = self.model.by_nid.get(instance.nid)
        if node is None:
            return None
        if rng.random() < 0.5:
            node.local.n += 1
            instance.state["n"] = node.local.n
            return ("local-n", uid)
        if S.size(self.spec) > 150 or len(node.local.tree) > 8:
            tree = []
        else:
            holder = {"k": "tpl", "key": None, "ch": copy.deepcopy(node.local.tree)}
            if not holder["ch"]:
                holder["ch"] = S.gen_children(rng, profile, 2)
            else:
                holder, _ = S.mutate(rng, holder, profile)
            tree = holder["ch"]
        node.local.tree = tree
        instance.local_tree = tree
        instance.state["v"] += 1
        return ("local-tree", uid, tree)

    def finish_update(self):
        """To be called when all is handled: brings the model up to date"""
        self.renderer.end_of_update()
        # What the elements looked like before, by token
        self.before = {
            node.token: (dict(node.attrs), dict(node.on), node.text)
            for node in self.model.root.walk()
        }
        self.delta = self.model.step(self.spec)
        return self.delta

    # -- comparison ----------------------------------------------------------------
    def compare(self):
        """Compare the container with the model. Returns a list of differences, which
        are tuples of (category, path, expected, actual)."""
        self.bind_instances(diffs := [])
        stack = [(self.model.root, self.container, "")]
        while stack:
            node, element, path = stack.pop()
            expected = M.dom_children(node)
            actual = element.children
            if [self.etype(n) for n in expected] != [e.type for e in actual]:
                diffs.append(
                    (
                        "children",
                        path,
                        [M.describe(n) for n in expected],
                        [plain(e) for e in actual],
                    )
                )
                continue
            for idx, (n, e) in enumerate(zip(expected, actual)):
                where = f"{path}/{idx}:{e.type}"
                if e.parent is not element:
                    diffs.append(("parent", where, element, e.parent))
                if n.kind == "text":
                    if e.text != n.text:
                        diffs.append(("text", where, n.text, e.text))
                else:
                    self.compare_attrs(n, e, where, diffs)
                self.bind_element(n, e, where, diffs)
                stack.append((n, e, where))
        return diffs

    def compare_fresh(self, prefix=""):
        """Compare with a fresh render of the current state, given the local states of
        the actual instances"""
        instances = {i.nid: i for i in self.world.live.values() if i.nid is not None}
        if len(instances) != len(self.world.live):
            raise Violation(
                prefix + "left-over-instances",
                f"{len(self.world.live)} live, of which {len(instances)} are distinct",
            )
        model = FreshModel(instances)
        model.step(self.spec)
        if model.missing:
            raise Violation(prefix + "missing-instances", repr(model.missing[:5]))
        if len(model.by_nid) != len(instances):
            extra = set(instances) - set(model.by_nid)
            raise Violation(prefix + "left-over-instances", repr(sorted(extra)[:5]))
        self.model = model
        self.el_of, self.token_of, self.uid_of, self.token_of_uid = {}, {}, {}, {}
        self.check(TREE | IDENTITY, prefix)

    def etype(self, node):
        return "TEXT" if node.kind == "text" else node.type

    def compare_attrs(self, node, element, where, diffs):
        expected = {}
        for key, val in node.attrs.items():
            if isinstance(val, M.Cid):
                uid = element.attrs.get(key)
                if self.uid_of.get(val.token) != uid:
                    diffs.append(("instance", where, self.uid_of.get(val.token), uid))
            elif val is not None:
                expected[key] = val
        actual = {
            key: val
            for key, val in element.attrs.items()
            if val is not None and key not in ("key", "cid")
        }
        if expected != actual:
            diffs.append(("attrs", where, expected, actual))
        if set(node.on) != {key for key, val in element.listeners.items() if val}:
            diffs.append(
                ("listeners", where, sorted(node.on), sorted(element.listeners))
            )

    def bind_element(self, node, element, where, diffs):
        token, uid = node.token, element.uid
        if self.el_of.setdefault(token, element) is not element:
            diffs.append(("element", where, self.el_of[token], element))
        if self.token_of.setdefault(uid, token) != token:
            diffs.append(("shared-element", where, self.token_of[uid], token))

    def bind_instances(self, diffs):
        """Pair the component instances with the nodes of the model"""
        nids = {}
        for uid, instance in self.world.live.items():
            nids.setdefault(instance.nid, []).append(uid)
        for nid, uids in nids.items():
            if len(uids) > 1:
                diffs.append(("duplicate-instances", "", nid, uids))
        for nid, node in self.model.by_nid.items():
            uids = nids.pop(nid, ())
            if not uids:
                diffs.append(("missing-instance", "", node, nid))
                continue
            uid, token = uids[0], node.token
            if self.uid_of.setdefault(token, uid) != uid:
                diffs.append(("instance", repr(node), self.uid_of[token], uid))
            if self.token_of_uid.setdefault(uid, token) != token:
                diffs.append(("instance", repr(node), token, self.token_of_uid[uid]))
        for nid, uids in nids.items():
            diffs.append(("left-over-instance", "", nid, uids))

    def check(self, categories, prefix=""):
        for category, where, expected, actual in self.compare():
            if category in categories:
                raise Violation(
                    prefix + category,
                    f"at {where}: expected {expected!r}, got {actual!r}"[:1500],
                    expected=M.describe(self.model.root),
                    actual=plain(self.container),
                )


class FreshModel(M.Model):
    """Model of a single rendering, in which the instances have their actual state"""

    def __init__(self, instances):
        super().__init__()
        self.instances = instances
        self.missing = []

    def new_local(self, spec):
        local = M.Local()
        instance = self.instances.get(spec["nid"])
        if instance is None:
            self.missing.append(spec["nid"])
        else:
            local.n = instance.state["n"]
            local.tree = instance.local_tree
        return local


def change_instance(instance, rng, profile, limit=8):
    """Change the local state of a component instance"""
    if rng.random() < 0.5:
        instance.state["n"] += 1
        return ("local-n", instance.uid)
    if len(instance.local_tree) > limit:
        tree = []
    else:
        holder = {"k": "tpl", "key": None, "ch": copy.deepcopy(instance.local_tree)}
        if not holder["ch"]:
            holder["ch"] = S.gen_children(rng, profile, 2)
        else:
            holder, _ = S.mutate(rng, holder, profile)
        tree = holder["ch"]
    instance.local_tree = tree
    instance.state["v"] += 1
    return ("local-tree", instance.uid, tree)


TREE = {"children", "parent", "text", "attrs", "listeners"}
IDENTITY = {
    "element",
    "shared-element",
    "instance",
    "duplicate-instances",
    "missing-instance",
    "left-over-instance",
}
