"""Runs a real renderer side by side with the recording one.

Collagraph gets to see the elements of the real renderer only; the recording renderer
gets the same operations on its own elements, such that it can tell what the result
should look like.
"""
from collagraph import h
from collagraph.renderers import Renderer

from . import sim
from .mon import MonRenderer


class Tee(Renderer):
    def __init__(self, real, container, **kwargs):
        self.real = real
        self.mon = MonRenderer(**kwargs)
        self.loop_type = self.mon.loop_type
        self.container_el = self.mon.container()
        self.els = {}
        # Real element by uid; these are never released, so ids are unique
        self.reals = {}
        self.bind(container, self.container_el)
        self.on_op = None

    def bind(self, real, el):
        self.els[id(real)] = el
        self.reals[el.uid] = real
        return real

    def el(self, real):
        return None if real is None else self.els[id(real)]

    def preferred_event_loop_type(self):
        return self.mon.preferred_event_loop_type()

    # -- for Sim -------------------------------------------------------------------
    @property
    def ops(self):
        return self.mon.ops

    @property
    def errors(self):
        return self.mon.errors

    def end_of_update(self):
        self.mon.end_of_update()

    def check_workload(self):
        """Operations that are performed directly should be valid ones"""
        allowed = {"listener-added-next-to-other"}
        errors = [error for error in self.errors if error[0] not in allowed]
        assert not errors, f"invalid workload: {errors}"

    # -- operations ----------------------------------------------------------------
    def done(self, op, *els):
        if self.on_op:
            self.on_op(op, *els)

    def create_element(self, type):
        el = self.mon.create_element(type)
        return self.bind(self.real.create_element(type), el)

    def create_text_element(self):
        el = self.mon.create_text_element()
        return self.bind(self.real.create_text_element(), el)

    def insert(self, el, parent, anchor=None):
        self.mon.insert(self.el(el), self.el(parent), self.el(anchor))
        self.real.insert(el, parent, anchor=anchor)
        self.done("insert", el, parent)

    def remove(self, el, parent):
        self.mon.remove(self.el(el), self.el(parent))
        self.real.remove(el, parent)
        self.done("remove", el, parent)

    def set_element_text(self, el, value):
        self.mon.set_element_text(self.el(el), value)
        self.real.set_element_text(el, value)
        self.done("text", el)

    def set_attribute(self, el, attr, value):
        self.mon.set_attribute(self.el(el), attr, value)
        self.real.set_attribute(el, attr, value)
        self.done("set", el)

    def remove_attribute(self, el, attr, value):
        self.mon.remove_attribute(self.el(el), attr, value)
        self.real.remove_attribute(el, attr, value)
        self.done("unset", el)

    def add_event_listener(self, el, event_type, value):
        self.mon.add_event_listener(self.el(el), event_type, value)
        self.real.add_event_listener(el, event_type, value)
        self.done("listen", el)

    def remove_event_listener(self, el, event_type, value):
        self.mon.remove_event_listener(self.el(el), event_type, value)
        self.real.remove_event_listener(el, event_type, value)
        self.done("unlisten", el)


class TeeSim(sim.Sim):
    def __init__(self, spec, real, container, **kwargs):
        renderer = Tee(real, container)
        super().__init__(
            spec, renderer=renderer, container=renderer.container_el, **kwargs
        )
        self.real_container = container

    def start(self):
        self.world.root_spec = self.spec
        self.gui.render(h(self.world.Root, {}), self.real_container)


def random_ops(rng, rep, tee, container, steps, types, attrs, events, values, handlers, ordered=False):
    """Perform a random sequence of valid operations directly on the renderer. Yields
    after each operation. With `ordered` there are only newer elements in older ones.

    `values(rng)` and `handlers(rng)` generate values for attributes and handlers."""
    mon = tee.mon
    root = tee.container_el
    loose, trail = [], []

    def inside():
        return [el for el in root.walk()]

    for _ in range(steps):
        everything = inside() + [item for el in loose for item in el.walk()]
        elements = [el for el in everything if el.type != "TEXT" and el is not root]
        op = rng.choice(
            ["create", "insert", "insert", "insert", "remove", "move", "set", "set"]
            + ["unset", "listen", "unlisten", "text"]
        )
        info = None
        if op == "create":
            if len(everything) > 40:
                continue
            for _ in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < 0.2:
                    real = tee.create_text_element()
                else:
                    real = tee.create_element(rng.choice(types))
                loose.append(tee.el(real))
        elif op in ("insert", "move"):
            if op == "insert":
                if not loose:
                    continue
                el = loose.pop(rng.randrange(len(loose)))
            else:
                attached = [e for e in everything if e.parent is not None]
                if not attached:
                    continue
                el = rng.choice(attached)
                tee.remove(tee.reals[el.uid], tee.reals[el.parent.uid])
            below = list(el.walk())
            parents = [
                e
                for e in [*inside(), *(i for x in loose for i in x.walk())]
                if e.type != "TEXT"
                and not any(e is b for b in below)
                and not (ordered and e.uid > el.uid)
            ]
            parent = rng.choice(parents)
            anchor = None
            if parent.children and rng.random() < 0.7:
                anchor = rng.choice(parent.children)
            info = (el.uid, parent.uid, anchor and anchor.uid)
            anchor = anchor and tee.reals[anchor.uid]
            if rng.random() < 0.5 or anchor is not None:
                tee.insert(tee.reals[el.uid], tee.reals[parent.uid], anchor=anchor)
            else:
                tee.insert(tee.reals[el.uid], tee.reals[parent.uid])
        elif op == "remove":
            attached = [e for e in everything if e.parent is not None]
            if not attached:
                continue
            el = rng.choice(attached)
            info = (el.uid, el.parent.uid)
            tee.remove(tee.reals[el.uid], tee.reals[el.parent.uid])
            if rng.random() < 0.7:
                loose.append(el)
        elif op == "text":
            texts = [e for e in everything if e.type == "TEXT"]
            if not texts:
                continue
            el = rng.choice(texts)
            info = (el.uid,)
            tee.set_element_text(tee.reals[el.uid], rng.choice(["", "a", "b", "<&{}"]))
        else:
            if not elements:
                continue
            el = rng.choice(elements)
            real = tee.reals[el.uid]
            if op == "set":
                attr, value = rng.choice(attrs), values(rng)
                info = (el.uid, attr, repr(value))
                tee.set_attribute(real, attr, value)
            elif op == "unset":
                if not el.attrs:
                    continue
                attr = rng.choice(sorted(el.attrs))
                info = (el.uid, attr)
                tee.remove_attribute(real, attr, el.attrs[attr])
            elif op == "listen":
                event, handler = rng.choice(events), handlers(rng)
                if any(h == handler for h in el.listeners.get(event, ())):
                    continue
                info = (el.uid, event)
                tee.add_event_listener(real, event, handler)
            else:
                pairs = [(e, h) for e, hs in sorted(el.listeners.items()) for h in hs]
                if not pairs:
                    continue
                event, handler = rng.choice(pairs)
                info = (el.uid, event)
                tee.remove_event_listener(real, event, handler)
        rep.count(f"op {op}")
        rep.note(op, info)
        trail.append(op)
        mon.ops.clear()
        yield op
    rep.signature((trail, len(trail)))
