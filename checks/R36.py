import itertools
import random
import re

import numpy as np
import pygfx as gfx

from collagraph.renderers import PygfxRenderer

from lib import tee, tk
from lib.harness import Violation

QUICK, THOROUGH = 300, 15000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random tree of pygfx world objects with (dotted) attributes and "
    "handlers, nested in fragments and components, with a history of random changes "
    "(insert, remove, move, shuffle, replace, transfer to another parent, insert with "
    "an earlier key, attributes, handlers). After each update the scene is compared with "
    "the description: types, order and identity of children, all attributes (those not "
    "described have the value of a new object of that type), and events are dispatched "
    "to all objects. One in five cases performs random operations directly on the "
    "renderer. Distinct: by the changes and the final tree."
)
MIN = {
    "updates": 500,
    "attributes compared": 2000,
    "defaults compared": 2000,
    "handlers called": 500,
    "operations": 500,
}
ASSUMPTIONS = [
    "attributes of one description don't influence each other",
    "objects on the path of dotted names aren't replaced",
    "no rendering of the scene (that needs a GPU)",
]
MISSING = "(missing)"
ids = itertools.count(1)
objects = {}


def flag():
    return lambda rng: rng.random() < 0.5


def number(*options):
    return lambda rng: rng.choice(options)


def vector(*options):
    return lambda rng: [rng.choice(options) for _ in range(3)]


def path(name, convert=lambda value: value):
    *parents, last = name.split(".")

    def read(obj):
        for parent in parents:
            obj = getattr(obj, parent)
        value = getattr(obj, last, MISSING)
        if isinstance(value, np.ndarray):
            return value.tolist()
        return convert(value)

    return read


def cached(make):
    """JSON-able value for an object"""

    def build(value):
        if value not in objects:
            objects[value] = make()
        return objects[value]

    return build


def material(obj):
    return next((k for k, v in objects.items() if v is obj), None) if obj else None


def color_of(value):
    return tuple(round(v, 3) for v in gfx.Color(value))


BASE = {
    "visible": tk.Attr(flag(), path("visible")),
    "render_order": tk.Attr(number(0, 1, 2.5, -1), path("render_order")),
    "cast_shadow": tk.Attr(flag(), path("cast_shadow")),
    "render_mask": tk.Attr(
        number("opaque", "transparent", "all"), path("render_mask", lambda v: v.name)
    ),
    "name": tk.Attr(number("foo", "bar", "", 0), path("name")),
    "user_data": tk.Attr(number({"a": 1}, {"b": [1]}, [], "", [2]), path("user_data")),
}
PLACE = {
    "local.position": tk.Attr(
        vector(0, 1, 2.5, -3), path("local.position"), build=np.array
    ),
    "local.scale": tk.Attr(
        vector(1, 2, 0.5), path("local.scale"), build=lambda v: tuple(v)
    ),
    "local.rotation": tk.Attr(
        number([0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0]), path("local.rotation")
    ),
}
AXES = {
    "local.x": tk.Attr(number(1, 2.5, -3), path("local.x", float)),
    "local.scale_y": tk.Attr(number(1, 2, 0.5), path("local.scale_y", float)),
}


def matrix(rng):
    result = np.eye(4)
    result[:3, 3] = [rng.choice([0, 1, 2]) for _ in range(3)]
    result[0, 0] = rng.choice([1, 2])
    return result.tolist()


MATRIX = {"local.matrix": tk.Attr(matrix, path("local.matrix"))}
GEOMETRY = {
    "geometry": tk.Attr(
        number("g1", "g2"),
        path("geometry", material),
        build=cached(lambda: gfx.box_geometry(1, 1, 1)),
    ),
}


def materials(cls, *names):
    make = cached(cls)
    return tk.Attr(number(*names), path("material", material), build=make)


def own(cls):
    """Each element has its own material, which isn't replaced"""
    return {
        "material": tk.Attr(
            lambda rng: f"own{next(ids)}",
            path("material", material),
            build=cached(cls),
            required=True,
        ),
        "material.opacity": tk.Attr(number(0.5, 0.25), path("material.opacity", float)),
        "material.color": tk.Attr(
            number("#ff0000", "#00ff00", (0.5, 0.25, 0, 1)),
            path("material.color", color_of),
            norm=color_of,
        ),
    }


def world_object(cls):
    def make(event):
        def fire(obj, rng):
            if event == "resize":
                ev = gfx.WindowEvent(type=event, target=obj, width=rng.randrange(9))
            elif event.startswith("key"):
                ev = gfx.KeyboardEvent(type=event, target=obj, key="a")
            else:
                ev = gfx.PointerEvent(type=event, target=obj, x=1, y=2)
            obj.handle_event(ev)
            return (ev,)

        return fire

    return {e: make(e) for e in ("click", "pointer_down", "key_up", "resize")}


LEAFS = ["Mesh", "mesh", "MESH", "Line", "line-", "PointLight", "point-light", "camera"]
GROUPS = ["Group", "Scene", "WorldObject", "mesh"]


def types():
    def typ(name, cls, attrs, names=(), **kwargs):
        takes = LEAFS + GROUPS + GROUPS
        return tk.Type(
            name,
            new=cls,
            names=names,
            attrs=attrs,
            events=world_object(cls),
            takes=takes if name in GROUPS else [],
            children=lambda obj: list(obj.children),
            **kwargs,
        )

    mesh = {"material": materials(gfx.MeshBasicMaterial, "m1", "m2")}
    light = {"intensity": tk.Attr(number(0.5, 2, 4), path("intensity"))}
    power = {"power": tk.Attr(number(1, 20), path("power"))}
    camera = {
        "fov": tk.Attr(number(20, 60), path("fov")),
        "zoom": tk.Attr(number(1, 2), path("zoom")),
        "maintain_aspect": tk.Attr(flag(), path("maintain_aspect")),
    }
    return [
        typ("Mesh", gfx.Mesh, {**BASE, **PLACE, **mesh, **GEOMETRY}),
        # The very same type of object, with other attributes
        typ("mesh", gfx.Mesh, {**BASE, **MATRIX, **mesh}),
        typ("MESH", gfx.Mesh, {**AXES, **own(gfx.MeshBasicMaterial)}),
        typ("Line", gfx.Line, {**BASE, **AXES, **own(gfx.LineMaterial)}),
        typ("line-", gfx.Line, {**BASE, **PLACE}, names=["line-"]),
        typ("PointLight", gfx.PointLight, {**BASE, **light}),
        typ("point-light", gfx.PointLight, {**power}),
        typ("camera", gfx.PerspectiveCamera, camera, names=["perspective-camera"]),
        typ("Group", gfx.Group, {**BASE, **PLACE}, names=["Group", "group"]),
        typ("Scene", gfx.Scene, {**BASE, **AXES}, names=["scene"]),
        typ("WorldObject", gfx.WorldObject, {**BASE, **MATRIX}, names=["world-object"]),
    ]


SCHEMA = {typ.name: typ for typ in types()}


def setup():
    def make(name):
        cls = next(t.new for t in SCHEMA.values() if t.names[0] == name)
        return cls()

    for typ in SCHEMA.values():
        for name, attr in typ.attrs.items():
            owner = typ.new()
            if name.startswith("material."):
                owner.material = {
                    gfx.Mesh: gfx.MeshBasicMaterial,
                    gfx.Line: gfx.LineMaterial,
                }[typ.new]()
            # Attributes are shared by types: take a copy
            typ.attrs[name] = copy = tk.Attr(
                attr.gen, attr.read, attr.build, attr.norm, required=attr.required
            )
            copy.default = (attr.read(owner),)


def case(rng, rep, size):
    objects.clear()
    if rng.random() < 0.2:
        return operations(rng, rep, size)
    scene = gfx.Scene()
    others = [gfx.Group() for _ in range(rng.choice([0, 0, 2]))]
    toolkit = tk.Toolkit(
        rep, SCHEMA, GROUPS, PygfxRenderer(), scene, fixed=["material"]
    )

    def root():
        children = list(scene.children)
        if len(children) != 1:
            raise Violation("container", f"{children}")
        return children[0]

    def monitor(obj, names):
        toolkit.check(obj, events=rng)
        for inst in toolkit.inst.walk():
            parent = getattr(inst.obj, "parent", None)
            for child in inst.elements():
                if child.obj.parent is not inst.obj and inst.obj is not None:
                    raise Violation("parent", f"{child.obj.parent} of {child.obj}")
            if parent is None and inst.obj is not None:
                raise Violation("parent", f"{inst.obj} has no parent")

    del others
    tk.history(rng, rep, size, toolkit, root, monitor)


def operations(rng, rep, size):
    """Operations directly on the renderer"""

    class Renderer(PygfxRenderer):
        # Text isn't supported: use objects that aren't touched
        def create_text_element(self):
            return self.create_element("points")

        def set_element_text(self, el, value):
            pass

    container = gfx.Scene()
    t = tee.Tee(Renderer(), container)
    calls = []

    def handler(n):
        return lambda event: calls.append((n, event))

    functions = {handler(n): n for n in range(5)}
    names = {"x": "render_order", "y": "custom", "z": "local.y"}
    for _ in tee.random_ops(
        rng,
        rep,
        t,
        container,
        int(10 + 60 * size),
        types=["mesh", "Group", "line", "point-light"],
        attrs=sorted(names.values()),
        events=["click", "key_up"],
        values=lambda rng: rng.choice([1, 2.5, -3, 7]),
        handlers=lambda rng: rng.choice(list(functions)),
        # Pygfx doesn't support ancestors that become descendants of their descendants
        ordered=True,
    ):
        rep.count("operations")
        t.check_workload()
        els = {el.uid: el for el in t.els.values()}
        for el in els.values():
            obj = t.reals[el.uid]
            expected = [t.reals[child.uid] for child in el.children]
            if [id(o) for o in obj.children] != [id(o) for o in expected]:
                raise Violation("children", f"{obj.children} instead of {expected}")
            for name in names.values():
                default = MISSING if name == "custom" else 0
                actual = path(name)(obj)
                if not tk.close(actual, el.attrs.get(name, default)):
                    raise Violation("attribute", f"{name} of {obj}: {actual}")
            for event in ("click", "key_up"):
                calls.clear()
                ev = gfx.Event(type=event, target=obj)
                obj.handle_event(ev)
                expected = [(functions[h], ev) for h in el.listeners.get(event, ())]
                if sorted(calls, key=str) != sorted(expected, key=str):
                    raise Violation("calls", f"{calls} instead of {expected}")


def all_types(rep):
    """Every type, by several names, time after time"""
    names = {}
    for attr in dir(gfx):
        cls = getattr(gfx, attr)
        if isinstance(cls, type) and issubclass(cls, gfx.WorldObject):
            if cls in (gfx.InstancedMesh, gfx.Stats, gfx.TransformGizmo):
                # Can't be created without arguments
                continue
            kebab = re.sub(r"(?<=[a-z])(?=[A-Z])", "-", attr).lower()
            names[attr] = names[attr.lower()] = names[kebab] = names[attr.upper()] = cls
    renderer = PygfxRenderer()
    rng = random.Random(f"types {rep.seed}")
    for _ in range(3):
        order = sorted(names)
        rng.shuffle(order)
        for name in order:
            obj = renderer.create_element(name)
            rep.count("types created")
            if type(obj) is not names[name]:
                raise Violation("type", f"{type(obj).__name__} for {name}")
    for name in ("no-such-object", "mes", "esh", "l", ""):
        try:
            obj = renderer.create_element(name)
        except ValueError:
            rep.count("unknown types")
        else:
            raise Violation("type", f"{type(obj).__name__} for {name!r}")


def directed(rep):
    yield "types", lambda: all_types(rep)

    def custom():
        """Removal of a custom attribute that was changed"""
        renderer = PygfxRenderer()
        obj = renderer.create_element("points")
        renderer.set_attribute(obj, "custom_a", 1)
        renderer.set_attribute(obj, "custom_a", 2)
        renderer.remove_attribute(obj, "custom_a", 2)
        if hasattr(obj, "custom_a"):
            raise Violation("default", f"{obj.custom_a} instead of nothing")

    def modified():
        """The first object that gets an attribute isn't a new one"""
        renderer = PygfxRenderer()
        first = renderer.create_element("points")
        first.local.position = (1, 2, 3)
        renderer.set_attribute(first, "local.position", (4, 5, 6))
        second = renderer.create_element("points")
        renderer.set_attribute(second, "local.position", (4, 5, 6))
        renderer.remove_attribute(second, "local.position", (4, 5, 6))
        if second.local.position.tolist() != [0, 0, 0]:
            raise Violation("default", f"{second.local.position} instead of 0, 0, 0")

    yield "custom", custom
    yield "modified", modified
