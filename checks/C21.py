import warnings

import collagraph as cg
from collagraph.cgx import cgx
from observ import reactive

from lib import mon, tpl
from lib.harness import Violation

QUICK, THOROUGH = 250, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a set of CGX components with a random selection of the names of a small "
    "pool as imports, globals, class attributes, properties, attributes of instances, "
    "state and props. Several instances of each component have props and state of their "
    "own; names are added to and removed from the props and the state of instances, and "
    "instances come and go. After each change the value of each name in the render of "
    "each instance and in its event handlers is compared with the documented "
    "precedence. Distinct: by the sources of all names and the sequence of changes."
)
MIN = {
    "names rendered": 5000,
    "names in handlers": 5000,
    "unknown names": 300,
    "falsy values": 300,
    "resolved as props": 500,
    "resolved as state": 500,
    "resolved as attribute": 500,
    "resolved as global": 500,
    "resolved as import": 300,
    "resolved as local": 300,
}
ASSUMPTIONS = [
    "names of builtins can't be shadowed (by design)",
    "attributes of instances don't change after the creation of the instance (they "
    "are not reactive)",
    "names that are removed from the state of an instance aren't added again (observ "
    "loses track of such names in synchronous loops)",
]
FALSY = [None, "", 0, ()]
POOL = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "path", "_eta", "été"]
# Where the imports are
WITHIN = [
    ["IMPORT"],
    ["IMPORT"],
    ["try:", "    IMPORT", "except ImportError:", "    pass"],
    ["try:", "    import no_such_module", "except ImportError:", "    IMPORT"],
    ["try:", "    pass", "finally:", "    IMPORT"],
    ["try:", "    pass", "except ImportError:", "    pass", "else:", "    IMPORT"],
    ["if LOG is None:", "    pass", "else:", "    IMPORT"],
    ["if True:", "    IMPORT"],
    ["for _ in [1]:", "    IMPORT"],
    ["while True:", "    IMPORT", "    break"],
    ["import contextlib", "with contextlib.suppress(ImportError):", "    IMPORT"],
]


def gen_class(rng, name, base=None):
    """Where the class and the script of a component define the names"""
    spec = {"name": name, "base": base}
    for source in ("import", "global", "late", "attr", "prop", "inst", "hidden", "own"):
        share = {"import": 0.15, "global": 0.35, "late": 0.1, "hidden": 0.2}.get(
            source, 0.15
        )
        spec[source] = [n for n in POOL if rng.random() < share]
    spec["local"] = [n for n in POOL if rng.random() < 0.2]
    # These are in any case present in the end, thus can be part of the render
    spec["safe"] = [
        n
        for n in POOL
        if n in spec["import"] or n in spec["global"] or n in spec["late"]
    ]
    # Names without much of a value, for the same names at various places
    spec["falsy"] = {
        f"{kind}:{name}": rng.choice(FALSY)
        for kind in ("global", "late", "attr", "inst")
        for name in POOL
        if rng.random() < 0.2
    }
    return spec


def const(spec, kind, name):
    """The value of a name at one of the places where it can be defined"""
    return spec["falsy"].get(f"{kind}:{name}", f"{kind}:{name}")


def source(rng, spec, mod):
    lines = ["from collagraph import Component", "LOG = []", "ALL = []"]
    name = spec["name"]
    for item in spec["import"]:
        form = rng.choice(["from {m} import {n}", "from {m} import q_{n} as {n}"])
        form = form.format(m=mod, n=item)
        # Imports are not necessarily at the top level
        lines += [line.replace("IMPORT", form) for line in rng.choice(WITHIN)]
    if spec.get("dotted"):
        lines.append("import os.path")
    for item in spec["global"]:
        if item not in spec["import"]:
            lines.append(f"{item} = {const(spec, 'global', item)!r}")
    lines.append("class Base(Component):")
    base = [n for n in spec["attr"] if rng.random() < 0.5]
    lines += [f"    {item} = {const(spec, 'attr', item)!r}" for item in base]
    lines.append("    pass")
    lines.append(f"class {name}(Base):")
    lines += [f"    {item} = {const(spec, 'attr', item)!r}" for item in spec["attr"] if item not in base]
    lines += [
        "    def __init__(self, *args, **kwargs):",
        "        super().__init__(*args, **kwargs)",
        "        for key, value in self.props.get('initial', {}).items():",
        "            self.state[key] = value",
    ]
    for item in spec["inst"]:
        if item not in spec["prop"]:
            lines.append(f"        self.{item} = {const(spec, 'inst', item)!r}")
    lines.append("        ALL.append(self)")
    for item in spec["prop"]:
        lines += ["    @property", f"    def {item}(self):"]
        lines.append(f"        return 'prop:{item}:' + str(self.state['n'])")
    # Names of local scopes don't matter at all
    lines += ["    def method(self):"]
    for item in spec["hidden"]:
        lines += [
            rng.choice(
                [
                    f"        from {mod} import {item}",
                    f"        {item} = 'hidden'",
                    f"        import os as {item}",
                ]
            )
        ]
    lines += ["        return locals()", "    def log(self, *args):"]
    lines += ["        LOG.append(args)"]
    for item in spec["late"]:
        if item not in spec["import"]:
            lines.append(f"{item} = {const(spec, 'late', item)!r}")
    elements = []
    for item in spec["safe"]:
        form = rng.choice(["<n {k}={v}/>", "<n v-if='True' {k}={v}/>"])
        elements.append(form.format(k=f":v-{item}" if 0 else ":v", v=f'"{item}"'))
    for item in spec["local"]:
        elements.append(f"<n v-for=\"{item} in ['local:{item}']\" :v=\"{item}\"/>")
    handlers = [f'@h-{item}="lambda: log({item})"' for item in POOL]
    handlers += [
        f'@l-{item}="lambda {item}=\'arg:{item}\': log({item})"' for item in spec["local"]
    ]
    handlers.append('@s="lambda: log(self)"')
    handlers.append('@u="lambda: log(un_known_name)"')
    template = f'<box :uid="uid" {" ".join(handlers)}>{"".join(elements)}</box>'
    script = "\n".join(lines)
    return f"<template>{template}</template>\n<script>\n{script}\n</script>\n"


def case(rng, rep, size):
    warnings.simplefilter("ignore")
    mod = f"cgxnames_{next(tpl.Stage.serial)}"
    tpl.install(
        mod,
        **{n: f"import:{n}" for n in POOL},
        **{f"q_{n}": f"import:{n}" for n in POOL},
    )
    specs, classes, spaces = {}, {}, {}
    for name in ["CompA", "CompB"][: rng.choice([1, 2])]:
        specs[name] = gen_class(rng, name)
        text = source(rng, specs[name], mod)
        rep.note("source", text)
        classes[name], spaces[name] = cgx.load_from_string(text)

    uids = iter(range(10**6))

    def gen_values(kind, share=0.3):
        return {
            n: rng.choice(FALSY)
            if rng.random() < 0.2
            else f"{kind}:{n}:{rng.randrange(100)}"
            for n in POOL
            if rng.random() < share
        }

    def gen_inst():
        uid = next(uids)
        return {
            "cls": rng.choice(sorted(classes)),
            "key": f"k{uid}",
            "props": {
                **gen_values("props"),
                "uid": uid,
                "initial": {**gen_values("state"), "n": rng.randrange(100)},
            },
        }

    data = reactive({"list": [gen_inst() for _ in range(rng.randrange(1, 5))]})

    def Root(props):
        return cg.h(
            "root",
            {},
            *[
                cg.h(classes[inst["cls"]], {"key": inst["key"], **inst["props"]})
                for inst in data["list"]
            ],
        )

    renderer = mon.MonRenderer()
    container = renderer.container()
    gui = cg.Collagraph(renderer=renderer)
    gui.render(cg.h(Root, {}), container)

    def resolve(spec, inst, live, name):
        if name in spec["import"]:
            return "import", f"import:{name}"
        if name in inst["props"]:
            return "props", inst["props"][name]
        if name in live.state:
            return "state", live.state[name]
        if name in spec["prop"]:
            return "attribute", f"prop:{name}:{live.state['n']}"
        if name in spec["inst"]:
            return "attribute", const(spec, "inst", name)
        if name in spec["attr"]:
            return "attribute", const(spec, "attr", name)
        if name in spec["late"]:
            return "global", const(spec, "late", name)
        if name in spec["global"]:
            return "global", const(spec, "global", name)
        return None, None

    def instances():
        result = {}
        for name, space in spaces.items():
            for comp in space["ALL"]:
                result[comp.props["uid"]] = comp
        return result

    def fire(el, event, log):
        log.clear()
        mon.fire(el, event)
        return list(log)

    def check():
        live = instances()
        boxes = container.children[0].children
        insts = data["list"]
        if [el.attrs.get("uid") for el in boxes] != [i["props"]["uid"] for i in insts]:
            raise Violation("instances", "not the expected instances")
        for el, inst in zip(boxes, insts):
            spec, space = specs[inst["cls"]], spaces[inst["cls"]]
            comp, log = live[inst["props"]["uid"]], space["LOG"]
            values = [child.attrs.get("v") for child in el.children]
            expected = []
            for name in spec["safe"]:
                where, value = resolve(spec, inst, comp, name)
                rep.count(f"resolved as {where}")
                expected.append(value)
            expected += [f"local:{name}" for name in spec["local"]]
            rep.count("resolved as local", len(spec["local"]))
            rep.count("names rendered", len(expected))
            if values != expected:
                raise Violation("render", f"{values} instead of {expected}")
            for name in POOL:
                where, value = resolve(spec, inst, comp, name)
                rep.count("names in handlers")
                if where is not None and not value:
                    rep.count("falsy values")
                try:
                    got = fire(el, f"h-{name}", log)
                except NameError as exc:
                    rep.count("unknown names")
                    if where is not None:
                        raise Violation("name-error", f"{exc} instead of {value}")
                    if name not in str(exc):
                        raise Violation("message", f"{exc} doesn't mention {name}")
                    continue
                if where is None:
                    raise Violation("no-name-error", f"{name} evaluates to {got}")
                if got != [(value,)]:
                    raise Violation("handler", f"{got} instead of {value}")
                rep.count(f"resolved as {where}")
            for name in spec["local"]:
                got = fire(el, f"l-{name}", log)
                if got != [(f"arg:{name}",)]:
                    raise Violation("parameter", f"{got} for parameter {name}")
            if fire(el, "s", log)[0][0] is not comp:
                raise Violation("self", "self is not the component itself")
            try:
                fire(el, "u", log)
            except NameError as exc:
                if "un_known_name" not in str(exc):
                    raise Violation("message", f"{exc} doesn't mention un_known_name")
            else:
                raise Violation("no-name-error", "un_known_name")

    check()
    trail, removed = [], set()
    for _ in range(int(3 + 15 * size)):
        kind = rng.choice(["props", "props", "state", "state", "inst", "move"])
        insts = data["list"]
        if kind == "inst" or not insts:
            if insts and rng.random() < 0.5:
                del insts[rng.randrange(len(insts))]
            else:
                insts.insert(rng.randrange(len(insts) + 1), gen_inst())
        elif kind == "move":
            insts.insert(rng.randrange(len(insts)), insts.pop())
        else:
            inst = rng.choice(list(insts))
            name = rng.choice(POOL)
            if kind == "props":
                target = inst["props"]
            else:
                target = instances()[inst["props"]["uid"]].state
            if (kind, inst["key"], name) in removed:
                continue
            if name in target and rng.random() < 0.5:
                if kind == "state":
                    removed.add((kind, inst["key"], name))
                del target[name]
                kind += " removed"
            else:
                kind += " changed" if name in target else " added"
                value = f"{kind}:{name}:{rng.randrange(1000)}"
                if rng.random() < 0.2:
                    # New keys without a value aren't noticed (by observ)
                    value = rng.choice(FALSY if name in target else FALSY[1:])
                target[name] = value
            kind += f" {name}"
        rep.note(kind)
        rep.count("changes")
        trail.append(kind)
        check()
    rep.signature((specs, trail))


LOADED = """
<template><box>{element}</box></template>
<script>
import os.path
import collections as collections_alias
from os import path as path_alias
from collagraph import Component
class C(Component):
    pass
</script>
"""


def directed(rep):
    def unknown(element):
        def run():
            source = LOADED.format(element=element)
            cls, _ = cgx.load_from_string(source)
            renderer = mon.MonRenderer()
            gui = cg.Collagraph(renderer=renderer)
            try:
                gui.render(cg.h(cls, {"known": 1}), renderer.container())
            except NameError as exc:
                if "no_such_name" not in str(exc):
                    raise Violation("message", f"{exc} doesn't mention no_such_name")
            else:
                raise Violation("no-name-error", element)
            rep.count("unknown names")

        return run

    for number, element in enumerate(
        [
            '<a :x="no_such_name"/>',
            '<a v-if="no_such_name"/>',
            '<a v-if="not known"/><a v-else-if="no_such_name"/>',
            '<a v-for="i in no_such_name"/>',
            '<a v-for="i in [1]" :x="no_such_name"/>',
            '<a v-for="i in [1] if no_such_name"/>',
            '<a v-bind="no_such_name"/>',
            '<a @click="no_such_name"/>',
            "{{ no_such_name }}",
            '<a v-for="no_such_name in [1]"/><b :x="no_such_name"/>',
            "{{ [no_such_name for i in [1]] }}",
            "{{ [no_such_name for no_such_name in [1]] + [no_such_name] }}",
        ]
    ):
        yield f"unknown-{number}", unknown(element)

    def imports():
        warnings.simplefilter("ignore")
        element = '<a :x="os.sep" :y="path_alias.sep" :z="collections_alias.deque"/>'
        cls, _ = cgx.load_from_string(LOADED.format(element=element))
        renderer = mon.MonRenderer()
        gui = cg.Collagraph(renderer=renderer)
        container = renderer.container()
        props = {"os": 1, "path_alias": 2, "collections_alias": 3}
        gui.render(cg.h(cls, props), container)
        attrs = container.children[0].children[0].attrs
        import collections
        import os

        expected = {"x": os.sep, "y": os.path.sep, "z": collections.deque}
        if attrs != expected:
            raise Violation("import", f"{attrs} instead of {expected}")
        rep.count("resolved as import", 3)

    yield "imports", imports
