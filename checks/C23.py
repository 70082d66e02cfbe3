import html

from lib import mon, tpl
from lib.harness import Violation

QUICK, THOROUGH = 700, 30000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "Two kinds of cases. (1) A random CGX component of which most nodes are texts with "
    "expressions, checked against the interpreter of templates through random changes. "
    "(2) A sequence of texts, expressions, comments, whitespace and entities between "
    "elements, at random depth, with values of all kinds (objects with their own "
    "__str__ and __format__, braces, entities, None, floats) that are replaced again "
    "and again: the texts of the text elements are compared with the concatenation of "
    "the parts. Distinct: by the template and the values."
)
MIN = {"texts compared": 2000, "trees compared": 500, "text nodes": 1000}
ASSUMPTIONS = [
    "expressions in texts don't contain newlines or '}}'",
    "whitespace-only texts consist of ASCII whitespace",
]


class Odd:
    """str, repr and format are all different"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return f"s:{self.text}"

    def __repr__(self):
        return f"r:{self.text}"

    def __format__(self, spec):
        return f"f:{self.text}"

    def __eq__(self, other):
        return isinstance(other, Odd) and other.text == self.text

    def __hash__(self):
        return hash(self.text)


class StrSub(str):
    def __str__(self):
        return "sub:" + self[:]

    def __format__(self, spec):
        return "fmt"


VALUES = [
    lambda rng: rng.randrange(-5, 50),
    lambda rng: rng.random(),
    lambda rng: None,
    lambda rng: rng.choice([True, False]),
    lambda rng: "".join(rng.choice("ab{}<>&;% \n'\"é\\") for _ in range(rng.randrange(9))),
    lambda rng: rng.choice(["{{n}}", "}}", "&lt;", "<b>", "{0}", "%s", "x" * 300]),
    lambda rng: Odd(rng.randrange(9)),
    lambda rng: StrSub(rng.randrange(9)),
    lambda rng: (1, "a", None),
    lambda rng: b"bytes",
    lambda rng: 10 ** rng.randrange(30),
    lambda rng: 1j,
]
LITERALS = tpl.TEXTS + ["x", "\t", "  \n", "-", "$", "{ {", "} }", "#", "`"]
FORMS = [
    ("{0}", lambda v: v),
    (" {0} ", lambda v: v),
    ("str({0}) + '|'", lambda v: str(v) + "|"),
    ("[{0}, {0}]", lambda v: [v, v]),
    ("'<' + repr({0})", lambda v: "<" + repr(v)),
    ("'a' < 'b', {0}", lambda v: (True, v)),
    ("'&amp;', {0}", lambda v: ("&amp;", v)),
    ('"\'", {0}', lambda v: ("'", v)),
    ("{{'k': {0}}} ", lambda v: {"k": v}),
    ("'{{' + str({0})", lambda v: "{" + str(v)),
    ("f'{{{0}!r:>5}}'", lambda v: f"{v!r:>5}"),
    ("lambda_(lambda v: {0})", lambda v: v),
    ("' {0} '", None),
    ("{0} if {0} else 'no'", lambda v: v if v else "no"),
]


def texts_case(rng, rep, size):
    import collagraph as cg
    from collagraph.cgx import cgx
    from observ import reactive

    names = tpl.NAMES[: rng.randrange(1, 6)]
    printer = tpl.Printer(rng)

    def gen_text():
        parts, source = [], []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            if rng.random() < 0.6:
                name = rng.choice(names)
                form, fn = rng.choice(FORMS)
                expr = form.format(name)
                parts.append((name, fn or (lambda v, e=f" {name} ": e)))
                pad = rng.choice(["", " ", "   "]) if expr[-1] != "}" else " "
                source.append("{{" + pad + printer.esc_text(expr) + pad + "}}")
            else:
                literal = rng.choice(LITERALS)
                for brace in "{}":
                    literal = literal.replace(brace * 2, brace)
                literal = literal if literal[:1] not in "{}" else "." + literal
                literal = literal if literal[-1:] not in "{}" else literal + "."
                parts.append(literal)
                escaped = printer.esc_text(literal)
                if rng.random() < 0.2:
                    escaped = "".join(
                        rng.choice([f"&#{ord(c)};", f"&#x{ord(c):x};"]) for c in literal
                    )
                if "&#32;" in escaped or "&#10;" in escaped or "&#9;" in escaped:
                    escaped = html.escape(literal)
                source.append(escaped)
        return parts, "".join(source)

    # Mixture of texts and other things; adjacent texts would be a single text
    contents, source = [], []

    def gen_children(depth):
        children, last_text = [], False
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < 0.6 and not last_text:
                parts, text = gen_text()
                source.append(text)
                if any(isinstance(p, tuple) for p in parts) or "".join(parts).strip():
                    children.append(parts)
                last_text = True
            elif r < 0.75:
                source.append(f"<!--{rng.choice(['', ' ', 'c', '{{ n }}', '<b>'])}-->")
                last_text = False
            elif depth > 0:
                source.append("<el>")
                children.append(gen_children(depth - 1))
                source.append("</el>")
                last_text = False
            elif not last_text:
                source.append("<leaf />")
                children.append(None)
        return children

    tree = gen_children(rng.randrange(3))

    def value():
        return rng.choice(VALUES)(rng)

    cgx_source = (
        f"<template><el>{''.join(source)}</el></template>\n"
        "<script>\nfrom collagraph import Component\n\n\nclass C(Component):\n"
        "    def lambda_(self, fn):\n        return fn(0)\n</script>\n"
    )
    # lambda v: name (unless the name is v as well)
    rep.note("source", cgx_source)
    cls, _ = cgx.load_from_string(cgx_source)
    plain = {name: value() for name in names}
    props = reactive(dict(plain))
    renderer = mon.MonRenderer()
    container = renderer.container()
    gui = cg.Collagraph(renderer=renderer)
    gui.render(cg.h(cls, props), container)
    trail = []

    def compare(el, children):
        if len(el.children) != len(children):
            raise Violation("children", f"{mon.plain(el)} instead of {children}")
        for child, item in zip(el.children, children):
            kind = "leaf" if item is None else "el"
            if item and not isinstance(item[0], (list, type(None))) or is_text(item):
                want = "".join(
                    part if isinstance(part, str) else str(part[1](plain[part[0]]))
                    for part in item
                )
                rep.count("texts compared")
                if child.type != "TEXT" or child.text != want:
                    raise Violation("text", f"{child.text!r} instead of {want!r}")
            else:
                if child.type != kind:
                    raise Violation("type", f"{child.type} instead of {kind}")
                compare(child, item or [])

    def is_text(item):
        return isinstance(item, Parts)

    def mark(children):
        return [
            Parts(item)
            if item and isinstance(item[0], (str, tuple))
            else (None if item is None else mark(item))
            for item in children
        ]

    tree = mark(tree)
    compare(container.children[0], tree)
    for _ in range(int(2 + 8 * size)):
        name = rng.choice(names)
        new = value()
        try:
            if new == plain[name]:
                continue
        except Exception:
            continue
        plain[name] = new
        props[name] = new
        rep.note("set", name, repr(new))
        trail.append((name, repr(new)))
        compare(container.children[0], tree)
    rep.signature((cgx_source, trail))


class Parts(list):
    pass


def case(rng, rep, size):
    if rng.random() < 0.6:
        return texts_case(rng, rep, size)
    gen = tpl.Gen(
        rng,
        depth=rng.choice([1, 2]),
        width=rng.choice([3, 5]),
        expr=rng.choice([0, 1, 2]),
        text=0.7,
        chains=0.2,
        loops=0.2,
        handlers=False,
    )
    tpl.run(rng, rep, size, gen, rng.choice([0, 0, 1]))
