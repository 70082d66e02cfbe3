"""CGX templates: generation of templates and data, and what they mean.

`Gen` generates components (script and template) as trees of plain dictionaries, `to_cgx`
prints them as the source of a CGX file, and `Reference` evaluates them: the expressions
by means of Python's own `eval`, the directives as documented. Nothing of the code under
test is used for the reference.
"""
import builtins
import itertools
import re
import sys
import types

from . import mon
from .harness import Inconclusive, Violation

# Names for data of components. None of them is a builtin
NAMES = ["a", "b", "c", "d", "n", "m", "x", "y", "item", "items", "value", "name", "row"]
# Names for variables; some of them are builtins
LOCALS = NAMES + ["i", "j", "k", "v", "str", "zip", "list", "id", "type", "props", "len"]
TAGS = ["item", "box", "label", "widget", "p", "h-box", "tree_item"]
ATTRS = ["text", "w", "v", "data-x", "some_attr", "pos.x", "title", "disabled"]
ATTRS += ["xlink:href", "on-top"]
EVENTS = ["click", "change", "some-event", "update:value"]
SLOTS = ["head", "tail", "cell:b", "cell.c"]
WORDS = ["foo", "bar", "a b", "x<y", "p&q", "'q'", "", "é", "{n}", "#1", "a:b", "v-if"]
TEXTS = [
    "text",
    " lead",
    "trail ",
    "two  spaces",
    "\n   multi\n  line ",
    "a & b",
    "1 < 2 > 0",
    "&amp;",
    "{single}",
    "}}",
    "{{",
    "\\n \\",
    "'quoted'",
    '"double"',
    "100%",
    "{0} %s",
    "élan ✓",
    "a\u00a0b",
]
INT, STR, LIST, PAIRS, DICT = "int", "str", "list", "pairs", "dict"
TYPES = [INT, STR, LIST, PAIRS, DICT]


def data(rng, typ, size=4):
    if typ == INT:
        return rng.randrange(0, 6)
    if typ == STR:
        return rng.choice(["", "s", "foo", "bär", "a<b", "{x}", "{{n}}", "&amp;"])
    n = rng.randrange(0, size)
    if typ == LIST:
        return [rng.randrange(0, 6) for _ in range(n)]
    if typ == PAIRS:
        return [(rng.randrange(0, 6), data(rng, STR)) for _ in range(n)]
    if typ == DICT:
        keys = rng.sample(["k1", "k2", "text", "w", "data-x"], n)
        return {key: rng.choice([data(rng, INT), data(rng, STR)]) for key in keys}
    raise AssertionError(typ)


class Vars:
    """The names that an expression can use, with their types"""

    def __init__(self, names, local=(), free=()):
        self.names = dict(names)
        self.local = set(local)
        # Variables of outer functions: comprehensions with such names are broken in
        # Python 3.12 (when there's another function that refers to the outer variable)
        self.free = set(free)

    def extend(self, names, function=False):
        free = self.free | self.local if function else self.free
        return Vars(
            {**self.names, **names}, self.local | set(names), free - set(names)
        )

    def of(self, typ):
        return sorted(name for name, t in self.names.items() if t == typ)

    def builtin(self, *names):
        """Whether the builtins are not shadowed"""
        return not any(name in self.local for name in names)


class Gen:
    def __init__(self, rng, **options):
        self.rng = rng
        self.opt = dict(
            depth=3,
            width=4,
            expr=2,
            slots=False,
            given=False,
            components=0,
            handlers=True,
            shadow=False,
            text=0.3,
            chains=0.25,
            loops=0.25,
        )
        self.opt.update(options)
        self.uid = itertools.count(1)

    # -- expressions -------------------------------------------------------------------
    def local_name(self, scope, avoid=()):
        rng = self.rng
        pool = LOCALS if self.opt["shadow"] else [f"{v}{n}" for v in "ijkve" for n in ("", 1, 2)]
        return rng.choice([name for name in pool if name not in avoid])

    def fresh(self, scope):
        """A name that can't be referred to yet by the parts of a comprehension"""
        return next(
            name
            for idx in itertools.count()
            if (name := self.rng.choice("tu") + str(idx)) not in scope.names
        )

    def expr(self, typ, scope, depth=None):
        rng = self.rng
        depth = self.opt["expr"] if depth is None else depth
        names = scope.of(typ)
        if names and (depth <= 0 or rng.random() < 0.45):
            return rng.choice(names)
        if depth <= 0:
            return self.literal(typ)
        options = getattr(self, f"expr_{typ}")(scope, depth - 1)
        text = rng.choice(options)()
        return text

    def literal(self, typ):
        rng = self.rng
        if typ == INT:
            return repr(rng.randrange(0, 6))
        if typ == STR:
            return repr(rng.choice(["lit", "", "x y", "a<b", "it"]))
        if typ == LIST:
            return repr([rng.randrange(5) for _ in range(rng.randrange(3))])
        if typ == PAIRS:
            return repr([(rng.randrange(5), "z") for _ in range(rng.randrange(3))])
        return repr({"k1": rng.randrange(5)})

    def comp(self, scope, depth, element, generator=False):
        """A for-part over a list with the expression for the element"""
        rng = self.rng
        source, outer = self.expr(LIST, scope, depth), scope
        scope = scope.extend({}, function=generator)
        var = self.local_name(scope, avoid=scope.free)
        inner = scope.extend({var: INT})
        target = var
        if rng.random() < 0.25:
            # Items of which the first part is an integer
            other = self.local_name(scope, avoid=[*scope.free, var])
            third = self.local_name(scope, avoid=[*scope.free, var, other])
            source = self.expr(PAIRS, outer, 0)
            target, names = rng.choice(
                [
                    (f"{var}, {other}", {var: INT, other: STR}),
                    (f"[{var}, {other}]", {var: INT, other: STR}),
                    (f"{var}, *{other}", {var: INT, other: "any"}),
                    (f"{var}, *{other}, {third}", {var: INT, other: "any", third: STR}),
                    (f"(*{other}, {var})", {other: "any", var: STR}),
                ]
            )
            inner = scope.extend(names)
        cond = f" if {self.expr(INT, inner, 0)} != 2" if rng.random() < 0.3 else ""
        more = ""
        if rng.random() < 0.25:
            var2 = self.fresh(inner)
            more = f" for {var2} in {self.expr(LIST, inner, 0)}"
            inner = inner.extend({var2: INT})
        return f"{self.expr(element, inner, depth)} for {target} in {source}{cond}{more}"

    def expr_int(self, s, d):
        def fn():
            var = self.local_name(s)
            body = self.expr(INT, s.extend({var: INT}, function=True), d)
            return f"(lambda {var}: {body})({self.expr(INT, s, 0)})"

        def fn_default():
            var = self.local_name(s)
            default = self.expr(INT, s, 0)
            body = self.expr(INT, s.extend({var: INT}, function=True), d)
            return f"(lambda {var}={default}: {body})()"

        def fn_star():
            var = self.local_name(s)
            kwarg = self.local_name(s, avoid=[var])
            inner = s.extend({var: PAIRS, kwarg: "any"}, function=True)
            body = self.expr(INT, inner, 0)
            return f"(lambda *{var}, **{kwarg}: {body})((1, 'z'), q=1)"

        options = [
            lambda: f"{self.expr(INT, s, d)} + {self.expr(INT, s, d)}",
            lambda: f"({self.expr(INT, s, d)}) % 5",
            lambda: f"({self.expr(INT, s, d)} if {self.cond(s, d)} else {self.expr(INT, s, d)})",
            lambda: f"-({self.expr(INT, s, d)})",
            lambda: f"({self.expr(LIST, s, d)} or [7])[0]",
            fn,
            fn_default,
            fn_star,
        ]
        if s.builtin("len"):
            options.append(lambda: f"len({self.expr(self.rng.choice(TYPES[1:]), s, d)})")
            if s.builtin("set"):
                options.append(lambda: f"len({{{self.comp(s, d, INT)}}})")
        if s.builtin("sum"):
            options.append(lambda: f"sum({self.comp(s, d, INT, True)})")
            options.append(lambda: f"sum([{self.comp(s, d, INT)}])")
        if "double" in s.names:
            options.append(lambda: f"double({self.expr(INT, s, d)})")
        return options

    def expr_str(self, s, d):
        options = [
            lambda: f"({self.expr(STR, s, d)}).upper()",
            lambda: f"f'{{{self.no_quotes(self.expr(INT, s, 0))}}}-x'",
            lambda: f"({self.expr(STR, s, d)} + {self.expr(STR, s, 0)})",
            lambda: f"'%s!' % ({self.expr(INT, s, d)})",
            lambda: f"({self.expr(STR, s, d)} if {self.cond(s, d)} else {self.expr(STR, s, d)})",
        ]
        if s.builtin("str"):
            options.append(lambda: f"str({self.expr(INT, s, d)})")
            options.append(lambda: f"'-'.join(str(q) for q in {self.expr(LIST, s, d)})")
        if s.builtin("repr", "sorted"):
            options.append(lambda: f"repr(sorted({self.expr(DICT, s, d)}))")
        return options

    @staticmethod
    def no_quotes(text):
        return text if "'" not in text and "{" not in text else "3"

    def expr_list(self, s, d):
        options = [
            lambda: f"[{self.comp(s, d, INT)}]",
            lambda: f"[*{self.expr(LIST, s, d)}, {self.expr(INT, s, d)}]",
            lambda: f"[{self.expr(INT, s, d)}, {self.expr(INT, s, d)}]",
            lambda: f"({self.expr(LIST, s, d)})[1:]",
            lambda: f"({self.expr(LIST, s, d)} if {self.cond(s, d)} else {self.expr(LIST, s, d)})",
        ]
        if s.builtin("sorted"):
            options.append(lambda: f"sorted({self.expr(LIST, s, d)})")
            options.append(
                lambda: f"sorted({self.expr(LIST, s, d)}, key=lambda w: -w)"
            )
        if s.builtin("list", "range"):
            options.append(lambda: f"list(range(abs({self.expr(INT, s, d)}) % 4))")
        return options

    def expr_pairs(self, s, d):
        options = [
            lambda: f"[({w}, 'p') for {w} in {self.expr(LIST, s, d)}]"
            if (w := self.local_name(s, avoid=s.free))
            else "",
            lambda: f"[({self.expr(INT, s, d)}, {self.expr(STR, s, d)})]",
        ]
        if s.builtin("list", "zip"):
            options.append(
                lambda: f"list(zip({self.expr(LIST, s, d)}, {self.expr(STR, s, d)}))"
            )
        if s.builtin("list", "enumerate"):
            options.append(lambda: f"list(enumerate({self.expr(STR, s, d)}))")
        return options

    def expr_dict(self, s, d):
        return [
            lambda: f"{{'k1': {self.expr(INT, s, d)}, 'w': {self.expr(STR, s, d)} }}",
            lambda: f"{{**{self.expr(DICT, s, d)}, 'text': {self.expr(INT, s, 0)} }}",
            lambda: f"{{'k%s' % {w}: {self.expr(INT, s.extend({w: INT}), 0)} "
            f"for {w} in {self.expr(LIST, s, d)} }}"
            if (w := self.local_name(s, avoid=s.free))
            else "",
        ]

    def cond(self, s, d):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.expr(rng.choice(TYPES), s, d)
        if r < 0.65:
            op = rng.choice([" < ", " > ", " == ", " != ", " <= "])
            return f"{self.expr(INT, s, d)}{op}{self.expr(INT, s, 0)}"
        if r < 0.8:
            return f"not ({self.cond(s, d - 1)})" if d > 0 else "not 0"
        if r < 0.9:
            return f"{self.expr(INT, s, 0)} in {self.expr(LIST, s, 0)}"
        return f"{self.expr(INT, s, 0)} and {self.expr(STR, s, 0)}"

    def any_expr(self, s, depth=None):
        return self.expr(self.rng.choice(TYPES), s, depth)

    def attr_expr(self, s):
        """Attributes of elements have to be read within the render function: elements
        do not follow changes within the values of their attributes"""
        typ = self.rng.choice(TYPES)
        text = self.expr(typ, s)
        if typ in (LIST, PAIRS):
            return f"[*({text})]"
        return f"{{**({text})}}" if typ == DICT else text

    def handler(self, s):
        rng = self.rng
        uid = next(self.uid)
        var = self.local_name(s, avoid=["log"])
        inner = s.extend({var: INT}, function=True)
        r = rng.random()
        if r < 0.45:
            return f"lambda {var}: log({uid}, {var}, {self.any_expr(inner)})"
        if r < 0.6:
            extra = self.local_name(s, avoid=["log", var])
            inner = inner.extend({extra: INT})
            return (
                f"lambda {var}, {extra}={self.expr(INT, s, 1)}: "
                f"log({uid}, {self.any_expr(inner)})"
            )
        if r < 0.7:
            extra = self.local_name(s, avoid=["log", var])
            return (
                f"(lambda {extra}: lambda {var}: log({uid}, {extra}))"
                f"({self.expr(INT, s, 1)})"
            )
        if r < 0.8:
            return "on_event"
        if r < 0.9 and self.level == self.top:
            # The state of the components below the root doesn't change
            return "bump"
        return f"make_handler({self.expr(INT, s, 1)})"

    # -- nodes -------------------------------------------------------------------------
    def text(self, s):
        rng = self.rng
        parts = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if rng.random() < 0.6:
                text = self.safe_mustache(self.any_expr(s))
                pads = [" ", "  "] if text[-1] == "}" else ["", " ", "  "]
                parts.append(["x", text, rng.choice(pads)])
            else:
                parts.append(["t", rng.choice(TEXTS)])
        # Literal braces only where they can't be taken for an expression
        for idx, part in enumerate(parts):
            if part[0] == "t" and len(parts) > 1 and re.search("[{}]{2}|^[}]|[{]$", part[1]):
                parts[idx] = ["t", "brace"]
        return {"k": "text", "parts": parts}

    @staticmethod
    def safe_mustache(text):
        text = text.replace("}}", "} }")
        return text

    def attrs(self, s, component=False):
        rng = self.rng
        result = []
        names = rng.sample(ATTRS, rng.randrange(0, 4))
        if component:
            names = []
        for name in names:
            r = rng.random()
            if r < 0.3:
                result.append(["static", name, rng.choice(WORDS)])
            elif r < 0.4:
                result.append(["flag", name])
            else:
                result.append(["bind", name, self.attr_expr(s)])
        if rng.random() < 0.15:
            result.insert(
                rng.randrange(len(result) + 1), ["vbind", self.expr(DICT, s)]
            )
        if result and rng.random() < 0.15:
            # The same attribute in two forms
            kind, *rest = rng.choice(result)
            if kind == "static":
                result.append(["bind", rest[0], self.attr_expr(s)])
            elif kind == "bind":
                result.append(["static", rest[0], rng.choice(WORDS)])
        if self.opt["handlers"] and rng.random() < 0.3:
            event = rng.choice(EVENTS)
            result.insert(
                rng.randrange(len(result) + 1), ["on", event, self.handler(s)]
            )
        return result

    def pattern(self, scope):
        """Returns target, type of source and names of a for-loop"""
        rng = self.rng
        v1 = self.local_name(scope)
        v2 = self.local_name(scope, avoid=[v1])
        r = rng.random()
        if r < 0.4:
            return v1, LIST, {v1: INT}
        if r < 0.6:
            return rng.choice([f"{v1}, {v2}", f"({v1}, {v2})"]), PAIRS, {v1: INT, v2: STR}
        if r < 0.75:
            v3 = self.local_name(scope, avoid=[v1, v2])
            return f"{v3}, ({v1}, {v2})", "enum", {v1: INT, v2: STR, v3: INT}
        if r < 0.8:
            return f"{v1}, *{v2}", PAIRS, {v1: INT, v2: "any"}
        if r < 0.9:
            v3 = self.local_name(scope, avoid=[v1, v2])
            return rng.choice(
                [
                    (f"{v1}, *{v2}, {v3}", PAIRS, {v1: INT, v2: "any", v3: STR}),
                    (f"[{v1}, {v2}]", PAIRS, {v1: INT, v2: STR}),
                    (f"*{v2}, {v3}", PAIRS, {v2: "any", v3: STR}),
                    (f"({v1}), *{v2}", PAIRS, {v1: INT, v2: "any"}),
                    (f"{v3}, [{v1}, *{v2}]", "enum", {v3: INT, v1: INT, v2: "any"}),
                    (f"{v3}, (*{v2}, {v1})", "enum", {v3: INT, v2: "any", v1: STR}),
                    (f"*{v2}, [{v1}, {v3}]", "enum", {v2: "any", v1: INT, v3: STR}),
                ]
            )
        return f"{v1}, {v2}", "enumlist", {v1: INT, v2: INT}

    def loop(self, scope):
        """Returns the expression of a v-for and the names within"""
        rng = self.rng
        target, kind, names = self.pattern(scope)
        if kind in ("enum", "enumlist") and not scope.builtin("enumerate"):
            target, kind, names = "i", LIST, {"i": INT}
        # Note that names of the loop itself are local within the first source as well,
        # except that it is evaluated outside
        if kind == "enum":
            source = f"enumerate({self.expr(PAIRS, scope, 1)})"
        elif kind == "enumlist":
            source = f"enumerate({self.expr(LIST, scope, 1)})"
        else:
            source = self.expr(kind, scope, 1)
        text = f"{target} in {source}"
        # Names of unknown type: for the sake of the types they hide other names
        inner = scope.extend(names)
        if rng.random() < 0.25:
            text += f" if {self.cond(inner, 0)}"
        if rng.random() < 0.2:
            var = self.fresh(inner)
            ints = sorted(n for n, t in names.items() if t == INT)
            if inner.builtin("range", "abs") and ints:
                text += f" for {var} in range(abs({rng.choice(ints)}) % 3)"
            else:
                text += f" for {var} in [1, 2]"
            inner = inner.extend({var: INT})
            names = {**names, var: INT}
            if rng.random() < 0.3:
                text += f" if {self.cond(inner, 0)}"
        return text, inner

    def children(self, s, depth, n=None):
        rng = self.rng
        n = rng.randrange(0, self.opt["width"] + 1) if n is None else n
        result = []
        while len(result) < n:
            r = rng.random()
            last = result[-1] if result else {"k": None}
            if r < self.opt["text"]:
                if last["k"] != "text":
                    result.append(self.text(s))
                continue
            if r < self.opt["text"] + 0.05:
                result.append({"k": "comment", "v": rng.choice(["c", " <x v-if='a'/> ", ""])})
                continue
            r = rng.random()
            if r < self.opt["chains"]:
                length = rng.choice([1, 1, 2, 2, 3, 4])
                final = length > 1 and rng.random() < 0.6
                for idx in range(length):
                    kind = "if" if idx == 0 else "elif"
                    if final and idx == length - 1:
                        kind = "else"
                    node = self.node(s, depth - 1)
                    cond = self.cond(s, 1) if kind != "else" else None
                    node["branch"] = [kind, cond]
                    if idx and rng.random() < 0.15:
                        result.append({"k": "comment", "v": "between"})
                    result.append(node)
            elif r < self.opt["chains"] + self.opt["loops"]:
                text, inner = self.loop(s)
                node = self.node(inner, depth - 1)
                node["for"] = text
                result.append(node)
            else:
                result.append(self.node(s, depth - 1))
        return result

    def node(self, s, depth, root=False):
        rng = self.rng
        r = rng.random()
        if self.opt["slots"] and r < 0.3:
            return self.slot(s, depth)
        comps = [c for c in self.comps if c["level"] < self.level]
        if comps and depth >= 0 and r < (0.75 if self.level == self.top else 0.55):
            return self.component_node(s, depth, rng.choice(comps))
        if r > 0.9:
            return {
                "k": "tpl",
                "attrs": [],
                "ch": self.children(s, depth) if depth > 0 else [],
            }
        return {
            "k": "el",
            "tag": rng.choice(TAGS),
            "attrs": self.attrs(s),
            "ch": self.children(s, depth) if depth > 0 else [],
        }

    def slot(self, s, depth):
        rng = self.rng
        return {
            "k": "slot",
            "name": rng.choice(["default", *SLOTS]),
            "explicit": rng.random() < 0.3,
            "ch": self.children(s, depth, rng.choice([0, 1, 1, 2])),
        }

    def component_node(self, s, depth, comp):
        rng = self.rng
        attrs = []
        for name, typ in sorted(comp["props"].items()):
            r = rng.random()
            if typ == STR and r < 0.3:
                attrs.append(["static", name, rng.choice(WORDS)])
            else:
                attrs.append(["bind", name, self.expr(typ, s, 1)])
        rng.shuffle(attrs)
        if self.opt["handlers"] and rng.random() < 0.6:
            attrs.append(["on", "done", self.handler(s)])
        node = {"k": "comp", "tag": comp["name"], "attrs": attrs, "ch": []}
        if not self.opt["slots"]:
            return node
        s = s.extend({}, function=True)
        named = []
        explicit = rng.random() < 0.25
        for name in [*SLOTS, *(["default"] if explicit else [])]:
            if rng.random() < 0.75:
                style = rng.choice(["v-slot:", "#"])
                named.append(
                    {
                        "k": "tpl",
                        "attrs": [],
                        "slot": [name, "v-slot" if name == "default" and rng.random() < 0.5 else style + name],
                        "ch": self.children(s, depth),
                    }
                )
        rest = []
        if not explicit:
            rest = self.children(s, depth, rng.choice([0, 1, 1, 2, 3]))
        children = list(rest)
        for item in named:
            place = rng.choice([0, len(children)])
            children.insert(place, item)
        node["ch"] = children
        return node

    # -- components --------------------------------------------------------------------
    def component(self, name, level, slots):
        rng = self.rng
        self.level = level
        saved, self.opt["slots"] = self.opt["slots"], slots
        pool = rng.sample(NAMES, 10)
        props = {pool.pop(): typ for typ in rng.sample(TYPES, rng.choice([2, 3, 4]))}
        state = {pool.pop(): typ for typ in rng.sample(TYPES, rng.choice([1, 2, 3]))}
        names = {**props, **state, "prop_count": INT, "konst": INT, "double": "fn"}
        names["GLOBAL_LIST"] = LIST
        names["imported_name"] = INT
        comp = {
            "name": name,
            "level": level,
            "props": props,
            "state": {key: [typ, data(rng, typ)] for key, typ in state.items()},
            "konst": rng.randrange(6),
            "glob": data(rng, LIST),
            "vars": names,
        }
        scope = Vars(names)
        root = rng.choice(["el", "el", "el", "tpl", "comp", "slot"])
        if saved and not slots and level == self.top:
            root = rng.choice(["el", "tpl", "comp"])
        if root == "comp" and not [c for c in self.comps if c["level"] < level]:
            root = "el"
        if root == "slot" and not slots:
            root = "tpl"
        depth = self.opt["depth"]
        if root == "el":
            node = {
                "k": "el",
                "tag": rng.choice(TAGS),
                "attrs": self.attrs(scope),
                "ch": self.children(scope, depth, rng.randrange(1, self.opt["width"] + 1)),
            }
        elif root == "tpl":
            node = {"k": "tpl", "attrs": [], "ch": self.children(scope, depth, 3)}
        elif root == "slot":
            node = self.slot(scope, depth)
        else:
            node = self.component_node(
                scope, depth, rng.choice([c for c in self.comps if c["level"] < level])
            )
        if level and self.opt["handlers"] and node["k"] == "el":
            if not any(attr[0] == "on" for attr in node["attrs"]):
                what = self.expr(INT, scope, 1)
                node["attrs"].append(
                    ["on", "click", f"lambda ev: emit('done', {what})"]
                )
        comp["template"] = node
        self.opt["slots"] = saved
        return comp

    def family(self, n):
        """Components that use each other, the last one is the root"""
        self.comps = []
        self.top = n
        for idx in range(n + 1):
            last = idx == n
            comp = self.component(
                f"Comp{idx}",
                idx,
                slots=bool(self.opt["slots"]) and (not last or self.opt["given"]),
            )
            self.comps.append(comp)
        return self.comps


# -- source ----------------------------------------------------------------------------
SCRIPT = '''
GLOBAL_LIST = {glob!r}
LOG = []
INSTANCES = []


def log(*args):
    LOG.append(args)


class {name}(Component):
    konst = {konst!r}

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for key, value in {state!r}.items():
            self.state[key] = value
        INSTANCES.append(self)

    @property
    def prop_count(self):
        return len(self.state)

    def double(self, value):
        return 2 * value

    def on_event(self, event):
        log("on_event", event)

    def bump(self, event):
        log("bump", event)
        for key, value in list(self.state.items()):
            if isinstance(value, int):
                self.state[key] = (value + 1) % 6

    def make_handler(self, value):
        return lambda event: log("made", value, event)
'''


def script_of(comp):
    state = {key: value for key, (typ, value) in comp["state"].items()}
    return SCRIPT.format(
        glob=comp["glob"], name=comp["name"], konst=comp["konst"], state=state
    )


class Printer:
    """Prints templates in many equivalent ways"""

    def __init__(self, rng, tags=None):
        self.rng = rng
        # How to refer to components
        self.tags = tags or {}

    def esc_text(self, text):
        out = []
        for idx, ch in enumerate(text):
            following = text[idx + 1] if idx + 1 < len(text) else "x"
            if ch == "&":
                out.append("&" if following == " " else "&amp;")
            elif ch == "<":
                raw = following in " =0123456789" and self.rng.random() < 0.7
                out.append("<" if raw else "&lt;")
            else:
                out.append(ch)
        return "".join(out)

    def quote(self, value):
        rng = self.rng
        value = value.replace("&", "&amp;")
        if rng.random() < 0.3:
            value = value.replace("<", "&lt;").replace(">", "&gt;")
        if "'" not in value and rng.random() < 0.3:
            return f"'{value}'"
        return '"' + value.replace('"', "&quot;") + '"'

    def attr(self, attr):
        rng = self.rng
        kind, *rest = attr
        if kind == "static":
            return f"{rest[0]}={self.quote(rest[1])}"
        if kind == "flag":
            return rest[0]
        if kind == "bind":
            return f"{rng.choice([':', 'v-bind:'])}{rest[0]}={self.quote(rest[1])}"
        if kind == "vbind":
            return f"v-bind={self.quote(rest[0])}"
        if kind == "on":
            return f"{rng.choice(['@', 'v-on:'])}{rest[0]}={self.quote(rest[1])}"
        raise AssertionError(kind)

    def filler(self, indent):
        return self.rng.choice(["", "\n" + "  " * indent, "\n\n" + "  " * indent, " "])

    def children(self, nodes, indent):
        out = []
        for idx, node in enumerate(nodes):
            is_text = node["k"] == "text"
            if not is_text and not (idx and nodes[idx - 1]["k"] == "text"):
                out.append(self.filler(indent))
            out.append(self.node(node, indent))
        if nodes and nodes[-1]["k"] != "text":
            out.append(self.filler(indent - 1))
        elif not nodes:
            out.append(self.rng.choice(["", "", "\n  "]))
        return "".join(out)

    def node(self, node, indent=1):
        rng = self.rng
        kind = node["k"]
        if kind == "text":
            return "".join(
                self.esc_text(part[1])
                if part[0] == "t"
                else "{{" + part[2] + self.esc_text(part[1]) + part[2] + "}}"
                for part in node["parts"]
            )
        if kind == "comment":
            return f"<!--{node['v']}-->"
        tag = {"tpl": "template", "slot": "slot"}.get(kind) or node["tag"]
        if kind == "comp":
            tag = self.tags.get(tag, tag)
        attrs = [self.attr(attr) for attr in node.get("attrs", [])]
        # The order of attributes matters, but not the place of the directives
        extra = []
        if "branch" in node:
            which, cond = node["branch"]
            name = {"if": "v-if", "elif": "v-else-if", "else": "v-else"}[which]
            extra.append(name if cond is None else f"{name}={self.quote(cond)}")
        if "for" in node:
            extra.append(f"v-for={self.quote(node['for'])}")
        if "slot" in node:
            extra.append(node["slot"][1])
        if kind == "slot" and (node["name"] != "default" or node["explicit"]):
            extra.append(f'name="{node["name"]}"')
        for item in extra:
            attrs.insert(rng.randrange(len(attrs) + 1), item)
        sep = rng.choice([" ", " ", "\n" + "  " * (indent + 2)])
        start = tag + "".join(sep + attr for attr in attrs)
        inner = self.children(node["ch"], indent + 1)
        if not inner and rng.random() < 0.7:
            return f"<{start}{rng.choice(['', ' '])}/>"
        return f"<{start}>{inner}</{tag}>"


HEADER = "{}from collagraph import Component\nfrom {} import imported_name{}\n"


def to_cgx(comp, rng, module, uses=()):
    # Components are imported by name, or are attributes of an imported module
    tags = {
        name: rng.choice([name, name, f"lib.{name}", f"Lib.{name}", f"Some{name}"])
        for name in uses
    }
    template = Printer(rng, tags).node(comp["template"])
    before, after = rng.choice(["\n", "\n  ", " ", ""]), rng.choice(["\n", ""])
    imports = "".join(
        f", {name}" + (f" as {tag}" if tag != name else "")
        for name, tag in tags.items()
        if "." not in tag
    )
    script = HEADER.format("\n", module, imports)
    for alias in sorted({tag.split(".")[0] for tag in tags.values() if "." in tag}):
        script += f"import {module} as {alias}\n"
    script += script_of(comp)
    parts = [
        f"<template>{before}{template}{after}</template>",
        f"<script>{script}</script>",
    ]
    if rng.random() < 0.2:
        parts.reverse()
    return "\n\n".join(parts) + "\n"


# -- reference -------------------------------------------------------------------------
class PlainComponent:
    """What components look like for the reference"""

    def __init__(self, props):
        self.props = props
        self.state = {}
        self.events = {}
        self.provided_slots = {}

    def emit(self, event, *args):
        if event in self.events:
            self.events[event](*args)


class Names(dict):
    """The global scope of expressions: resolves the names of a component"""

    def __init__(self, inst, module, imported):
        super().__init__()
        self.inst, self.module, self.imported = inst, module, imported

    def __missing__(self, name):
        if name == "self":
            return self.inst
        if name in self.imported:
            return self.module[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        inst = self.inst
        if name in inst.props:
            return inst.props[name]
        if name in inst.state:
            return inst.state[name]
        if hasattr(inst, name):
            return getattr(inst, name)
        if name in self.module:
            return self.module[name]
        raise KeyError(name)


class Scope:
    def __init__(self, inst, names, local=None):
        self.inst, self.names, self.local = inst, names, local or {}

    def eval(self, text):
        params = sorted(self.local)
        source = f"lambda {', '.join(params)}: ({text})"
        try:
            return eval(source, self.names)(*(self.local[name] for name in params))
        except UnboundLocalError as exc:
            # Python 3.12 itself fails on some expressions with nested comprehensions
            # that use the same names: nothing to compare with
            raise Inconclusive(f"Python fails: {type(exc).__name__}")

    def extend(self, values):
        return Scope(self.inst, self.names, {**self.local, **values})

    def loop(self, text):
        """The scopes of the items of a v-for"""
        import ast

        tree = ast.parse(f"[None for {text}]", mode="eval").body
        found = {
            item.id
            for generator in tree.generators
            for item in ast.walk(generator.target)
            if isinstance(item, ast.Name)
        }
        found = sorted(found)
        values = self.eval(f"[({', '.join(found)},) for {text}]")
        return [self.extend(dict(zip(found, item))) for item in values]


class Reference:
    """Evaluates the templates of a family of components"""

    def __init__(self, comps, imported_value):
        self.comps = {comp["name"]: comp for comp in comps}
        self.modules = {}
        self.log = []
        self.value = imported_value
        self.stats = {}
        self.total, self.limit = 0, None
        for comp in comps:
            module = {"Component": PlainComponent, "imported_name": imported_value}
            exec(script_of(comp), module)
            module["log"].__globals__["LOG"] = self.log
            self.modules[comp["name"]] = module

    def count(self, name, n=1):
        self.total += n
        if self.limit and self.total > self.limit:
            raise TooLarge
        self.stats[name] = self.stats.get(name, 0) + n

    def scope(self, name, props, events=None, slots=None):
        module = self.modules[name]
        inst = module[name](props)
        inst.events = events or {}
        inst.provided_slots = slots or {}
        imported = {"imported_name", "Component", *self.comps}
        return Scope(inst, Names(inst, module, imported))

    def render(self, name, scope):
        return self.node(self.comps[name]["template"], scope)

    def attrs(self, node, scope):
        attrs, events = {}, {}
        for kind, *rest in node.get("attrs", []):
            if kind == "static":
                attrs[rest[0]] = rest[1]
            elif kind == "flag":
                attrs[rest[0]] = True
            elif kind == "bind":
                attrs[rest[0]] = scope.eval(rest[1])
            elif kind == "vbind":
                attrs.update(scope.eval(rest[0]))
            elif kind == "on":
                events[rest[0]] = scope.eval(rest[1])
        return attrs, events

    def children(self, nodes, scope):
        result = []
        done = False
        for node in nodes:
            if "branch" in node:
                kind, cond = node["branch"]
                if kind == "if":
                    done = False
                if done:
                    continue
                if kind != "else" and not scope.eval(cond):
                    continue
                self.count(f"branch {kind}")
                done = True
                result.extend(self.node(node, scope))
            elif "for" in node:
                for inner in scope.loop(node["for"]):
                    self.count("loop items")
                    result.extend(self.node(node, inner))
            else:
                result.extend(self.node(node, scope))
        return result

    def node(self, node, scope):
        kind = node["k"]
        self.count(f"{kind} nodes")
        if kind == "text":
            text = "".join(
                part[1] if part[0] == "t" else str(scope.eval(part[1]))
                for part in node["parts"]
            )
            source = "".join(
                part[1] if part[0] == "t" else "{{}}" for part in node["parts"]
            )
            return [("text", text)] if source.strip() else []
        if kind == "comment":
            return []
        if kind == "tpl":
            return self.children(node["ch"], scope)
        if kind == "el":
            attrs, events = self.attrs(node, scope)
            return [
                ("el", node["tag"], attrs, events, self.children(node["ch"], scope))
            ]
        if kind == "slot":
            slots = scope.inst.provided_slots
            if node["name"] in slots:
                nodes, outer = slots[node["name"]]
                self.count("slots with content")
                if outer is None:
                    self.count("slots with given functions")
                    self.count("slots with empty results", not nodes)
                    return [("el", tag, {"n": n}, {}, []) for n, tag in nodes]
                return self.children(nodes, outer)
            self.count("slots with fallback")
            return self.children(node["ch"], scope)
        if kind == "comp":
            props, events = self.attrs(node, scope)
            slots, rest = {}, []
            for child in node["ch"]:
                if "slot" in child:
                    slots[child["slot"][0]] = (child["ch"], scope)
                elif child["k"] != "comment":
                    rest.append(child)
            if rest:
                slots["default"] = (rest, scope)
            inner = self.scope(node["tag"], props, events, slots)
            return self.render(node["tag"], inner)
        raise AssertionError(kind)


# -- comparison ------------------------------------------------------------------------
def same(a, b):
    try:
        return (a is True) == (b is True) and a == b
    except Exception:
        return False


def describe(nodes):
    return [
        node[1] if node[0] == "text" else [node[1], node[2], *describe(node[4])]
        for node in nodes
    ]


def compare(children, expected, path=()):
    """Compares elements of the monitoring renderer with the expectation, and returns
    the pairs of elements and expected event handlers"""
    got = [("text" if el.type == "TEXT" else el.type) for el in children]
    want = ["text" if node[0] == "text" else node[1] for node in expected]
    if got != want:
        raise Violation(
            "tree",
            f"children {got} instead of {want} at {path}",
            got=[mon.plain(el) for el in children],
            want=describe(expected),
        )
    pairs = []
    for idx, (el, node) in enumerate(zip(children, expected)):
        here = (*path, idx, node[1])
        if node[0] == "text":
            if el.text != node[1]:
                raise Violation("text", f"{el.text!r} instead of {node[1]!r} at {path}")
            continue
        _, tag, attrs, events, inner = node
        found = {key: val for key, val in el.attrs.items() if key != "key"}
        if set(found) != set(attrs) or any(
            not same(val, attrs[key]) for key, val in found.items()
        ):
            raise Violation("attributes", f"{found} instead of {attrs} at {here}")
        listening = {key for key, val in el.listeners.items() if val}
        if listening != set(events):
            raise Violation("events", f"{listening} instead of {set(events)} at {here}")
        pairs.extend((el, event, events[event]) for event in sorted(events))
        pairs.extend(compare(el.children, inner, here))
    return pairs


def install(name, **attrs):
    module = types.ModuleType(name)
    module.__dict__.update(attrs)
    sys.modules[name] = module
    return module


GIVEN = {
    # Forms of the result of a slot function
    "list": list,
    "tuple": tuple,
    "iterator": iter,
    "nothing between": lambda nodes: [x for node in nodes for x in (None, node)],
    "template": lambda nodes: [h("template", {}, *nodes)],
    "node": lambda nodes: h("template", {}, *nodes),
}


def h(*args):
    import collagraph as cg

    return cg.h(*args)


class Given:
    """Slots by functions of the application, instead of by a template"""

    def __init__(self, rng, rep):
        from observ import reactive

        names = [n for n in ["default", *SLOTS] if rng.random() < 0.7]
        self.forms = {name: rng.choice(sorted(GIVEN)) for name in names}
        self.data = reactive({name: self.value(rng) for name in names})
        self.single = names == ["default"] and rng.random() < 0.7
        rep.note("given slots", self.forms, dict(self.data))

    @staticmethod
    def value(rng):
        return [(rng.randrange(5), rng.choice(TAGS)) for _ in range(rng.choice([0, 1, 2]))]

    def change(self, rng, rep):
        name = rng.choice(sorted(self.forms))
        items = self.data[name]
        if rng.random() < 0.3:
            items.clear()
        elif rng.random() < 0.5:
            items.extend(self.value(rng))
        else:
            new = self.value(rng)
            # Writes of equal values aren't noticed (by design)
            if new != items:
                self.data[name] = new
        rep.note("change slot", name, repr(self.data[name]))
        return "slot", name, len(self.data[name])

    def function(self, name):
        form = GIVEN[self.forms[name]]
        return lambda props: form([h(tag, {"n": n}) for n, tag in self.data[name]])

    def children(self):
        slots = {name: self.function(name) for name in self.forms}
        return (slots["default"] if self.single else slots,)

    def reference(self):
        return {name: (list(self.data[name]), None) for name in self.forms}


class TooLarge(Exception):
    """Components that use each other within loops within loops..."""


class Stage:
    """Real components next to their reference"""

    serial = itertools.count(1)

    def __init__(self, rng, rep, comps, imported_value=3, given=None):
        import collagraph as cg
        from collagraph.cgx import cgx
        from observ import reactive, to_raw

        self.rng, self.rep = rng, rep
        self.given = given
        self.comps = comps
        self.root = comps[-1]
        self.reference = Reference(comps, imported_value)
        name = f"cgxlib_{next(self.serial)}"
        module = install(name, imported_name=imported_value)
        self.sources = {}
        try:
            for comp in comps:
                uses = [c["name"] for c in comps if c["level"] < comp["level"]]
                source = to_cgx(comp, rng, name, uses)
                self.sources[comp["name"]] = source
                rep.note("source", source)
                cls, namespace = cgx.load_from_string(source)
                namespace["log"].__globals__["LOG"] = self.log = getattr(
                    self, "log", []
                )
                setattr(module, comp["name"], cls)
        finally:
            del sys.modules[name]
        self.namespace = namespace
        self.props = reactive(
            {key: data(rng, typ) for key, typ in self.root["props"].items()}
        )
        rep.note("props", dict(self.props))
        self.reference.limit = 1500
        self.reference.render(
            self.root["name"],
            self.reference.scope(
                self.root["name"],
                to_raw(self.props),
                slots=given.reference() if given else {},
            ),
        )
        # Data can make it grow beyond that later on
        self.reference.limit = 6000
        self.renderer = mon.MonRenderer()
        self.container = self.renderer.container()
        self.gui = cg.Collagraph(renderer=self.renderer)
        slots = given.children() if given else ()
        self.gui.render(cg.h(cls, self.props, *slots), self.container)
        (self.instance,) = namespace["INSTANCES"]

    def expected(self):
        from observ import to_raw

        slots = self.given.reference() if self.given else {}
        scope = self.reference.scope(
            self.root["name"], to_raw(self.props), slots=slots
        )
        scope.inst.state = to_raw(self.instance.state)
        self.reference.total = 0
        return self.reference.render(self.root["name"], scope)

    def check(self):
        expected = self.expected()
        self.rep.count("trees compared")
        if self.renderer.errors:
            kind, info = self.renderer.errors[0]
            raise Violation("protocol-" + kind, " ".join(info))
        pairs = compare(self.container.children, expected)
        self.rep.maximum("elements", sum(1 for _ in self.container.walk()))
        return pairs

    def fire(self, pairs):
        """Fires one event and compares what the handlers have done"""
        el, event, handler = self.rng.choice(pairs)
        arg = self.rng.randrange(10)
        self.rep.note("fire", event, repr(el), arg)
        self.log.clear()
        self.reference.log.clear()
        # First the reference, as the real handler might change the state
        handler(arg)
        mon.fire(el, event, arg)
        self.rep.count("events fired")
        if len(self.log) != len(self.reference.log) or not all(
            same(a, b) for a, b in zip(self.log, self.reference.log)
        ):
            raise Violation(
                "handler", f"{event} of {el}: {self.log} instead of {self.reference.log}"
            )

    def change(self):
        rng = self.rng
        if self.given and self.given.forms and rng.random() < 0.5:
            self.rep.count("changes")
            return self.given.change(rng, self.rep)
        if rng.random() < 0.5:
            where, target, kinds = "props", self.props, self.root["props"]
        else:
            where, target = "state", self.instance.state
            kinds = {key: typ for key, (typ, _) in self.root["state"].items()}
        name = rng.choice(sorted(kinds))
        what = mutate(rng, target, name, kinds[name])
        self.rep.note("change", where, name, what, repr(target[name]))
        self.rep.count("changes")
        return where, kinds[name], what


def mutate(rng, target, name, typ):
    """Changes the data with the name in place, or replaces it"""
    value = target[name]
    if typ in (INT, STR) or rng.random() < 0.3:
        for _ in range(10):
            new = data(rng, typ)
            # Writes of equal values aren't noticed (by design)
            if new != value:
                target[name] = new
                return "replace"
        return "nothing"
    if typ == DICT:
        if value and rng.random() < 0.4:
            del value[rng.choice(sorted(value))]
            return "del"
        value[rng.choice(["k1", "k2", "text", "w", "data-x"])] = rng.randrange(6, 12)
        return "set"
    element = INT if typ == LIST else None
    new = (rng.randrange(6), data(rng, STR)) if element is None else rng.randrange(6)
    what = rng.choice(["append", "insert", "pop", "reverse", "sort", "setitem", "clear"])
    if what == "append":
        value.append(new)
    elif what == "insert":
        value.insert(rng.randrange(len(value) + 1), new)
    elif what == "pop" and value:
        value.pop(rng.randrange(len(value)))
    elif what == "reverse":
        value.reverse()
    elif what == "sort":
        value.sort()
    elif what == "setitem" and value:
        idx = rng.randrange(len(value))
        if value[idx] != new:
            value[idx] = new
    elif what == "clear" and rng.random() < 0.3:
        value.clear()
    return what


def run(rng, rep, size, gen, comps):
    """A random history of a random family of components"""
    while True:
        family = gen.family(comps)
        given = Given(rng, rep) if gen.opt["given"] else None
        try:
            stage = Stage(rng, rep, family, given=given)
        except TooLarge:
            rep.count("too large")
            continue
        break
    trail = []
    pairs = stage.check()
    for _ in range(int(2 + 10 * size)):
        trail.append(stage.change())
        try:
            pairs = stage.check()
            for _ in range(rng.choice([0, 1, 2])):
                if pairs:
                    stage.fire(pairs)
                    pairs = stage.check()
        except TooLarge:
            rep.count("grown too large")
            break
    for name, value in stage.reference.stats.items():
        rep.count(name, value)
    rep.signature((trail, stage.sources))
