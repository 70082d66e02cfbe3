from lib import tpl
from lib.harness import Violation

QUICK, THOROUGH = 300, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random CGX component with deeply nested expressions (lambdas with "
    "defaults, star arguments, list, set and dict comprehensions, generators, nested "
    "v-for loops, handlers, slot content) of which the variables have the same names as "
    "props, state, builtins and each other. The reference evaluates the text of each "
    "expression with Python's eval, within a function that has the variables of the "
    "v-for loops as arguments. Distinct: by the template and the sequence of changes."
)
MIN = {"trees compared": 1000, "loop items": 1000, "events fired": 500}
ASSUMPTIONS = [
    "no variables of comprehensions with the name of a variable of an outer function "
    "(Python 3.12 itself fails on some of those)",
    "names of builtins are only used for variables (other names can't shadow builtins "
    "in templates, by design)",
    "no assignment expressions",
]


def directed(rep):
    for number, (template, expected) in enumerate(FIXED):
        yield f"fixed-{number}", lambda t=template, e=expected: fixed(rep, t, e)


# Templates with the texts that they render for l = [1, 2], n = 5
FIXED = [
    ("<a><b v-for='str in l'>{{ str }}</b></a>", ["1", "2"]),
    ("<a><b v-for='zip in l'>{{ zip }},{{ n }}</b></a>", ["1,5", "2,5"]),
    ("<a><b v-for='props in l'><W>{{ props }}</W></b></a>", ["1", "2"]),
    ("<a><b v-for='n in l'>{{ n }}</b>{{ n }}</a>", ["1", "2", "5"]),
    ("<a><b v-for='l in l'>{{ l }}</b>{{ l }}</a>", ["1", "2", "[1, 2]"]),
    ("<a><b v-for='i in l for l in [i]'>{{ l }}</b></a>", ["1", "2"]),
    ("<a>{{ [n for n in l] }} {{ n }}</a>", ["[1, 2] 5"]),
    ("<a>{{ {n for n in l} }} {{ n }}</a>", ["{1, 2} 5"]),
    ("<a>{{ {n: l for n, l in [(1, 2)]} }} {{ l }}</a>", ["{1: 2} [1, 2]"]),
    ("<a>{{ sum(n for n in l) + n }}</a>", ["8"]),
    ("<a>{{ [l for l in l for n in [l, 7]] }} {{ n }}</a>", ["[1, 1, 2, 2] 5"]),
    ("<a>{{ (lambda n: n)(3) }} {{ n }}</a>", ["3 5"]),
    ("<a>{{ (lambda n=n: n)() }} {{ (lambda m=n, *l, n=n: (m, l, n))() }}</a>", ["5 (5, (), 5)"]),
    ("<a>{{ (lambda l, /, *, n: [l, n])(1, n=2) }}</a>", ["[1, 2]"]),
    ("<a>{{ (lambda **n: n)(l=1) }}</a>", ["{'l': 1}"]),
    ("<a><b v-for='i in l'><b v-for='j in l'>{{ i }}{{ j }}</b>{{ i }}</b></a>",
     ["11", "12", "1", "21", "22", "2"]),
    ("<a><b v-for='i in l'><b v-for='i in [i * 10]'>{{ i }}</b>{{ i }}</b></a>",
     ["10", "1", "20", "2"]),
    ("<a><b v-for='i in l'><b v-for='j in l'>{{ [i for i in l] }}<b v-for='k in [7]'>"
     "{{ i }}</b></b></b></a>",
     ["[1, 2]", "1", "[1, 2]", "1", "[1, 2]", "2", "[1, 2]", "2"]),
    ("<a><b v-for='i, (j, *k) in enumerate([(1, 2, 3)])'>{{ i }}{{ j }}{{ k }}</b></a>",
     ["01[2, 3]"]),
    ("<a><b v-for='i, *n, l in [(1, 2, 3), (4, 5)]'>{{ i }}{{ n }}{{ l }}</b></a>",
     ["1[2]3", "4[]5"]),
    ("<a><b v-for='*n, [i, l] in [(1, [2, 3]), ([5, 6],)]'>{{ i }}{{ n }}{{ l }}</b></a>",
     ["2[1]3", "5[]6"]),
    ("<a>{{ [i + n[0] + l for i, *n, l in [(1, 2, 3)]] }}{{ n }}</a>", ["[6]5"]),
    ("<a><W v-for='i in l'><template #x>{{ i }}{{ [i for i in l] }}</template></W></a>",
     ["1[1, 2]", "2[1, 2]"]),
    ("<a>{{ [[i * j for j in l] for i in l] }}</a>", ["[[1, 2], [2, 4]]"]),
    ("<a>{{ [(lambda i: i + n)(i) for i in l] }}</a>", ["[6, 7]"]),
    ("<a>{{ n if n > 3 else None }} {{ not n }} {{ n < 6 }}</a>", ["5 False True"]),
    ("<a>{{ f'{n:>3}' }} {{ f'{n!r}' }} {{ '%d' % n }}</a>", ["  5 5 5"]),
    ("<a>{{ self.n_attr }} {{ props['n'] }} {{ len(state) }}</a>", ["9 5 0"]),
]

WRAPPER = """
<template><template><slot/><slot name="x"/></template></template>
<script>
from collagraph import Component
class W(Component):
    pass
</script>
"""


def fixed(rep, template, expected):
    import collagraph as cg
    from collagraph.cgx import cgx
    from lib import mon

    wrapper, _ = cgx.load_from_string(WRAPPER)
    tpl.install("cgxlib_fixed", W=wrapper)
    source = (
        f"<template>{template}</template>\n<script>\nfrom collagraph import Component\n"
        "from cgxlib_fixed import W\n\n\nclass C(Component):\n    n_attr = 9\n</script>\n"
    )
    rep.note("source", source)
    cls, _ = cgx.load_from_string(source)
    renderer = mon.MonRenderer()
    container = renderer.container()
    gui = cg.Collagraph(renderer=renderer)
    gui.render(cg.h(cls, {"n": 5, "l": [1, 2]}), container)
    texts = [el.text for el in container.walk() if el.type == "TEXT"]
    if texts != expected:
        raise Violation("fixed", f"{template}: {texts} instead of {expected}")
    rep.signature(template)


def case(rng, rep, size):
    gen = tpl.Gen(
        rng,
        depth=rng.choice([1, 2, 3]),
        width=rng.choice([2, 3, 4]),
        expr=rng.choice([1, 2, 3]),
        text=0.2,
        chains=0.15,
        loops=0.5,
        shadow=True,
        slots=rng.random() < 0.4,
    )
    tpl.run(rng, rep, size, gen, rng.choice([0, 0, 1, 2]))
