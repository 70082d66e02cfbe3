from lib import tpl

QUICK, THOROUGH = 300, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random CGX component (possibly using other ones), with elements, "
    "template tags, text and comments in random nestings, all forms of attributes and "
    "directives with random (typed) expressions over props, state, attributes, globals "
    "and loop variables, printed in a random style and loaded with load_from_string. "
    "Then props and state are changed at random. After each change the tree of the "
    "renderer and the effect of the event handlers are compared with an interpreter of "
    "the template. Distinct: by the template and the sequence of changes."
)
MIN = {
    "trees compared": 1000,
    "branch if": 200,
    "branch elif": 100,
    "branch else": 50,
    "loop items": 500,
    "events fired": 300,
}
ASSUMPTIONS = [
    "v-for and v-if aren't combined on one element; no directives for control flow on "
    "root elements; chains of v-if are not interrupted by text or v-for elements",
    "siblings have no keys (see C01/C02 for those)",
]


def case(rng, rep, size):
    gen = tpl.Gen(
        rng,
        depth=rng.choice([1, 2, 2, 3]),
        width=rng.choice([2, 3, 4]),
        expr=rng.choice([0, 1, 2]),
        text=0.15,
        chains=rng.choice([0.2, 0.5]),
        loops=rng.choice([0.15, 0.35]),
    )
    tpl.run(rng, rep, size, gen, rng.choice([0, 0, 1, 2]))
