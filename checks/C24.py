from lib import tpl

QUICK, THOROUGH = 300, 20000
CAP_QUICK, CAP_THOROUGH = 180, 600
RULE = (
    "A case is a random family of CGX components: with slot tags (as root, nested, in "
    "v-for and v-if branches, with fallback content, within the content for the slots "
    "of other components) and with content for a random selection of slots (by v-slot, "
    "# or implicitly for the default slot). Props and state of the root are changed at "
    "random and each tree is compared with the interpreter of the templates. Distinct: "
    "by the templates and the sequence of changes. In 30% of the cases the root gets its "
    "slots from functions of the application (lists, tuples, iterators, nodes), that "
    "return other content (or nothing at all) as time goes by."
)
MIN = {
    "trees compared": 1000,
    "slots with content": 500,
    "slots with fallback": 500,
    "slots with given functions": 100,
    "slots with empty results": 30,
    "comp nodes": 1000,
}
ASSUMPTIONS = [
    "v-slot is only used on template tags that are direct children of component tags, "
    "without other directives; no implicit content next to an explicit default slot"
]


def case(rng, rep, size):
    gen = tpl.Gen(
        rng,
        depth=rng.choice([1, 2]),
        width=rng.choice([2, 3, 4]),
        expr=rng.choice([0, 1]),
        text=0.2,
        chains=rng.choice([0.1, 0.3]),
        loops=rng.choice([0.1, 0.3]),
        slots=True,
        given=rng.random() < 0.3,
    )
    tpl.run(rng, rep, size, gen, rng.choice([1, 2, 2, 3]))
