"""Prints the table of planted bugs for DESIGN.md, from seeded/ and the output of
catches.sh: python3 tools/mktable.py CATCHES"""
import json
from pathlib import Path
import sys

ROOT = Path(__file__).resolve().parent.parent
# Bugs that were missed at first, and what was added because of that
STRENGTHENED = {
    "c02-qualname": "component classes with equal qualified names",
    "c03-restart": "work in slices that is interrupted by other changes",
    "c05-names": "handlers that only differ in the names (constants, order) they refer to",
    "c07-removed-prop": "a scenario that only changes props of components",
    "c11-loop-cached": "other (new) asyncio loops for later instances",
    "c14-deletions": "interleaved slices of instances that both remove elements",
    "c16-parent-ref": "references to parts of removed components from outside",
    "c21-state-none": "falsy values and None for all sources of names",
    "c22-for-target": "more patterns of targets, and fixed templates",
    "c24-empty-content": "slots that are given by functions of the application",
    "c25-increment": "lines of the render function, for all positions of the script",
    "c26-cache": "files that appear after a failed import",
    "c26-suffix": "suffixes of files and relative entries of sys.path",
    "r30-anchor-last": "values that aren't equal to themselves",
    "r36-cache-kind": "names of types that are part of each other",
    "t40-locale": "a process with another locale",
    "r38-dialog-paint": "dialogs, and windows that are visible during an update",
    "t40-relative": "paths by symbolic links",
    "t40-suffix": "more suffixes",
}
caught = {}
for line in Path(sys.argv[1]).read_text().splitlines():
    id, prop, outcome, *_ = line.split()
    caught[id] = outcome
print("| bug | needs | caught by | strengthened with |\n| --- | --- | --- | --- |")
for folder in sorted((ROOT / "seeded").iterdir()):
    meta = json.loads((folder / "meta.json").read_text())
    id, prop = folder.name, meta["property"]
    by = prop if caught.get(id) == "caught" else "(none)"
    print(f"| {id} | {meta['needs']} | {by} | {STRENGTHENED.get(id, '')} |")
