"""Source of MANIFEST.json: python3 tools/mkmanifest.py"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECH = {
    "C": "runtime monitoring: online monitors against a reference model, random histories",
    "R": "runtime monitoring: real toolkit state against a reference model",
    "T": "runtime monitoring: observed effects against an oracle, generated inputs",
}
NOTES = {}
exec((ROOT / "tools" / "notes.py").read_text())

checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    prop = json.loads(line)
    id = prop["id"]
    if not (ROOT / "checks" / f"{id}.py").exists():
        missing.append(dict(property=id, reason=NOT_APPLICABLE.get(id, "no check yet")))
        continue
    note = NOTES.get(id, {})
    checks.append(
        dict(
            property=id,
            quick_cmd=f"./run.sh {id} quick",
            thorough_cmd=f"./run.sh {id} thorough",
            technique=note.get("technique", TECH[id[0]]),
            level="exploration",
            level_note=note.get("note", DEFAULT_NOTE),
        )
    )
manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=missing,
    notes=(
        "All checks drive the code in /repo through its public API; no hooks in the "
        "source are needed. VERIF_SEED determines every random choice. "
        "known-findings.txt lists the defects that were found and repaired."
    ),
)
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
