#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import json
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
HEAD = "## Seeded bugs\n"
# missed by the checks as they were when the bug was planted: what was added
LATE = json.loads((VERIF / "tools/late.json").read_text())


def main():
    text = (VERIF / "DESIGN.md").read_text()
    out = [text[: text.index(HEAD)] + HEAD, ""]
    ids = sorted(p.name for p in (VERIF / "seeded").iterdir() if (p / "meta.json").exists())
    out += [
        f"{len(ids)} changes, each written from the text of its property, each passing the repository's tests, each confirmed by",
        "its demonstration. Every one is caught by the quick check of its property (`check.py`, exit 1). Those with a remark in the",
        "last column were missed when planted; it names what was added to the check for them.",
        "",
        "| change | needs | breaks | added for it |",
        "|---|---|---|---|",
    ]
    for i in ids:
        m = json.loads((VERIF / "seeded" / i / "meta.json").read_text())
        cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ").strip()
        out.append(f"| {i} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {cell(LATE.pop(i, ''))} |")
    (VERIF / "DESIGN.md").write_text("\n".join(out) + "\n")
    if LATE:
        sys.exit(f"no such change: {', '.join(LATE)}")


main()
