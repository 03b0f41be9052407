#!/usr/bin/env python3
"""Replaces the table of planted bugs at the end of DESIGN.md (caught.json: id -> checks confirmed by hand-run tests)."""
import json, pathlib

here = pathlib.Path(__file__).parent
text = (here / "DESIGN.md").read_text()
head = text[: text.index("## Planted bugs")]
caught = json.loads((here / "caught.json").read_text())
out = [head + """## Planted bugs

`seeded/<id>/` holds changes that pass the existing tests; each was written from a property's text and confirmed in a scratch copy. None is read by a check. The last column
says which checks were confirmed to catch it (others may).

| bug | property | needs | caught by |
|-----|----------|-------|-----------|
"""]
for d in sorted((here / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {', '.join(caught.get(d.name, ['?']))} |\n")
(here / "DESIGN.md").write_text("".join(out))
print([d.name for d in (here / "seeded").iterdir() if d.name not in caught])
