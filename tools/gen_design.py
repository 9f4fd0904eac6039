"""Writes DESIGN.md: the hand-written parts (tools/design_head.md, tools/design_tail.md) around the table of spaces."""
import importlib
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc import engine  # noqa: E402

rows = ["## 3. Spaces and bounds", "", "Leaves in the quick / thorough tier; d = largest number of deviations from the default (full = the whole product).", "",
        "| id | space | leaves q / t | bound q / t | what is enumerated |", "|----|-------|---|---|---|"]
for k in sorted(int(f.stem[1:]) for f in (ROOT / "checks").glob("c[0-9][0-9].py")):
    m = importlib.import_module(f"checks.c{k:02d}")
    tiers = {t: {s.name: (len(engine.enumerate_cases(s.gen, s.bound)[0]), "full" if s.bound is None else f"d={s.bound}", s.note) for s in m.spaces(t)} for t in ("quick", "thorough")}
    for n in dict.fromkeys([*tiers["quick"], *tiers["thorough"]]):
        a, b = tiers["quick"].get(n, ("-", "-", "")), tiers["thorough"].get(n, ("-", "-", ""))
        rows.append(f"| C{k:02d} | {n} | {a[0]} / {b[0]} | {a[1]} / {b[1]} | {b[2] or a[2]} |")
(ROOT / "DESIGN.md").write_text((ROOT / "tools/design_head.md").read_text() + "\n".join(rows) + "\n\n" + (ROOT / "tools/design_tail.md").read_text())
