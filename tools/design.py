"""design.py: rewrite the table of planted bugs at the end of DESIGN.md"""
import collections
import json
import pathlib

ROOT = pathlib.Path(__file__).parent.parent
HEAD = "| property | planted bugs (all detected) |\n|---|---|\n"
table = collections.defaultdict(list)
for f in sorted(ROOT.glob("seeded/*/meta.json")):
    table[json.loads(f.read_text())["property"]].append(f.parent.name)
p = ROOT / "DESIGN.md"
text = p.read_text().split(HEAD)[0] + HEAD
p.write_text(text + "".join(
    f"| {k} | {', '.join(v)} |\n" for k, v in sorted(table.items())))
