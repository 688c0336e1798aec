"""DESIGN.md from design_head.md, the statements, the monitors, and design_tail.md"""
import importlib
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parents[1]
import design_notes as N

out = [(V / "tools/design_head.md").read_text()]
for l in open(V / "properties.jsonl"):
    p = json.loads(l)
    src = (V / f"monitors/props/{p['id'].lower()}.py").read_text()
    rule = re.sub(r'"\s*"', "", re.search(r"RULE = \((.*?)\)\n", src, re.S).group(1)).strip().strip('"')
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"*Observed*: {rule}.\n")
    out.append(f"*Why beyond the tests*: {p['why_tests_cant']}.\n")
    if p["id"] in N.NOTES:
        out.append(N.NOTES[p["id"]] + "\n")
out.append((V / "tools/design_tail.md").read_text())
out.append("Each was written from the text of a property, passes the 75 stable tests and has a demonstration."
           "  The last column is what the checks say with VERIF_SEED=1.\n")
out.append("| bug | property | breaks | caught by |\n| --- | --- | --- | --- |")
for d in sorted((V / "seeded").iterdir()):
    if not (d / "meta.json").exists():
        continue
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {N.CAUGHT.get(d.name, '?')} |")
out.append(N.MISSES)
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
