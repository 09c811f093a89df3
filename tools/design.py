#!/usr/bin/env python3
"""Assemble DESIGN.md."""
import ast
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from design_how import HOW          # noqa: E402

head = (V / "tools/design_head.md").read_text()
tail = (V / "tools/design_tail.md").read_text()
props = [json.loads(x) for x in open(V / "properties.jsonl")]
seeds = {}
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    seeds.setdefault(m["property"], []).append((d.name, m))


def consts(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name \
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    return None


out = [head, "\n## Properties\n"]
for p in props:
    i = p["id"]
    tree = ast.parse((V / f"props/{i.lower()}.py").read_text())
    out.append(f"\n### {i}: {p['title']}\n\n{HOW[i]}\n\nBounds: {consts(tree, 'BOUNDS')}.\n")
    a = consts(tree, "ASSUMPTIONS")
    if a:
        out.append("\nAssumptions: " + "; ".join(a) + ".\n")
    fns = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.args.args and n.args.args[0].arg == "env":
            doc = ast.get_docstring(n)
            if doc:
                fns.append(f"* `{n.name}`: {' '.join(doc.split())}")
    if fns:
        out.append("\nHarness bodies:\n\n" + "\n".join(fns) + "\n")
    if i in seeds:
        out.append("\nPlanted bugs: " + ", ".join(f"`{n}`" for n, _ in seeds[i]) + ".\n")

results = json.loads((V / "tools/seed_results.json").read_text()) \
    if (V / "tools/seed_results.json").exists() else {}
out.append("\n## Planted bugs and which checks catch them\n\n"
           "| bug | property | needs | caught by |\n|---|---|---|---|\n")
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append(f"| {n} | {i} | {m['needs']} | {', '.join(results.get(n, [])) or '?'} |\n")
out.append("\n" + tail)
(V / "DESIGN.md").write_text("".join(out))
