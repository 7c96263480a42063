"""Prints the table of planted bugs for DESIGN.md (maintenance; no check uses it)"""
import json, pathlib
root = pathlib.Path(__file__).parent.parent / "seeded"
print("| bug | property | change | needs |\n|---|---|---|---|")
for d in sorted(root.iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
