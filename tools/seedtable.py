#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parents[1]
print("| change | caught by | needs |\n|---|---|---|")
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs']} |")
