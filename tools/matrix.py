#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (reads seeded/*/meta.json)."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | property | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "*", "meta.json"))):
    m = json.load(open(d))
    print(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
