#!/usr/bin/env python3
"""Rewrites sa/inventory.json, the functions of the analysed tree, from /repo. Run after a fix that adds a function."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from sa.inline import inventory
R = "/repo"; mods = {}
for d, _, fs in os.walk(R + "/turms"):
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(d, f)
            n = os.path.relpath(p, R)[:-3].replace("/", ".")
            mods[n[:-9] if n.endswith(".__init__") else n] = ast.parse(open(p).read())
old = json.load(open(V + "/sa/inventory.json"))
new = inventory(mods)
for k in sorted(set(old) | set(new)):
    for x in sorted(set(new.get(k, [])) - set(old.get(k, []))): print("+", k, x)
    for x in sorted(set(old.get(k, [])) - set(new.get(k, []))): print("-", k, x)
json.dump(new, open(V + "/sa/inventory.json", "w"), indent=0, sort_keys=True)
