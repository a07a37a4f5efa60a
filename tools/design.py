#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md"""
import ast, json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H + "/design")
from notes import NOTES
props = {d["id"]: d for d in map(json.loads, open(V + "/properties.jsonl"))}
man = json.load(open(V + "/MANIFEST.json"))
na = {d.get("property") or d.get("id"): d["reason"] for d in man["not_applicable"]}
tech = json.load(open(H + "/techniques.json"))["claims"]
def rules(pid):
    t = ast.parse(open(V + "/checks/%s.py" % pid.lower()).read()); out, asm = {}, []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULES": out = ast.literal_eval(n.value)
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Check" and len(n.args) > 2:
            try: asm = ast.literal_eval(n.args[2])
            except Exception: pass
    return out, asm
o = [open(H + "/design/head.md").read(), "\n## Properties\n"]
for pid, d in props.items():
    if pid not in tech: continue
    r, asm = rules(pid); how, lim = NOTES.get(pid, ("", ""))
    o.append("### %s %s\n\n*Technique:* %s.\n\n%s\n" % (pid, d["title"], tech[pid]["technique"], how))
    o.append("Rules: " + "; ".join("**%s** – %s" % kv for kv in r.items()) + ".\n")
    if asm: o.append("Assumes: " + "; ".join(asm) + ".\n")
    if lim: o.append("Limits: " + lim + "\n")
o.append("## Not applicable\n")
for pid in props:
    if pid not in tech: o.append("* **%s** %s — %s" % (pid, props[pid]["title"], na.get(pid, "")))
o.append("\n" + open(H + "/design/tail.md").read())
o.append("\n## Planted bugs and the checks that report them\n\nEach seed lies in `seeded/<id>/`; specs in `tools/seeds/`, confirmed by `tools/mkseed.py` (demo passes, patch applied: demo fails, stable tests pass). All checks were run on each (`tools/runseeds.py -a`).\n")
o.append("| planted bug | property | reported by | needs |\n|---|---|---|---|")
for l in open(H + "/design/seeds.txt"):
    p = l.split()
    if len(p) < 3: continue
    m = json.load(open(V + "/seeded/%s/meta.json" % p[1]))
    o.append("| %s | %s | %s | %s |" % (p[1], p[2], " ".join(p[3:]) or "none", m["needs"]))
o.append("\n## Genuine defects found\n\nRepaired with one `fix:` commit each (recorded in `known_findings.jsonl`; a fixed entry suppresses nothing):\n")
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed": o.append("* " + d["what"].split("property=", 1)[1])
o.append("\nRecorded, not repaired:\n")
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] != "fixed": o.append("* %s: %s" % (d["property"], d["what"]))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
print("DESIGN.md: %d lines" % open(V + "/DESIGN.md").read().count("\n"))
