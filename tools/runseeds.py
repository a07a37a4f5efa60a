#!/usr/bin/env python3
"""Which checks catch which planted bugs: runs the checks on scratch copies with each patch applied.  usage: runseeds.py [-a] [seed ...]
Without -a only the check of the seed's own property is run."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "-a" in sys.argv
names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
def one(n):
    m = json.load(open(V + "/seeded/%s/meta.json" % n)); d = tempfile.mkdtemp(prefix="rs-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % n], cwd=d + "/r", capture_output=True, text=True)
        if r.returncode: return n, m["property"], "PATCH DOES NOT APPLY", []
        res = []; out = ""
        for c in sorted(os.listdir(V + "/checks")):
            pid = c[:-3].upper()
            if not c.endswith(".py") or (not ALL and pid != m["property"]): continue
            x = subprocess.run([sys.executable, V + "/checks/" + c], capture_output=True, text=True, env=dict(os.environ, TURMS_REPO=d + "/r", VERIF_OUT=d))
            if x.returncode == 1 and "VIOLATION property=" + pid in x.stdout: res.append(pid)
            elif x.returncode: res.append(pid + "?%d" % x.returncode); out += x.stdout[-300:]
        return n, m["property"], out, res
    finally: shutil.rmtree(d)
for n, p, out, res in ThreadPoolExecutor(7).map(one, names):
    print("%-4s %-40s %s %s %s" % ("ok" if p in res else "MISS", n, p, " ".join(res), out))
