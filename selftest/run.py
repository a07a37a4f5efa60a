#!/usr/bin/env python3
"""Runs checks against small edits of a scratch copy of /repo/turms: 'bug' edits must be reported, 'same' edits must not.
usage: run.py [property ...]   (cases live in selftest/<property>.py as BUG/SAME lists of edit lists)"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)

def one(pid, kind, i, edits):
    d = tempfile.mkdtemp(prefix="st-")
    try:
        shutil.copytree(os.environ.get("SELFTEST_REPO", "/repo") + "/turms", d + "/turms", ignore=shutil.ignore_patterns("__pycache__"))
        for path, old, new, *nth in edits:
            p = os.path.join(d, path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) < 1: return "?? edit does not apply: %s %r" % (path, old[:60]), None
            at = -1
            for _ in range((nth or [0])[0] + 1): at = s.index(old, at + 1)
            s = s[:at] + new + s[at + len(old):]
            open(p, "w", encoding="utf-8").write(s)
            compile(s, p, "exec")
        r = subprocess.run([sys.executable, V + "/checks/%s.py" % pid], capture_output=True, text=True, env=dict(os.environ, TURMS_REPO=d, VERIF_OUT=d), timeout=900)
        return r.returncode, (r.stdout + r.stderr[-600:])
    finally:
        shutil.rmtree(d)

def main():
    pids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("c") and f.endswith(".py"))
    jobs = []
    ex = ThreadPoolExecutor(7)
    for pid in pids:
        spec = importlib.util.spec_from_file_location(pid, HERE + "/%s.py" % pid); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for kind, want in (("BUG", 1), ("SAME", 0)):
            for i, e in enumerate(getattr(m, kind, [])):
                if isinstance(e, tuple): e = [e]
                jobs.append((pid, kind, i, e, want, ex.submit(one, pid, kind, i, e)))
    bad = 0; sys.stdout.reconfigure(line_buffering=True)
    for pid, kind, i, e, want, fu in jobs:
        rc, out = fu.result()
        good = rc == want and (want == 0 or 'VIOLATION' in out)
        bad += not good
        if not good or "-v" in sys.argv:
            print("%s %s %s[%d] rc=%s  %s" % ("ok " if good else "BAD", pid, kind, i, rc, repr(e[0][2])[:110]))
            if out:
                lines = [l for l in out.splitlines() if not l.startswith("  rule")]
                print("\n".join("      " + l[:260] for l in lines[:(12 if not good else 5)]))
    print("%d cases, %d bad" % (len(jobs), bad))
main()
