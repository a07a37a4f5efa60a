#!/usr/bin/env python3
"""Builds and confirms a planted bug.  usage: mkseed.py SPEC.py [name ...]
SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], demo="python source")].
For each: scratch copy of /repo's HEAD, demo must pass; apply edits, demo must fail, stable tests must pass; then
/verif/seeded/<id>/ is written (patch.diff, demo.sh, demo.py, meta.json)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP = "test_config test_countries test_countries_v1 test_freeze test_project_pipeline test_schema_countries test_skip_unreferenced".split()
DEMO_SH = '#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n'

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def build(s):
    d = tempfile.mkdtemp(prefix="seed-"); out = []
    try:
        sh(["git", "clone", "-q", "/repo", d + "/r"], d)
        r = d + "/r"; dd = d + "/demo"; os.mkdir(dd)
        open(dd + "/demo.sh", "w").write(DEMO_SH); open(dd + "/demo.py", "w").write(s["demo"])
        env = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", RUFF_NO_CACHE="true", PATH="/opt/venv/bin:" + os.environ["PATH"])
        a = sh(["bash", dd + "/demo.sh"], r, env=env, timeout=300)
        if a.returncode: return s["id"], False, "demo fails on the unchanged tree:\n" + (a.stdout + a.stderr)[-1500:]
        for p, old, new in s["edits"]:
            t = open(os.path.join(r, p), encoding="utf-8").read()
            if t.count(old) != s.get("count", 1): return s["id"], False, "edit matches %d times: %r" % (t.count(old), old[:80])
            open(os.path.join(r, p), "w", encoding="utf-8").write(t.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        b = sh(["bash", dd + "/demo.sh"], r, env=env, timeout=300)
        if b.returncode == 0: return s["id"], False, "demo passes with the change"
        if sh(["git", "status", "--short"], r).stdout.count("\n") != diff.count("diff --git"): return s["id"], False, "demo leaves files behind"
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--basetemp=" + d + "/tmp", "-W", "ignore::DeprecationWarning",
                "-o", "junit_family=xunit2", "--junitxml=" + d + "/report.xml"] + ["--ignore=tests/%s.py" % m for m in SKIP] + ["tests"], r, env=dict(env, COLUMNS="80"))
        sh(["python3", "/opt/vp/results.py", d + "/res.json", "junit:" + d + "/report.xml"], r)
        res = json.load(open(d + "/res.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", []))
        lost = [x for x in base if x not in passed]
        if lost: return s["id"], False, "tests lost: %s" % lost[:5]
        o = os.path.join(V, "seeded", s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff); open(o + "/demo.sh", "w").write(DEMO_SH); open(o + "/demo.py", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return s["id"], True, (b.stdout + b.stderr).strip()[-200:]
    finally:
        shutil.rmtree(d)

spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
seeds = [s for s in m.SEEDS if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
bad = 0
for i, ok, msg in ThreadPoolExecutor(4).map(build, seeds):
    bad += not ok
    print("ok " if ok else "BAD", i, msg.replace("\n", "\n      "))
sys.exit(bad)
