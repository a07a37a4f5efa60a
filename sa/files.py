"""File accesses of the repository: open calls, path helpers, destructive operations."""
import ast as A
from .check import *

DESTROY = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.truncate", "os.ftruncate", "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "os.rename", "os.renames"}
REPLACE = {"os.replace"}
PATH_METHODS = {"write_text", "write_bytes", "read_text", "read_bytes", "touch"}
OPENERS = {"open", "io.open", "codecs.open", "os.open", "os.fdopen", "tempfile.NamedTemporaryFile"}


def open_mode(call_args, kwargs):
    m = dict(k for k in kwargs if isinstance(k, tuple)).get("mode")
    if m is None and len(call_args) > 1: m = call_args[1]
    return K("r") if m is None else m

def syntactic(c):
    """(function, node, kind) of every file access in the repository's text; kind: open/path/destroy/replace"""
    for f in list(c.repo.all_functions()):
        for n in walk_local(f.node):
            if not isinstance(n, A.Call): continue
            d = f.module.dotted(n.func) or ""
            if d in OPENERS: yield f, n, "open"
            elif d in DESTROY: yield f, n, "destroy"
            elif d in REPLACE: yield f, n, "replace"
            elif isinstance(n.func, A.Attribute) and n.func.attr in PATH_METHODS: yield f, n, "path"
            elif isinstance(n.func, A.Attribute) and n.func.attr in ("unlink", "rmdir", "truncate") and not d.startswith("os."): yield f, n, "destroy"
            elif isinstance(n.func, A.Attribute) and n.func.attr == "open" and d not in OPENERS and not d.startswith(("webbrowser", "zipfile", "tarfile")): yield f, n, "path"

def literal_mode(n):
    """mode of an open call when it is written literally"""
    m = None
    for k in n.keywords:
        if k.arg == "mode": m = k.value
    if m is None and len(n.args) > 1: m = n.args[1]
    if isinstance(n.func, A.Attribute) and n.func.attr == "open" and not (isinstance(n.func.value, A.Name) and n.func.value.id in ("io", "codecs")):
        m = next((k.value for k in n.keywords if k.arg == "mode"), n.args[0] if n.args else None)
    if m is None: return "r"
    return m.value if isinstance(m, A.Constant) and isinstance(m.value, str) else None

def writes(n, kind):
    if kind == "path":
        if n.func.attr in ("write_text", "write_bytes", "touch"): return True
        if n.func.attr in ("read_text", "read_bytes"): return False
    m = literal_mode(n)
    return m is None or any(ch in m for ch in "wax+")

def same_module(f):
    m = f.module.name
    return lambda g: g.module.name != m
