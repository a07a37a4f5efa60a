"""The generation pipeline (turms.run.generate) as one value-flow term."""
from .check import *

SCHEMA = "turms.run.build_schema_from_schema_type"
METHODS = {"plugins": "generate_ast", "parsers": "parse_ast", "processors": "run"}


def peel_copy(v):
    """a copy of an object stands for the object"""
    while True:
        if v.op == "mcall" and cval(v.args[1]) in ("model_copy", "copy", "__copy__"): v = v.args[0]
        elif v.op == "call" and v.args[0] in ("copy.copy", "copy.deepcopy", "list", "tuple") and v.args[1]:
            x = v.args[1][0]
            v = x[1] if isinstance(x, tuple) else x
        elif v.op == "phi" and peel_copy(v.args[1]) is peel_copy(v.args[2]): v = peel_copy(v.args[1])
        else: return v

def path(v):
    """('project', 'extensions', 'turms', 'plugins') of an attribute chain on a parameter"""
    v = peel_copy(v)
    if v.op == "attr":
        p = path(v.args[0])
        return p + (v.args[1],) if p else None
    if v.op == "param": return (v.args[1],)
    return None

def is_config(v):
    p = path(v)
    return p is not None and (p[-2:] == ("extensions", "turms") or p == ("config",) or p == ("gen_config",))

def family(loop):
    """which configured list a loop runs over"""
    if loop.op != "loop": return None
    v = peel_copy(loop.args[0])
    if v.op == "attr" and v.args[1] in ("plugins", "parsers", "processors", "stylers") and is_config(v.args[0]): return v.args[1]
    if v.op == "param" and v.args[1] in ("plugins", "parsers", "processors", "stylers"): return v.args[1]
    return None

def unguard(v, init=None):
    """phi(list is empty, init, v) and the loop-executed-at-all artefact stand for v"""
    while v.op == "phi":
        c = v.args[0]
        c0 = c.args[0] if c.op == "not" else c
        if any(x.op in ("loopvar", "elem") for x in walk(c0)): break
        if c0.op in ("exists", "iter", "nonempty") or (c0.op == "truth"):
            a, b = v.args[1], v.args[2]
            if c.op == "not": a, b = b, a
            if (init is not None and b is init) or b.op == "loopvar" or (a.op == "fold" and a.args[2] is b): v = a; continue
        break
    return v

def stage(v, method):
    """(loop, init, receiver, args) when v is the left fold of receiver.method over a list"""
    v = unguard(v)
    if v.op != "fold": return None
    loop, init, step, lv = v.args[0], v.args[2], unguard(v.args[3]), v.args[4]
    if step.op != "mcall" or cval(step.args[1]) != method: return None
    if lv not in step.args[2] and not any(isinstance(k, tuple) and k[1] is lv for k in step.args[3]): return None
    return loop, init, step.args[0], step.args[2] + tuple(k[1] for k in step.args[3] if isinstance(k, tuple)), lv


class Pipeline:
    def __init__(self, c):
        self.c = c
        self.f = c.func("turms.run.generate")
        self.I = c.interp(opaque={SCHEMA}, no_inline=lambda f: not f.qual.startswith("turms.run."))
        self.o = self.I.run(self.f)
        c.need(self.o.value is not None, "turms.run.generate never returns")
        v = self.o.value
        self.text = v.args[0][0] if v.op == "tuple" and len(v.args[0]) == 2 else v
        self.schema = v.args[0][1] if v.op == "tuple" and len(v.args[0]) == 2 else None
        self.events = list(flat_events(self.o.events))
        self.where = self.f.module.path + ":generate"

def import_path(v):
    """X when v is an instance made from the dotted path X"""
    for x in walk(v):
        if x.op == "call" and x.args[0].endswith("import_string"):
            a = arg(x, "dotted_path")
            if a is not None: return a
    return None
