"""Reporting: obligations, findings, known findings, evidence, exit status."""
import json, os, sys, time, hashlib
from .val import *
from .repo import Repo, FuncInfo, ClassInfo, walk_local
from .interp import Interp, flat_events

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)


class AnalysisBroken(Exception):
    pass


class Check:
    def __init__(self, pid, rules, assumptions=()):
        self.pid, self.rules = pid, rules
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []             # (rule, construct, ok)
        self.viol = {}            # key -> detail
        self.count = {}           # rule -> n obligations
        self.floors = {}
        self.assumptions = list(assumptions)
        self.funcs = set()
        self.unknown = {}
        self.samples = []
        self.extra = {}
        self.repo = Repo()

    # -- recording
    def ok(self, rule, construct, cond, detail="", loc=""):
        """one obligation; returns cond"""
        assert rule in self.rules, rule
        self.count[rule] = self.count.get(rule, 0) + 1
        self.obs.append((rule, construct, bool(cond)))
        if not cond:
            key = "%s|%s" % (rule, construct)
            if key not in self.viol:
                self.viol[key] = (detail if isinstance(detail, str) else show(detail), loc)
        return bool(cond)

    def floor(self, rule, n):
        self.floors[rule] = n

    def need(self, cond, msg):
        if not cond: raise AnalysisBroken(msg)
        return cond

    def func(self, qual, required=True):
        f = self.repo.lookup(qual)
        if not isinstance(f, FuncInfo):
            if required: raise AnalysisBroken("anchor %s not found" % qual)
            return None
        return f

    def interp(self, **kw):
        I = Interp(self.repo, **kw)
        self._interps = getattr(self, "_interps", []) + [I]
        return I

    # -- finishing
    def finish(self):
        for I in getattr(self, "_interps", []):
            self.funcs |= I.inlined
            for k, n in I.unknown.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        known = load_known(self.pid)
        listed = {k["key"]: k for k in known if k.get("status") == "known"}
        new, old = [], []
        for key in sorted(self.viol):
            (old if key in listed else new).append(key)
        cov = {
            "obligations": len(self.obs), "discharged": sum(1 for o in self.obs if o[2]),
            "functions_analysed": len(self.funcs), "obligations_per_rule": dict(sorted(self.count.items())),
            "rules": self.rules, "explanation": "static analysis of /repo/turms (source digest %s): %d obligations over %d functions evaluated by the gated value-flow interpreter or visited by syntax/call-graph rules; nothing is executed." % (self.repo.digest(), len(self.obs), len(self.funcs)),
            "modules": len(self.repo.modules), "source_digest": self.repo.digest(),
            "unsupported_constructs": self.unknown,
            "samples": [{"rule": r, "construct": c, "ok": o} for r, c, o in self.obs[:8]],
            "known_findings_reported": old,
        }
        cov.update(self.extra)
        broken = [r for r, n in self.floors.items() if self.count.get(r, 0) < n]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        out = os.environ.get("VERIF_OUT") or VERIF
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        with open(os.path.join(out, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (self.pid, cov["obligations"], cov["discharged"], len(self.funcs), ev["wall_s"]))
        for r in self.rules:
            print("  rule %-14s %4d obligations: %s" % (r, self.count.get(r, 0), self.rules[r]))
        if os.environ.get("VERIF_VERBOSE"):
            for r, c, o in self.obs: print("   ", "ok " if o else "BAD", r, c)
        for key in old:
            print("KNOWN-FINDING: property=%s %s -- %s" % (self.pid, key, listed[key]["what"]))
        if new:
            rp = os.path.join("evidence", "replay-%s.json" % self.pid)
            with open(os.path.join(out, rp), "w") as f:
                json.dump({"property": self.pid, "violations": [{"key": k, "detail": self.viol[k][0], "where": self.viol[k][1]} for k in new]}, f, indent=1)
            for k in new:
                print("  %s\n      at %s\n      %s" % (k, self.viol[k][1] or "?", self.viol[k][0]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        if broken:
            print("ANALYSIS-BROKEN %s: too few instances of %s" % (self.pid, ", ".join("%s (%d < %d)" % (r, self.count.get(r, 0), self.floors[r]) for r in broken)))
            sys.exit(2)
        sys.exit(0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d["property"] == pid: out.append(d)
    return out


# ---------------------------------------------------------------- term helpers
def expand(F, v):
    """all gated alternatives of a term's root: yields (facts, value)"""
    if v.op == "phi":
        for lit, x in ((v.args[0], v.args[1]), (cnot(v.args[0]), v.args[2])):
            G = F.copy()
            if G.add(lit): yield from expand(G, x)
    else:
        yield F, v

def field(node, name, default=None):
    """field of a reified syntax node"""
    if node.op == "node":
        for n, v in node.args[1]:
            if n == name: return v
    if node.op == "inst":
        for n, v in node.args[1]:
            if n == name: return v
    return default

def arg(call, name, default=None):
    """named argument of an uninterpreted repository call"""
    for x in call.args[1]:
        if isinstance(x, tuple) and x[0] == name: return x[1]
    return default

def isnode(v, cls): return v is not None and v.op == "node" and v.args[0] == cls

def items(v, g=TRUE, loops=()):
    """flatten a list/set/dict/tuple term -> (guard, loops, kind, value[, key])"""
    if v.op == "phi":
        yield from items(v.args[1], cand(g, v.args[0]), loops)
        yield from items(v.args[2], cand(g, cnot(v.args[0])), loops)
        return
    if v.op == "tuple":
        for x in v.args[0]: yield g, loops, "one", x
        return
    if v.op not in ("list", "set", "dict", "rep"):
        if v.op == "const" and cval(v) is None: return
        yield g, loops, "splice", v
        return
    seq = v.args[1:] if v.op == "rep" else v.args
    lp = loops + (v.args[0],) if v.op == "rep" else loops
    for it in seq:
        if it.op == "one": yield cand(g, it.args[0]), lp, "one", it.args[1]
        elif it.op == "ent": yield cand(g, it.args[0]), lp, "ent", it
        elif it.op == "splice": yield cand(g, it.args[0]), lp, "splice", it.args[1]
        elif it.op == "rep": yield from items(it, g, lp)

def name_id(v):
    return field(v, "id") if isnode(v, "Name") else None

def main(fn):
    try:
        fn()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN:", e)
        sys.exit(2)
    except Exception as e:
        import traceback
        print("ANALYSIS-BROKEN: %s: %s" % (type(e).__name__, e))
        print("  " + "  ".join(traceback.format_exc().splitlines(True)[-6:]))
        sys.exit(2)

# ---------------------------------------------------------------- guarded traversal
def gwalk(v, g=TRUE, loops=(), stop=None, seen=None):
    """every sub-term that is part of the value: yields (guard, loops, term).
    Guards come from phi branches and guarded items; conditions themselves are not entered."""
    if seen is None: seen = set()
    stack = [(v, g, loops)]
    while stack:
        x, g, lp = stack.pop()
        if isinstance(x, tuple):
            for y in reversed(x): stack.append((y, g, lp))
            continue
        if not isinstance(x, V): continue
        k = (x, g)
        if k in seen or g is FALSE: continue
        seen.add(k)
        o = x.op
        if o == "phi":
            stack.append((x.args[2], cand(g, cnot(x.args[0])), lp))
            stack.append((x.args[1], cand(g, x.args[0]), lp))
            continue
        if o in ("one", "splice"):
            stack.append((x.args[1], cand(g, x.args[0]), lp)); continue
        if o == "ent":
            h = cand(g, x.args[0])
            stack.append((x.args[2], h, lp)); stack.append((x.args[1], h, lp)); continue
        if o == "rep":
            for y in reversed(x.args[1:]): stack.append((y, g, lp + (x.args[0],)))
            continue
        if o in ("list", "set", "dict", "tuple"):
            for y in reversed(x.args): stack.append((y, g, lp))
            continue
        yield g, lp, x
        if stop is not None and stop(x): continue
        if is_atom(x) or o in ("and", "or", "not", "const", "param", "ext", "cls"): continue
        for y in reversed(x.args):
            if isinstance(y, (V, tuple)): stack.append((y, g, lp))

def gnodes(v, *classes, **kw):
    for g, lp, x in gwalk(v, **kw):
        if x.op == "node" and (not classes or x.args[0] in classes): yield g, lp, x

def calls(o, *quals):
    """uninterpreted calls recorded while evaluating: (guard, loops, qual, args)"""
    for g, lp, e in flat_events(o.events, ("call", "enter")):
        q = cval(e.args[1])
        if q in quals or q.split(".")[-1] in quals or ".".join(q.split(".")[-2:]) in quals:
            yield g, lp, q, dict((a for a in e.args[2] if isinstance(a, tuple)))

def consts(v, g=TRUE):
    """(guard, python constant) alternatives of a term, None-op for non constants"""
    F = None
    if v.op == "phi":
        yield from consts(v.args[1], cand(g, v.args[0])); yield from consts(v.args[2], cand(g, cnot(v.args[0])))
    else: yield g, v

def tri(c, f):
    """three-valued evaluation of a condition; f(atom) -> True / False / None"""
    if c.op == "const": return bool(cval(c)) if c.args[0] == "bool" else None
    if c.op in ("true", "false"): return c.op == "true"
    if c is TRUE: return True
    if c is FALSE: return False
    if c.op == "not":
        r = tri(c.args[0], f); return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [tri(x, f) for x in c.args]
        if c.op == "and": return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    return f(c)

def where(f, name=None): return "%s:%s" % (f.module.path, name or f.name)
