import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.files import *

RULES = {
    "open": "every file access in text mode names UTF-8 and reports undecodable text instead of altering it",
    "codec": "bytes are turned into text and back as UTF-8, strictly",
    "tool": "text is piped to and from external tools as UTF-8, strictly",
    "apart": "the contents of combined files are separated by a line break wherever two of them meet",
    "verbatim": "the text read is what is parsed: nothing is cut, replaced or re-encoded in between",
}
UTF8 = {"utf-8", "utf8", "utf_8", "u8"}
READ8 = UTF8 | {"utf-8-sig", "utf_8_sig"}
PROC = {"subprocess.run", "subprocess.Popen", "subprocess.check_output", "subprocess.check_call", "subprocess.call", "subprocess.getoutput", "subprocess.getstatusoutput"}
SINKS = [("turms.utils.parse_documents", ()), ("turms.run.build_schema_from_schema_type", ())]


def run():
    c = Check("C19", RULES, ["str.encode/bytes.decode default to UTF-8", "graphql's parser ignores a byte order mark"])
    opens(c); codecs(c); tools(c); sinks(c); merge(c); loaders(c)
    c.floor("open", 3); c.floor("codec", 1); c.floor("tool", 1); c.floor("apart", 3); c.floor("verbatim", 6)
    c.finish()


def const(f, e, depth=3):
    """value of a literal, a module constant or a class constant"""
    if e is None: return None
    if isinstance(e, A.Constant): return e.value
    if depth and isinstance(e, (A.Name, A.Attribute)):
        d = f.module.dotted(e)
        mod, name = (f.module, e.id) if isinstance(e, A.Name) else (None, None)
        if d and "." in d:
            m = f.module.repo.modules.get(d.rsplit(".", 1)[0])
            if m: mod, name = m, d.rsplit(".", 1)[1]
        if mod is not None:
            for s in mod.tree.body:
                if isinstance(s, A.Assign) and any(isinstance(t, A.Name) and t.id == name for t in s.targets): return const(f, s.value, depth - 1)
                if isinstance(s, A.AnnAssign) and isinstance(s.target, A.Name) and s.target.id == name: return const(f, s.value, depth - 1)
        # a local bound once to a literal
        if isinstance(e, A.Name):
            ws = [s.value for s in walk_local(f.node) if isinstance(s, A.Assign) and any(isinstance(t, A.Name) and t.id == e.id for t in s.targets)]
            if len(ws) == 1: return const(f, ws[0], depth - 1)
            # a parameter with a literal default that no caller overrides
            a = f.node.args
            names = [x.arg for x in a.args]
            if e.id in names:
                i = names.index(e.id) - (len(names) - len(a.defaults))
                if i >= 0: return const(f, a.defaults[i], depth - 1)
    return Ellipsis

def kw(n, name, pos=None):
    for k in n.keywords:
        if k.arg == name: return k.value
    if pos is not None and len(n.args) > pos: return n.args[pos]
    return None

def norm(x): return x.lower() if isinstance(x, str) else x

def opens(c):
    for f, n, kind in syntactic(c):
        if kind in ("destroy", "replace"): continue
        w = writes(n, kind)
        where_ = "%s:%d" % (f.module.path, n.lineno)
        what = "%s: %s" % (f.qual.replace("turms.", ""), A.unparse(n)[:70])
        m = const(f, kw(n, "mode", 1)) if kind == "open" else literal_mode(n) if n.func.attr == "open" else "r"
        d = f.module.dotted(n.func) or ""
        if kind == "path" and n.func.attr in ("read_bytes", "write_bytes", "touch"): continue
        if d in ("os.open", "os.fdopen") and d == "os.open": continue
        if isinstance(m, str) and "b" in m: continue
        if d.endswith("NamedTemporaryFile") and m is None: continue
        if kind == "path":
            enc = kw(n, "encoding", {"read_text": 0, "write_text": 1, "open": 2}.get(n.func.attr))
            err = kw(n, "errors", {"read_text": 1, "write_text": 2, "open": 3}.get(n.func.attr))
        elif d == "codecs.open": enc, err = kw(n, "encoding", 2), kw(n, "errors", 3)
        else: enc, err = kw(n, "encoding", 3), kw(n, "errors", 4)
        e, r = norm(const(f, enc)), const(f, err)
        c.ok("open", what, e in (UTF8 if w else READ8) and r in (None, "strict"), "encoding %s, errors %s" % (A.unparse(enc) if enc is not None else "left to the locale", A.unparse(err) if err is not None else "strict"), where_)

def codecs(c):
    for f in list(c.repo.all_functions()):
        for n in walk_local(f.node):
            if not isinstance(n, A.Call): continue
            if isinstance(n.func, A.Attribute) and n.func.attr in ("encode", "decode"):
                if f.module.dotted(n.func) in ("codecs.encode", "codecs.decode"): off = 1
                else: off = 0
                enc, err = kw(n, "encoding", off), kw(n, "errors", off + 1)
            elif isinstance(n.func, A.Name) and n.func.id in ("str", "bytes") and len(n.args) + len(n.keywords) > 1: enc, err = kw(n, "encoding", 1), kw(n, "errors", 2)
            elif (f.module.dotted(n.func) or "") == "io.TextIOWrapper": enc, err = kw(n, "encoding", 1) or A.Constant("locale"), kw(n, "errors", 2)
            else: continue
            e, r = norm(const(f, enc)), const(f, err)
            c.ok("codec", "%s: %s" % (f.qual.replace("turms.", ""), A.unparse(n)[:70]), e in READ8 | {None} and r in (None, "strict"), "encoding %s, errors %s" % (e, r), "%s:%d" % (f.module.path, n.lineno))

def tools(c):
    for f in list(c.repo.all_functions()):
        for n in walk_local(f.node):
            if not isinstance(n, A.Call): continue
            d = f.module.dotted(n.func) or ""
            if d not in PROC and d not in ("os.popen", "os.system"): continue
            what = "%s: %s" % (f.qual.replace("turms.", ""), d)
            w = "%s:%d" % (f.module.path, n.lineno)
            if d in ("os.popen", "os.system", "subprocess.getoutput", "subprocess.getstatusoutput"):
                c.ok("tool", what, False, "uses the locale's encoding", w); continue
            enc, err = const(f, kw(n, "encoding")), const(f, kw(n, "errors"))
            text = const(f, kw(n, "text")) or const(f, kw(n, "universal_newlines"))
            if enc is None and not text and kw(n, "errors") is None:
                # bytes: what goes in and comes out is covered by rule 'codec'
                c.ok("tool", what, True); continue
            c.ok("tool", what, norm(enc) in UTF8 and err in (None, "strict"), "encoding %s, errors %s" % (enc or "left to the locale", err or "strict"), w)


# ---- combining texts
class T:
    """what is known about a text: does it hold file content, is there a line break before its first / after its last content"""
    def __init__(self, has=False, before=False, after=False, ok=True): self.has, self.before, self.after, self.ok = has, before, after, ok

def then(a, b):
    ok = a.ok and b.ok
    if a.has and b.has and not (a.after or b.before): ok = False
    if a.has:
        return T(True, a.before, (b.after if b.has else a.after or b.after), ok)
    if b.has: return T(True, a.before or b.before, b.after, ok)
    nl = a.before or b.before
    return T(False, nl, nl, ok)

def either(a, b):
    if not a.has and not b.has: return T(False, a.before and b.before, a.after and b.after, a.ok and b.ok)
    if not a.has: a = T(True, b.before, b.after, a.ok)
    if not b.has: b = T(True, a.before, a.after, b.ok)
    return T(True, a.before and b.before, a.after and b.after, a.ok and b.ok)

def is_text(x):
    if x.op == "mcall" and cval(x.args[1]) in ("read", "read_text", "readlines"): return True
    if x.op == "attr" and x.args[1] in ("content", "text") and x.args[0].op == "call" and x.args[0].args[0].startswith("requests."): return True
    return False

VERB = ("strip", "rstrip", "lstrip", "decode", "encode", "getvalue")

class Seq:
    def __init__(self): self.altered = []
    def of(self, v, lv=None):
        if v is lv: return T()
        if v.op == "const": 
            nl = is_str(v) and "\n" in cval(v)
            return T(False, nl, nl)
        if is_text(v): return T(True)
        if v.op == "phi": return either(self.of(v.args[1], lv), self.of(v.args[2], lv))
        if v.op == "cat":
            r = T()
            for x in v.args[0]: r = then(r, self.of(x, lv))
            return r
        if v.op == "fold":
            body = self.of(v.args[3], v.args[4])
            r = then(body, body)
            init = self.of(v.args[2], lv)
            if not body.has: return init
            return then(init, T(True, body.before, body.after, r.ok))
        if v.op == "join":
            sep = self.of(v.args[0] if isinstance(v.args[0], V) else K(v.args[0]), lv)
            return self.listed(v.args[1], sep, lv)
        if v.op == "elem" and any(is_text(x) for x in walk(v.args[0])):
            # a piece of the text: whole lines, put together again with the separator they were split at
            src = v.args[0]
            if not (src.op == "mcall" and cval(src.args[1]) == "split" and src.args[2] in ((K("\n"),),)) and not (src.op == "mcall" and cval(src.args[1]) in ("splitlines", "readlines") and (src.args[2] or src.args[3] or cval(src.args[1]) == "readlines")): self.altered.append(v)
            return T(True)
        if v.op == "mcall" and cval(v.args[1]) in VERB and any(x.op == "elem" and any(is_text(y) for y in walk(x.args[0])) for x in walk(v.args[0])):
            self.altered.append(v)
            return T(True)
        if v.op == "mcall" and cval(v.args[1]) in ("strip", "lstrip", "rstrip") and any(not (is_str(a) and not cval(a).strip(" \t\r\n\ufeff")) for a in v.args[2]):
            self.altered.append(v)
            return self.of(v.args[0], lv)
        if v.op == "mcall" and cval(v.args[1]) in VERB: return self.of(v.args[0], lv)
        if v.op in ("call", "mcall") and any(is_text(x) for x in walk(v)):
            if v.op == "call" and v.args[0] in ("str", "io.StringIO"): return self.of(v.args[1][0], lv)
            self.altered.append(v)
            return T(True)
        if v.op in ("list", "rep"): 
            return self.listed(v, T(False, True, True), lv)
        return T(any(is_text(x) for x in walk(v)))
    def listed(self, v, sep, lv):
        r = T()
        n = 0
        for g, loops, kind, x in items(v):
            y = self.of(x, lv)
            if kind == "splice" and v is not x and x.op in ("list", "rep"): y = self.listed(x, sep, lv)
            if loops or kind == "splice":
                z = then(then(y, sep), y)
                y = T(y.has, y.before, y.after, z.ok)
            r = y if n == 0 else then(then(r, sep), y)
            n += 1
        return r

def parse_args(o):
    out = []
    for g, l, e in flat_events(o.events, ("ext",)):
        q = cval(e.args[1])
        if q.startswith("graphql") and q.split(".")[-1] == "parse":
            v = e.args[2][0] if e.args[2] else dict(k for k in e.args[3] if isinstance(k, tuple)).get("source")
            if v is not None: out.append((g, v))
    return out

def sinks(c):
    for q, _ in SINKS:
        f = c.func(q)
        o = c.interp(opaque={"turms.utils.auto_add_typename_field_to_all_objects"}).run(f)
        seen = {}
        for g, v in parse_args(o):
            if v in seen: continue
            seen[v] = True
            s = Seq(); t = s.of(v)
            label = "%s: %s" % (f.name, show(v, 4)[:90])
            if any(is_text(x) for x in walk(v)):
                c.ok("apart", label, t.ok, "contents meet without a line break: %s" % show(v, 9)[:600], where(f))
                c.ok("verbatim", label, not s.altered, "altered by %s" % [show(x, 5)[:200] for x in s.altered], where(f))
        c.ok("verbatim", "%s parses what it read" % f.name, any(any(is_text(x) for x in walk(v)) for v in seen), "no parsed text comes from a file", where(f))

def merge(c):
    f = c.func("turms.processors.merge.MergeProcessor.run")
    o = c.interp(no_inline=lambda g: g.name == "merge_code" or g.module.name != f.module.name).run(f)
    n = 0
    for g, l, q, a in calls(o, "merge_code"):
        n += 1
        old = a.get("old_code") or list(a.values())[0]
        c.ok("verbatim", "MergeProcessor merges into the text of the existing file", is_text(old) or (old.op == "mcall" and cval(old.args[1]) == "decode" and is_text(old.args[0])), "existing code: %s" % show(old, 5), where(f))
        new = a.get("new_code") or list(a.values())[1]
        c.ok("verbatim", "MergeProcessor merges the text it was given", new is o.param("gen_file"), "new code: %s" % show(new, 5), where(f))
    c.ok("verbatim", "MergeProcessor reads the existing file", n >= 1, "never merges", where(f))

def loaders(c):
    for q in ("load_dsl_from_file", "load_dsl_from_url", "load_dsl_from_glob"):
        f = c.repo.lookup("turms.helpers." + q)
        if not isinstance(f, FuncInfo): continue
        o = c.interp().run(f)
        for g, v, _ in o.returns:
            s = Seq(); t = s.of(v)
            c.ok("verbatim", "%s returns what it read" % q, t.has and not s.altered, "returns %s" % show(v, 6)[:300], where(f))
    # processors that pipe: the tool gets the text it was handed and its output is the result
    for cls in c.repo.subclasses("turms.processors.base.Processor"):
        f = cls.method("run")
        if f is None or f.cls is not cls or not any(isinstance(n, A.Call) and (m.module.dotted(n.func) or "") in PROC for m in cls.methods.values() for n in walk_local(m.node)): continue
        o = c.interp().run(f)
        par = [v for n, v in o.env.items() if n != "self"][0]
        for g, l, e in flat_events(o.events, ("ext",)):
            if cval(e.args[1]) not in PROC: continue
            a = dict(k for k in e.args[3] if isinstance(k, tuple)).get("input")
            c.ok("verbatim", "%s hands the text over unchanged" % cls.name, a is not None and piped(a, par), "input: %s" % (show(a, 5)[:300] if a is not None else "none"), where(f))
        for g, v, _ in o.returns:
            c.ok("verbatim", "%s returns the tool's output unchanged" % cls.name, piped(v, par), "returns %s" % show(v, 6)[:300], where(f))

def piped(v, par):
    if v is par: return True
    if v.op == "phi": return piped(v.args[1], par) and piped(v.args[2], par)
    if v.op == "attr" and v.args[1] == "stdout": return v.args[0].op == "call" and v.args[0].args[0] in PROC
    if v.op == "mcall" and cval(v.args[1]) in ("encode", "decode"): return piped(v.args[0], par)
    if v.op in ("item", "unpack") and v.args[0].op == "mcall" and cval(v.args[0].args[1]) == "communicate": return v.args[1] in (0, K(0))
    return False


if __name__ == "__main__": main(run)
