import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.pipe import *
from sa.files import *

RULES = {
    "order": "between opening an output file and the last write to it nothing happens but the writing of text that exists already",
    "mode": "an output file is replaced as a whole: opened for plain writing, written once with exactly the produced text",
    "who": "only the writers in turms.run and turms.cli open files for writing, and nothing deletes, moves or truncates files",
    "place": "a writer writes outdir/filepath and creates the missing directory first",
    "gate": "schema and project dumps are written exactly when asked for, under the project's own names and from the project's own data",
    "after": "a project's text is complete before any of its writers is called",
}
WRITERS = {"turms.run.write_code_to_file": ("outdir", "filepath"), "turms.run.write_schema_to_file": ("outdir", "filepath"), "turms.run.write_project": ("outdir", "filepath")}
MAY_WRITE = ("turms.run", "turms.cli")
HARMLESS = {"os.path.join", "len", "str", "os.fsync", "os.fspath"}


def handles(o):
    """(guard, loops, handle term, mode, path term, index) of every file opened for writing"""
    evs = list(flat_events(o.events))
    for i, (g, l, e) in enumerate(evs):
        if e.args[0] == "ext" and cval(e.args[1]) in OPENERS:
            m = open_mode(e.args[2], e.args[3])
            md = cval(m) if is_str(m) else None
            if md is not None and not any(ch in md for ch in "wax+"): continue
            h = mk("call", cval(e.args[1]), e.args[2], e.args[3])
            yield evs, i, g, l, h, md, e.args[2][0] if e.args[2] else None
        if e.args[0] == "mcall" and cval(e.args[2]) in ("write_text", "write_bytes"):
            yield evs, i, g, l, None, "w", e.args[1]

def on_handle(x, h):
    return x is h or (x.op in ("enter", "mcall", "ctx", "withval") and contains(x, h))

def order(c, f, o, n):
    for evs, i, g, loops, h, md, p in handles(o):
        n[0] += 1
        w = where(f)
        c.ok("mode", "%s opens its output for plain writing" % f.qual, md in ("w", "wt", "wb", "x", "xt"), "mode %s" % md, w)
        if h is None:
            c.ok("order", "%s writes text that exists already" % f.qual, True); continue
        ws = [j for j, (g2, l2, e2) in enumerate(evs) if j > i and e2.args[0] == "mcall" and cval(e2.args[2]) in ("write", "writelines") and on_handle(e2.args[1], h)]
        ws += [j for j, (g2, l2, e2) in enumerate(evs) if j > i and e2.args[0] == "ext" and cval(e2.args[1]) == "print" and any(k[0] == "file" and on_handle(k[1], h) for k in e2.args[3] if isinstance(k, tuple))]
        c.ok("mode", "%s writes to the file it opened" % f.qual, bool(ws), "nothing is written", w)
        if not ws: continue
        last = max(ws)
        late = []
        for j in range(i + 1, last):
            g2, l2, e2 = evs[j]
            if j in ws or e2.args[0] in ("with", "setattr", "setitem"): continue
            if e2.args[0] == "ext" and cval(e2.args[1]) in HARMLESS: continue
            if e2.args[0] == "mcall" and on_handle(e2.args[1], h): continue
            late.append(e2)
        c.ok("order", "%s produces its text before opening the file" % f.qual, not late, "after opening: %s" % "; ".join(show(x, 3) for x in late[:3]), w)

def run_of(c, f):
    I = c.interp(no_inline=same_module(f))
    return I, I.run(f)

def who(c):
    fs = []
    for f, n, kind in syntactic(c):
        loc = "%s:%d" % (f.module.path, n.lineno)
        if kind == "destroy":
            c.ok("who", "%s %s" % (f.qual, f.module.dotted(n.func) or n.func.attr), False, "removes or moves files", loc)
        elif kind == "replace":
            c.ok("who", "%s replaces a file" % f.qual, f.module.name.startswith(MAY_WRITE), "outside the writers", loc)
        elif writes(n, kind):
            c.ok("who", "%s opens a file for writing" % f.qual, f.module.name == "turms.run" or f.module.name.startswith("turms.cli"), "only turms.run and turms.cli write files", loc)
            if f not in fs: fs.append(f)
        else:
            c.ok("who", "%s only reads" % f.qual, True)
    # the pipeline itself must not reach a writer
    p = Pipeline(c)
    for g, l, e in p.events:
        if e.args[0] in ("call", "enter"):
            q = cval(e.args[1])
            c.ok("after", "generate does not write while it runs (%s)" % q, q not in WRITERS and all(q != x.qual for x in fs), "%s is called from generate" % q, p.where)
        if e.args[0] == "ext" and cval(e.args[1]) in OPENERS: c.ok("after", "generate does not open files itself", False, show(e, 4), p.where)
    return fs

def norm_join(v):
    """components of a path"""
    if v.op == "call" and v.args[0] in ("os.path.join", "pathlib.Path", "posixpath.join"):
        out = []
        for x in v.args[1]: out += norm_join(x)
        return out
    if v.op == "binop" and cval(v.args[0]) == "/" : return norm_join(v.args[1]) + norm_join(v.args[2])
    if v.op == "div": return norm_join(v.args[0]) + norm_join(v.args[1])
    return [v]

def placed(c):
    for q, (od, fp) in WRITERS.items():
        f = c.func(q)
        I, o = run_of(c, f)
        hs = list(handles(o))
        w = where(f)
        c.ok("place", "%s writes one file" % f.name, len(hs) == 1, "%d files are opened for writing" % len(hs), w)
        for evs, i, g, loops, h, md, p in hs:
            ps = norm_join(p) if p is not None else []
            c.ok("place", "%s writes outdir/filepath" % f.name, ps == [o.param(od), o.param(fp)], "writes %s" % (show(p, 4) if p is not None else "?"), w)
            c.ok("mode", "%s always writes" % f.name, g is TRUE, "only under %s" % show(g, 4), w)
            mk_ = []
            for j, (g2, l2, e2) in enumerate(evs[:i]):
                if e2.args[0] == "ext" and cval(e2.args[1]) in ("os.makedirs",) and e2.args[2] and e2.args[2][0] is o.param(od):
                    ok = dict(k for k in e2.args[3] if isinstance(k, tuple)).get("exist_ok")
                    lits = g2.args if g2.op == "and" else (g2,)
                    cond = g2 is TRUE and ok is K(True)
                    guarded = len(lits) == 1 and lits[0].op == "not" and any(x.op == "call" and x.args[0] in ("os.path.isdir", "os.path.exists") and x.args[1] == (o.param(od),) for x in walk(lits[0]))
                    mk_.append(cond or guarded)
                if e2.args[0] == "mcall" and cval(e2.args[2]) == "mkdir" and contains(e2.args[1], o.param(od)):
                    kw = dict(k for k in e2.args[3] if isinstance(k, tuple))
                    mk_.append(kw.get("parents") is K(True) and kw.get("exist_ok") is K(True))
            c.ok("place", "%s creates a missing directory" % f.name, any(mk_), "no directory is created when it is missing", w)
            txt = [x for j, (g2, l2, e2) in enumerate(evs) if j > i and e2.args[0] == "mcall" and cval(e2.args[2]) == "write" and on_handle(e2.args[1], h) for x in [(g2, l2, e2.args[3])]] if h is not None else []
            if h is not None:
                want = {"write_code_to_file": lambda x: x is o.param("code"),
                        "write_schema_to_file": lambda x: x.op == "call" and x.args[0] in ("graphql.print_schema", "graphql.utilities.print_schema", "graphql.utilities.print_schema.print_schema") and x.args[1] == (o.param("schema"),),
                        "write_project": lambda x: x.op == "mcall" and x.args[0] is o.param("project") and cval(x.args[1]) in ("model_dump_json", "json")}[f.name]
                c.ok("mode", "%s writes exactly the text, once" % f.name, len(txt) == 1 and txt[0][0] is TRUE and not txt[0][1] and len(txt[0][2]) == 1 and want(txt[0][2][0]), "writes %s" % "; ".join(show(t[2], 4) for t in txt), w)

def callers_(c):
    import ast as A
    for f in c.repo.all_functions():
        if f.qual in WRITERS: continue
        hit = False
        for n in walk_local(f.node):
            if isinstance(n, A.Call):
                x = c.repo.lookup(f.module.dotted(n.func) or "")
                if isinstance(x, FuncInfo) and x.qual in WRITERS: hit = True
        if hit: yield f

GATE = {"turms.run.write_schema_to_file": ("dump_schema", "schema_name"), "turms.run.write_project": ("dump_configuration", "configuration_name")}

def root(v):
    """the project term of project.extensions.turms.<x>"""
    while v.op == "attr" and v.args[1] != "turms": v = v.args[0]
    if v.op == "attr" and v.args[0].op == "attr" and v.args[0].args[1] == "extensions": return v.args[0].args[0]
    return None

def gates(c):
    n = 0
    done = set()
    for f in callers_(c):
        mod = f.module.name
        I = c.interp(no_inline=lambda g: g.module.name != mod or g.qual in WRITERS or g.qual in ("turms.run.generate", SCHEMA, "turms.run.load_projects_from_configpath"))
        o = I.run(f)
        w = where(f)
        seen = set()
        gens = [j for j, (g, l, e) in enumerate(flat_events(o.events)) if e.args[0] == "call" and cval(e.args[1]) == "turms.run.generate"]
        for j, (g, loops, e) in enumerate(flat_events(o.events)):
            if e.args[0] != "call" or cval(e.args[1]) not in WRITERS: continue
            q = cval(e.args[1]); a = dict(x for x in e.args[2] if isinstance(x, tuple))
            if (q, e) in seen: continue
            seen.add((q, e)); n += 1
            g = cor(*[g2 for g2, l2, e2 in flat_events(o.events, ("call",)) if e2 is e])
            if gens: c.ok("after", "%s: %s is called after generate" % (f.name, q.split(".")[-1]), min(gens) < j, "writes before generating", w)
            if q not in GATE: continue
            flag, name = GATE[q]
            p = root(a["outdir"]) if a.get("outdir") is not None else None
            if p is None and a.get("outdir") is not None and a["outdir"].op == "phi":
                rs = [root(x) for x in a["outdir"].args[1:] if root(x) is not None]; p = rs[0] if rs else None
            def val(b, on):
                if b.op == "raises": return False
                if b.op == "iter": return True
                if b.op == "exists": return tri(b.args[1], lambda z: val(z, on))
                if b.op == "truth" and b.args[0].op == "attr" and b.args[0].args[1] == flag and (p is None or root(b.args[0]) is p): return on
                if b.op == "truth" and b.args[0].op == "attr" and root(b.args[0]) is not None: return not on
                return None
            # a guard met after a merge may describe the failing side only; the event's own path decides
            on, off = tri(g, lambda b: val(b, True)), tri(g, lambda b: val(b, False))
            c.ok("gate", "%s: %s only when %s is set" % (f.name, q.split(".")[-1], flag), off is False, "called under %s" % show(g, 5), w)
            fn = a.get("filepath")
            c.ok("gate", "%s: %s uses the project's %s" % (f.name, q.split(".")[-1], name), fn is not None and fn.op == "attr" and fn.args[1] == name and root(fn) is p and p is not None, "file name %s" % (show(fn, 5) if fn is not None else "?"), w)
            od = a.get("outdir")
            c.ok("gate", "%s: %s writes to the project's out_dir" % (f.name, q.split(".")[-1]), od is not None and ((od.op == "attr" and od.args[1] == "out_dir") or (od.op == "phi" and any(x.op == "attr" and x.args[1] == "out_dir" for x in od.args[1:]))), "directory %s" % (show(od, 5) if od is not None else "?"), w)
            if q.endswith("write_schema_to_file"):
                s = a.get("schema")
                ok = s is not None and ((s.op in ("item", "unpack", "getitem") and s.args[0].op == "call" and s.args[0].args[0] == "turms.run.generate" and arg(s.args[0], "project") is p and s.args[1] in (1, K(1)))
                     or (s.op == "call" and s.args[0] == SCHEMA and arg(s, "schema") is not None and arg(s, "schema").op == "attr" and arg(s, "schema").args[0] is p))
                c.ok("gate", "%s: the schema written is the project's" % f.name, ok, "schema %s" % (show(s, 4) if s is not None else "?"), w)
            else:
                pr = a.get("project")
                c.ok("gate", "%s: the configuration written is the project's" % f.name, pr is p, "project %s" % (show(pr, 4) if pr is not None else "?"), w)
            done.add((f.name, q, on is True or on is None))
        for q in sorted({x[1] for x in done if x[0] == f.name}):
            c.ok("gate", "%s: %s when %s is set" % (f.name, q.split(".")[-1], GATE[q][0]), any(x[2] for x in done if x[:2] == (f.name, q)), "never called", w)
    c.floor("gate", 8)

def run():
    c = Check("C08", RULES, ["print_schema and model_dump_json either return the whole text or raise"])
    fs = who(c)
    n = [0]
    done = set()
    for f in fs + [c.func(q) for q in WRITERS]:
        if f.qual in done: continue
        done.add(f.qual)
        I, o = run_of(c, f)
        order(c, f, o, n)
    c.floor("order", 4)
    placed(c); gates(c)
    c.finish()

if __name__ == "__main__": main(run)
