"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.
usage: refactor.py NAME SRC DST   (copies SRC to DST and rewrites DST/turms)"""
import ast, sys, os, shutil, copy

class Base(ast.NodeTransformer):
    n = 0
    def fresh(self, p="_rf"):
        Base.n += 1
        return "%s%d" % (p, Base.n)

def names_in(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

class Invert(Base):
    """if c: A else: B  ->  if not c: B else: A (not for elif chains)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)

class Hoist(Base):
    """if c: -> _t = c; if _t:"""
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = self.fresh("_cond")
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.test))
                s.test = ast.Name(id=t, ctx=ast.Load())
            out.append(s)
        return out
    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): 
                if f == "orelse" and isinstance(n, ast.If) and len(v) == 1 and isinstance(v[0], ast.If):
                    v = [v[0]]
                setattr(n, f, self.block(v))
        for h in getattr(n, "handlers", []): self.generic_visit(h)
        return n

class TempReturn(Base):
    """return e -> _r = e; return _r"""
    def blockfix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = self.fresh("_out")
                out += [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.value), ast.Return(value=ast.Name(id=t, ctx=ast.Load()))]
            else: out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.blockfix(v))
        return n

class Rename(Base):
    """rename every local (not parameters, not globals, not those of nested scopes)"""
    def visit_FunctionDef(self, n):
        nested = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) for s in n.body for x in ast.walk(s))
        glob = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        if nested: return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        stored = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - glob
        m = {x: x + "_local" for x in stored}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

class Nest(Base):
    """if a and b: (no else) -> if a: if b:"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            t = n.test.values
            rest = t[1] if len(t) == 2 else ast.BoolOp(op=ast.And(), values=t[1:])
            return ast.If(test=t[0], body=[self.visit_If(ast.If(test=rest, body=n.body, orelse=[]))], orelse=[])
        return n

class Comp(Base):
    """list comprehension assigned or returned -> loop"""
    def one(self, s):
        v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) else None
        if not isinstance(v, ast.ListComp): return [s]
        if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)): return [s]
        t = self.fresh("_acc")
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=t, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[v.elt], keywords=[]))]
        for g in reversed(v.generators):
            for i in reversed(g.ifs): body = [ast.If(test=i, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=1)]
        s.value = ast.Name(id=t, ctx=ast.Load())
        return [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + body + [s]
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, [y for s in v for y in self.one(s)])
        return n

class EarlyElse(Base):
    """if c: ...return/raise/continue; rest  ->  if c: ... else: rest"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.AsyncFunctionDef)): n.body = self.fix(n.body)
        return n

class Unelse(Base):
    """if c: ..return  else: B -> if c: ..return; B"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out.append(s); out += self.fix(rest)
            else: out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.fix(v))
        return n

class Listify(Base):
    """for x in L -> for x in list(L)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(func=ast.Name(id="list", ctx=ast.Load()), args=[n.iter], keywords=[])
        return n

class Fstr(Base):
    """f-string -> concatenation with str()"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            elif v.conversion == -1 and v.format_spec is None: parts.append(ast.Call(func=ast.Name(id="str", ctx=ast.Load()), args=[v.value], keywords=[]))
            else: return n
        if not parts: return ast.Constant(value="")
        e = parts[0]
        for p in parts[1:]: e = ast.BinOp(left=e, op=ast.Add(), right=p)
        return e

class Extract(Base):
    """body of every for loop with a single simple target that only appends/raises -> local function? too risky; instead
    extract each if-test that is an isinstance/compare of >=2 operands into a module level helper"""
    def visit_Module(self, n):
        self.helpers = []
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], (ast.Import, ast.ImportFrom)) or isinstance(n.body[i], ast.Expr)): i += 1
        n.body[i:i] = self.helpers
        return n
    depth = 0
    locs = ()
    def visit_FunctionDef(self, n):
        self.depth += 1
        old = self.locs
        self.locs = set(old) | {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a} | {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for s in n.body for x in ast.walk(s) if isinstance(x, ast.FunctionDef)} | {x.name for s in n.body for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        self.generic_visit(n)
        self.locs = old
        self.depth -= 1
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_If(self, n):
        self.generic_visit(n)
        if not self.depth or isinstance(n.test, (ast.Name, ast.Constant)): return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in ast.walk(n.test)): return n
        used = sorted(x for x in names_in(n.test) if x in self.locs)
        f = self.fresh("_test")
        self.helpers.append(ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=n.test)], decorator_list=[], lineno=1))
        n.test = ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=[ast.Name(id=u, ctx=ast.Load()) for u in used], keywords=[])
        return n

class Args(Base):
    """hoist every call argument that is a call itself into a temporary (statements that are plain assignments/expr/return)"""
    def one(self, s):
        if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)) or not isinstance(s.value, ast.Call): return [s]
        c = s.value
        if any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(c)): return [s]
        out = []
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Call, ast.IfExp, ast.ListComp)):
                t = self.fresh("_arg"); out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=a)); c.args[i] = ast.Name(id=t, ctx=ast.Load())
        for k in c.keywords:
            if k.arg and isinstance(k.value, (ast.Call, ast.IfExp, ast.ListComp, ast.List)):
                t = self.fresh("_arg"); out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=k.value)); k.value = ast.Name(id=t, ctx=ast.Load())
        return out + [s]
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, [y for s in v for y in self.one(s)])
        return n

class Append(Base):
    """x.append(e) -> x += [e] for local names"""
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and self.local(c.func.value.id):
            return ast.AugAssign(target=ast.Name(id=c.func.value.id, ctx=ast.Store()), op=ast.Add(), value=ast.List(elts=[c.args[0]], ctx=ast.Load()))
        return n
    stack = ()
    def local(self, x): return bool(self.stack) and x in self.stack[-1]
    def visit_FunctionDef(self, n):
        st = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.stack = self.stack + (st,); self.generic_visit(n); self.stack = self.stack[:-1]
        return n

class DeMorgan(Base):
    """not a / a and b in tests -> not (not a or not b)"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in t.values]))
        return n

class IfExpStmt(Base):
    """x = a if c else b -> if c: x = a else: x = b;  return likewise"""
    def one(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return ast.If(test=v.test, body=[self.one(a)], orelse=[self.one(b)])
        return s
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, [self.one(s) for s in v])
        return n

class Items(Base):
    """for k, v in d.items() -> for k in d: v = d[k] (only simple receivers)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and isinstance(n.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in n.target.elts) and isinstance(it.func.value, (ast.Name, ast.Attribute)):
            k, v = n.target.elts
            n.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(it.func.value), slice=ast.Name(id=k.id, ctx=ast.Load()), ctx=ast.Load())))
            n.target, n.iter = k, it.func.value
        return n

class Splat(Base):
    """lists built by concatenation a + b -> [*a, *b]"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and (isinstance(n.left, (ast.List, ast.ListComp)) or isinstance(n.right, (ast.List, ast.ListComp))):
            return ast.List(elts=[ast.Starred(value=n.left, ctx=ast.Load()), ast.Starred(value=n.right, ctx=ast.Load())], ctx=ast.Load())
        return n

class Guardvar(Base):
    """insert a dead local and a pass at the start of every function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[i:i] = [ast.Assign(targets=[ast.Name(id="_unused", ctx=ast.Store())], value=ast.Constant(value=None)), ast.Pass()]
        return n

class Isinst(Base):
    """isinstance(x, (A, B)) <-> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(op=ast.Or(), values=[ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()), args=[copy.deepcopy(n.args[0]), e], keywords=[]) for e in n.args[1].elts])
        return n

class LoopBody(Base):
    """for x in L: body -> the body as a local function, where it only reads names, has no break/continue/return/yield"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, (ast.Name, ast.Tuple)): return n
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.FunctionDef, ast.Lambda)): return n
        stored = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        tn = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        # names stored must not be used outside the loop
        if any(self.uses.get(x, 0) != sum(1 for s in n.body for y in ast.walk(s) if isinstance(y, ast.Name) and y.id == x) for x in stored - set(tn)): return n
        if stored & set(tn): return n
        f = self.fresh("_each")
        fn = ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=t) for t in tn], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.body, decorator_list=[], lineno=1)
        n.body = [ast.Expr(value=ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=[ast.Name(id=t, ctx=ast.Load()) for t in tn], keywords=[]))]
        return [fn, n]
    uses = {}
    def visit_FunctionDef(self, n):
        old, self.uses = self.uses, {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name): self.uses[x.id] = self.uses.get(x.id, 0) + 1
        self.generic_visit(n)
        self.uses = old
        return n

class Method(Base):
    """a run of statements in the middle of a function becomes a module level helper"""
    def visit_Module(self, n):
        self.helpers, self.bad = [], set()
        for f in [x for x in ast.walk(n) if isinstance(x, ast.FunctionDef)]:
            if f in self.helpers: continue
            self.split(f)
        n.body += self.helpers
        return n
    def split(self, f):
        nested = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for s in f.body for x in ast.walk(s))
        if nested or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for x in ast.walk(f)): return
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)): return
        params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a]
        self.local = set(params) | {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.block(f, f.body, set(params), f.body)
    def block(self, f, body, defined, whole):
        """top level: second half of the body before the final statement; loops: the whole loop body"""
        k = len(body)
        if k >= 4:
            for lo, hi in ((k // 3, 2 * k // 3 + 1), (1, k - 1)):
                if self.cut(f, body, lo, hi, defined): break
        for i, s in enumerate(body):
            if isinstance(s, ast.For) and len(s.body) >= 2:
                d = defined | {x.id for y in body[:i] for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and y in body and isinstance(y, (ast.Assign, ast.AnnAssign))} | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                self.cut(f, s.body, 0, len(s.body), d, loop=s)
    def cut(self, f, body, lo, hi, defined, loop=None):
        part = body[lo:hi]
        if not part: return False
        for st in part:
            for x in ast.walk(st):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Await, ast.NamedExpr, ast.Try, ast.With, ast.Import, ast.ImportFrom)):
                    if isinstance(x, (ast.Break, ast.Continue)): 
                        return False
                    if not isinstance(x, (ast.Try, ast.With, ast.Import, ast.ImportFrom)): return False
        comp = {y.id for st in part for x in ast.walk(st) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        ld = {x.id for st in part for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        sv = {x.id for st in part for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        aug = {x.target.id for st in part for x in ast.walk(st) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        inside = {id(x) for st in part for x in ast.walk(st)}
        outs = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside} & (sv - comp) | (aug))
        top = {x.id for y in body[:lo] if isinstance(y, (ast.Assign, ast.AnnAssign)) for t in (y.targets if isinstance(y, ast.Assign) else [y.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
        known = defined | top
        definite = {x.id for y in part if isinstance(y, (ast.Assign, ast.AnnAssign)) and getattr(y, "value", None) is not None for t in (y.targets if isinstance(y, ast.Assign) else [y.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
        ins = (ld | aug | set(outs)) & self.local - comp
        ins = {x for x in ins if x in known}
        need = (ld | aug) & self.local - comp - known
        firststore = {}
        if any(x not in sv for x in need): return False
        if any(o not in known and o not in definite for o in outs): return False
        if any(x in comp and (x in known) for x in comp): pass
        args = sorted(ins)
        name = self.fresh("_part")
        ret = [ast.Return(value=ast.Tuple(elts=[ast.Name(id=o, ctx=ast.Load()) for o in outs], ctx=ast.Load()))] if len(outs) > 1 else [ast.Return(value=ast.Name(id=outs[0], ctx=ast.Load()))] if outs else []
        h = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=part + ret, decorator_list=[], lineno=1)
        call = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[ast.Name(id=a, ctx=ast.Load()) for a in args], keywords=[])
        if len(outs) > 1: stt = ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=o, ctx=ast.Store()) for o in outs], ctx=ast.Store())], value=call)
        elif outs: stt = ast.Assign(targets=[ast.Name(id=outs[0], ctx=ast.Store())], value=call)
        else: stt = ast.Expr(value=call)
        body[lo:hi] = [stt]
        self.helpers.append(h)
        return True

class Enumerate(Base):
    """for x in L -> for _i, x in enumerate(L)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple(elts=[ast.Name(id=self.fresh("_i"), ctx=ast.Store()), n.target], ctx=ast.Store())
        n.iter = ast.Call(func=ast.Name(id="enumerate", ctx=ast.Load()), args=[n.iter], keywords=[])
        return n

class Uncomp(Base):
    """acc = []; for x in L: [if c:] acc.append(e)   ->  acc = [e for x in L if c]; for loops elsewhere: acc.extend([...])"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                b, ifs = s.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1: ifs.append(b.test); b = b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and not any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(s)):
                    acc = b.value.func.value.id
                    if acc not in {x.id for t in ifs + [b.value.args[0], s.iter] for x in ast.walk(t) if isinstance(x, ast.Name)}:
                        lc = ast.ListComp(elt=b.value.args[0], generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=ifs, is_async=0)])
                        prev = out[-1] if out else None
                        if isinstance(prev, (ast.Assign, ast.AnnAssign)) and isinstance(prev.value, ast.List) and not prev.value.elts and (prev.targets[0] if isinstance(prev, ast.Assign) else prev.target).id == acc if isinstance(prev, (ast.Assign, ast.AnnAssign)) and isinstance((prev.targets[0] if isinstance(prev, ast.Assign) else prev.target), ast.Name) else False:
                            prev.value = lc
                        else:
                            out.append(ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr="extend", ctx=ast.Load()), args=[lc], keywords=[])))
                        continue
            out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.fix(v))
        return n

class Swap(Base):
    """adjacent independent assignments are exchanged when one of them calls nothing"""
    def fix(self, body):
        i = 0
        body = list(body)
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if self.plain(a) and self.plain(b) and (not self.calls(a) or not self.calls(b)) and not (self.st(a) & (self.ld(b) | self.st(b))) and not (self.st(b) & self.ld(a)):
                body[i], body[i + 1] = b, a; i += 2
            else: i += 1
        return body
    def plain(self, s): return isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
    def calls(self, s): return any(isinstance(x, (ast.Call, ast.Await, ast.Subscript, ast.Attribute, ast.NamedExpr)) for x in ast.walk(s.value))
    def st(self, s): return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    def ld(self, s): return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.fix(v))
        return n

class Kwargs(Base):
    """keyword arguments in reverse order"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords): n.keywords.reverse()
        return n

class Walrus(Base):
    """x = f(); if x: -> if (x := f()):"""
    def fix(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                x = p.targets[0].id
                t = s.test
                w = ast.NamedExpr(target=ast.Name(id=x, ctx=ast.Store()), value=p.value)
                if isinstance(t, ast.Name) and t.id == x: s.test = w; out.pop()
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id == x: t.operand = w; out.pop()
                elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == x and x not in {y.id for c in t.comparators for y in ast.walk(c) if isinstance(y, ast.Name)}: t.left = w; out.pop()
            out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)): return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.fix(v))
        return n

class Alias(Base):
    """attributes of parameters read three times or more are put into a local first (x.a.b -> _v)"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in n.body for x in ast.walk(s)): return n
        params = {a.arg for a in n.args.args}
        stored = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        st_attr = {x.attr for s in n.body for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        if not n.body: return n
        first = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        # only `self.config` / `config.x`: attributes that are always there
        m = {}
        for s in first:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in params - stored and x.attr in ("config", "registry") and x.attr not in st_attr:
                    m.setdefault((x.value.id, x.attr), []).append(x)
        pre = []
        for (b, a), xs in m.items():
            v = self.fresh("_v")
            ids = {id(x) for x in xs}
            class R(ast.NodeTransformer):
                def visit_Attribute(s, y):
                    if id(y) in ids: return ast.Name(id=v, ctx=ast.Load())
                    s.generic_visit(y); return y
            for i, s in enumerate(first): first[i] = R().visit(s)
            pre.append(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=ast.Attribute(value=ast.Name(id=b, ctx=ast.Load()), attr=a, ctx=ast.Load())))
        n.body = n.body[:len(n.body) - len(first)] + pre + first
        return n

ALL = {k.__name__.lower(): k for k in (Invert, Hoist, TempReturn, Rename, Nest, Comp, EarlyElse, Unelse, Listify, Fstr, Extract, Args, Append, DeMorgan, IfExpStmt, Items, Splat, Guardvar, Isinst, LoopBody, Method, Enumerate, Uncomp, Swap, Kwargs, Walrus, Alias)}

def rewrite(kind, dst, only=None):
    changed = 0
    for root, ds, fs in os.walk(dst + "/turms"):
        for f in sorted(fs):
            if not f.endswith(".py"): continue
            p = os.path.join(root, f)
            if only and not p.endswith(only): continue
            src = open(p, encoding="utf-8").read()
            t = ast.parse(src)
            T = ALL[kind]()
            T.top = {a.asname or a.name.split(".")[0] for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | {n.name for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | {x.id for n in t.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for x in ast.walk(n) if isinstance(x, ast.Name)}
            before = ast.dump(t)
            t = ast.fix_missing_locations(T.visit(t))
            if ast.dump(t) != before:
                changed += 1
                open(p, "w", encoding="utf-8").write(ast.unparse(t) + "\n")
    return changed

if __name__ == "__main__":
    kind, src, dst = sys.argv[1:4]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules", "examples"))
    print(kind, rewrite(kind, dst, sys.argv[4] if len(sys.argv) > 4 else None), "files")
