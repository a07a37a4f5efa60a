"""Hash-consed terms and boolean guards of the abstract domain."""

class V:
    __slots__ = ("op", "args", "n")
    def __init__(self, op, args, n):
        self.op, self.args, self.n = op, args, n
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.n < o.n

_T = {}
def mk(op, *args):
    k = (op,) + args
    r = _T.get(k)
    if r is None:
        r = _T[k] = V(op, args, len(_T))
    return r

def K(value):
    if isinstance(value, (list, dict, set)):
        raise TypeError(value)
    return mk("const", type(value).__name__, value)

TRUE, FALSE, NONE = mk("true"), mk("false"), K(None)
KT, KF = K(True), K(False)
UNDEF = mk("undef")

def is_const(v): return v.op == "const"
def cval(v): return v.args[1] if isinstance(v, V) else v
def is_str(v): return v.op == "const" and v.args[0] == "str"

# ---------------------------------------------------------------- guards
def cnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.args[0]
    return mk("not", c)

def _nary(op, cs):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = []
    seen = set()
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c is unit or c in seen: continue
        if c is zero: return zero
        if c.op == op:
            stack.extend(c.args[::-1]); continue
        if cnot(c) in seen: return zero
        seen.add(c); out.append(c)
    # absorption: in (a or (not a and b)) -> (a or b) and dual
    dual = "or" if op == "and" else "and"
    for i, c in enumerate(out):
        if c.op == dual:
            new = []
            absorbed = False
            for x in c.args:
                if x in seen and x is not c: absorbed = True; break
                if cnot(x) in seen: continue
                new.append(x)
            if absorbed:
                return _nary(op, out[:i] + out[i+1:])
            if len(new) != len(c.args):
                return _nary(op, out[:i] + [_nary(dual, new)] + out[i+1:])
    if not out: return unit
    if len(out) == 1: return out[0]
    # complementary conjunctions: (a and r) or (not a and r) -> r
    if op == "or" and len(out) <= 6:
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                r = _resolve(out[i], out[j])
                if r is not None:
                    return _nary("or", [x for k, x in enumerate(out) if k not in (i, j)] + [r])
    if op == "and":
        neg = [x for x in out if x.op == "not" and x.args[0].op == "and"]
        for i in range(len(neg)):
            for j in range(i + 1, len(neg)):
                r = _resolve(neg[i].args[0], neg[j].args[0])
                if r is not None:
                    return _nary("and", [x for x in out if x is not neg[i] and x is not neg[j]] + [cnot(r)])
    out.sort(key=lambda v: v.n)
    return mk(op, *out)

def _resolve(a, b):
    sa = set(a.args) if a.op == "and" else {a}
    sb = set(b.args) if b.op == "and" else {b}
    da, db = sa - sb, sb - sa
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        if cnot(x) is y:
            return _nary("and", sorted(sa & sb, key=lambda v: v.n)) if sa & sb else TRUE
    return None

def cand(*cs): return _nary("and", cs)
def cor(*cs): return _nary("or", cs)

def atoms(c, out=None):
    if out is None: out = set()
    if c.op in ("and", "or", "not"):
        for a in c.args: atoms(a, out)
    elif c is not TRUE and c is not FALSE:
        out.add(c)
    return out

def literals(c):
    return list(c.args) if c.op == "and" else ([] if c is TRUE else [c])

def phi(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if c.op == "not": return phi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c: a = a.args[1]
    if b.op == "phi" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b is UNDEF: return a
    if a is UNDEF: return b
    return mk("phi", c, a, b)

# ---------------------------------------------------------------- class lattice
class Hier:
    """subclass knowledge: GraphQL classes (from source), python builtins, repo classes"""
    EXTRA = {"str": ["object"], "int": ["object"], "bool": ["int"], "float": ["object"], "list": ["object"],
             "dict": ["object"], "tuple": ["object"], "set": ["object"], "bytes": ["object"], "NoneType": ["object"]}
    def __init__(self, bases):
        self.b = dict(self.EXTRA); self.b.update(bases)
        self.memo = {}
    def anc(self, c):
        if c in self.memo: return self.memo[c]
        out = {c}
        self.memo[c] = out
        for p in self.b.get(c, ()): out |= self.anc(p)
        return out
    def sub(self, a, b): return b in self.anc(a)
    def known(self, c): return c in self.b
    def disjoint(self, a, b):
        if not (self.known(a) and self.known(b)): return False
        if self.sub(a, b) or self.sub(b, a): return False
        for c in self.b:
            an = self.anc(c)
            if a in an and b in an: return False
        return True

class Facts:
    """what is known on a path; immutable-by-copy"""
    __slots__ = ("lits", "isa", "comp", "hier")
    def __init__(self, hier, lits=None, isa=None, comp=()):
        self.hier = hier
        self.lits = lits if lits is not None else {}
        self.isa = isa if isa is not None else {}
        self.comp = comp
    def copy(self):
        return Facts(self.hier, dict(self.lits), dict(self.isa), self.comp)
    def add(self, c):
        """conjoin; returns False when contradictory"""
        c = self.simp(c)
        if c is FALSE: return False
        if c is TRUE: return True
        if c.op == "and":
            for a in c.args:
                if not self.add(a): return False
            return True
        if c.op == "or":
            self.comp = self.comp + (c,)
            return True
        pos, atom = (False, c.args[0]) if c.op == "not" else (True, c)
        if atom.op in ("and", "or"):   # not(and ..)
            if atom.op == "or":
                for a in atom.args:
                    if not self.add(cnot(a)): return False
                return True
            return self.add(cor(*[cnot(a) for a in atom.args]))
        self.lits[atom] = pos
        if atom.op == "isa":
            p, n = self.isa.get(atom.args[0], ((), ()))
            if pos: p = p + (atom.args[1],)
            else: n = n + (atom.args[1],)
            self.isa[atom.args[0]] = (p, n)
        if self.comp:
            comp, self.comp = self.comp, ()
            for f in comp:
                if not self.add(f): return False
        return True
    def atom(self, a):
        r = self.lits.get(a)
        if r is not None: return r
        op = a.op
        if op == "isa":
            v, c = a.args
            f = self.isa.get(v)
            if f:
                for p in f[0]:
                    if self.hier.sub(p, c): return True
                    if self.hier.disjoint(p, c): return False
                for n in f[1]:
                    if self.hier.sub(c, n): return False
            if self.lits.get(mk("isnone", v)): return False
        elif op == "truth":
            v = a.args[0]
            if self.lits.get(mk("isnone", v)): return False
            f = self.isa.get(v)
            if f and any(p.startswith("GraphQL") or p.endswith("Node") for p in f[0]): return True
            e = self._eqconst(v)
            if e is not None: return bool(cval(e))
        elif op == "isnone":
            v = a.args[0]
            f = self.isa.get(v)
            if f and f[0]: return False
            if self.lits.get(mk("truth", v)): return False
            e = self._eqconst(v)
            if e is not None: return cval(e) is None
        elif op == "eq":
            x, y = a.args
            if is_const(x): x, y = y, x
            if is_const(y) or y.op == "enum":
                e = self._eqconst(x)
                if e is not None: return e is y
                if self.lits.get(mk("isnone", x)): return False
                if is_const(y) and cval(y) and self.lits.get(mk("truth", x)) is False: return False
        return None
    def _eqconst(self, v):
        for l, pos in self.lits.items():
            if pos and l.op == "eq":
                x, y = l.args
                if x is v and (is_const(y) or y.op == "enum"): return y
                if y is v and (is_const(x) or x.op == "enum"): return x
        return None
    def ev(self, c):
        """True / False / None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c.op == "not":
            r = self.ev(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            unk = False
            for a in c.args:
                r = self.ev(a)
                if r is False: return False
                if r is None: unk = True
            return None if unk else True
        if c.op == "or":
            unk = False
            for a in c.args:
                r = self.ev(a)
                if r is True: return True
                if r is None: unk = True
            return None if unk else False
        return self.atom(c)
    def simp(self, c):
        r = self.ev(c)
        if r is True: return TRUE
        if r is False: return FALSE
        if c.op in ("and", "or"):
            return _nary(c.op, [self.simp(a) for a in c.args])
        if c.op == "not":
            return cnot(self.simp(c.args[0]))
        return c
    def restrict(self, v, memo=None):
        """resolve phis and guards inside a term"""
        if not self.lits and not self.comp: return v
        if memo is None: memo = {}
        return _restrict(self, v, memo)

def _restrict(F, v, memo):
    if isinstance(v, tuple):
        return tuple(_restrict(F, x, memo) for x in v)
    if not isinstance(v, V): return v
    r = memo.get(v)
    if r is not None: return r
    if v.op in ("true", "false", "const", "undef", "param", "ext", "cls", "mod"): r = v
    elif v.op == "phi":
        c = F.simp(_restrict_cond(F, v.args[0], memo))
        if c is TRUE: r = _restrict(F, v.args[1], memo)
        elif c is FALSE: r = _restrict(F, v.args[2], memo)
        else: r = phi(c, _restrict(F, v.args[1], memo), _restrict(F, v.args[2], memo))
    elif v.op in ("and", "or", "not") or is_atom(v):
        r = F.simp(_restrict_cond(F, v, memo))
    elif v.op in ("list", "set", "dict", "rep"):
        # items with guards: drop those with a false guard
        pre = 1 if v.op == "rep" else 0
        items = []
        for it in v.args[pre:]:
            it2 = _restrict(F, it, memo)
            if isinstance(it2, V) and it2.op in ("one", "splice", "ent", "rep") and _guard(it2) is FALSE: continue
            items.append(it2)
        r = mk(v.op, *(tuple(_restrict(F, x, memo) for x in v.args[:pre]) + tuple(items)))
    else:
        r = mk(v.op, *[_restrict(F, a, memo) for a in v.args])
    memo[v] = r
    return r

def _guard(it):
    return it.args[0] if it.op in ("one", "splice", "ent") else TRUE

ATOM_OPS = {"isa", "truth", "isnone", "eq", "in", "cmp", "raises", "iter", "exists", "hasattr", "pred", "nonempty"}
def is_atom(v): return v.op in ATOM_OPS

def _loopfree(L, v, seen=None):
    """does the condition say the same thing for every element the loop goes through?"""
    if seen is None: seen = set()
    if isinstance(v, tuple): return all(_loopfree(L, x, seen) for x in v)
    if not isinstance(v, V) or v in seen: return True
    seen.add(v)
    if v is L or v.op in ("acc", "fold", "which", "iter", "raises"): return False
    if v.op in ("elem", "key", "val") and len(v.args) > 1 and v.args[1] == L.args[1]: return False
    if v.op in ("exists", "rep") and v.args[0].op == "loop" and v.args[0].args[1] == L.args[1]: return True       # its own element
    return all(_loopfree(L, x, seen) for x in v.args)

def exists(L, g):
    """some element of the loop satisfies g; what does not depend on the element stands outside"""
    if g is FALSE: return FALSE
    if g.op != "and":
        return cand(g, mk("exists", L, TRUE)) if g is not TRUE and _loopfree(L, g) else mk("exists", L, g)
    out = [a for a in g.args if _loopfree(L, a)]
    if not out: return mk("exists", L, g)
    rest = cand(*[a for a in g.args if a not in out])
    return cand(mk("exists", L, rest), *out) if rest is not FALSE else FALSE

def witness(g, loops, memo=None):
    """g, for the current elements of the loops: what holds for one of them holds for some element"""
    if memo is None: memo = {}
    if g in memo: return memo[g]
    if g.op == "not": r = cnot(_unwitness(g.args[0], loops, memo))
    elif g.op == "and": r = cand(*[witness(a, loops, memo) for a in g.args])
    elif g.op == "or": r = cor(*[witness(a, loops, memo) for a in g.args])
    elif g.op == "exists" and g.args[0] in loops: r = cor(g, witness(g.args[1], loops, memo))
    else: r = g
    memo[g] = r
    return r

def _unwitness(g, loops, memo):
    if g.op == "not": return cnot(witness(g.args[0], loops, memo))
    if g.op in ("and", "or"): return _nary(g.op, [_unwitness(a, loops, memo) for a in g.args])
    return g

def _outside(F, L):
    """what is known, without what is known about the current element of the loop"""
    keep = {a: p for a, p in F.lits.items() if _loopfree(L, a)}
    G = Facts(F.hier)
    for a, p in keep.items(): G.add(a if p else cnot(a))
    return G

def _restrict_cond(F, c, memo):
    if c is TRUE or c is FALSE: return c
    if c.op == "not": return cnot(_restrict_cond(F, c.args[0], memo))
    if c.op in ("and", "or"): return _nary(c.op, [_restrict_cond(F, a, memo) for a in c.args])
    r = F.ev(c)
    if r is not None: return TRUE if r else FALSE
    if c.op == "exists":
        G = _outside(F, c.args[0])
        inner = G.simp(_restrict_cond(G, c.args[1], {}))
        return exists(c.args[0], inner)
    return c

def walk(v, seen=None):
    """all sub-terms"""
    if seen is None: seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x); continue
        if not isinstance(x, V) or x in seen: continue
        seen.add(x)
        yield x
        stack.extend(x.args)

def contains(v, t):
    return any(x is t for x in walk(v))

def subst(v, m, memo=None):
    if memo is None: memo = {}
    if isinstance(v, tuple): return tuple(subst(x, m, memo) for x in v)
    if not isinstance(v, V): return v
    if v in m: return m[v]
    if v in memo: return memo[v]
    if v.op == "const": r = v
    elif v.op == "phi": r = phi(subst(v.args[0], m, memo), subst(v.args[1], m, memo), subst(v.args[2], m, memo))
    elif v.op in ("and", "or"): r = _nary(v.op, [subst(a, m, memo) for a in v.args])
    elif v.op == "not": r = cnot(subst(v.args[0], m, memo))
    else: r = mk(v.op, *[subst(a, m, memo) for a in v.args])
    memo[v] = r
    return r

BUDGET = 1 << 14

class _Budget:
    """number of case splits that may still be made"""
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
    def split(self):
        self.n -= 1
        return self.n >= 0

def implies(hier, g, h, limit=BUDGET, base=None):
    """does g entail h?  case splits over the atoms (with class/constant axioms); no when the budget runs out"""
    F = base.copy() if base is not None else Facts(hier)
    if not F.add(g): return True
    return _entails(F, h, limit)

def _entails(F, h, limit=BUDGET):
    b = limit if isinstance(limit, _Budget) else _Budget(limit if limit > 64 else 1 << limit)
    h = F.simp(h)
    if h is TRUE: return True
    if h is FALSE:
        return _inconsistent(F, b)
    if not b.split(): return False
    a = min(atoms(h), key=lambda v: v.n)
    for lit in (a, cnot(a)):
        G = F.copy()
        if not G.add(lit): continue
        if not _entails(G, h, b): return False
    return True

def _inconsistent(F, b):
    """are the pending disjunctions of F contradictory?"""
    if not F.comp or not b.split(): return False
    a = min(atoms(min(F.comp, key=lambda c: len(atoms(c)))), key=lambda v: v.n)
    for lit in (a, cnot(a)):
        G = F.copy()
        if G.add(lit):
            if not _inconsistent(G, b): return False
    return True

def unsat(F, depth=12):
    """are the pending disjunctions of F contradictory?"""
    return _inconsistent(F, _Budget(1 << depth))

# ---------------------------------------------------------------- printing
def show(v, depth=6):
    if isinstance(v, tuple): return "(" + ", ".join(show(x, depth) for x in v) + ")"
    if not isinstance(v, V): return str(v)
    if depth <= 0: return "…"
    o, a = v.op, v.args
    d = depth - 1
    if o == "const": return repr(a[1])
    if o == "param": return a[-1]
    if o == "attr": return show(a[0], d) + "." + a[1]
    if o == "ext": return a[0]
    if o == "phi": return "(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "not": return "!" + show(a[0], d)
    if o in ("and", "or"): return "(" + (" & " if o == "and" else " | ").join(show(x, d) for x in a) + ")"
    if o == "isa": return "isa(%s,%s)" % (show(a[0], d), a[1])
    if o == "truth": return "?" + show(a[0], d)
    if o == "node": return "%s(%s)" % (a[0], ", ".join("%s=%s" % (k, show(x, d)) for k, x in a[1] if k != "ctx"))
    if o == "list": return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "one": return (show(a[1], d) if a[0] is TRUE else "{%s} %s" % (show(a[0], d), show(a[1], d)))
    if o == "splice": return "*" + (show(a[1], d) if a[0] is TRUE else "{%s} %s" % (show(a[0], d), show(a[1], d)))
    if o == "cat": return "cat(" + ", ".join(show(x, d) for x in a[0]) + ")"
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"
