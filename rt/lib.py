"""Run-time evaluation of the contracts over generated inputs (bounded stand-in and witness search).

Runs under the interpreter of the code under test.  Every check is a function check(rng, size) that
builds one input from the random generator, runs the real code on it and raises Fail(what) when the
contract does not hold on that input.  A failing input is identified by (check, seed, size).
"""
import sys, os, random, collections, signal, time, traceback, io, json, contextlib, logging
REPO = os.environ.get('PYDV_REPO', '/repo')
sys.path.insert(0, REPO); sys.dont_write_bytecode = True
import agentspeak, agentspeak.runtime as RT, agentspeak.stdlib as SL, agentspeak.parser as PA, agentspeak.lexer as LX
from agentspeak import Var, Wildcard, Literal, LinkedList, UnaryExpr, BinaryExpr, UnaryOp, BinaryOp, AslError, Trigger, GoalType
logging.disable(logging.CRITICAL)

class Fail(Exception): pass
class Skip(Exception): pass
class Hang(BaseException): pass
CHECKS = collections.OrderedDict()      # property -> [(name, fn, weight)]
def check(prop, weight=1):
    def deco(f):
        CHECKS.setdefault(prop, []).append((f.__name__, f, weight)); return f
    return deco
def require(ok, what, *args):
    if not ok: raise Fail(what % args if args else what)

# ------------------------------------------------------------------ reference view of terms
def isvar(t): return isinstance(t, Var) and not isinstance(t, Wildcard)
def iswild(t): return isinstance(t, Wildcard)
def isnum(t): return isinstance(t, (int, float)) and not isinstance(t, bool)
def islit(t): return isinstance(t, Literal)
class TypeErr(Exception): pass
def walk(t, s):
    """dereference and evaluate the top of a term under substitution s (a dict)"""
    n = 0
    while isvar(t) and t in s:
        t = s[t]; n += 1
        if n > 10000: raise Skip()
    if isinstance(t, (UnaryExpr, BinaryExpr)): return rvalue(t, s)
    return t
import operator as _op
_UN = {'not': _op.not_, '+': _op.pos, '-': _op.neg}
_BI = {'**': _op.pow, '*': _op.mul, '/': _op.truediv, 'div': _op.floordiv, 'mod': _op.mod, '+': _op.add, '-': _op.sub,
       '<': _op.lt, '<=': _op.le, '\\==': _op.ne, '==': _op.eq, '>=': _op.ge, '>': _op.gt, '&': lambda a, b: a and b, '|': lambda a, b: a or b}
NUMOPS = ('**', '*', '/', 'div', 'mod', '+', '-'); CMPOPS = ('<', '<=', '\\==', '==', '>=', '>'); BOOLOPS = ('&', '|')
def rvalue(t, s):
    """reference value of an expression; TypeErr when it has none"""
    if isinstance(t, UnaryExpr):
        x = walk(t.operand, s); o = t.unary_op.lexeme
        if (o == 'not') != isinstance(x, bool) or (o != 'not' and not isnum(x)): raise TypeErr(o)
        return _UN[o](x)
    a = walk(t.left, s); b = walk(t.right, s); o = t.binary_op.lexeme
    if o in NUMOPS and not (isnum(a) and isnum(b)): raise TypeErr(o)
    if o in BOOLOPS and not (isinstance(a, bool) and isinstance(b, bool)): raise TypeErr(o)
    if o in CMPOPS:
        if not (rground(a, s) and rground(b, s)): raise TypeErr(o)
        a = apply(a, s); b = apply(b, s)
    try:
        r = _BI[o](a, b)
        if isinstance(r, complex): raise Skip()
        return r
    except (ZeroDivisionError, OverflowError, TypeError): raise TypeErr(o)
def shape(t):
    if isinstance(t, tuple): return ('cons', t[0], t[1:]) if t else ('nil',)
    if isinstance(t, LinkedList): return ('cons', t.head, t.tail)
    if islit(t): return ('lit', t.functor, len(t.args))
    if isinstance(t, bool): return ('bool', t)
    if isnum(t): return ('num', t)
    if isinstance(t, str): return ('str', t)
    return ('other', t)
class Cyclic(Exception): pass
def occurs(v, t, s):
    t = walk(t, s)
    if t is v: return True
    if isinstance(t, tuple): return any(occurs(v, x, s) for x in t)
    if isinstance(t, LinkedList): return occurs(v, t.head, s) or occurs(v, t.tail, s)
    if islit(t): return any(occurs(v, x, s) for x in t.args) or any(occurs(v, x, s) for x in t.annots)
    return False
def runify(l, r, s):
    """reference unification (annotations aside): new substitution or None; Cyclic if the occurs check fails"""
    l = walk(l, s); r = walk(r, s)
    if iswild(l) or iswild(r) or l is r: return s
    if isvar(l) or isvar(r):
        if not isvar(l): l, r = r, l
        if occurs(l, r, s): raise Cyclic()
        s = dict(s); s[l] = r; return s
    a, b = shape(l), shape(r)
    if a[0] != b[0]: return None
    if a[0] == 'nil': return s
    if a[0] == 'cons':
        s = runify(a[1], b[1], s)
        return None if s is None else runify(a[2], b[2], s)
    if a[0] == 'lit':
        if a != b: return None
        for x, y in zip(l.args, r.args):
            s = runify(x, y, s)
            if s is None: return None
        return s
    return s if a[1] == b[1] else None
def rmatch(l, r, s, limit=2000):
    """every way to match l with r including annotations: generator of substitutions"""
    l0, r0 = walk(l, s), walk(r, s)
    s1 = runify(l0, r0, s)
    if s1 is None: return
    if not (islit(l0) and islit(r0)): yield s1; return
    yield from rannots(list(l0.annots), list(r0.annots), s1)
def rannots(ls, rs, s):
    if not ls: yield s; return
    for i, r in enumerate(rs):
        for s1 in rmatch(ls[0], r, s): yield from rannots(ls[1:], rs[:i] + rs[i + 1:], s1)
def rground(t, s):
    t = walk(t, s)
    if isinstance(t, Var): return False
    if isinstance(t, tuple): return all(rground(x, s) for x in t)
    if isinstance(t, LinkedList): return rground(t.head, s) and rground(t.tail, s)
    if islit(t): return all(rground(x, s) for x in t.args) and all(rground(x, s) for x in t.annots)
    return True
def canon(t, s, names=None, annots=True):
    """canonical form of the denoted term; unbound variables are numbered in order of first occurrence"""
    names = {} if names is None else names
    def go(t, d):
        if d > 200: raise Skip()
        t = walk(t, s)
        if iswild(t): return ('_',)
        if isvar(t): return ('V', names.setdefault(t, len(names)))
        if isinstance(t, tuple):
            r = ('nil',)
            xs = [go(x, d + 1) for x in t]
            for x in reversed(xs): r = ('cons', x, r)
            return r
        if isinstance(t, LinkedList):
            h = go(t.head, d + 1); return ('cons', h, go(t.tail, d + 1))
        if islit(t):
            a = tuple(go(x, d + 1) for x in t.args)
            if not annots or not t.annots: return ('lit', t.functor, a)
            return ('lit', t.functor, a, tuple(sorted(set(go(x, d + 1) for x in t.annots), key=repr)))
        if isinstance(t, bool): return ('bool', t)
        if isnum(t): return ('num', float(t))
        return (type(t).__name__, t)
    return go(t, 0)
def tvars(t, s=None, acc=None):
    """variables of a term (under s)"""
    acc = [] if acc is None else acc
    s = s or {}
    t = t if not (isvar(t) and t in s) else walk(t, s)
    if isvar(t):
        if t not in acc: acc.append(t)
    elif isinstance(t, tuple):
        for x in t: tvars(x, s, acc)
    elif isinstance(t, LinkedList): tvars(t.head, s, acc); tvars(t.tail, s, acc)
    elif islit(t):
        for x in t.args: tvars(x, s, acc)
        for x in t.annots: tvars(x, s, acc)
    elif isinstance(t, UnaryExpr): tvars(t.operand, s, acc)
    elif isinstance(t, BinaryExpr): tvars(t.left, s, acc); tvars(t.right, s, acc)
    return acc
def haswild(t):
    if iswild(t): return True
    if isinstance(t, tuple): return any(haswild(x) for x in t)
    if isinstance(t, LinkedList): return haswild(t.head) or haswild(t.tail)
    if islit(t): return any(haswild(x) for x in t.args) or any(haswild(x) for x in t.annots)
    return False
def show(t, s=None, depth=0):
    """readable, deterministic rendering"""
    if depth > 20: return '...'
    if isvar(t):
        return 'V%d' % NAMES.setdefault(t, len(NAMES))
    if iswild(t): return '_'
    if isinstance(t, tuple): return '[%s]' % ', '.join(show(x, s, depth + 1) for x in t)
    if isinstance(t, LinkedList): return '[%s|%s]' % (show(t.head, s, depth + 1), show(t.tail, s, depth + 1))
    if islit(t):
        r = str(t.functor)
        if t.args: r += '(%s)' % ', '.join(show(x, s, depth + 1) for x in t.args)
        if t.annots: r += '[%s]' % ', '.join(sorted(show(x, s, depth + 1) for x in t.annots))
        return r
    if isinstance(t, UnaryExpr): return '(%s %s)' % (t.unary_op.lexeme, show(t.operand, s, depth + 1))
    if isinstance(t, BinaryExpr): return '(%s %s %s)' % (show(t.left, s, depth + 1), t.binary_op.lexeme, show(t.right, s, depth + 1))
    return repr(t)
NAMES = {}
def shows(s): return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in s.items())

# ------------------------------------------------------------------ generators
ATOMS = ['a', 'b', 'c']; FUNS = [('f', 1), ('f', 2), ('g', 2), ('p', 1)]
class G(object):
    """term generator with a pool of variables"""
    def __init__(self, rng, nvars=4, wild=True, annots=True, exprs=False, bools=True, strings=True, varexprs=False):
        self.varexprs = varexprs; self.r = rng; self.vars = [Var() for _ in range(nvars)]; self.wild = wild; self.annots = annots; self.exprs = exprs; self.bools = bools; self.strings = strings
    def const(self):
        k = self.r.randrange(8)
        if k < 3: return Literal(self.r.choice(ATOMS))
        if k < 5 or (k == 5 and not self.strings) or (k >= 6 and not self.bools): return self.r.choice([0, 1, 2, 1.0, -1, 0.5, 2.0])
        if k == 5: return self.r.choice(['', 's', 'a'])
        return self.r.choice([True, False])
    def lit(self, d=2, functor=None, arity=None, annots=None):
        if functor is None: functor, arity = self.r.choice(FUNS)
        n = 0
        if self.annots if annots is None else annots: n = self.r.choice([0, 0, 0, 1, 1, 2])
        return Literal(functor, [self.term(d - 1) for _ in range(arity)], [self.annot(d - 1) for _ in range(n)])
    def annot(self, d=1):
        if self.r.random() < 0.2: return self.term(d)
        if self.r.random() < 0.4: return Literal(self.r.choice(ATOMS))
        return Literal(self.r.choice(['src', 'q']), [self.term(d)])
    def term(self, d=2):
        k = self.r.random()
        if self.vars and k < 0.3: return self.r.choice(self.vars)
        if self.wild and k < 0.34: return Wildcard()
        if self.exprs and k < 0.38: return self.numexpr(2)
        if d <= 0 or k < 0.55: return self.const()
        if k < 0.8: return self.lit(d)
        if k < 0.9: return tuple(self.term(d - 1) for _ in range(self.r.randrange(4)))
        tail = self.r.choice(['var', 'tup', 'link']) if self.vars else 'tup'
        if tail == 'var': return LinkedList(self.term(d - 1), self.r.choice(self.vars))
        if tail == 'tup': return LinkedList(self.term(d - 1), tuple(self.term(d - 1) for _ in range(self.r.randrange(3))))
        return LinkedList(self.term(d - 1), LinkedList(self.term(d - 1), self.r.choice(self.vars + [()])))
    def ground(self, d=2):
        v, w = self.vars, self.wild
        self.vars, self.wild = [], False
        try: return self.term(d)
        finally: self.vars, self.wild = v, w
    def glit(self, functor, arity, d=2, annots=None):
        v, w = self.vars, self.wild
        self.vars, self.wild = [], False
        try: return self.lit(d, functor, arity, annots)
        finally: self.vars, self.wild = v, w
    def numexpr(self, d):
        if self.varexprs and self.vars and self.r.random() < 0.3: return self.r.choice(self.vars)
        if d <= 0 or self.r.random() < 0.3: return self.r.choice([0, 1, 2, 3, 1.5])
        if self.r.random() < 0.2: return UnaryExpr(UnaryOp.op_neg.value, self.numexpr(d - 1))
        return BinaryExpr(self.r.choice([BinaryOp.op_add, BinaryOp.op_sub, BinaryOp.op_mul]).value, self.numexpr(d - 1), self.numexpr(d - 1))
    def scope(self, d=1):
        """acyclic bindings for some of the variables (later variables only)"""
        s = {}
        vs = list(self.vars); self.r.shuffle(vs)
        for i, v in enumerate(vs):
            if self.r.random() < 0.4:
                save = self.vars; self.vars = vs[i + 1:]
                s[v] = self.term(d); self.vars = save
                if iswild(s[v]): s[v] = self.const()      # no variable is ever bound to a wildcard itself (Var.unify)
        return s
    def similar(self, t, d=3):
        """a term that has a good chance to unify with t"""
        k = self.r.random()
        if k < 0.15 and self.vars: return self.r.choice(self.vars)
        if k < 0.2: return self.term(d)
        if k < 0.23 and self.wild: return Wildcard()
        if isinstance(t, tuple):
            xs = [self.similar(x, d - 1) for x in t]
            if self.r.random() < 0.4 and xs:
                i = self.r.randrange(len(xs)) if self.r.random() < 0.5 else len(xs) - 1
                tail = tuple(xs[i + 1:]) if self.r.random() < 0.6 or not self.vars else self.r.choice(self.vars)
                for x in reversed(xs[:i + 1]): tail = LinkedList(x, tail)
                return tail
            return tuple(xs)
        if isinstance(t, LinkedList):
            h, tl = self.similar(t.head, d - 1), self.similar(t.tail, d - 1)
            if isinstance(tl, tuple) and self.r.random() < 0.5: return (h,) + tl
            return LinkedList(h, tl)
        if islit(t):
            an = [self.similar(x, d - 1) for x in t.annots]
            if self.annots and self.r.random() < 0.3: an.append(self.annot())
            if an and self.r.random() < 0.3: an.pop()
            xs = [self.similar(x, d - 1) for x in t.args]
            if xs and self.r.random() < 0.03: xs.pop()
            elif xs and self.r.random() < 0.03: xs.append(self.const())
            return Literal(t.functor, xs, an if self.annots else ())
        if isnum(t) and self.r.random() < 0.2: return float(t) if not isinstance(t, float) else t
        if self.r.random() < 0.08: return self.const()
        return t

def trailcopy(stack): return list(stack)
def same_trail(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))
def same_scope(a, b): return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())

class TestEnv(RT.Environment):
    """environment with a controllable clock"""
    def __init__(self):
        RT.Environment.__init__(self); self.now = 1000.0
    def time(self): return self.now

# ------------------------------------------------------------------ reference queries
class Rq(object):
    """a query built twice: the real object and the reference reading"""
    def __init__(self, real, kind, *parts): self.real = real; self.kind = kind; self.parts = parts
    def __str__(self):
        if self.kind == 'and': return '(%s & %s)' % self.parts
        if self.kind == 'or': return '(%s | %s)' % self.parts
        if self.kind == 'not': return 'not (%s)' % self.parts
        if self.kind == 'unify': return '%s = %s' % tuple(show(p) for p in self.parts)
        if self.kind == 'term': return show(self.parts[0])
        if self.kind == 'member': return '.member(%s)' % ', '.join(show(p) for p in self.parts)
        return self.kind
class World(object):
    """beliefs and rules, on the real agent and for the reference"""
    def __init__(self, agent): self.agent = agent; self.beliefs = {}; self.rules = []
    def describe(self):
        return 'beliefs: %s; rules: %s' % (', '.join(sorted(show(b) for bs in self.beliefs.values() for b in bs)), '; '.join('%s :- %s' % (show(h), q) for h, q in self.rules))
def rename(t, m):
    if iswild(t): return t
    if isvar(t): return m.setdefault(t, Var())
    if isinstance(t, tuple): return tuple(rename(x, m) for x in t)
    if isinstance(t, LinkedList): return LinkedList(rename(t.head, m), rename(t.tail, m))
    if islit(t): return Literal(t.functor, [rename(x, m) for x in t.args], [rename(x, m) for x in t.annots])
    if isinstance(t, UnaryExpr): return UnaryExpr(t.unary_op, rename(t.operand, m))
    if isinstance(t, BinaryExpr): return BinaryExpr(t.binary_op, rename(t.left, m), rename(t.right, m))
    return t
def solve(q, s, w, m=None, depth=0):
    """reference solutions of a query: generator of substitutions"""
    if depth > 40: raise Skip()
    if q.kind == 'true': yield s
    elif q.kind == 'false': return
    elif q.kind == 'and':
        for s1 in solve(q.parts[0], s, w, m, depth + 1): yield from solve(q.parts[1], s1, w, m, depth + 1)
    elif q.kind == 'or':
        yield from solve(q.parts[0], s, w, m, depth + 1); yield from solve(q.parts[1], s, w, m, depth + 1)
    elif q.kind == 'not':
        if next(solve(q.parts[0], s, w, m, depth + 1), None) is None: yield s
    elif q.kind == 'unify':
        for s1 in rmatch(rn(q.parts[0], m), rn(q.parts[1], m), s): yield s1; break
    elif q.kind == 'member':
        x, l = rn(q.parts[0], m), walk(rn(q.parts[1], m), s)
        for y in l:
            s1 = runify(x, y, s)
            if s1 is not None: yield s1
    elif q.kind == 'term':
        t = walk(rn(q.parts[0], m), s)
        if t is True: yield s; return
        if t is False: return
        if not islit(t): raise TypeErr('query')
        g = (t.functor, len(t.args))
        for b in w.order(g) if hasattr(w, 'order') else w.beliefs.get(g, ()):
            for s1 in rmatch(t, b, s): yield s1; break
        for head, body in w.rules:
            if (head.functor, len(head.args)) != g: continue
            m2 = {}
            s1 = runify(t, rename(head, m2), s)
            if s1 is not None: yield from solve(body, s1, w, m2, depth + 1)
    else: raise AssertionError(q.kind)
def rn(t, m):
    """a rule's own variables, renamed apart (m is None at the top level)"""
    return t if m is None else rename(t, m)

PREDS = [('p', 1), ('q', 2), ('r', 1), ('s', 0)]
MEMBER = SL.actions.lookup('.member', 2)
def gen_query(rng, g, d=3, preds=PREDS, neg=True):
    k = rng.random()
    if d > 0 and k < 0.25:
        a, b = gen_query(rng, g, d - 1, preds, neg), gen_query(rng, g, d - 1, preds, neg)
        return Rq(RT.AndQuery(a.real, b.real), 'and', a, b)
    if d > 0 and k < 0.45:
        a, b = gen_query(rng, g, d - 1, preds, neg), gen_query(rng, g, d - 1, preds, neg)
        return Rq(RT.OrQuery(a.real, b.real), 'or', a, b)
    if d > 0 and neg and k < 0.55:
        a = gen_query(rng, g, d - 1, preds, neg)
        return Rq(RT.NotQuery(a.real), 'not', a)
    if k < 0.65:
        a = g.term(1); b = g.similar(a, 1) if rng.random() < 0.6 else g.term(1)
        return Rq(RT.UnifyQuery(a, b), 'unify', a, b)
    if k < 0.69: return Rq(RT.TrueQuery(), 'true')
    if k < 0.72: return Rq(RT.FalseQuery(), 'false')
    if k < 0.78:
        x = g.term(1); l = tuple(g.term(1) for _ in range(rng.randrange(4)))
        return Rq(RT.ActionQuery(Literal('.member', [x, l]), MEMBER), 'member', x, l)
    f, n = rng.choice(preds)
    t = g.lit(2, f, n, annots=g.annots and rng.random() < 0.3)
    if getattr(g, 'argwild', False) and t.args and rng.random() < 0.1: k = rng.randrange(len(t.args)); t = Literal(f, t.args[:k] + (Wildcard(),) + t.args[k + 1:])
    return Rq(RT.TermQuery(t), 'term', t)
def gen_world(rng, env=None, maxbeliefs=3, rules=True, annots=True, wild=True):
    agent = RT.Agent(env or TestEnv(), 'me')
    w = World(agent)
    g = G(rng, 0, wild=False, annots=annots, bools=False)
    for f, n in PREDS:
        for _ in range(rng.randrange(maxbeliefs + 1)):
            b = g.glit(f, n, 1, annots=annots and rng.random() < 0.4)
            if b in w.beliefs.get((f, n), ()): continue
            agent.beliefs[(f, n)].add(b)
        w.beliefs[(f, n)] = list(agent.beliefs[(f, n)])
    if rules:
        lower = PREDS[:]
        for _ in range(rng.randrange(4)):
            f, n = rng.choice([('t', 1), ('u', 2), ('p', 1)])
            rg = G(rng, 3, wild=wild, annots=False, bools=False)
            head = rg.lit(1, f, n)
            preds = [x for x in PREDS if x != ('p', 1)] if f == 'p' else PREDS + ([('t', 1)] if f == 'u' else [])
            q = gen_query(rng, rg, 2, preds)
            agent.add_rule(RT.Rule(head, q.real)); w.rules.append((head, q))
    return w
ALLPREDS = PREDS + [('t', 1), ('u', 2)]
def new_intention(scope):
    i = RT.Intention(); i.scope.update(scope)
    for v in scope: i.stack.append(v)
    return i
def reference_solutions(q, s, w, limit=200):
    out = []
    try:
        for s1 in solve(q, s, w):
            out.append(s1)
            if len(out) > limit: raise Skip()
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    return out
def variant(t, s, u, s2, m=None):
    """t under s and u under s2 denote the same term up to a one-to-one renaming of unbound variables (annotations are sets)"""
    return next(variants([(t, u)], s, s2, {} if m is None else m), None) is not None
def variants(pairs, s, s2, m):
    """all one-to-one renamings (dict of variables, both ways) that identify every pair"""
    if not pairs: yield m; return
    t, u = walk(pairs[0][0], s), walk(pairs[0][1], s2); rest = pairs[1:]
    if iswild(t) or iswild(u):
        if iswild(t) and iswild(u): yield from variants(rest, s, s2, m)
        return
    if isvar(t) or isvar(u):
        if isvar(t) and isvar(u):
            a, b = ('l', t), ('r', u)
            if a in m or b in m:
                if m.get(a) is u and m.get(b) is t: yield from variants(rest, s, s2, m)
            else: yield from variants(rest, s, s2, {**m, a: u, b: t})
        return
    a, b = shape(t), shape(u)
    if a[0] != b[0]: return
    if a[0] == 'cons': yield from variants([(a[1], b[1]), (a[2], b[2])] + rest, s, s2, m); return
    if a[0] == 'lit':
        if a != b: return
        for m1 in variants(list(zip(t.args, u.args)), s, s2, m):
            for m2 in annots_variants(dedup(t.annots, s), dedup(u.annots, s2), s, s2, m1): yield from variants(rest, s, s2, m2)
        return
    if a == b: yield from variants(rest, s, s2, m)
def dedup(xs, s):
    out = []; names = {}
    for x in xs:
        c = canon(x, s, names)
        if all(c != y for y, _ in out): out.append((c, x))
    return [x for _, x in out]
def annots_variants(ls, rs, s, s2, m):
    if not ls:
        if not rs: yield m
        return
    for k, r in enumerate(rs):
        for m1 in variants([(ls[0], r)], s, s2, m): yield from annots_variants(ls[1:], rs[:k] + rs[k + 1:], s, s2, m1)
def apply(t, s):
    """the term with the bindings applied"""
    t = walk(t, s)
    if isinstance(t, tuple): return tuple(apply(x, s) for x in t)
    if isinstance(t, LinkedList): return LinkedList(apply(t.head, s), apply(t.tail, s))
    if islit(t): return Literal(t.functor, [apply(x, s) for x in t.args], [apply(x, s) for x in t.annots])
    return t
