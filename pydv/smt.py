"""Sorts, spec functions, lemma instantiation and solver driver of the pydv verifier.

Every Python value is an element of the algebraic sort V; sequences (tuples, lists, deques) are
elements of L; dictionaries are arrays V -> Opt; sets are arrays V -> Bool.  Spec functions are
uninterpreted symbols whose defining equations (and separately proved lemmas) are instantiated on
the ground terms of a verification condition, so that every query stays quantifier free.
"""
import os, subprocess, tempfile, time
import z3
from z3 import (And, Or, Not, If, Implies, BoolVal, IntVal, Const, Store, Select, is_expr)

# ------------------------------------------------------------------ sorts
_V = z3.Datatype('V'); _L = z3.Datatype('L')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('flt', ('r', z3.RealSort()))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('tup', ('t', _L))
_V.declare('lit', ('lf', _V), ('la', _L), ('ln', _L))
_V.declare('var', ('vi', z3.IntSort()))
_V.declare('wild', ('wi', z3.IntSort()))
_V.declare('link', ('lh', _V), ('lt', _V))
_V.declare('una', ('uo', _V), ('ux', _V))
_V.declare('bino', ('bo', _V), ('bl', _V), ('br', _V))
_V.declare('fset', ('fs', _L))
_V.declare('obj', ('oc', z3.IntSort()), ('oi', z3.IntSort()))
_L.declare('nil')
_L.declare('cons', ('hd', _V), ('tl', _L))
V, L = z3.CreateDatatypes(_V, _L)
_O = z3.Datatype('Opt'); _O.declare('absent'); _O.declare('present', ('pv', V)); Opt = _O.create()
Map = z3.ArraySort(V, Opt)
Set = z3.ArraySort(V, z3.BoolSort())
Int = z3.IntSort(); Bool = z3.BoolSort(); Str = z3.StringSort(); Real = z3.RealSort()
TAGS = ['none', 'bool', 'int', 'flt', 'str', 'tup', 'lit', 'var', 'wild', 'link', 'una', 'bino', 'fset', 'obj']
NIL = L.nil
NONE = V.none
EMPTYMAP = z3.K(V, Opt.absent)
EMPTYSET = z3.K(V, BoolVal(False))
TRUE = V.bool(BoolVal(True)); FALSE = V.bool(BoolVal(False))

def tag(v, t): return getattr(V, 'is_' + t)(v)
def cons(h, t): return L.cons(h, t)
_ACC = {'lf': ('lit', 0), 'la': ('lit', 1), 'ln': ('lit', 2), 'lh': ('link', 0), 'lt': ('link', 1), 't': ('tup', 0), 'fs': ('fset', 0), 'uo': ('una', 0), 'ux': ('una', 1),
        'bo': ('bino', 0), 'bl': ('bino', 1), 'br': ('bino', 2)}
def fld(name, t):
    """V.<name>(t), projected when t is a constructor application"""
    c, i = _ACC[name]
    if z3.is_app(t) and t.decl().name() == c: return t.arg(i)
    return getattr(V, name)(t)
def mklist(xs):
    r = NIL
    for x in reversed(xs): r = L.cons(x, r)
    return r

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)

# ------------------------------------------------------------------ registry of instantiable facts
HANDLERS = {}          # decl name -> list of fn(term, index) -> facts
SPECFNS = {}
STORE_HANDLERS = []    # fn(arrayterm(Store), index)
SELECT_HANDLERS = []   # fn(select term, index)

def spec(name, *sorts):
    """Declare an uninterpreted spec function; decorate its unfolding."""
    f = z3.Function(name, *sorts)
    SPECFNS[name] = f
    return f

def unfolds(f):
    def deco(fn):
        memo = {}
        def h(t, ix):
            i = t.get_id(); r = memo.get(i)
            if r is None:
                info(t)                       # keeps t alive, so that its id stays valid
                r = memo[i] = [x for x in (fn(*ch(t)) or ()) if x is not True and x is not None]
            return r
        HANDLERS.setdefault(f.name(), []).append(h)
        return fn
    return deco

def handler(name):
    def deco(fn):
        HANDLERS.setdefault(name, []).append(fn)
        return fn
    return deco

# ------------------------------------------------------------------ list theory
llen = spec('llen', L, Int)
snoc = spec('snoc', L, V, L)
linit = spec('linit', L, L)
llast = spec('llast', L, V)
nth = spec('nth', L, Int, V)
drop = spec('drop', L, Int, L)
take = spec('take', L, Int, L)
app = spec('app', L, L, L)
mem = spec('mem', V, L, Bool)
remove1 = spec('remove1', L, V, L)
elems = spec('elems', Set, L)          # some enumeration of a set
toset = spec('toset', L, Set)          # set of the elements of a list
fsl = spec('fsl', L, L)                # enumeration of frozenset(list)
mkeys = spec('mkeys', Map, L)          # insertion-ordered keys of a dict
lreverse = spec('lreverse', L, L)

def lapp_snoc(l, x): return snoc(l, x)

@unfolds(llen)
def _(l): return [llen(l) >= 0, llen(l) == If(l == NIL, 0, 1 + llen(L.tl(l)))]
@unfolds(snoc)
def _(l, x):
    s = snoc(l, x)
    return [L.is_cons(s), llast(s) == x, linit(s) == l, llen(s) == llen(l) + 1,
            s == If(l == NIL, cons(x, NIL), cons(L.hd(l), snoc(L.tl(l), x)))]
@unfolds(linit)
def _(l): return [Implies(l != NIL, l == snoc(linit(l), llast(l)))]
@unfolds(llast)
def _(l): return [Implies(l != NIL, l == snoc(linit(l), llast(l)))]
@unfolds(nth)
def _(l, i):
    r = [Implies(And(i == 0, l != NIL), nth(l, i) == L.hd(l)),
         Implies(And(i > 0, l != NIL), nth(l, i) == nth(L.tl(l), i - 1)),
         Implies(And(i == llen(l) - 1, l != NIL), nth(l, i) == llast(l))]
    if z3.is_app(l) and l.decl().name() == 'snoc':
        a, x = l.children()
        r.append(Implies(i == llen(a), nth(l, i) == x))
        r.append(Implies(And(i >= 0, i < llen(a)), nth(l, i) == nth(a, i)))
    return r
@unfolds(drop)
def _(l, i):
    d = drop(l, i)
    return [Implies(i <= 0, d == l), Implies(i >= llen(l), d == NIL),
            Implies(And(i >= 0, i < llen(l)), d == cons(nth(l, i), drop(l, i + 1)))]
@unfolds(take)
def _(l, i):
    d = take(l, i)
    return [Implies(i <= 0, d == NIL), Implies(i >= llen(l), d == l),
            Implies(And(i > 0, i <= llen(l)), d == snoc(take(l, i - 1), nth(l, i - 1)))]
@unfolds(app)
def _(a, b):
    r = [app(a, b) == If(a == NIL, b, cons(L.hd(a), app(L.tl(a), b))), Implies(b == NIL, app(a, b) == a),
         llen(app(a, b)) == llen(a) + llen(b)]
    if z3.is_app(a) and a.decl().name() == 'snoc':
        c, x = a.children(); r.append(app(a, b) == app(c, cons(x, b)))
    if z3.is_app(a) and a.decl().name() == 'app':
        c, d = a.children(); r.append(app(a, b) == app(c, app(d, b)))
    return r
@unfolds(mem)
def _(x, l):
    xs = []; t = l
    while z3.is_app(t) and t.decl().name() == 'cons': xs.append(t.arg(0)); t = t.arg(1)
    if z3.is_app(t) and t.decl().name() == 'nil': return [mem(x, l) == Or(*[y == x for y in xs])]
    r = [mem(x, l) == If(l == NIL, False, Or(L.hd(l) == x, mem(x, L.tl(l))))]
    if z3.is_app(l) and l.decl().name() == 'snoc':
        a, y = l.children(); r.append(mem(x, l) == Or(mem(x, a), x == y))
    if z3.is_app(l) and l.decl().name() == 'elems':
        r.append(mem(x, l) == Select(l.children()[0], x))
    if z3.is_app(l) and l.decl().name() == 'mkeys':
        r.append(mem(x, l) == Opt.is_present(Select(l.children()[0], x)))
    if z3.is_app(l) and l.decl().name() == 'fsl':
        r.append(mem(x, l) == mem(x, l.children()[0]))
    if z3.is_app(l) and l.decl().name() == 'fsunion':
        r.append(mem(x, l) == Or(mem(x, l.children()[0]), mem(x, l.children()[1])))
    return r
@unfolds(remove1)
def _(l, x):
    return [remove1(l, x) == If(l == NIL, NIL, If(L.hd(l) == x, L.tl(l), cons(L.hd(l), remove1(L.tl(l), x))))]
@unfolds(fsl)
def _(l): return [Implies(l == NIL, fsl(l) == NIL), Implies(l != NIL, fsl(l) != NIL)]
# membership of an indexed element: a lemma (0 <= i < len  ->  mem(nth(l,i), l))
@handler('nth')
def _(t, ix):
    l, i = t.children()
    r = []
    if z3.is_app(l) and l.decl().name() in ('elems', 'mkeys', 'fsl'):
        r.append(Implies(And(0 <= i, i < llen(l)), mem(t, l)))
    return r

# Python == on V
pyeq = spec('pyeq', V, V, Bool)
pyeql = spec('pyeql', L, L, Bool)
pyeqobj = spec('pyeqobj', V, V, Bool)
isnum_ = lambda v: Or(V.is_bool(v), V.is_int(v), V.is_flt(v))
numval = lambda v: If(V.is_bool(v), If(V.b(v), z3.RealVal(1), z3.RealVal(0)),
                      If(V.is_int(v), z3.ToReal(V.i(v)), V.r(v)))
@unfolds(pyeq)
def _(a, b):
    e = pyeq(a, b)
    return [Implies(a == b, e),
            Implies(And(isnum_(a), isnum_(b)), e == (numval(a) == numval(b))),
            Implies(And(V.is_str(a), V.is_str(b)), e == (a == b)),
            Implies(And(V.is_tup(a), V.is_tup(b)), e == pyeql(V.t(a), V.t(b))),
            Implies(And(Not(Or(V.is_lit(a), V.is_link(a), V.is_lit(b), V.is_link(b))),
                        Not(And(isnum_(a), isnum_(b))), Not(And(V.is_tup(a), V.is_tup(b)))), e == (a == b)),
            Implies(Or(V.is_lit(a), V.is_link(a), V.is_lit(b), V.is_link(b)), e == pyeqobj(a, b)),
            # == between a literal/list and anything that is neither is settled by the method contracts (C16)
            ]
@unfolds(pyeql)
def _(a, b):
    return [pyeql(a, b) == If(Or(a == NIL, b == NIL), And(a == NIL, b == NIL),
                              And(pyeq(L.hd(a), L.hd(b)), pyeql(L.tl(a), L.tl(b))))]

# ------------------------------------------------------------------ saturation
class Index(object):
    __slots__ = ('by', 'ids', 'x')
    def __init__(self): self.by = {}; self.ids = set(); self.x = {}

_info = {}     # ast id -> (term, children, decl name, decl kind); the term is kept alive so that ids stay valid
def info(t):
    i = t.get_id()
    r = _info.get(i)
    if r is None:
        if z3.is_quantifier(t): r = (t, (), '', -1)
        else:
            d = t.decl(); r = (t, tuple(t.children()), d.name(), d.kind())
        _info[i] = r
    return r
def ch(t): return info(t)[1]
def subterms(fs, seen, out):
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen[i] = t
        _, c, nm, k = info(t)
        if k == -1: continue
        if c or k == z3.Z3_OP_UNINTERPRETED: out.append(t)
        stack.extend(c)

MAXTERMS = 6000
class Sat(object):
    """the instances of definitions and lemmas on a growing set of ground terms"""
    __slots__ = ('seen', 'facts', 'factids', 'ix', 'done', 'qdone', 'key')
    def __init__(self): self.seen = {}; self.facts = []; self.factids = set(); self.ix = Index(); self.done = set(); self.qdone = set(); self.key = ()
    def fork(self):
        s = Sat.__new__(Sat); s.seen = dict(self.seen); s.facts = list(self.facts); s.factids = set(self.factids); s.done = set(self.done); s.qdone = set(self.qdone); s.key = self.key
        s.ix = Index(); s.ix.by = {k: list(v) for k, v in self.ix.by.items()}; s.ix.ids = set(self.ix.ids)
        s.ix.x = {k: ({a: (b.copy() if hasattr(b, 'copy') else b) for a, b in v.items()} if isinstance(v, dict) else v.copy() if hasattr(v, 'copy') else v) for k, v in self.ix.x.items()}
        return s
    def extend(self, formulas, fuel, qfacts=()):
        """add formulas: `fuel` generations deep from their terms"""
        frontier = []; done = self.done; ix = self.ix; seen = self.seen; limit = len(seen) + MAXTERMS
        walk(formulas, done, frontier, seen)
        for gen in range(fuel):
            for t in frontier:
                done.add(t.get_id()); ix.by.setdefault(info(t)[2], []).append(t)
            new = []
            for t in frontier:
                _, _, nm, k = info(t)
                hs = HANDLERS.get(nm)
                if hs and k != z3.Z3_OP_SELECT and k != z3.Z3_OP_STORE:
                    for h in hs: new.extend(h(t, ix) or ())
                if k == z3.Z3_OP_SELECT:
                    for h in SELECT_HANDLERS: new.extend(h(t, ix) or ())
                    for q in qfacts:
                        key = (id(q), t.get_id())
                        if key not in self.qdone:
                            self.qdone.add(key); new.extend(q(t) or ())
                elif k == z3.Z3_OP_STORE or k == z3.Z3_OP_CONST_ARRAY:
                    for h in STORE_HANDLERS: new.extend(h(t, ix) or ())
            frontier = []
            add = []
            for f in new:
                if f is True or f is None: continue
                i = f.get_id()
                if i in self.factids: continue
                self.factids.add(i); info(f); add.append(f); self.facts.append(f)
            subterms(add, seen, frontier)
            if not frontier or len(seen) > limit: break
def walk(fs, done, out, seen):
    """the terms of the formulas that have not been indexed yet"""
    stack = list(fs); here = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in here or i in done: continue
        here.add(i); seen[i] = t
        _, c, nm, k = info(t)
        if k == -1: continue
        if c or k == z3.Z3_OP_UNINTERPRETED: out.append(t)
        stack.extend(c)
def saturate(formulas, fuel, qfacts=()):
    """Instantiate definitions / lemmas on ground terms, `fuel` generations deep."""
    s = Sat(); s.extend(formulas, fuel, qfacts); return s.facts
CACHE = []          # saturations of recent paths, latest last
def base(pc, fuel, qfacts):
    """the saturation of a path, from that of a recent path it continues"""
    key = tuple(f.get_id() for f in pc); qk = (fuel, tuple(id(q) for q in qfacts)); best = None
    for n, (q, s) in enumerate(CACHE):
        k = s.key
        if q == qk and len(k) <= len(key) and key[:len(k)] == k and (best is None or len(k) > len(CACHE[best][1].key)): best = n
    if best is None: s = Sat()
    else:
        e = CACHE.pop(best); CACHE.append(e)
        if len(e[1].key) == len(key): return e[1]
        s = e[1].fork()
    s.extend(pc[len(s.key):], fuel, qfacts); s.key = key
    CACHE.append((qk, s)); del CACHE[:-12]
    return s
def quick(pc, more, fuel, qfacts=()):
    """instances for a path and a few more formulas"""
    s = base(pc, fuel, qfacts)
    if more: s = s.fork(); s.extend(more, fuel, qfacts)
    return s.facts

# ------------------------------------------------------------------ solving
class Stats(object):
    def __init__(self): self.queries = 0; self.time = 0.0; self.by = {}; self.unknown = 0
STATS = Stats()
TIMEOUT = 8000
RLIMIT_PER_MS = 4000       # deterministic resource limit standing for a millisecond

def check_sat(formulas, timeout=None, want_model=False):
    s = z3.SolverFor('ALL') if False else z3.Solver()
    ms = timeout or TIMEOUT
    s.set('rlimit', ms * RLIMIT_PER_MS); s.set('timeout', ms * 6)
    s.add(*formulas)
    t = time.time()
    r = s.check()
    STATS.queries += 1; STATS.time += time.time() - t
    if r == z3.sat: return 'sat', (s.model() if want_model else None)
    if r == z3.unsat: return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None

def cvc5_check(formulas, timeout=10000):
    s = z3.Solver(); s.add(*formulas)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(check-sat)', '') + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); name = f.name
    t = time.time()
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % timeout, name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        r = o.stdout.strip().split('\n')[-1] if o.stdout.strip() else 'error: ' + o.stderr[:200]
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(name)
    return r, time.time() - t

FUELS = (2, 3, 4)
def prove(pc, goal, qfacts=(), fuels=None, timeout=None, fallback=True):
    """Returns (status, backend, model, formulas); status in proved/failed/unknown."""
    if goal is True: return 'proved', 'trivial', None, None
    ng = Not(goal) if is_expr(goal) else BoolVal(not goal)
    last = None; pc = list(pc); fl = list(fuels or FUELS)
    for fu, whole in [(f, False) for f in fl] + [(fl[-1], True)]:
        fs = pc + [ng]
        inst = saturate(fs, fu, qfacts) if whole else quick(pc, [ng], fu, qfacts)
        if whole and {f.get_id() for f in inst} <= {f.get_id() for f in last[2]}: break
        fs = fs + inst
        r, m = check_sat(fs, timeout, want_model=True)
        last = (r, m, fs)
        if r == 'unsat':
            STATS.by['z3'] = STATS.by.get('z3', 0) + 1
            return 'proved', 'z3', None, fs
        if r == 'unknown': break
    if last[0] == 'unknown' and not fallback: return 'unknown', 'timeout', None, last[2]
    if last[0] == 'unknown':
        r, _ = cvc5_check(last[2])
        if r == 'unsat':
            STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
            return 'proved', 'cvc5', None, last[2]
        return 'unknown', r, None, last[2]
    return 'failed', 'z3', last[1], last[2]

# ------------------------------------------------------------------ lemmas (proved by induction)
class Lemma(object):
    ALL = []
    def __init__(self, name, cases, view=None):
        """cases() -> list of (label, hyps, goal): induction cases to be discharged."""
        self.name = name; self.cases = cases; self.view = view
        Lemma.ALL.append(self)
    def check(self):
        out = []
        for label, hyps, goal in self.cases():
            st, be, m, fs = prove(hyps, goal, fuels=(1, 2, 3))
            out.append((label, st, be))
        return out
