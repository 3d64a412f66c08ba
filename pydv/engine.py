"""pydv: a contract verifier for the Python sources in /repo/agentspeak.

The engine executes the abstract syntax tree of the real functions symbolically, path by path,
for all inputs; loops are cut by invariants, calls by contracts (or, when a callee has no contract,
by executing the callee's own body), and every check becomes an SMT query.
"""
import ast, builtins, collections, copy, functools, inspect, operator, sys, time, types, enum, fractions
from pydv.smt import *
import z3

class Unsupported(Exception): pass
class Budget(Exception): pass

# ------------------------------------------------------------------ engine values
class EV(object): pass
class Live(EV):
    def __init__(self, obj): self.obj = obj
    def __repr__(self): return 'Live(%r)' % (self.obj,)
class TupE(EV):
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return 'TupE%r' % (self.items,)
class Bound(EV):
    def __init__(self, fn, self_): self.fn = fn; self.self_ = self_
class BMeth(EV):
    """method `name` of builtin kind (dict/seq/set/str/tup...)"""
    def __init__(self, kind, name): self.kind = kind; self.name = name
class Closure(EV):
    def __init__(self, node, fid, module, qual, defaults): self.node = node; self.fid = fid; self.module = module; self.qual = qual; self.defaults = defaults
class GenE(EV):
    def __init__(self, node, fr, st): self.node = node; self.fr = fr
class GenCall(EV):
    def __init__(self, fn, args, contract=None): self.fn = fn; self.args = args; self.contract = contract
class It(EV):
    """iteration: lists `ls` walked in parallel; elem(idx)->value; length expr"""
    def __init__(self, ls, elem, length, guard=None): self.ls = ls; self.elem = elem; self.length = length; self.guard = guard
class IFn(EV):
    """a method known only through its interface contract"""
    def __init__(self, name, params, contract):
        self.fn = Fn(ast.parse('def %s(%s): pass' % (name, ', '.join(params))).body[0], 'iface', name); self.contract = contract
class PartialE(EV):
    def __init__(self, fn, args, kw): self.fn = fn; self.args = args; self.kw = kw
class Proto(EV):
    def __init__(self, pid, cls): self.pid = pid; self.cls = cls
class ExcV(EV):
    def __init__(self, cls, args=(), val=None): self.cls = cls; self.args = args; self.val = val
    def __repr__(self): return 'Exc(%s)' % self.cls.__name__
class SuperE(EV):
    def __init__(self, cls, self_): self.cls = cls; self.self_ = self_
class RawL(EV):
    def __init__(self, l): self.l = l
class SliceE(EV):
    def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step
class Raise(object):
    def __init__(self, exc, line=None): self.exc = exc; self.line = line
    def __repr__(self): return 'Raise(%r)' % (self.exc,)
def mkraise(cls, line=None): return Raise(ExcV(cls), line)

# ------------------------------------------------------------------ registries
class Reg(object):
    def __init__(self):
        self.cls2id = {}; self.id2cls = {}
        self.live = []; self.liveid = {}
    def cid(self, cls):
        if cls not in self.cls2id:
            k = len(self.cls2id) + 1
            self.cls2id[cls] = k; self.id2cls[k] = cls
        return self.cls2id[cls]
    def lid(self, obj):
        k = id(obj)
        if k not in self.liveid:
            self.live.append(obj); self.liveid[k] = len(self.live)
        return -self.liveid[k]
    def unlive(self, n): return self.live[-n - 1]
REG = Reg()
clsof = z3.Function('clsof', Int, Int)      # the class of the object with a given identity
class ClosureT(object): pass
class GenT(object): pass
for _c in (dict, collections.defaultdict, list, collections.deque, set, object, ClosureT, GenT): REG.cid(_c)
def cid(c): return REG.cid(c)
def OBJ(cls, i): return V.obj(IntVal(cid(cls)), i)

SEQ = (list, collections.deque); DICT = (dict, collections.defaultdict, collections.OrderedDict)
def kind_of(cls):
    if cls is None: return None
    if cls in SEQ: return 'seq'
    if cls in DICT: return 'map'
    if cls is set: return 'set'
    return None
COMPSORT = {'map': Map, 'seq': L, 'set': Set}
def comp_sort(c): return COMPSORT.get(c, V)
def comp_const(c, name): return z3.Const(name, z3.ArraySort(Int, comp_sort(c)))

def is_ctor(v, t):
    return z3.is_app(v) and v.sort() == V and v.decl().name() == t
def ctor(v):
    if z3.is_app(v) and v.sort() == V and v.decl().name() in TAGS: return v.decl().name()
    return None

def simp(e): return z3.simplify(e)

def lift(o):
    if o is None: return V.none
    if o is True or o is False: return V.bool(BoolVal(o))
    if type(o) is int: return V.int(IntVal(o))
    if type(o) is float:
        if o != o or o in (float('inf'), float('-inf')): return Live(o)
        f = fractions.Fraction(o); return V.flt(z3.RealVal(str(f)))
    if type(o) is str: return V.str(z3.StringVal(o))
    if type(o) is tuple: return TupE([lift(x) for x in o])
    if type(o) is frozenset and not o: return V.fset(NIL)
    return Live(o)

# ------------------------------------------------------------------ type specs
# 'any' | ('obj', cls) | ('list'|'deque'|'set', elemspec) | ('dict', valspec) | ('ddict', factory, valspec)
# | ('opt', spec) | 'int' | 'str' | 'bool' | 'callable' | fn(v)->formula list
def spec_cls(s):
    if isinstance(s, tuple):
        return {'obj': lambda: s[1], 'iface': lambda: s[1], 'list': lambda: list, 'deque': lambda: collections.deque, 'set': lambda: set,
                'dict': lambda: dict, 'ddict': lambda: collections.defaultdict}.get(s[0], lambda: None)()
    return None
def type_facts(v, s, alloc):
    if s is None or s == 'any': return []
    if callable(s): return list(s(v))
    if s == 'int': return [V.is_int(v)]
    if s == 'str': return [V.is_str(v)]
    if s == 'bool': return [V.is_bool(v)]
    if s == 'num': return [Or(V.is_int(v), V.is_flt(v))]
    if s == 'tup': return [V.is_tup(v)]
    if s == 'lit': return [V.is_lit(v)]
    if s == 'term': return [Not(V.is_obj(v)), Not(V.is_fset(v))]
    if isinstance(s, tuple) and s[0] == 'opt':
        f = type_facts(v, s[1], alloc)
        return [Or(v == V.none, And(*f))] if f else []
    if isinstance(s, tuple) and s[0] == 'iface': return [V.is_obj(v), V.oi(v) < alloc]
    c = spec_cls(s)
    if c is not None:
        return [V.is_obj(v), V.oc(v) == cid(c), V.oi(v) < alloc, V.oi(v) > 0, clsof(V.oi(v)) == cid(c)]
    raise Unsupported('type spec %r' % (s,))

# ------------------------------------------------------------------ state
class St(object):
    __slots__ = ('envs', 'heap', 'pc', 'alloc', 'ghost', 'hints', 'protos', 'qf', 'wl')
    def __init__(self):
        self.envs = {}; self.heap = {}; self.pc = []; self.alloc = None; self.ghost = {}; self.hints = {}; self.protos = {}; self.qf = []; self.wl = None
    def copy(self):
        s = St.__new__(St)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap); s.pc = list(self.pc); s.alloc = self.alloc; s.ghost = dict(self.ghost)
        s.hints = dict(self.hints); s.protos = {k: dict(v) for k, v in self.protos.items()}; s.qf = list(self.qf); s.wl = self.wl
        return s
    def assume(self, *fs):
        for f in fs:
            if f is True or f is None: continue
            if f is False: f = BoolVal(False)
            if z3.is_true(f): continue
            self.pc.append(f)
    STABLE = frozenset()
    def comp(self, c):
        if c not in self.heap:
            ep = self.ghost.get('@epoch')
            self.heap[c] = comp_const(c, 'H_' + c if (ep is None or c in St.STABLE) else 'H_%s@%s' % (c, ep))
        return self.heap[c]
    def havoc_all(self):
        self.heap = {c: a for c, a in self.heap.items() if c in St.STABLE}
        self.ghost['@epoch'] = str(fresh('epoch', Int)).split('!')[1]

class HV(object):
    """read only view of a state's heap, for contracts"""
    def __init__(self, st, eng): self.st = st; self.eng = eng; self.alloc = st.alloc; self.ghost = st.ghost
    def read(self, c, v): return self.eng.sel(self.st.comp(c), self.eng.oid(v))
    def map(self, v): return self.read('map', v)
    def seq(self, v): return self.read('seq', v)
    def set(self, v): return self.read('set', v)
    def f(self, name, v): return self.read('f:' + name, v)
    def arr(self, c): return self.st.comp(c)

class Ctx(object):
    def __init__(self, names, vals, pre, post=None, res=None, eng=None, y=None):
        self.__dict__.update(zip(names, vals)); self.names = names; self.vals = vals
        self.old = pre; self.now = post or pre; self.res = res; self.eng = eng; self.y = y
        self.idx = None

class Contract(object):
    def __init__(self, targets, params=None, types=None, requires=None, ensures=None, modifies=None, raises=None,
                 result=None, gen=False, yields=None, rely=None, exits=None, loop=None, ghost=None, alloc=True, verify=True,
                 trusted=False, name=None, resfn=None, notes=None, free=None, relymods=None, trace=None, assumes=None, exc_ok=(),
                 selfcls=None, varkw=None, fuels=None, effects=None, noraise=()):
        self.targets = [targets] if isinstance(targets, str) else list(targets)
        self.params = params or []; self.types = types or {}
        self.requires = requires; self.ensures = ensures; self.modifies = modifies or (lambda c: [])
        self.raises = raises or []         # list of (cls, fn(c)->facts or None)
        self.result = result; self.gen = gen; self.yields = yields; self.rely = rely; self.exits = exits
        self.relymods = relymods           # comps the consumer may change between yields
        self.loop = loop; self.ghost = ghost; self.alloc = alloc; self.verify = verify; self.trusted = trusted
        self.name = name or self.targets[0]; self.resfn = resfn; self.notes = notes; self.free = free or {}
        self.trace = trace; self.assumes = assumes; self.exc_ok = exc_ok; self.selfcls = selfcls; self.fuels = fuels
        self.fixed = {}                    # parameters with a known value
        self.effects = effects; self.noraise = tuple(noraise)     # exceptions that never escape
def named(xs, default):
    out = []
    for i, x in enumerate(xs or []):
        if isinstance(x, tuple): out.append(x)
        else: out.append(('%s%d' % (default, i + 1), x))
    return out

class Obl(object):
    __slots__ = ('fn', 'line', 'name', 'status', 'backend', 'time', 'detail')
    def __init__(self, fn, line, name, status, backend, t, detail=None):
        self.fn = fn; self.line = line; self.name = name; self.status = status; self.backend = backend; self.time = t; self.detail = detail
    def asdict(self): return {k: getattr(self, k) for k in self.__slots__}

# ------------------------------------------------------------------ sources
class Module(object):
    def __init__(self, mod):
        self.mod = mod; self.file = mod.__file__
        self.src = open(mod.__file__, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.index = {}
        def walk(node, prefix):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.index.setdefault(prefix + ch.name, []).append(ch)
                    walk(ch, prefix + ch.name + '.<locals>.')
                elif isinstance(ch, ast.ClassDef):
                    self.index.setdefault(prefix + ch.name, []).append(ch)
                    walk(ch, prefix + ch.name + '.')
                elif isinstance(ch, ast.Lambda):
                    self.index.setdefault(prefix + '<lambda>', []).append(ch)
                    walk(ch, prefix + '<lambda>.<locals>.')
                else: walk(ch, prefix)
        walk(self.tree, '')
MODS = {}
def module(name):
    if name not in MODS: MODS[name] = Module(sys.modules[name])
    return MODS[name]

class Fn(object):
    """reference to a function with source"""
    def __init__(self, node, modname, qual, live=None, fid=None, defaults=None, cls=None):
        self.node = node; self.modname = modname; self.qual = qual; self.live = live; self.fid = fid; self.defaults = defaults
    @property
    def key(self): return '%s:%s' % (self.modname, self.qual)
_isgen = {}
def is_gen(node):
    if node not in _isgen:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
                stack.extend(ast.iter_child_nodes(n))
        _isgen[node] = r
    return _isgen[node]

def find_fn(key):
    """'agentspeak.runtime:Agent.call' -> Fn or None"""
    modname, qual = key.split('#')[0].split(':')      # '#case' names one of several contracts of a function
    m = module(modname)
    live = m.mod
    try:
        for p in qual.split('.'):
            if p == '<locals>': live = None; break
            live = inspect.getattr_static(live, p) if inspect.isclass(live) else getattr(live, p)
    except AttributeError: live = None
    if isinstance(live, (staticmethod, classmethod)): live = live.__func__
    if isinstance(live, types.FunctionType) and live.__module__.startswith('agentspeak') :
        f = fn_of_live(live)
        if f is not None and f.qual == qual: return f
    nodes = m.index.get(qual)
    if not nodes: return None
    return Fn(nodes[-1], modname, qual, live if isinstance(live, types.FunctionType) else None)

def fn_of_live(f):
    if not isinstance(f, types.FunctionType) or not f.__module__ or not f.__module__.startswith('agentspeak'): return None
    m = module(f.__module__)
    nodes = m.index.get(f.__qualname__)
    if not nodes: return None
    ln = f.__code__.co_firstlineno
    best = None
    for n in nodes:
        first = min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])
        if first == ln or n.lineno == ln: best = n
    if best is None: best = nodes[-1]
    return Fn(best, f.__module__, f.__qualname__, f)

class Frame(object):
    __slots__ = ('fid', 'fn', 'modname', 'on_yield', 'locals', 'depth', 'chain', 'cls', 'isgen')
    def __init__(self, fid, fn, modname, on_yield, depth, chain):
        self.fid = fid; self.fn = fn; self.modname = modname; self.on_yield = on_yield; self.depth = depth; self.chain = chain

TERM_FIELDS = {
    'lit': {'functor': lambda v: V.lf(v), 'args': lambda v: V.tup(V.la(v)), 'annots': lambda v: V.fset(V.ln(v))},
    'link': {'head': lambda v: V.lh(v), 'tail': lambda v: V.lt(v)},
    'una': {'unary_op': lambda v: V.uo(v), 'operand': lambda v: V.ux(v)},
    'bino': {'binary_op': lambda v: V.bo(v), 'left': lambda v: V.bl(v), 'right': lambda v: V.br(v)},
}

def sub(e, pairs): return z3.substitute(e, *pairs) if pairs else e

def const_num(name):
    i = name.rfind('!')
    if i < 0: return -1
    try: return int(name[i + 1:])
    except ValueError: return -1
_maxnum = {}
def maxnum(e):
    """highest fresh index among the constants of e"""
    k = e.get_id()
    if k in _maxnum and _maxnum[k][0].eq(e): return _maxnum[k][1]
    m = -1; seen = set(); stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0: m = max(m, const_num(t.decl().name()))
            else: stack.extend(t.children())
    _maxnum[k] = (e, m)
    return m
def curfresh():
    import pydv.smt as S
    return S._fresh[0]

# ------------------------------------------------------------------ the engine
class View(object):
    """the contracts and type tables of one property"""
    def __init__(self, name, contracts, fields=None, iface=None, stable=(), classes=(), symcall=None, trusted=None, auto=True,
                 maxdepth=14, relystar=False, natives=None, facts=None, fixedlists=None, ddictpure=False, eqv=None, orderv=None, consts=(), iters=None, strfns=None, candtime=None):
        self.eqv = eqv; self.orderv = orderv; self.consts = tuple(consts); self.iters = iters or {}; self.strfns = strfns; self.candtime = candtime
        self.ddictpure = ddictpure
        self.fixedlists = fixedlists or {}
        self.name = name; self.contracts = {}
        self.list = contracts
        for c in contracts:
            for t in c.targets: self.contracts[t] = c
        self.fields = fields or {}; self.stable = set(stable); self.classes = list(classes)
        self.symcall = symcall; self.trusted = trusted or {}; self.maxdepth = maxdepth
        self.natives = natives or {}; self.facts = facts; self.iface = iface or {}

class Engine(object):
    def __init__(self, view, budget=600):
        self.view = view; self.mode = 'final'; self.obls = []; self.cur = None; self.act = {'n': {}, 'past': {}}
        self.fnname = None; self.inlined = set(); self.used = set(); self.assumed = set(); self.line = 0
        self.deadline = time.time() + budget; self.paths = 0; self.fid = 0; self.fnodes = {}; self.reach = 0; self._feas = {}; self.seen = set()
        self.lastmodel = None; self.fuels = None; self.contract = None; self.cctx = None
        for c in view.classes: cid(c)

    # ---------------------------------------------------------------- basic helpers
    def tick(self):
        if time.time() > self.deadline: raise Budget('time budget exhausted')

    def sel(self, arr, i):
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            a, j, v = arr.children()
            if j.eq(i): return v
            if self.distinct(i, j): arr = a
            else: break
        return Select(arr, i)
    def split_id(self, e):
        if z3.is_int_value(e): return None, e.as_long()
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and e.num_args() == 2:
            a, b = e.children()
            if z3.is_int_value(b): return a, b.as_long()
            if z3.is_int_value(a): return b, a.as_long()
        return e, 0
    def distinct(self, i, j):
        bi, ki = self.split_id(i); bj, kj = self.split_id(j)
        if bi is None and bj is None: return ki != kj
        if bi is not None and bj is not None and bi.eq(bj): return ki != kj
        for (a, k, b) in ((bi, ki, j), (bj, kj, i)):
            if a is not None and k >= 0 and z3.is_const(a) and a.decl().name().startswith('alloc!'):
                if maxnum(b) < const_num(a.decl().name()): return True
        return False
    def oid(self, v):
        if ctor(v) == 'obj': return v.arg(1)
        return V.oi(v)
    def read(self, st, c, v): return self.sel(st.comp(c), self.oid(v))
    def write(self, st, c, v, x):
        i = self.oid(v)
        a = st.comp(c)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(i): a = a.arg(0)
        st.heap[c] = Store(a, i, x)
        self.note_write(st, c, i)
    def newobj(self, st, cls):
        i = simp(st.alloc); st.alloc = simp(st.alloc + 1)
        v = OBJ(cls, i)
        st.assume(clsof(i) == cid(cls))
        if cls is object: self.notkey(st, v)
        return v
    def notkey(self, st, v):
        """a value with a fresh identity is not a key of any existing dictionary"""
        arr = st.comp('map')
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            st.assume(Select(arr.arg(2), v) == Opt.absent); arr = arr.arg(0)
        base = arr; bid = base.get_id()
        def q(t):
            if t.arg(0).get_id() == bid: return [Select(t, v) == Opt.absent]
        st.qf.append(q); q.keep = base
    def newseq(self, st, cls, l):
        v = self.newobj(st, cls); st.heap['seq'] = Store(st.comp('seq'), self.oid(v), l); return v
    def newmap(self, st, cls, m, factory=None):
        v = self.newobj(st, cls); st.heap['map'] = Store(st.comp('map'), self.oid(v), m)
        if factory is not None: st.hints[v.get_id()] = (v, ('ddict', factory, None))
        return v
    def newset(self, st, s):
        v = self.newobj(st, set); st.heap['set'] = Store(st.comp('set'), self.oid(v), s); return v

    def hint(self, st, v, spec):
        if spec is not None and spec != 'any' and is_expr(v): st.hints[v.get_id()] = (v, spec)
    def hintof(self, st, v):
        if v is None: return None
        h = st.hints.get(v.get_id())
        return h[1] if h and h[0].eq(v) else None
    def typed(self, st, v, spec):
        """assume the declared type of a value read from the heap"""
        if spec is None or spec == 'any': return v
        st.assume(*type_facts(v, spec, st.alloc)); self.hint(st, v, spec)
        return v
    def norm(self, v):
        if is_expr(v) and v.sort() == V and ctor(v) == 'obj' and z3.is_int_value(v.arg(1)) and v.arg(1).as_long() < 0:
            o = REG.unlive(v.arg(1).as_long())
            return o if isinstance(o, EV) else Live(o)
        return v
    def toV(self, x):
        if is_expr(x):
            if x.sort() == V: return x
            raise Unsupported('raw expr as value')
        if isinstance(x, TupE): return V.tup(mklist([self.toV(i) for i in x.items]))
        if isinstance(x, Live):
            l = lift(x.obj)
            if not isinstance(l, Live): return self.toV(l)
            return OBJ(type(x.obj), IntVal(REG.lid(x.obj)))
        if isinstance(x, RawL): return V.tup(x.l)
        if isinstance(x, (Closure, PartialE, Bound, BMeth)): return OBJ(ClosureT, IntVal(REG.lid(x)))
        if isinstance(x, (GenCall, GenE, ExcV, It)): return OBJ(GenT, IntVal(REG.lid(x)))
        raise Unsupported('cannot represent %r as a value' % (x,))

    def cls_of(self, st, v):
        """python class of an object value, when known"""
        if ctor(v) == 'obj' and z3.is_int_value(v.arg(0)): return REG.id2cls.get(v.arg(0).as_long())
        h = self.hintof(st, v)
        if h is not None and not (isinstance(h, tuple) and h[0] == 'opt'): return spec_cls(h)
        return None
    def tag_of(self, st, v):
        c = ctor(v)
        if c: return c
        h = self.hintof(st, v)
        if h is None: return None
        if h in ('int', 'str', 'bool', 'tup', 'lit'): return h
        if isinstance(h, tuple) and h[0] != 'opt': return 'obj'
        return None

    # ---------------------------------------------------------------- solver interface
    def feasible(self, st, cond=None):
        self.tick()
        fs = list(st.pc)
        if cond is not None:
            c = simp(cond)
            if z3.is_false(c): return False
            fs.append(cond)
            if z3.is_true(c): return True
        key = tuple(f.get_id() for f in fs)
        if key in self._feas: return self._feas[key][0]
        more = [cond] if cond is not None else []
        ff = fs + quick(st.pc, more, 1, st.qf)
        r, _ = check_sat(ff, 1500)
        if r == 'sat':
            ff = fs + quick(st.pc, more, 2, st.qf)
            r, _ = check_sat(ff, 1500)
        self._feas[key] = (r != 'unsat', fs)
        return r != 'unsat'
    def split(self, st, cond):
        """yield (state, truth) for the feasible sides of cond"""
        c = simp(cond)
        if z3.is_true(c): yield st, True; return
        if z3.is_false(c): yield st, False; return
        a = self.feasible(st, cond); b = self.feasible(st, Not(cond))
        if a:
            s = st.copy() if b else st
            if b: s.assume(cond)
            yield s, True
        if b:
            s = st if not a else st.copy()
            if a: s.assume(Not(cond))
            yield s, False
    def valid(self, st, goal, timeout=None):
        self.tick()
        if goal is True or z3.is_true(simp(goal)): return True
        c = self.view.candtime          # (a candidate that is not confirmed within this time is dropped)
        s, be, m, fs = prove(st.pc, goal, st.qf, fuels=self.fuels, timeout=min(c, timeout) if c and timeout else timeout, fallback=not (c and timeout))
        return s == 'proved'
    def oblige(self, st, goal, name, line=None):
        """a proof obligation: discharge it now (final mode), then assume it"""
        if goal is True or goal is None: goal = BoolVal(True)
        if goal is False: goal = BoolVal(False)
        if self.mode == 'final':
            t = time.time(); self.tick()
            if z3.is_true(simp(goal)): s, be, m, fs = 'proved', 'simplifier', None, None
            else: s, be, m, fs = prove(st.pc, goal, st.qf, fuels=self.fuels)
            d = None
            if s != 'proved':
                d = self.describe(st, goal, m)
            self.obls.append(Obl(self.fnname, line or self.line, name, s, be, time.time() - t, d))
        st.assume(goal)
    def describe(self, st, goal, m):
        out = ['goal: %s' % str(simp(goal))[:1500]]
        if m is not None:
            vals = []
            for d in m.decls():
                n = d.name()
                if d.arity() == 0 and not n.startswith('H_'):
                    try: vals.append('%s = %s' % (n, str(m[d])[:200]))
                    except Exception: pass
            out.append('model: ' + '; '.join(sorted(vals)[:40]))
        out.append('path: ' + '; '.join(str(simp(p))[:160].replace('\n', ' ') for p in st.pc[-14:]))
        return '\n'.join(out)

    # ---------------------------------------------------------------- truth, equality
    def always_true_bool(self, cls):
        for n in ('__bool__',):
            f = inspect.getattr_static(cls, n, None)
            if isinstance(f, types.FunctionType):
                fn = fn_of_live(f)
                if fn is None: return False
                body = [s for s in fn.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
                return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Constant) and body[0].value.value is True
        if inspect.getattr_static(cls, '__len__', None) is not None: return False
        return True
    def truth(self, st, v):
        v = self.norm(v)
        if isinstance(v, EV):
            if isinstance(v, TupE): return BoolVal(len(v.items) > 0)
            if isinstance(v, RawL): return v.l != NIL
            if isinstance(v, Live):
                try: return BoolVal(bool(v.obj))
                except Exception: raise Unsupported('truth of %r' % v)
            return BoolVal(True)
        c = self.tag_of(st, v)
        if c == 'none': return BoolVal(False)
        if c == 'bool': return v.arg(0) if ctor(v) else V.b(v)
        if c == 'int': return V.i(v) != 0
        if c == 'flt': return V.r(v) != 0
        if c == 'str': return V.s(v) != z3.StringVal('')
        if c == 'tup': return V.t(v) != NIL
        if c == 'fset': return V.fs(v) != NIL
        if c in ('var', 'wild'): return BoolVal(True)
        if c in ('lit', 'link'):
            if not self.always_true_bool(self.term_class(c)): raise Unsupported('__bool__ of %s' % c)
            return BoolVal(True)
        if c in ('una', 'bino'): return BoolVal(True)
        if c == 'obj':
            k = self.cls_of(st, v); kd = kind_of(k)
            if kd == 'seq': return self.read(st, 'seq', v) != NIL
            if kd == 'map': return self.read(st, 'map', v) != EMPTYMAP
            if kd == 'set': return self.read(st, 'set', v) != EMPTYSET
            if k is not None: return BoolVal(True)
        h = self.hintof(st, v)
        if isinstance(h, tuple) and h[0] == 'opt':
            inner = h[1]
            kd = kind_of(spec_cls(inner))
            if kd is None: return v != V.none
            return And(v != V.none, self.read(st, kd, v) != {'seq': NIL, 'map': EMPTYMAP, 'set': EMPTYSET}[kd])
        for t in ('lit', 'link'):
            if not self.always_true_bool(self.term_class(t)): raise Unsupported('__bool__ of %s' % t)
        return And(v != V.none, Implies(V.is_bool(v), V.b(v)), Implies(V.is_int(v), V.i(v) != 0),
                   Implies(V.is_flt(v), V.r(v) != 0), Implies(V.is_str(v), V.s(v) != z3.StringVal('')),
                   Implies(V.is_tup(v), V.t(v) != NIL), Implies(V.is_fset(v), V.fs(v) != NIL),
                   Implies(And(V.is_obj(v), Or(V.oc(v) == cid(list), V.oc(v) == cid(collections.deque))), self.read(st, 'seq', v) != NIL),
                   Implies(And(V.is_obj(v), Or(V.oc(v) == cid(dict), V.oc(v) == cid(collections.defaultdict))), self.read(st, 'map', v) != EMPTYMAP),
                   Implies(And(V.is_obj(v), V.oc(v) == cid(set)), self.read(st, 'set', v) != EMPTYSET))
    def term_class(self, t):
        import agentspeak
        return {'lit': agentspeak.Literal, 'var': agentspeak.Var, 'wild': agentspeak.Wildcard, 'link': agentspeak.LinkedList,
                'una': agentspeak.UnaryExpr, 'bino': agentspeak.BinaryExpr}[t]
    def pyclass(self, t):
        import agentspeak
        return {'none': type(None), 'bool': bool, 'int': int, 'flt': float, 'str': str, 'tup': tuple, 'fset': frozenset}.get(t) or (self.term_class(t) if t != 'obj' else None)
    def tags_of_class(self, cls):
        r = []
        for t in TAGS:
            if t == 'obj': continue
            pc = self.pyclass(t)
            try:
                if issubclass(pc, cls): r.append(t)
            except TypeError: pass
        return r
    def equal(self, st, a, b):
        """formula for a == b"""
        a = self.norm(a); b = self.norm(b)
        if isinstance(a, Live) and isinstance(b, Live): return BoolVal(a.obj == b.obj)
        if isinstance(a, ExcV) or isinstance(b, ExcV): return BoolVal(a is b)
        A = self.toV(a); B = self.toV(b)
        if A.eq(B): return BoolVal(True)
        ta, tb = self.tag_of(st, A), self.tag_of(st, B)
        num = ('bool', 'int', 'flt')
        if ta == 'tup' and tb == 'tup' and isinstance(a, TupE) and isinstance(b, TupE):
            if len(a.items) != len(b.items): return BoolVal(False)
            return And(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)]) if a.items else BoolVal(True)
        ident = ('none', 'str', 'var', 'wild', 'una', 'bino')
        for t, u in ((ta, tb), (tb, ta)):
            if t in ident and u not in ('lit', 'link'): return A == B
            if t == 'obj':
                k = self.cls_of(st, A if t is ta else B)
                if k is not None and kind_of(k) is None and u not in ('lit', 'link'): return A == B
        if ta == 'obj' and tb == 'obj':
            ka, kb = self.cls_of(st, A), self.cls_of(st, B)
            if kind_of(ka) == 'seq' and ka is kb: return self.read(st, 'seq', A) == self.read(st, 'seq', B)
            if kind_of(ka) == 'set' and ka is kb: return self.read(st, 'set', A) == self.read(st, 'set', B)
            if kind_of(ka) == 'map' and kind_of(kb) == 'map': return self.read(st, 'map', A) == self.read(st, 'map', B)
        return self.view.eqv(A, B) if self.view.eqv else pyeq(A, B)
    def identical(self, st, a, b):
        a = self.norm(a); b = self.norm(b)
        if isinstance(a, EV) and isinstance(b, EV) and not isinstance(a, TupE) and not isinstance(b, TupE):
            if isinstance(a, Live) and isinstance(b, Live): return BoolVal(a.obj is b.obj)
            return BoolVal(a is b)
        A = self.toV(a); B = self.toV(b)
        if A.eq(B): return BoolVal(True)
        ta, tb = self.tag_of(st, A), self.tag_of(st, B)
        idt = ('none', 'bool', 'var', 'wild', 'obj')
        if ta in idt or tb in idt: return A == B
        self.assumed.add('`is` between equal immutable values is treated as ==-compatible but undetermined')
        same = z3.Function('sameobj', V, V, Bool)
        it = lambda v: Or(V.is_none(v), V.is_bool(v), V.is_var(v), V.is_wild(v), V.is_obj(v))
        return And(A == B, Or(it(A), same(A, B)))

    def isinst(self, st, v, cls):
        """formula for isinstance(v, cls)"""
        if isinstance(cls, tuple): return Or(*[self.isinst(st, v, c) for c in cls]) if cls else BoolVal(False)
        v = self.norm(v)
        if isinstance(v, Live): return BoolVal(isinstance(v.obj, cls))
        if isinstance(v, TupE): return BoolVal(issubclass(tuple, cls))
        if isinstance(v, ExcV): return BoolVal(issubclass(v.cls, cls))
        if isinstance(v, EV):
            if isinstance(v, (Closure, PartialE, Bound)): return BoolVal(cls in (object,))
            raise Unsupported('isinstance(%r)' % v)
        t = self.tag_of(st, v)
        if t and t != 'obj': return BoolVal(t in self.tags_of_class(cls))
        if t == 'obj' and not self.is_iface(st, v):
            k = self.cls_of(st, v)
            if k is not None: return BoolVal(issubclass(k, cls))
        ts = self.tags_of_class(cls)
        ks = [k for k in REG.cls2id if isinstance(k, type) and self.sub(k, cls)]
        d = [tag(v, t) for t in ts]
        if ks: d.append(And(V.is_obj(v), Or(*[V.oc(v) == cid(k) for k in ks])))
        return Or(*d) if d else BoolVal(False)
    def is_iface(self, st, v):
        h = self.hintof(st, v)
        return isinstance(h, tuple) and h[0] == 'iface'
    def sub(self, k, cls):
        try: return issubclass(k, cls)
        except TypeError: return False

    # ---------------------------------------------------------------- attributes
    def inst_attrs(self, cls):
        """attributes assigned on self anywhere in the class (and its bases) in the source"""
        out = set()
        for k in cls.__mro__:
            if not (k.__module__ or '').startswith('agentspeak'): continue
            nodes = module(k.__module__).index.get(k.__qualname__) or []
            for n in nodes:
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        out.add(x.attr)
        return out
    def cls_lookup(self, cls, name):
        """('method', live) / ('field',) / ('const', live) / None"""
        try: a = inspect.getattr_static(cls, name)
        except AttributeError: a = None
        if isinstance(a, types.FunctionType): return ('method', a)
        if isinstance(a, staticmethod): return ('static', a.__func__)
        if isinstance(a, classmethod): return ('clsm', a.__func__)
        if isinstance(a, property): return ('prop', a.fget)
        if (cls.__module__ or '').startswith('agentspeak') and name in self.inst_attrs(cls): return ('field',)
        if (cls, name) in self.view.fields or any((k, name) in self.view.fields for k in cls.__mro__): return ('field',)
        if a is not None and (cls.__module__ or '').startswith('agentspeak') and not isinstance(a, (types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)): return ('const', a)
        kd = kind_of(cls)
        if a is not None and kd: return ('bmeth', kd)
        return None
    def field_spec(self, cls, name):
        for k in cls.__mro__:
            if (k, name) in self.view.fields: return self.view.fields[(k, name)]
        return None
    def attr(self, st, v, name):
        v = self.norm(v)
        if isinstance(v, EV):
            yield from self.attr_ev(st, v, name); return
        t = self.tag_of(st, v)
        if t == 'obj':
            k = self.cls_of(st, v)
            if k is not None:
                yield from self.attr_obj(st, v, k, name); return
        h = self.hintof(st, v) if t is None else None
        if isinstance(h, tuple) and h[0] == 'opt' and isinstance(h[1], tuple) and h[1][0] == 'iface':
            for s, nn in self.split(st, v != V.none):
                if nn: self.hint(s, v, h[1]); yield from self.attr(s, v, name)
                else: yield s, mkraise(AttributeError, self.line)
            return
        if t and t != 'obj': tags = [t]
        else: tags = [x for x in TAGS if x != 'obj']
        groups = []   # (key, tags, how)
        for t in tags:
            if t in TERM_FIELDS and name in TERM_FIELDS[t]: groups.append((('f', t), [t], ('field', t))); continue
            pc = self.pyclass(t)
            if t in ('none', 'bool', 'int', 'flt', 'str', 'tup', 'fset'):
                if hasattr(pc, name): groups.append((('b', t), [t], ('bm', t)))
                continue
            l = self.cls_lookup(pc, name)
            if l is None: continue
            if l[0] == 'field': raise Unsupported('extra field %s on term class %s' % (name, pc.__name__))
            if l[0] != 'method': raise Unsupported('attribute %s of %s' % (name, pc.__name__))
            fn = fn_of_live(l[1]); key = fn.key if fn else l[1]
            con = self.view.contracts.get(key)
            gk = ('c', id(con)) if con else ('m', key)
            for g in groups:
                if g[0] == gk: g[1].append(t); break
            else: groups.append((gk, [t], ('method', l[1])))
        olist = []
        if not (self.tag_of(st, v) and self.tag_of(st, v) != 'obj'):
            h = self.hintof(st, v)
            if isinstance(h, tuple) and h[0] == 'opt' and spec_cls(h[1]): ocl = [spec_cls(h[1])]
            else: ocl = [c for c in REG.cls2id if isinstance(c, type)] 
            for k in ocl:
                if self.cls_lookup(k, name): olist.append(k)
        covered = []
        for gk, ts, how in groups:
            cond = Or(*[tag(v, t) for t in ts])
            covered.append(cond)
            if len(tags) == 1 or self.feasible(st, cond):
                s = st.copy(); 
                if len(tags) > 1: s.assume(cond)
                if how[0] == 'field': yield s, self.norm(simp(TERM_FIELDS[how[1]][name](v)))
                elif how[0] == 'bm': yield s, Bound(BMeth(how[1], name), v)
                else: yield s, Bound(Live(how[1]), v)
        if olist and self.feasible(st, V.is_obj(v)):
            for k in olist:
                cond = And(V.is_obj(v), V.oc(v) == cid(k))
                covered.append(cond)
                if self.feasible(st, cond):
                    s = st.copy(); s.assume(cond)
                    h = self.hintof(s, v)
                    if isinstance(h, tuple) and h[0] == 'opt': self.hint(s, v, h[1])
                    else: self.hint(s, v, ('obj', k))
                    yield from self.attr_obj(s, v, k, name)
        if not (len(tags) == 1 and groups):
            rest = Not(Or(*covered)) if covered else BoolVal(True)
            if self.feasible(st, rest):
                s = st.copy(); s.assume(rest); yield s, mkraise(AttributeError, self.line)
    def attr_obj(self, st, v, k, name):
        if (k, name) in self.view.iface:
            yield st, Bound(self.view.iface[(k, name)], v); return
        l = self.cls_lookup(k, name)
        if l is None:
            yield st, mkraise(AttributeError, self.line); return
        if l[0] == 'method': yield st, Bound(Live(l[1]), v)
        elif l[0] == 'static': yield st, Live(l[1])
        elif l[0] == 'prop': yield from self.call(st, Live(l[1]), [v], {})
        elif l[0] == 'bmeth': yield st, Bound(BMeth(l[1], name), v)
        elif l[0] == 'const': yield st, lift(l[1])
        elif l[0] == 'field':
            r = self.read(st, 'f:' + name, v)
            if ctor(r) is None and self.hintof(st, r) is None:
                spec = self.field_spec(k, name)
                if spec: r = self.typed(st, r, spec)
                else: st.assume(Implies(V.is_obj(r), V.oi(r) < st.alloc))
            yield st, self.norm(r)
        else: raise Unsupported('attribute kind %r' % (l,))
    def attr_ev(self, st, v, name):
        if isinstance(v, Live):
            o = v.obj
            if isinstance(o, (types.ModuleType, type)) or isinstance(o, enum.Enum) or self.is_const_obj(o) or not (type(o).__module__ or '').startswith('agentspeak'):
                try: a = getattr(o, name)
                except AttributeError: yield st, mkraise(AttributeError, self.line); return
                yield st, self.lift2(a); return
            a = inspect.getattr_static(type(o), name, None)
            if isinstance(a, types.FunctionType): yield st, Bound(Live(a), v); return
            raise Unsupported('attribute %s of live object %r' % (name, type(o)))
        if isinstance(v, Proto):
            d = st.protos[v.pid]
            if name in d: yield st, d[name]; return
            l = self.cls_lookup(v.cls, name)
            if l and l[0] == 'method': yield st, Bound(Live(l[1]), v); return
            yield st, mkraise(AttributeError, self.line); return
        if isinstance(v, TupE):
            if hasattr(tuple, name): yield st, Bound(BMeth('tup', name), v)
            else: yield st, mkraise(AttributeError, self.line)
            return
        if isinstance(v, ExcV):
            if name == 'args': yield st, TupE(v.args); return
            yield st, lift(None); return
        if isinstance(v, SuperE):
            mro = v.cls.__mro__
            base = mro[1] if len(mro) > 1 else object
            for k in mro[1:]:
                if name in k.__dict__:
                    f = k.__dict__[name]
                    if isinstance(f, types.FunctionType): yield st, Bound(Live(f), v.self_); return
                    yield st, Bound(BMeth('object', name), v.self_); return
            yield st, mkraise(AttributeError, self.line); return
        if isinstance(v, PartialE):
            if name == 'func': yield st, v.fn; return
            if name == 'args': yield st, TupE(v.args); return
        if isinstance(v, (Closure, GenCall)):
            if isinstance(v, GenCall) and name in ('close', '__next__', '__iter__'): yield st, Bound(BMeth('gen', name), v); return
            yield st, mkraise(AttributeError, self.line); return
        raise Unsupported('attribute %s of %r' % (name, v))
    def is_const_obj(self, o):
        import agentspeak
        return isinstance(o, (agentspeak.Operator,) + self.view.consts)
    def lift2(self, a):
        return lift(a)
    def hasattr_f(self, st, v, name):
        v = self.norm(v)
        if isinstance(v, EV):
            if isinstance(v, Live): return BoolVal(hasattr(v.obj, name))
            if isinstance(v, TupE): return BoolVal(hasattr((), name))
            raise Unsupported('hasattr on %r' % v)
        t = self.tag_of(st, v)
        def has(t):
            if t in TERM_FIELDS and name in TERM_FIELDS[t]: return True
            return hasattr(self.pyclass(t), name)
        if t and t != 'obj': return BoolVal(has(t))
        if t == 'obj' and self.cls_of(st, v) is not None:
            return BoolVal(self.cls_lookup(self.cls_of(st, v), name) is not None)
        d = [tag(v, t) for t in TAGS if t != 'obj' and has(t)]
        ks = [k for k in REG.cls2id if isinstance(k, type) and self.cls_lookup(k, name)]
        if ks: d.append(And(V.is_obj(v), Or(*[V.oc(v) == cid(k) for k in ks])))
        return Or(*d) if d else BoolVal(False)
    def setattr_(self, st, v, name, x):
        v = self.norm(v)
        if isinstance(v, Proto):
            st.protos[v.pid] = dict(st.protos[v.pid]); st.protos[v.pid][name] = x
            yield st, lift(None); return
        if isinstance(v, EV): raise Unsupported('store to attribute %s of %r' % (name, v))
        t = self.tag_of(st, v)
        k = self.cls_of(st, v) if t == 'obj' else None
        if k is None:
            if t and t != 'obj': raise Unsupported('store to %s of term' % name)
            h = self.hintof(st, v)
            if isinstance(h, tuple) and h[0] == 'opt' and spec_cls(h[1]):
                self.oblige(st, v != V.none, 'attribute store on None'); k = spec_cls(h[1])
            else: raise Unsupported('store to %s of unknown object' % name)
        spec = self.field_spec(k, name)
        X = self.toV(x)
        if spec is not None and spec != 'any':
            fs = type_facts(X, spec, st.alloc)
            if fs and not isinstance(self.norm(X), EV): self.oblige(st, And(*fs), 'type of %s.%s' % (k.__name__, name))
        self.write(st, 'f:' + name, v, X)
        yield st, lift(None)

    # ---------------------------------------------------------------- environments
    def newframe(self, st, fn, modname, on_yield, depth, parent=None, chain=()):
        self.fid += 1
        fr = Frame(self.fid, fn, modname, on_yield, depth, chain); self.fnodes[self.fid] = fn.node
        st.envs[self.fid] = {'__parent__': parent}
        return fr
    def lookup(self, st, fr, name):
        fid = fr.fid
        while fid is not None:
            e = st.envs[fid]
            if name in e: return e[name]
            fid = e.get('__parent__')
        m = module(fr.modname).mod
        if hasattr(m, name): return lift(getattr(m, name))
        if hasattr(builtins, name): return Live(getattr(builtins, name))
        raise Unsupported('unbound name %s at line %d' % (name, self.line))

    # ---------------------------------------------------------------- expressions
    def evs(self, st, fr, nodes):
        """evaluate a list of expressions: yields (st, [values]) or (st, Raise)"""
        if not nodes: yield st, []; return
        for s, v in self.ev(st, fr, nodes[0]):
            if isinstance(v, Raise): yield s, v; continue
            for s2, vs in self.evs(s, fr, nodes[1:]):
                if isinstance(vs, Raise): yield s2, vs
                else: yield s2, [v] + vs
    def ev(self, st, fr, n):
        if hasattr(n, 'lineno'): self.line = n.lineno
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s at line %d' % (type(n).__name__, self.line))
        return m(st, fr, n)
    def ev_Constant(self, st, fr, n):
        if isinstance(n.value, (bytes, complex)) or n.value is Ellipsis: raise Unsupported('constant %r' % (n.value,))
        yield st, lift(n.value)
    def ev_Name(self, st, fr, n): yield st, self.norm(self.lookup(st, fr, n.id))
    def ev_Attribute(self, st, fr, n):
        for s, v in self.ev(st, fr, n.value):
            if isinstance(v, Raise): yield s, v
            else:
                self.line = n.lineno
                yield from self.attr(s, v, n.attr)
    def ev_Tuple(self, st, fr, n):
        if any(isinstance(e, ast.Starred) for e in n.elts): raise Unsupported('starred tuple')
        for s, vs in self.evs(st, fr, n.elts):
            yield s, (vs if isinstance(vs, Raise) else TupE(vs))
    def ev_List(self, st, fr, n):
        if any(isinstance(e, ast.Starred) for e in n.elts): raise Unsupported('starred list')
        for s, vs in self.evs(st, fr, n.elts):
            if isinstance(vs, Raise): yield s, vs
            else: yield s, self.newseq(s, list, mklist([self.toV(x) for x in vs]))
    def ev_Set(self, st, fr, n):
        for s, vs in self.evs(st, fr, n.elts):
            if isinstance(vs, Raise): yield s, vs
            else:
                x = EMPTYSET
                for v in vs: x = Store(x, self.toV(v), BoolVal(True))
                yield s, self.newset(s, x)
    def ev_Dict(self, st, fr, n):
        if any(k is None for k in n.keys): raise Unsupported('dict unpacking')
        for s, vs in self.evs(st, fr, [x for kv in zip(n.keys, n.values) for x in kv]):
            if isinstance(vs, Raise): yield s, vs
            else:
                m = EMPTYMAP
                for i in range(0, len(vs), 2): m = Store(m, self.toV(vs[i]), Opt.present(self.toV(vs[i + 1])))
                yield s, self.newmap(s, dict, m)
    def ev_JoinedStr(self, st, fr, n):
        parts = [x.value for x in n.values if isinstance(x, ast.FormattedValue)]
        for s, vs in self.evs(st, fr, parts):
            yield s, (vs if isinstance(vs, Raise) else V.str(fresh('fmt', Str)))
    def ev_Lambda(self, st, fr, n):
        self.fid += 0
        yield st, Closure(n, fr.fid, fr.modname, (fr.fn.qual if fr.fn else '') + '.<locals>.<lambda>', self.defaults_of(n, st, fr))
    def defaults_of(self, n, st, fr):
        ds = []
        for d in n.args.defaults:
            r = list(self.ev(st, fr, d))
            if len(r) != 1 or isinstance(r[0][1], Raise): raise Unsupported('default argument')
            ds.append(r[0][1])
        for d in n.args.kw_defaults:
            if d is not None: raise Unsupported('kw-only default')
        return ds
    def ev_GeneratorExp(self, st, fr, n): 
        # the first iterable is evaluated eagerly, as in Python
        for s, v in self.ev(st, fr, n.generators[0].iter):
            if isinstance(v, Raise): yield s, v
            else:
                g = GenE(n, fr, s); g.first = v
                yield s, g
    def comp_acc(self, st, fr, n, elt, kind):
        key = ('acc', self.nid())
        st = st.copy(); st.envs[fr.fid][key] = RawL(NIL)
        g = GenE(n, fr, st); g.first = None
        def body(s, v):
            s.envs[fr.fid][key] = RawL(self.snocs(s.envs[fr.fid][key].l, self.toV(v)))
            yield ('n',), s
        for out, s in self.consume_gene(st, g, elt, body, accs=[(fr.fid, key)]):
            if out[0] == 'n':
                l = s.envs[fr.fid][key].l
                del s.envs[fr.fid][key]
                yield s, l
            elif out[0] == 'exc': yield s, out[1]
            else: raise Unsupported('comprehension outcome')
    _nid = [0]
    def nid(self): self._nid[0] += 1; return self._nid[0]
    def snocs(self, l, x):
        xs = []; t = l
        while ctorL(t) == 'cons': xs.append(t.arg(0)); t = t.arg(1)
        if ctorL(t) == 'nil': return mklist(xs + [x])
        return snoc(l, x)
    def ev_ListComp(self, st, fr, n):
        for s, l in self.comp_acc(st, fr, n, n.elt, 'list'):
            yield s, (l if isinstance(l, Raise) else self.newseq(s, list, l))
    def ev_SetComp(self, st, fr, n):
        for s, l in self.comp_acc(st, fr, n, n.elt, 'set'):
            yield s, (l if isinstance(l, Raise) else self.newset(s, self.lset(l)))
    def ev_DictComp(self, st, fr, n): raise Unsupported('dict comprehension')
    def lset(self, l):
        xs = []; t = l
        while ctorL(t) == 'cons': xs.append(t.arg(0)); t = t.arg(1)
        if ctorL(t) == 'nil':
            r = EMPTYSET
            for x in xs: r = Store(r, x, BoolVal(True))
            return r
        return toset(l)
    def ev_IfExp(self, st, fr, n):
        for s, t in self.cond(st, fr, n.test):
            if isinstance(t, Raise): yield s, t
            else: yield from self.ev(s, fr, n.body if t else n.orelse)
    def cond(self, st, fr, n):
        """evaluate a condition: yields (st, True/False) or (st, Raise)"""
        if isinstance(n, ast.BoolOp):
            yield from self.cond_bool(st, fr, n.values, isinstance(n.op, ast.And)); return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for s, t in self.cond(st, fr, n.operand):
                yield s, (t if isinstance(t, Raise) else (not t))
            return
        for s, v in self.ev(st, fr, n):
            if isinstance(v, Raise): yield s, v
            else: yield from self.split(s, self.truth(s, v))
    def cond_bool(self, st, fr, vals, isand):
        for s, t in self.cond(st, fr, vals[0]):
            if isinstance(t, Raise) or len(vals) == 1 or t != isand: yield s, t
            else: yield from self.cond_bool(s, fr, vals[1:], isand)
    def ev_BoolOp(self, st, fr, n):
        yield from self.boolop(st, fr, n.values, isinstance(n.op, ast.And))
    def boolop(self, st, fr, vals, isand):
        for s, v in self.ev(st, fr, vals[0]):
            if isinstance(v, Raise) or len(vals) == 1: yield s, v; continue
            for s2, t in self.split(s, self.truth(s, v)):
                if t != isand: yield s2, v
                else: yield from self.boolop(s2, fr, vals[1:], isand)
    def ev_UnaryOp(self, st, fr, n):
        for s, v in self.ev(st, fr, n.operand):
            if isinstance(v, Raise): yield s, v; continue
            if isinstance(n.op, ast.Not):
                yield s, V.bool(simp(Not(self.truth(s, v))))
            else: yield from self.unop(s, {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(n.op)], v)
    def unop(self, st, op, v):
        v = self.toV(v)
        for s, k in self.numkind(st, v):
            if k is None: yield s, mkraise(TypeError, self.line)
            elif k == 'flt': yield s, V.flt(-V.r(v) if op == 'neg' else V.r(v))
            else:
                x = self.intval(v, k); yield s, V.int(-x if op == 'neg' else x)
    def intval(self, v, k): return If(V.b(v), IntVal(1), IntVal(0)) if k == 'bool' else (v.arg(0) if ctor(v) == 'int' else V.i(v))
    def numkind(self, st, v):
        t = self.tag_of(st, v)
        if t: yield st, (t if t in ('int', 'flt', 'bool') else None); return
        for k in ('int', 'flt', 'bool'):
            if self.feasible(st, tag(v, k)):
                s = st.copy(); s.assume(tag(v, k)); yield s, k
        rest = Not(Or(V.is_int(v), V.is_flt(v), V.is_bool(v)))
        if self.feasible(st, rest):
            s = st.copy(); s.assume(rest); yield s, None
    BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or_', ast.BitAnd: 'and_', ast.BitXor: 'xor'}
    def ev_BinOp(self, st, fr, n):
        for s, vs in self.evs(st, fr, [n.left, n.right]):
            if isinstance(vs, Raise): yield s, vs
            else:
                self.line = n.lineno
                op = self.BINOPS.get(type(n.op))
                if op is None: raise Unsupported('operator %s' % type(n.op).__name__)
                yield from self.binop(s, op, vs[0], vs[1])
    def binop(self, st, op, a, b):
        a = self.norm(a); b = self.norm(b)
        if op == 'mod' and not isinstance(a, EV) and self.tag_of(st, a) == 'str':
            yield st, V.str(fresh('fmt', Str)); return
        if op == 'add' and isinstance(a, TupE) and isinstance(b, TupE): yield st, TupE(a.items + b.items); return
        A = self.toV(a); B = self.toV(b); ta, tb = self.tag_of(st, A), self.tag_of(st, B)
        if op == 'add':
            if ta == 'tup' and tb == 'tup': yield st, V.tup(app(self.L_(A), self.L_(B))); return
            if ta == 'str' and tb == 'str': yield st, V.str(z3.Concat(V.s(A), V.s(B))); return
            ka, kb = self.cls_of(st, A) if ta == 'obj' else None, self.cls_of(st, B) if tb == 'obj' else None
            if ka is list and kb is list: yield st, self.newseq(st, list, app(self.read(st, 'seq', A), self.read(st, 'seq', B))); return
            if ta is None or tb is None:
                for t in ('tup', 'str'):
                    c = And(tag(A, t), tag(B, t))
                    if self.feasible(st, c):
                        s = st.copy(); s.assume(c)
                        yield s, (V.tup(app(V.t(A), V.t(B))) if t == 'tup' else V.str(z3.Concat(V.s(A), V.s(B))))
                st = st.copy(); st.assume(Not(And(V.is_tup(A), V.is_tup(B))), Not(And(V.is_str(A), V.is_str(B))))
                if not self.feasible(st): return
        if op in ('or_', 'and_') and ta == 'fset' and tb == 'fset':
            if op == 'or_': yield st, V.fset(fsunion(V.fs(A), V.fs(B))); return
        if op == 'or_':
            ka, kb = self.cls_of(st, A) if ta == 'obj' else None, self.cls_of(st, B) if tb == 'obj' else None
            if ka is set and kb is set: yield st, self.newset(st, z3.SetUnion(self.read(st, 'set', A), self.read(st, 'set', B))); return
        for s, k in self.numkind(st, A):
            if k is None: yield s, mkraise(TypeError, self.line); continue
            for s2, k2 in self.numkind(s, B):
                if k2 is None: yield s2, mkraise(TypeError, self.line); continue
                yield from self.arith(s2, op, A, k, B, k2)
    def L_(self, v): return v.arg(0) if ctor(v) == 'tup' else V.t(v)
    def arith(self, st, op, A, k, B, k2):
        if k != 'flt' and k2 != 'flt':
            x, y = self.intval(A, k), self.intval(B, k2)
            if op == 'add': yield st, V.int(x + y); return
            if op == 'sub': yield st, V.int(x - y); return
            if op == 'mul': yield st, V.int(x * y); return
            if op in ('floordiv', 'mod', 'truediv'):
                for s, z in self.split(st, y == 0):
                    if z: yield s, mkraise(ZeroDivisionError, self.line)
                    elif op == 'truediv': yield s, V.flt(z3.ToReal(x) / z3.ToReal(y))
                    else: yield s, V.int(pydiv(x, y) if op == 'floordiv' else pymod(x, y))
                return
        else:
            x = V.r(A) if k == 'flt' else z3.ToReal(self.intval(A, k)); y = V.r(B) if k2 == 'flt' else z3.ToReal(self.intval(B, k2))
            self.assumed.add('floats are treated as mathematical reals')
            if op == 'add': yield st, V.flt(x + y); return
            if op == 'sub': yield st, V.flt(x - y); return
            if op == 'mul': yield st, V.flt(x * y); return
            if op == 'truediv':
                for s, z in self.split(st, y == 0):
                    yield s, (mkraise(ZeroDivisionError, self.line) if z else V.flt(x / y))
                return
        # other numeric operators: an uninterpreted total function, or an exception
        f = z3.Function('num_' + op, V, V, V)
        r = f(A, B)
        s = st.copy(); s.assume(Or(V.is_int(r), V.is_flt(r))); yield s, r
        for e in (ZeroDivisionError, OverflowError):
            s = st.copy(); s.assume(z3.Function('numexc_%s_%s' % (op, e.__name__), V, V, Bool)(A, B)); yield s, mkraise(e, self.line)
    def ev_Compare(self, st, fr, n):
        for s, vs in self.evs(st, fr, [n.left] + n.comparators):
            if isinstance(vs, Raise): yield s, vs; continue
            self.line = n.lineno
            if len(n.ops) == 1: yield from self.compare(s, n.ops[0], vs[0], vs[1])
            else: yield from self.chain(s, n.ops, vs)
    def chain(self, st, ops, vs):
        for s, r in self.compare(st, ops[0], vs[0], vs[1]):
            if isinstance(r, Raise) or len(ops) == 1: yield s, r; continue
            for s2, t in self.split(s, self.truth(s, r)):
                if not t: yield s2, lift(False)
                else: yield from self.chain(s2, ops[1:], vs[1:])
    def has_method(self, v, st, name):
        pass
    def compare(self, st, op, a, b):
        if isinstance(op, ast.Is): yield st, V.bool(simp(self.identical(st, a, b))); return
        if isinstance(op, ast.IsNot): yield st, V.bool(simp(Not(self.identical(st, a, b)))); return
        if isinstance(op, (ast.In, ast.NotIn)):
            for s, r in self.contains(st, a, b):
                if isinstance(r, Raise): yield s, r
                else: yield s, V.bool(simp(Not(r) if isinstance(op, ast.NotIn) else r))
            return
        if isinstance(op, (ast.Eq, ast.NotEq)):
            A = self.norm(a); B = self.norm(b)
            neg = isinstance(op, ast.NotEq)
            for x, y in ((A, B), (B, A)):
                if not isinstance(x, EV) and self.tag_of(st, x) in ('lit', 'link'):
                    nm = '__ne__' if neg else '__eq__'
                    f = inspect.getattr_static(self.term_class(self.tag_of(st, x)), nm, None)
                    fn = fn_of_live(f) if f is not None else None
                    if fn is not None and fn.key in self.view.contracts:
                        yield from self.call(st, Live(f), [x, y], {}); return
            e = self.equal(st, a, b)
            yield st, V.bool(simp(Not(e) if neg else e)); return
        # ordering
        nm = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
        yield from self.order(st, nm, a, b)
    def order(self, st, nm, a, b):
        A = self.toV(a); B = self.toV(b)
        if self.view.orderv is not None:
            r = self.view.orderv(self, st, nm, A, B)
            if r is not None: yield from r; return
        both = And(isnum_(A), isnum_(B))
        rel = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[nm]
        for s, t in self.split(st, both):
            if t:
                ka, kb = self.tag_of(s, A), self.tag_of(s, B)
                if ka == 'int' and kb == 'int': yield s, V.bool(rel(self.intval(A, 'int'), self.intval(B, 'int')))
                else: yield s, V.bool(rel(numval(A), numval(B)))
            else:
                for s2, t2 in self.split(s, And(V.is_str(A), V.is_str(B))):
                    if t2:
                        x, y = V.s(A), V.s(B)
                        yield s2, V.bool({'lt': x < y, 'le': x <= y, 'gt': y < x, 'ge': y <= x}[nm])
                    else:
                        ta, tb = self.tag_of(s2, A), self.tag_of(s2, B)
                        r = z3.Function('py_' + nm, V, V, Bool)(A, B)
                        s3 = s2.copy(); yield s3, V.bool(r)
                        s4 = s2.copy(); s4.assume(z3.Function('pyx_order', V, V, Bool)(A, B))
                        yield s4, mkraise(TypeError, self.line)
    def contains(self, st, a, b):
        b = self.norm(b)
        if isinstance(b, TupE):
            yield st, (Or(*[self.equal(st, a, x) for x in b.items]) if b.items else BoolVal(False)); return
        if isinstance(b, Live):
            o = b.obj
            if isinstance(o, (list, tuple, set, frozenset, dict)):
                yield st, (Or(*[self.equal(st, a, lift(x)) for x in o]) if o else BoolVal(False)); return
            raise Unsupported('in %r' % b)
        t = self.tag_of(st, b)
        A = self.toV(a)
        if t == 'tup': yield st, mem(A, self.L_(b)); return
        if t == 'fset': yield st, mem(A, V.fs(b)); return
        if t == 'str':
            A = self.toV(a)
            yield st, z3.Contains(V.s(b), V.s(A)); return
        if t == 'obj':
            k = self.cls_of(st, b); kd = kind_of(k)
            if kd == 'map': yield st, Opt.is_present(Select(self.read(st, 'map', b), A)); return
            if kd == 'set': yield st, Select(self.read(st, 'set', b), A); return
            if kd == 'seq': yield st, mem(A, self.read(st, 'seq', b)); return
        raise Unsupported('`in` on unknown container at line %d' % self.line)
    def ev_Starred(self, st, fr, n): raise Unsupported('starred')
    def ev_Slice(self, st, fr, n):
        parts = [n.lower, n.upper, n.step]
        for s, vs in self.evs(st, fr, [p for p in parts if p is not None]):
            if isinstance(vs, Raise): yield s, vs; continue
            it = iter(vs); yield s, SliceE(*[next(it) if p is not None else None for p in parts])
    def ev_Subscript(self, st, fr, n):
        for s, vs in self.evs(st, fr, [n.value, n.slice]):
            if isinstance(vs, Raise): yield s, vs
            else:
                self.line = n.lineno
                yield from self.getitem(s, vs[0], vs[1])
    def constint(self, v):
        v = self.toV(v)
        if ctor(v) == 'int' and z3.is_int_value(simp(v.arg(0))): return simp(v.arg(0)).as_long()
        return None
    def list_index(self, st, l, i, v=None, spec=None):
        """element of list l at index value i, with IndexError"""
        k = self.constint(i)
        if k is None:
            I = self.toV(i)
            if self.tag_of(st, I) != 'int': raise Unsupported('non-int index')
            x = self.intval(I, 'int')
            for s, ok in self.split(st, And(x >= 0, x < llen(l))):
                if ok: yield s, nth(l, x)
                else:
                    for s2, ok2 in self.split(s, And(x < 0, x >= -llen(l))):
                        if ok2: yield s2, nth(l, llen(l) + x)
                        else: yield s2, mkraise(IndexError, self.line)
            return
        if k in (0, -1):
            for s, ok in self.split(st, l != NIL):
                if ok: yield s, simp(L.hd(l)) if k == 0 else self.llast(l)
                else: yield s, mkraise(IndexError, self.line)
            return
        x = IntVal(k)
        for s, ok in self.split(st, (llen(l) > k) if k > 0 else (llen(l) >= -k)):
            if ok: yield s, nth(l, x if k > 0 else llen(l) + k)
            else: yield s, mkraise(IndexError, self.line)
    def llast(self, l):
        if z3.is_app(l) and l.decl().name() == 'snoc': return l.arg(1)
        xs = []; t = l
        while ctorL(t) == 'cons': xs.append(t.arg(0)); t = t.arg(1)
        if ctorL(t) == 'nil' and xs: return xs[-1]
        return llast(l)
    def linit(self, l):
        if z3.is_app(l) and l.decl().name() == 'snoc': return l.arg(0)
        xs = []; t = l
        while ctorL(t) == 'cons': xs.append(t.arg(0)); t = t.arg(1)
        if ctorL(t) == 'nil' and xs: return mklist(xs[:-1])
        return linit(l)
    def elem_spec(self, st, v):
        h = self.hintof(st, v) if is_expr(v) else None
        if isinstance(h, tuple) and h[0] in ('list', 'deque', 'set', 'dict', 'ddict'): return h[-1]
        if isinstance(h, tuple) and h[0] == 'obj': return self.view.fields.get((h[1], '[]'))
        return None
    def elem(self, st, v, x):
        """type the element x read from container v"""
        x = self.norm(x)
        if isinstance(x, EV) or ctor(x): return x
        sp = self.elem_spec(st, v)
        if sp: return self.typed(st, x, sp)
        st.assume(Implies(V.is_obj(x), V.oi(x) < st.alloc))
        return x
    def strlen(self, st, o):
        """the length of a text: of the solver's theory of strings, or (view.strfns) an uninterpreted non-negative number"""
        if not self.view.strfns: return z3.Length(V.s(o))
        n = self.view.strfns[0](V.s(o)); st.assume(n >= 0); return n
    def getitem(self, st, o, i):
        o = self.norm(o)
        if isinstance(o, TupE):
            if isinstance(i, SliceE):
                lo = None if i.lo is None else self.constint(i.lo); hi = None if i.hi is None else self.constint(i.hi)
                if (i.lo is not None and lo is None) or (i.hi is not None and hi is None) or i.step is not None: raise Unsupported('symbolic slice')
                yield st, TupE(o.items[lo:hi]); return
            k = self.constint(i)
            if k is None: o = self.toV(o)
            else:
                if -len(o.items) <= k < len(o.items): yield st, o.items[k]
                else: yield st, mkraise(IndexError, self.line)
                return
        if isinstance(o, Live):
            k = self.norm(i)
            if isinstance(o.obj, dict) and not isinstance(k, EV) and ctor(k) == 'str' and z3.is_string_value(k.arg(0)):
                kk = k.arg(0).as_string()
                if kk in o.obj: yield st, lift(o.obj[kk])
                else: yield st, mkraise(KeyError, self.line)
                return
            raise Unsupported('subscript of %r' % o)
        t = self.tag_of(st, o)
        if t is None:
            for s, ok in self.split(st, V.is_tup(o)):
                if ok:
                    self.hint(s, o, 'tup'); yield from self.getitem(s, o, i)
                else:
                    for s2, ok2 in self.split(s, V.is_str(o)):
                        if ok2: self.hint(s2, o, 'str'); yield from self.getitem(s2, o, i)
                        else:
                            h = self.hintof(s2, o)
                            if isinstance(h, tuple) and h[0] == 'opt':
                                self.hint(s2, o, h[1]); s2.assume(o != V.none); yield from self.getitem(s2, o, i)
                            elif self.feasible(s2, Not(V.is_obj(o))) and not self.feasible(s2, V.is_obj(o)): yield s2, mkraise(TypeError, self.line)
                            else: raise Unsupported('subscript of unknown value at line %d' % self.line)
            return
        if t in ('tup', 'str') or (t == 'obj' and kind_of(self.cls_of(st, o)) == 'seq'):
            if t == 'str':
                if isinstance(i, SliceE): yield st, V.str(fresh('substr', Str)); return
                k = self.intval(i, 'index') if isinstance(i, z3.ExprRef) else IntVal(self.constint(i)); n = self.strlen(st, o)
                for s, ok in self.split(st, And(k < n, k >= -n)):
                    if ok: yield s, V.str(self.view.strfns[1](V.s(o), simp(If(k >= 0, k, k + n))) if self.view.strfns else fresh('ch', Str))
                    else: yield s, mkraise(IndexError, self.line)
                return
            l = self.L_(o) if t == 'tup' else self.read(st, 'seq', o)
            if isinstance(i, SliceE):
                if i.step is not None: raise Unsupported('slice step')
                if i.hi is None and i.lo is None: r = l
                elif i.hi is None:
                    k = self.constint(i.lo)
                    if k is not None and k < 0: raise Unsupported('negative slice')
                    if k is not None and k <= 2:
                        r = l
                        for _ in range(k): r = ltail(r)
                        r = simp(r)
                    else: r = drop(l, self.intval(self.toV(i.lo), 'int'))
                elif i.lo is None:
                    k = self.constint(i.hi)
                    if k == -1: r = If(l == NIL, NIL, self.linit(l))
                    elif k is not None and k < 0: raise Unsupported('negative slice')
                    else: r = take(l, self.intval(self.toV(i.hi), 'int'))
                else: raise Unsupported('slice bounds')
                yield st, (V.tup(r) if t == 'tup' else self.newseq(st, list, r)); return
            for s, x in self.list_index(st, l, i):
                yield s, (x if isinstance(x, Raise) else self.elem(s, o, x))
            return
        if t == 'obj':
            k = self.cls_of(st, o)
            if kind_of(k) == 'map':
                K = self.toV(i)
                sl = Select(self.read(st, 'map', o), K)
                for s, ok in self.split(st, Opt.is_present(sl)):
                    if ok: yield s, self.elem(s, o, simp(Opt.pv(sl)))
                    elif k is collections.defaultdict:
                        h = self.hintof(s, o)
                        if not (isinstance(h, tuple) and h[0] == 'ddict' and h[1] is not None): raise Unsupported('defaultdict with unknown factory')
                        f = h[1]
                        for s2, x in self.call(s, f if isinstance(f, EV) else Live(f), [], {}):
                            if isinstance(x, Raise): yield s2, x; continue
                            X = self.toV(x)
                            if self.view.ddictpure: self.assumed.add('a defaultdict lookup that inserts an empty container is not observable')
                            else: self.write(s2, 'map', o, Store(self.read(s2, 'map', o), K, Opt.present(X)))
                            if h[2]: self.hint(s2, X, h[2])
                            yield s2, x
                    else: yield s, mkraise(KeyError, self.line)
                return
        if t in ('int', 'bool', 'flt', 'none', 'lit', 'link', 'var', 'wild', 'una', 'bino'):
            yield st, mkraise(TypeError, self.line); return
        raise Unsupported('subscript at line %d' % self.line)
    def ev_NamedExpr(self, st, fr, n):
        for s, v in self.ev(st, fr, n.value):
            if not isinstance(v, Raise):
                s = s.copy(); s.envs[fr.fid][n.target.id] = v
            yield s, v
    def ev_Yield(self, st, fr, n):
        if n.value is None: vals = [(st, lift(None))]
        else: vals = self.ev(st, fr, n.value)
        for s, v in vals:
            if isinstance(v, Raise): yield s, v; continue
            yield from self.do_yield(s, fr, v)
    def do_yield(self, s, fr, v):
        if fr.on_yield is None: raise Unsupported('yield outside a driven generator')
        for out, s2 in fr.on_yield(s, v):
            if out == 'resume': yield s2, lift(None)
            else: yield s2, out          # an Escape / Raise
    def ev_YieldFrom(self, st, fr, n):
        for s, v in self.ev(st, fr, n.value):
            if isinstance(v, Raise): yield s, v; continue
            def body(s1, x):
                for s2, r in self.do_yield(s1, fr, x):
                    yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
            for out, s2 in self.consume(s, fr, v, body, [], yields=fr.on_yield):
                if out[0] == 'n': yield s2, lift(None)
                elif out[0] == 'exc': yield s2, out[1]
                else: raise Unsupported('yield from outcome')
    def ev_Call(self, st, fr, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            cls = self.enclosing_class(fr); yield st, SuperE(cls, st.envs[fr.fid]['__self__']); return
        args = []; 
        for a in n.args:
            args.append(a.value if isinstance(a, ast.Starred) else a)
        kws = [k.value for k in n.keywords]
        if any(k.arg is None for k in n.keywords): raise Unsupported('**kwargs call')
        for s, fv in self.ev(st, fr, f):
            if isinstance(fv, Raise): yield s, fv; continue
            for s2, vs in self.evs(s, fr, args + kws):
                if isinstance(vs, Raise): yield s2, vs; continue
                pos = []; ok = True; star = None
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, TupE): pos.extend(v.items)
                        elif a is n.args[-1]: star = v
                        else: raise Unsupported('*args')
                    else: pos.append(v)
                self.line = n.lineno
                kw = {k.arg: v for k, v in zip(n.keywords, vs[len(args):])}
                if star is not None: kw['*'] = star
                yield from self.call(s2, fv, pos, kw, fr)
    def enclosing_class(self, fr):
        parts = fr.fn.qual.split('.')
        o = module(fr.modname).mod
        for p in parts[:-1]:
            o = getattr(o, p)
        return o
def ctorL(l):
    nm = info(l)[2]
    return nm if nm in ('nil', 'cons') else None
def ltail(l):
    return l.arg(1) if ctorL(l) == 'cons' else If(l == NIL, NIL, L.tl(l))
fsunion = spec('fsunion', L, L, L)
def pydiv(x, y): return z3.Function('pydiv', Int, Int, Int)(x, y)
def pymod(x, y): return z3.Function('pymod', Int, Int, Int)(x, y)
