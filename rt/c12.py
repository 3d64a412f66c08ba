from lib import *
import c11
from c11 import E as E11, parse, tree, Src, NAMES_, OR, AND, NOT, CMP, ADD, MUL, UN, POW, ATOM
OPB = {o.value.lexeme: o.value for o in BinaryOp}; OPU = {o.value.lexeme: o.value for o in UnaryOp}
class E(E11):
    bad = 0.0
    def num(self, d):
        if self.r.random() < self.bad: return self.r.choice([self.lit(0, True), (ATOM, ['"s"'], ('c', 'str', 's')), (ATOM, ['true'], ('c', 'bool', True)), (ATOM, ['[]'], ('list', ()))])
        if d <= 0 or self.r.random() < 0.15:
            if self.r.random() < 0.35: return self.var()
            s = self.r.choice(['0', '1', '2', '3', '10', '0.5', '1e2', '8']); return ATOM, [s], ('c', 'float', float(s))
        return E11.num(self, d)
    def boolean_(self, d, query):
        if self.r.random() < self.bad: return self.r.choice([(ATOM, ['1'], ('c', 'float', 1.0)), (ATOM, ['"s"'], ('c', 'str', 's'))])
        if d <= 0 and self.r.random() < 0.6: b = self.r.random() < 0.5; return ATOM, ['true' if b else 'false'], ('c', 'bool', b)
        return E11.boolean_(self, d, query)
    def cmp(self, d):
        x, y = [self.const() if self.r.random() < 0.2 else self.list(d - 1) if self.r.random() < 0.1 else self.num(d - 1) for _ in range(2)]
        o = self.r.choice(CMPOPS); return CMP, self.at(x, ADD) + [o] + self.at(y, ADD), ('bin', o, x[2], y[2])
class Ill(Exception): pass
def typ(t):
    if t[0] == 'c': return {'float': 'num', 'bool': 'bool', 'str': 'str', 'int': 'num', 'complex': 'num'}[t[1]]
    if t[0] in ('lit', 'list', 'link'): return 'term'
    if t[0] == 'un': return 'bool' if t[1] == 'not' else 'num'
    if t[0] == 'bin': return 'num' if t[1] in NUMOPS else 'bool'
    return None
def norm(t, query=False):
    """constant sub-expressions evaluated; Ill when some sub-expression can never be evaluated"""
    k = t[0]
    if k in ('v', 'c'): return t
    if k == 'lit': return (k, t[1], tuple(norm(x) for x in t[2]), tuple(norm(x) for x in t[3]))
    if k == 'list': return (k, tuple(norm(x) for x in t[1]))
    if k == 'link': return (k, norm(t[1]), norm(t[2]))
    if k == 'un':
        x = norm(t[2], query and t[1] == 'not'); need = 'bool' if t[1] == 'not' else 'num'
        if typ(x) not in (None, need) and not (query and t[1] == 'not' and x[0] == 'lit'): raise Ill()
        if x[0] == 'c': v = OPU[t[1]].func(x[2]); return ('c', type(v).__name__, v)
        return (k, t[1], x)
    q = query and t[1] in BOOLOPS
    x, y = norm(t[2], q), norm(t[3], q); o = t[1]
    need = 'num' if o in NUMOPS else 'bool' if o in BOOLOPS else None
    if need and any(typ(z) not in (None, need) and not (q and z[0] == 'lit') for z in (x, y)): raise Ill()
    if x[0] == 'c' and y[0] == 'c':
        if need is None and typ(x) != typ(y):       # comparing values of different kinds: whatever evaluation gives
            try: v = OPB[o].func(x[2], y[2]) if o in ('<', '<=', '==', '\\==', '>=', '>') else None
            except Exception: v = None
            return (k, o, x, y) if v is None else ('c', type(v).__name__, v)
        try: v = OPB[o].func(x[2], y[2])
        except Exception: raise Ill()
        return ('c', type(v).__name__, v)
    return (k, o, x, y)
def same(a, b):
    return repr(a) == repr(b)
VALS = [('1', 1.0), ('0', 0.0), ('3', 3.0), ('-2', -2.0), ('true', True), ('false', False), ('"s"', 's'), ('a', Literal('a')), ('[1]', (1.0,))]
def term(t, vs):
    k = t[0]
    if k == 'v': return vs[t[1]]
    if k == 'c': return t[2]
    if k == 'lit': return Literal(t[1], [term(x, vs) for x in t[2]], [term(x, vs) for x in t[3]])
    if k == 'list': return tuple(term(x, vs) for x in t[1])
    if k == 'link': return LinkedList(term(t[1], vs), term(t[2], vs))
    if k == 'un': return UnaryExpr(OPU[t[1]], term(t[2], vs))
    return BinaryExpr(OPB[t[1]], term(t[2], vs), term(t[3], vs))
def qeval(t, vs): return next(qsol(t, vs), None) is not None
def qsol(t, vs):
    """one item per answer of the query (it binds nothing)"""
    k = t[0]
    if k == 'un' and t[1] == 'not':
        if not qeval(t[2], vs): yield 1
    elif k == 'bin' and t[1] == '&':
        for _ in qsol(t[2], vs): yield from qsol(t[3], vs)
    elif k == 'bin' and t[1] == '|': yield from qsol(t[2], vs); yield from qsol(t[3], vs)
    else:
        x = walk(term(t, vs), {})
        if islit(x): ev(x); return
        if not isinstance(x, bool): raise TypeErr('query')
        if x: yield 1
def ev(t):
    """the fully evaluated term"""
    t = walk(t, {})
    if islit(t): return Literal(t.functor, [ev(x) for x in t.args], [ev(x) for x in t.annots])
    if isinstance(t, tuple): return tuple(ev(x) for x in t)
    if isinstance(t, LinkedList): return LinkedList(ev(t.head), ev(t.tail))
    return t
def has(t, p):
    if not isinstance(t, tuple): return False
    if t and isinstance(t[0], str) and p(t): return True
    return any(has(x, p) for x in t)
def run(text):
    acts = agentspeak.Actions(SL.actions); out = []
    @acts.add('.rec')
    def _rec(agent, term, intention):
        out.append(agentspeak.freeze(term.args, intention.scope, {})); yield
    try: a = TestEnv().build_agent(Src(text), acts)
    except agentspeak.AggregatedError: return 'rejected', None
    try:
        while a.step(): pass
    except (agentspeak.AslError, agentspeak.AggregatedError): return 'error', None
    return 'ok', out
def quiet(rng):
    g = E(rng); g.bad = rng.choice([0, 0, 0, 0.08]); return g
@check('C12', 3)
def value(rng, size):
    g = quiet(rng); query = rng.random() < 0.4; g.query_ok = False; d = rng.randrange(1, 5)
    if query: lvl, toks, t = g.boolean_(d, True)
    else: lvl, toks, t = rng.choice([lambda: g.num(d), lambda: g.boolean_(d, False), lambda: g.list(d), lambda: g.cmp(d), lambda: g.lit(d, True)])()
    src = g.text(toks); b = {n: rng.choice(VALS[:4] if rng.random() < 0.5 else VALS) for n in NAMES_}
    text = '!g(%s).\n+!g(%s) <- %s.' % (', '.join(b[n][0] for n in NAMES_), ', '.join(NAMES_), 'if (%s) {.rec(1)} else {.rec(0)}' % src if query else '.rec(%s)' % src)
    what = 'program %r' % text
    if has(t, lambda x: x[0] == 'lit' and len(x) == 4 and (query and '.' in x[1] or len(x[3]) > 1)): raise Skip()     # sets of annotations identify true and 1: known finding of C16
    try: norm(t, query); ill = query and t[0] == 'c' and typ(t) != 'bool' or (query and typ(t) in ('num', 'term', 'str') and t[0] != 'lit')
    except Ill: ill = True
    st, out = run(text)
    vs = {n: b[n][1] for n in NAMES_}
    if st == 'rejected': require(ill, '%s is rejected although it can be evaluated', what); return text
    try: want = [(1.0 if qeval(t, vs) else 0.0,)] if query else [(ev(term(t, vs)),)]
    except Skip: raise
    except Exception: want = None
    require((st == 'error') == (want is None), '%s: ends with %s, but evaluating gives %s', what, st, want)
    if want is not None: require([canon(x, {}) for x in out] == [canon(x, {}) for x in want] and [repr(x) for x in out] == [repr(x) for x in want] or (has(t, lambda x: x[0] == 'lit') and [canon(x, {}) for x in out] == [canon(x, {}) for x in want]), '%s: %s, expected %s', what, out, want)
    return text
@check('C12', 2)
def structure(rng, size):
    g = quiet(rng); d = rng.randrange(1, 4); g.query_ok = False
    def args(): return [g.term(d) for _ in range(rng.randrange(1, 4))]
    xs = args(); an = args() if rng.random() < 0.3 else []
    lit = 'p(%s)' % ', '.join(g.text(x[1]) for x in xs) + ('[%s]' % ', '.join(g.text(x[1]) for x in an) if an else '')
    t = ('lit', 'p', tuple(x[2] for x in xs), tuple(x[2] for x in an)); where = rng.choice(['formula', '+', '-', '?', '!', '!!', '-+', 'context', 'consequence', 'condition'])
    q = None
    if where in ('context', 'consequence', 'condition'): e = g.boolean_(d, True); q = e[2]; src = g.text(e[1])
    text = {'context': '+!g : %s <- p.', 'consequence': 'h :- %s.', 'condition': '+!g <- if (%s) {p}.'}[where] % src if q else '+!g <- %s%s.' % ('' if where == 'formula' else where, lit)
    try: want = norm(q, True) if q else norm(t); ill = bool(q) and typ(q) not in ('bool', None) and q[0] != 'lit'
    except Ill: ill = True
    try: ag = parse(text)
    except agentspeak.AggregatedError: require(ill, 'program %r is rejected although it can be evaluated', text); return text
    if ill: return text                          # found at run time (checked by value)
    n = ag.rules[0].consequence if where == 'consequence' else ag.plans[0].context if where == 'context' else ag.plans[0].body.formulas[0].condition if where == 'condition' else ag.plans[0].body.formulas[0].term
    got = tree(n)
    try: got = norm(got, bool(q))
    except Ill: require(False, 'program %r folds to %s, which cannot be evaluated', text, got)
    require(same(got, want), 'program %r folds to %s, expected %s', text, got, want)
    return text
