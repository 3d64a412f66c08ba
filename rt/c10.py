from lib import *
# ------------------------------------------------------------------ structured programs and their reference meaning
VARS = ['X', 'Y', 'Z', 'W']
CNT = ['c', 'd', 'e']
class Stop(Exception): pass
class Q(object):
    def __init__(self, kind, *parts): self.kind = kind; self.parts = parts
class P(object):
    """generator of a structured program as text, with the same program as data for the reference"""
    def __init__(self, rng): self.r = rng; self.vars = {n: Var() for n in VARS}; self.lines = []; self.block = 0; self.rec = 0
    def var(self): n = self.r.choice(VARS[:3]); return n, self.vars[n]
    def val(self, d=1):
        k = self.r.random()
        if k < 0.45: n = float(self.r.randrange(4)); return '%d' % n, n
        if k < 0.6: a = self.r.choice('ab'); return a, Literal(a)
        if k < 0.9 or d <= 0: return self.var()
        t, v = self.val(d - 1); return 'f(%s)' % t, Literal('f', (v,))
    def num(self):
        k = self.r.random()
        if k < 0.5: return self.var()
        n = float(self.r.randrange(4)); return '%d' % n, n
    def query(self, d=2):
        k = self.r.random()
        if d > 0 and k < 0.25:
            (a, x), (b, y) = self.query(d - 1), self.query(d - 1); return '(%s & %s)' % (a, b), Q('and', x, y)
        if d > 0 and k < 0.45:
            (a, x), (b, y) = self.query(d - 1), self.query(d - 1); return '(%s | %s)' % (a, b), Q('or', x, y)
        if d > 0 and k < 0.53:
            a, x = self.query(d - 1); return 'not (%s)' % a, Q('not', x)
        if k < 0.75:
            v, x = self.var(); es = [self.val(0) for _ in range(self.r.randrange(4))]
            return '.member(%s, [%s])' % (v, ', '.join(e for e, _ in es)), Q('member', x, tuple(e for _, e in es))
        if k < 0.83: (a, x), (b, y) = self.val(), self.val(); return '%s = %s' % (a, b), Q('unify', x, y)
        if k < 0.89: return self.r.choice([('1 = 1', Q('true')), ('1 = 1', Q('true')), ('1 = 2', Q('false'))])
        if k < 0.94: f = self.r.choice(CNT); v, x = self.var(); return '%s(%s)' % (f, v), Q('term', Literal(f, (x,)))
        v, x = self.var(); o, n = self.r.choice(['<', '>=', '==', '\\==']), self.r.randrange(4)
        return '(.member(%s, [%d, %d]) & %s %s %d)' % (v, n, n + 1, v, o, n + 1), Q('and', Q('member', x, (float(n), float(n + 1))), Q('cmp', o, x, float(n + 1)))
    def recs(self, b):
        self.rec += 1
        vs = self.r.sample(VARS[:3], self.r.randrange(1, 4)); 
        return '.rec(%s)' % ', '.join([str(self.rec), str(b)] + vs), ('rec', float(self.rec), float(b), tuple(self.vars[v] for v in vs))
    def stmt(self, d, b, loops):
        k = self.r.random()
        if d <= 0 or k < 0.22: return self.recs(b)
        if k < 0.3:
            f = self.r.choice(CNT)
            if self.r.random() < 0.5: n = self.r.randrange(3); return '-%s(_); +%s(%d)' % (f, f, n), ('set', f, float(n))
            t, v = self.var(); return '?%s(%s); -+%s(%s + 1)' % (f, t, f, t), ('seq', [('q', Q('term', Literal(f, (v,)))), ('set', f, ('+', v, 1.0))])
        if k < 0.4: t, q = self.query(1); return '%s' % t, ('q', q)
        if k < 0.65:
            t, q = self.query(); a, x = self.body(d - 1, loops)
            if self.r.random() < 0.5: return 'if (%s) {%s}' % (t, a), ('if', q, x, [])
            c, y = self.body(d - 1, loops); return 'if (%s) {%s} else {%s}' % (t, a, c), ('if', q, x, y)
        if k < 0.82: t, q = self.query(); a, x = self.body(d - 1, loops); return 'for (%s) {%s}' % (t, a), ('for', q, x)
        if not loops: return self.recs(b)
        f = loops[0]; k = self.r.randrange(1, 4); a, x = self.body(d - 1, loops[1:])
        W = self.vars['W']; more = self.r.random()
        t, q = '%s(W) & W < %d' % (f, k), Q('and', Q('term', Literal(f, (W,))), Q('cmp', '<', W, float(k)))
        if more < 0.4: t2, q2 = self.query(1); t, q = '%s & %s' % (t, t2), Q('and', q, q2)
        elif more < 0.5: t2, q2 = self.query(1); t, q = '%s & %s' % (t2, t), Q('and', q2, q)
        if self.r.random() < 0.5:      # counting first, so that any statement can be the last of the round
            return '-%s(_); +%s(0); while (%s) {-+%s(W + 1)%s}' % (f, f, t, f, '; ' + a if a else ''), ('seq', [('set', f, 0.0), ('while', q, [('set', f, ('+', W, 1.0))] + x)])
        return '-%s(_); +%s(0); while (%s) {%s; -+%s(W + 1)}' % (f, f, t, a, f) if a and not a.rstrip().endswith('}') else '-%s(_); +%s(0); while (%s) {%s -+%s(W + 1)}' % (f, f, t, a, f), ('seq', [('set', f, 0.0), ('while', q, x + [('set', f, ('+', W, 1.0))])])
    def body(self, d, loops=()):
        self.block += 1; b = self.block; texts = []; data = []
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3]) if d < 3 else self.r.randrange(1, 4)):
            t, x = self.stmt(d, b, loops); texts.append(t); data.append(x)
            if self.r.random() < 0.5: t, x = self.recs(b); texts.append(t); data.append(x)
        out = ''
        for k, t in enumerate(texts):
            out += t
            if k + 1 < len(texts): out += ' ' if t.endswith('}') and self.r.random() < 0.5 else '; '
        return out, data
class Ref(object):
    def __init__(self): self.trace = []; self.beliefs = {(f, 1): [Literal(f, (0.0,))] for f in CNT}; self.rules = []; self.n = 0
    def order(self, g): return list(self.beliefs.get(g, ()))
    def sol(self, q, s):
        if q.kind == 'cmp':
            self.n += 1
            if rvalue(BinaryExpr([o for o in BinaryOp if o.value.lexeme == q.parts[0]][0].value, q.parts[1], q.parts[2]), s): yield s
        elif q.kind == 'and':
            for s1 in self.sol(q.parts[0], s): yield from self.sol(q.parts[1], s1)
        elif q.kind == 'or': yield from self.sol(q.parts[0], s); yield from self.sol(q.parts[1], s)
        elif q.kind == 'not':
            if next(self.sol(q.parts[0], s), None) is None: yield s
        else: yield from solve(q, s, self)
    def run(self, b, s):
        for st in b: s = self.stmt(st, s)
        return s
    def tick(self):
        self.n += 1
        if self.n > 1500: raise Skip()
    def stmt(self, st, s):
        self.tick(); k = st[0]
        if k == 'rec':
            if any(not rground(v, s) and isinstance(walk(v, s), Literal) for v in st[3]): pass
            self.trace.append((st[1], st[2], canon(st[3], s))); return s
        if k == 'set':
            v = st[2]
            if isinstance(v, tuple):
                x = walk(v[1], s)
                if not isnum(x): raise Stop('arith')
                v = x + v[2]
            self.beliefs[(st[1], 1)] = [Literal(st[1], (v,))]; return s
        if k == 'q':
            r = next(self.sol(st[1], s), None)
            if r is None: raise Stop('failure')
            return r
        if k == 'seq': return self.run(st[1], s)
        if k == 'if':
            r = next(self.sol(st[1], s), None)
            return self.run(st[2], r) if r is not None else self.run(st[3], s)
        if k == 'for':
            for r in self.sol(st[1], s): self.tick(); self.run(st[2], r)
            return s
        if k == 'while':
            while True:
                self.tick(); r = next(self.sol(st[1], s), None)
                if r is None: return s
                self.run(st[2], r)
        raise AssertionError(k)
class Src(io.StringIO):
    name = 'prog.asl'
def run_real(text, extra=''):
    env = TestEnv(); acts = agentspeak.Actions(SL.actions); trace = []; depth = {}; left = []
    @acts.add('.rec')
    def _rec(agent, term, intention):
        a = agentspeak.freeze(term.args, intention.scope, {})
        trace.append((a[0], a[1], canon(a[2:], {})))
        left.append((a[1], len(intention.query_stack), len(intention.choicepoint_stack)))
        yield
    try: a = env.build_agent(Src('c(0). d(0). e(0).\n!main.\n+!main <- %s.\n%s' % (text, extra)), acts)
    except agentspeak.AggregatedError as e: raise Fail('the program %s does not build: %s' % (text, e))
    err = None; n = 0
    try:
        while a.step():
            n += 1
            if n > 60000: raise Fail('%s does not end' % text)
    except (agentspeak.AslError, agentspeak.AggregatedError) as e: err = e
    return a, trace, left, err
@check('C10', 1)
def structured(rng, size):
    p = P(rng); loops = CNT[:]; rng.shuffle(loops)
    text, data = p.body(3, loops)
    if not data: raise Skip()
    text = '.rec(0, 0); ' + text + ('; ' if not text.endswith('}') else ' ') + '.rec(99, 0, X, Y, Z)'
    data = [('rec', 0.0, 0.0, ())] + data + [('rec', 99.0, 0.0, (p.vars['X'], p.vars['Y'], p.vars['Z']))]
    ref = Ref(); stop = None
    try: ref.run(data, {})
    except (Stop, TypeErr) as e: stop = e
    except (Cyclic, RecursionError): raise Skip()
    try: a, trace, left, err = run_real(text)
    except RecursionError: raise Skip()
    want = ref.trace
    for k, (x, y) in enumerate(zip(trace, want)): require(x == y, 'program %s: record %d is %s, expected %s (so far %s)', text, k, x, y, want[:k])
    require(len(trace) == len(want), 'program %s: %d records, expected %d: %s / %s', text, len(trace), len(want), trace[-3:], want[-3:])
    require((stop is None) == (err is None), 'program %s: ends with %r, expected %r', text, err, stop)
    if stop is None:
        bs = {(f, 1): [canon(b, {}) for b in a.beliefs[(f, 1)]] for f in CNT}
        require(bs == {g: [canon(b, {}) for b in v] for g, v in ref.beliefs.items()}, 'program %s: beliefs at the end %s, expected %s', text, bs, {g: [show(b) for b in v] for g, v in ref.beliefs.items()})
        require(not [s for s in a.intentions if s], 'program %s: the intention is left over', text)
    seen = {}
    for b, q, c in left: require(seen.setdefault(b, (q, c)) == (q, c), 'program %s: query/choice-point stack of length %s where it was %s before in the same block %s', text, (q, c), seen[b], b)
    return text
