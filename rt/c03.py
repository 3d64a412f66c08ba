from lib import *
import tempfile
def real_solutions(q, i, agent, vs, limit=300):
    out = []
    for _ in q.execute(agent, i):
        out.append(canon(tuple(vs), i.scope))
        if len(out) > limit: raise Skip()
    return out
def compare(got, ref, w, what):
    a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, ref))
    missing, extra = list((b - a).elements()), list((a - b).elements())
    require(not missing and not extra, '%s: solutions %s; missing %s, not expected %s', what, [repr(x) for x in got][:6], missing[:3], extra[:3])
    if all(len(bs) <= 1 for bs in w.beliefs.values()): require(got == ref, '%s: solutions come in the order %s instead of %s', what, got[:6], ref[:6])
@check('C03', 6)
def all_solutions(rng, size):
    an = rng.random() < 0.3
    w = gen_world(rng, annots=an, maxbeliefs=rng.choice([1, 3]), wild=False); g = G(rng, 4, bools=False, annots=False, wild=False); s0 = g.scope(); g.argwild = True
    q = gen_query(rng, g, min(size, 4), ALLPREDS)
    i = new_intention(s0); what = 'query %s under %s, %s' % (q, shows(s0), w.describe())
    ref = [canon(tuple(g.vars), s) for s in reference_solutions(q, s0, w)]
    compare(real_solutions(q.real, i, w.agent, g.vars), ref, w, what)
    return what
@check('C03', 2)
def later_changes_do_not_reach_a_running_query(rng, size):
    """the beliefs a query enumerates are those held when it starts"""
    w = gen_world(rng, annots=False, rules=False, maxbeliefs=4, wild=False); a = w.agent; g = G(rng, 2, bools=False, annots=False)
    f, n = rng.choice([x for x in PREDS if x[1]])
    t = Literal(f, [g.vars[k] if k < 2 else Var() for k in range(n)]); q = Rq(RT.TermQuery(t), 'term', t)
    ref = [canon(tuple(g.vars), s) for s in reference_solutions(q, {}, w)]
    i = new_intention({}); got = []; did = []
    for _ in q.real.execute(a, i):
        got.append(canon(tuple(g.vars), i.scope))
        if len(got) > 50: raise Skip()
        if rng.random() < 0.7:
            b = G(rng, 0, wild=False, annots=False, bools=False).glit(f, n, 1, annots=False) if rng.random() < 0.5 or not w.beliefs[(f, n)] else rng.choice(w.beliefs[(f, n)])
            if b in a.beliefs[(f, n)]: a.beliefs[(f, n)].discard(b); did.append('-' + show(b))
            else: a.beliefs[(f, n)].add(b); did.append('+' + show(b))
    what = 'query %s, %s, changing the beliefs meanwhile: %s' % (q, w.describe(), ' '.join(did))
    compare(got, ref, World(None) if False else w, what)
    return what
# ---------------------------------------------------------------- through the parser
class Src(object):
    """random source text of a query together with its reference reading"""
    def __init__(self, rng, names): self.r = rng; self.top = True; self.v = {n: Var() for n in names}
    def arg(self, d=1):
        k = self.r.random()
        if k < 0.5: n = self.r.choice(list(self.v)); return n, self.v[n]
        if k < 0.7: x = self.r.choice([0, 1, 2]); return str(x), x
        if k < 0.85 or d <= 0: x = self.r.choice(ATOMS); return x, Literal(x)
        if k < 0.93: s, t = self.arg(0); return 'f(%s)' % s, Literal('f', [t])
        s1, t1 = self.arg(0); s2, t2 = self.arg(0); return '[%s, %s]' % (s1, s2), (t1, t2)
    def query(self, d):
        """(text, Rq, binding strength: 1 or, 2 and, 3 not, 4 atom)"""
        k = self.r.random(); self.top, top = False, self.top      # constants are folded (C12): only alone
        if d > 0 and k < 0.25: return self.op('&', 'and', 2, d)
        if d > 0 and k < 0.5: return self.op('|', 'or', 1, d)
        if d > 0 and k < 0.62:
            s, q, p = self.query(d - 1)
            return 'not ' + ('(%s)' % s if p < 3 or self.r.random() < 0.2 else s), Rq(None, 'not', q), 3
        if k < 0.72:
            s1, t1 = self.arg(); s2, t2 = self.arg()
            return '%s = %s' % (s1, s2), Rq(None, 'unify', t1, t2), 3.5
        if k < 0.75 and top: return self.r.choice([('true', Rq(None, 'true'), 4), ('false', Rq(None, 'false'), 4)])
        f, n = self.r.choice([('p', 1), ('q', 2), ('r', 1), ('s', 0)])
        a = [self.arg() for _ in range(n)]
        return (f + '(%s)' % ', '.join(s for s, t in a) if a else f), Rq(None, 'term', Literal(f, [t for s, t in a])), 4
    def op(self, sym, kind, p, d):
        # both operators associate to the left or to the right with the same solutions
        s1, q1, p1 = self.query(d - 1); s2, q2, p2 = self.query(d - 1)
        if p1 < p or self.r.random() < 0.15: s1 = '(%s)' % s1
        if p2 <= p or self.r.random() < 0.15: s2 = '(%s)' % s2
        return '%s %s %s' % (s1, sym, s2), Rq(None, kind, q1, q2), p
@check('C03', 3)
def rules_of_a_program(rng, size):
    w = World(None); lines = []; bs = G(rng, 0, wild=False, annots=False, bools=False, strings=False)
    for f, n in (('p', 1), ('q', 2), ('r', 1), ('s', 0)):
        w.beliefs[(f, n)] = []
        for _ in range(rng.randrange(rng.choice([2, 3]))):
            args = [rng.choice([(str(x), x) for x in (0, 1, 2)] + [(x, Literal(x)) for x in ATOMS] + [('f(1)', Literal('f', [1])), ('[1, a]', (1, Literal('a')))]) for _ in range(n)]
            b = Literal(f, [t for s, t in args])
            if b in w.beliefs[(f, n)]: continue
            w.beliefs[(f, n)].append(b); lines.append(f + ('(%s)' % ', '.join(s for s, t in args) if args else '') + '.')
    names = ['X', 'Y', 'Z', 'W']
    for k in range(rng.randrange(1, 4)):
        src = Src(rng, names); s, q, p = src.query(min(size, 3)); m = rng.choice([1, 2, 3])
        args = [src.arg() for _ in range(m)] if rng.random() < 0.5 else [(n, src.v[n]) for n in names[:m]]
        head = Literal('ans', [t for _, t in args])
        if m != 3: args += [(n, src.v[n]) for n in names[m:3]]; head = Literal('ans', [t for _, t in args])
        lines.append('ans(%s) :- %s.' % (', '.join(x for x, _ in args), s)); w.rules.append((head, q))
    text = '\n'.join(lines) + '\n'
    vs = [Var() for _ in range(3)]; t = Literal('ans', [v if rng.random() < 0.7 else rng.choice([0, 1, Literal('a')]) for v in vs])
    rq = Rq(None, 'term', t); what = 'query %s to the program\n%s' % (show(t), text)
    ref = [canon(tuple(vs), s) for s in reference_solutions(rq, {}, w)]
    with contextlib.redirect_stderr(io.StringIO()):
        try: f = io.StringIO(text); f.name = 'test.asl'; a = TestEnv().build_agent(f, SL.actions)
        except agentspeak.AggregatedError as e: raise Fail('%s\nis refused: %s' % (what, e))
    got = real_solutions(RT.TermQuery(t), new_intention({}), a, vs)
    compare(got, ref, w, what)
    return what
