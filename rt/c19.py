from lib import *
import itertools
def cluster(rng, g, n, shared, deep):
    """annotations with few functors and shared variables, so that several ways to match exist.
    Unification ignores annotations, so a variable must not stand for an annotated term: where annotations are
    themselves annotated (deep), no annotation is a bare variable."""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.25 and not deep: a = rng.choice(shared)
        elif k < 0.4: a = Literal(rng.choice('ab'))
        elif k < 0.85 or not deep: a = Literal(rng.choice(['s', 's', 't']), [rng.choice(shared) if rng.random() < 0.5 else g.const() for _ in range(rng.choice([1, 1, 2]))])
        else: a = Literal('s', [rng.choice(shared)], cluster(rng, g, rng.randrange(3), shared, deep))
        out.append(a)
    return out
def pair(rng, size):
    g = G(rng, 4, wild=False, annots=False, bools=False); shared = g.vars; deep = rng.random() < 0.4
    n = rng.randrange(4); m = rng.randrange(n, 5) if rng.random() < 0.85 else rng.randrange(4); f, k = rng.choice([('p', 0), ('p', 1), ('p', 2)])
    l = Literal(f, [g.term(1) for _ in range(k)], cluster(rng, g, n, shared, deep)); an = cluster(rng, g, m, shared, deep)
    if rng.random() < 0.6: an = ([vary(rng, g, a) for a in l.annots] + an)[:max(m, len(l.annots))]
    if rng.random() < 0.3: an = [apply(a, {v: rng.choice([1, 2, Literal('a')]) for v in shared}) for a in an]
    r = Literal(f, [g.similar(x, 1) for x in l.args], an)
    return g, l, r, g.scope(1) if rng.random() < 0.6 else {}
def vary(rng, g, a):
    if not islit(a): return a
    return Literal(a.functor, [rng.choice([x, x, rng.choice(g.vars), g.const()]) for x in a.args], [vary(rng, g, x) for x in a.annots] + cluster(rng, g, rng.choice([0, 0, 1]), g.vars, True) if a.annots else ())
def judge(g, l, r, s, what):
    s0 = dict(s)
    try: ways = list(itertools.islice(rmatch(l, r, s0), 3000))
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    if len(ways) >= 3000: raise Skip()
    scope = dict(s0); stack = collections.deque(s0); t0 = list(stack); n = 0
    for _ in agentspeak.unify_annotated(l, r, scope, stack):
        n += 1
        if n > 1: break
        require(ways, '%s: a match is offered, but there is none', what)
        require(any(variant(tuple(g.vars), scope, tuple(g.vars), m) for m in ways), '%s: the offered bindings %s are not a way to match', what, shows(scope))
        require(all(scope.get(k) is v for k, v in s0.items()) and same_trail(list(stack)[:len(t0)], t0), '%s: earlier bindings change to %s', what, shows(scope))
    require(n == (1 if ways else 0), '%s: %d solutions offered, there are %d ways to match', what, n, len(ways))
    require(same_scope(scope, s0) and same_trail(list(stack), t0), '%s: leaves the bindings %s', what, shows(scope))
    return bool(ways)
@check('C19', 5)
def match_exists(rng, size):
    g, l, r, s = pair(rng, size); what = 'matching %s with %s under %s' % (show(l), show(r), shows(s))
    ok = judge(g, l, r, s, what)
    for _ in range(2):
        m = {}; vs = [m.setdefault(v, Var()) for v in rng.sample(g.vars, len(g.vars))]; h = G(rng, 0); h.vars = vs
        require(judge(h, rename(l, m), rename(r, m), {m[v]: rename(x, m) for v, x in s.items()}, what + ' (variables created anew)') == ok, '%s: the outcome depends on the order of storage', what)
    return what
@check('C19', 2)
def ground_against_pattern(rng, size):
    """a fact with annotations against a pattern: unifies_annotated, and with extra annotations added"""
    g, l, r, _ = pair(rng, size); m = {v: rng.choice([1, 2, Literal('a'), Literal('b')]) for v in g.vars}; r = apply(r, m)
    try: want = next(rmatch(l, r, {}), None) is not None
    except (Cyclic, TypeErr): raise Skip()
    what = 'matching %s with the fact %s' % (show(l), show(r))
    got = agentspeak.unifies_annotated(l, r); require(bool(got) == want, '%s: %s', what, got)
    more = r
    for _ in range(rng.randrange(1, 4)): more = more.with_annotation(Literal('extra', (rng.randrange(3),)))
    if want: require(agentspeak.unifies_annotated(l, more), '%s: further annotations %s prevent the match', what, show(more))
    if want and l.annots: fewer = Literal(l.functor, l.args, rng.sample(sorted(l.annots, key=id), rng.randrange(len(l.annots)))); require(agentspeak.unifies_annotated(fewer, r), '%s: asking for fewer annotations (%s) fails', what, show(fewer))
    require(next(iter(r.annots), None) is None or agentspeak.unifies_annotated(r, r), '%s does not match itself', show(r))
    return what
@check('C19', 1)
def terms_without_annotations(rng, size):
    g = G(rng, 3, wild=False, annots=False); t = g.term(2); u = g.similar(t, 2); s = g.scope(1)
    what = 'matching %s with %s under %s' % (show(t), show(u), shows(s)); judge(g, t, u, s, what); return what
