from lib import *
import c16, itertools, math
import agentspeak.ext_stdlib as EX
ACT = EX.actions
def call(name, args, scope=None, agent=None, limit=50):
    """all solutions of an action: list of scopes; the bindings are restored afterwards"""
    i = new_intention(scope or {}); s0 = dict(i.scope); t0 = list(i.stack); a = agent or RT.Agent(TestEnv(), 'me'); t = Literal(name, args); out = []
    for _ in ACT.lookup(name, len(args))(a, t, i):
        out.append(dict(i.scope))
        if len(out) > limit: break
    require(same_scope(i.scope, s0) and same_trail(list(i.stack), t0), '%s under %s: leaves the bindings %s', show(t), shows(s0), shows(i.scope))
    require(not i.query_stack and not i.choicepoint_stack, '%s: leaves something behind', show(t))
    return out
def boxed(rng, xs, scope):
    """the list xs in some notation, perhaps held by a variable, perhaps with its parts held by variables"""
    xs = list(xs)
    for k in range(len(xs)):
        if rng.random() < 0.15: v = Var(); scope[v] = xs[k]; xs[k] = v
    t = tuple(xs)
    for x in reversed(xs) if rng.random() < 0.4 else (): pass
    k = rng.choice([0, 0, len(xs), rng.randrange(len(xs) + 1)]); t = tuple(xs[k:])
    if rng.random() < 0.15: v = Var(); scope[v] = t; t = v
    for x in reversed(xs[:k]): t = LinkedList(x, t)
    if rng.random() < 0.2: v = Var(); scope[v] = t; t = v
    return t
def result(rng, name, args, want, scope, what, partial=True):
    """the last argument is unified with the result: a variable, the value itself, another value, a list pattern"""
    v = Var(); sols = call(name, args + [v], scope)
    require(len(sols) == 1, '%s has %d results', what, len(sols)); got = apply(v, sols[0])
    require(canon(got, {}) == canon(want, {}), '%s is %s instead of %s', what, show(got), show(want))
    sc = dict(scope); w = Var(); sc[w] = Var(); require(len(call(name, args + [w], sc)) == 1, '%s: the result cannot be had in a variable that is bound to another one', what)
    require(len(call(name, args + [c16.notation(rng, want)], scope)) == 1, '%s: comparing with the right result fails', what)
    for other in ('nothing', 77, Literal('zz'), (1, 2, 3, 4, 5, 6, 7, 8)): 
        if canon(other, {}) != canon(want, {}): require(call(name, args + [other], scope) == [], '%s: %s is taken for the result', what, show(other))
    if isinstance(want, tuple) and want: h, t = Var(), Var(); sols = call(name, args + [LinkedList(h, t)], scope); require(len(sols) == 1 and canon(apply(h, sols[0]), {}) == canon(want[0], {}) and canon(apply(t, sols[0]), {}) == canon(want[1:], {}), '%s: the result does not match [H|T] rightly', what)
def fails(name, args, scope, what):
    try: r = call(name, args, scope)
    except Fail: raise
    except Exception: return
    require(r == [], '%s has the result %s', what, r)
@check('C22', 4)
def list_functions(rng, size):
    g = G(rng, 0, wild=False, annots=False, bools=False); n = rng.randrange(0, 6); scope = {}; k = rng.randrange(4)
    xs = [[lambda: rng.choice([0, 1, 2, 2.0, -1, 0.5, 7]), lambda: Literal(rng.choice('abcde')), lambda: rng.choice(['x', 'y', '', 'xy']), lambda: Literal('f', (rng.choice([0, 1, 2, 10, -3]), rng.choice([1, 20, 3])))][k]() for _ in range(n)]
    mixed = [g.ground(2) for _ in range(n)]
    l = boxed(rng, xs, scope); lm = boxed(rng, mixed, scope); d = lambda nm, t: '%s of %s under %s' % (nm, show(t), shows(scope)); op = rng.randrange(9)
    if op == 0: result(rng, '.length', [lm], n, scope, d('.length', lm))
    elif op == 1 and n: j = rng.randrange(n); result(rng, '.nth', [rng.choice([j, float(j)]), lm], mixed[j], scope, d('.nth(%d)' % j, lm)); fails('.nth', [n + rng.randrange(3), lm, Var()], scope, d('.nth beyond the end', lm)); fails('.nth', [-1 - rng.randrange(2), lm, Var()], scope, d('.nth before the start', lm))
    elif op == 2 and n: m = [x for x in xs if all(c16.cmp_(x, y) <= 0 for y in xs)]; result(rng, '.min', [l], m[0], scope, d('.min', l))
    elif op == 3 and n: m = [x for x in xs if all(c16.cmp_(x, y) >= 0 for y in xs)]; result(rng, '.max', [l], m[0], scope, d('.max', l))
    elif op == 4: import functools; result(rng, '.sort', [l], tuple(sorted(xs, key=functools.cmp_to_key(c16.cmp_))), scope, d('.sort', l))
    elif op == 5: result(rng, '.tail', [lm], tuple(mixed[1:]), scope, d('.tail', lm))
    elif op == 6:
        parts = [[g.ground(1) for _ in range(rng.randrange(3))] for _ in range(rng.randrange(1, 4))]; args = [boxed(rng, p, scope) for p in parts]
        result(rng, '.concat', args, tuple(x for p in parts for x in p), scope, '.concat of %s under %s' % (show(tuple(args)), shows(scope)))
    elif op == 7:
        x = rng.choice([Var(), Var(), g.ground(1)] + mixed[:2] + [Literal('f', (Var(),)), (Var(),), LinkedList(Var(), Var())]); sols = call('.member', [x, lm], scope); want = []
        for y in mixed:
            s1 = runify(x, y, scope)
            if s1 is not None: want.append(s1)
        require(len(sols) == len(want) and all(canon(x, a) == canon(x, b) for a, b in zip(sols, want)), '.member(%s) of %s under %s: %s', show(x), show(lm), shows(scope), [show(apply(x, s)) for s in sols])
    else: fails(rng.choice(['.min', '.max']), [(), Var()], scope, 'extreme of the empty list')
    return '%d %s %s %s' % (op, show(l), show(lm), shows(scope))
@check('C22', 2)
def string_functions(rng, size):
    alpha = rng.choice(['ab', 'a', 'abc ä"', 'xyz']); word = lambda m: ''.join(rng.choice(alpha) for _ in range(rng.randrange(m))); op = rng.randrange(4); scope = {}
    def box(x):
        if rng.random() < 0.3: v = Var(); scope[v] = x; return v
        return x
    if op == 0: ws = [word(4) for _ in range(rng.randrange(1, 4))]; result(rng, '.concat', [box(w) for w in ws], ''.join(ws), scope, '.concat of %r' % ws); return '%r' % ws
    if op == 1: w = word(6); result(rng, '.length', [box(w)], len(w), scope, '.length of %r' % w); return '%r' % w
    if op == 2:
        needle, hay = word(3), word(8); want = [k for k in range(len(hay) + 1) if hay.startswith(needle, k)]; v = Var(); sols = call('.substring', [box(needle), box(hay), v], scope); got = [walk(v, s) for s in sols]
        require(got == want, '.substring(%r, %r) gives %s instead of %s', needle, hay, got, want)
        for k in range(-1, len(hay) + 2): require(len(call('.substring', [needle, hay, k])) == (k in want), '.substring(%r, %r, %d)', needle, hay, k)
        return '%r %r' % (needle, hay)
    n = rng.choice([0, 1, 2, 5, 10, -1, 3.0]); v = Var(); got = [walk(v, s) for s in call('.range', [box(n), v], scope)]; require(got == list(range(int(n))), '.range(%s) gives %s', n, got)
    k = rng.randrange(-1, 12); require(len(call('.range', [n, k])) == (0 <= k < n), '.range(%s, %d)', n, k)
    return '.range %s %d' % (n, k)
@check('C22', 4)
def collecting(rng, size):
    env = TestEnv(); w = gen_world(rng, env, annots=rng.random() < 0.3, wild=False); a = w.agent; g = G(rng, 3, wild=False, annots=False, bools=False); s0 = g.scope(1)
    f, n = rng.choice(ALLPREDS); t = g.lit(1, f, n); goal = t
    if rng.random() < 0.2: v = Var(); s0[v] = t; goal = v
    q = Rq(None, 'term', t)
    want = reference_solutions(q, s0, w, limit=60); pat = rng.choice([g.term(1), rng.choice(g.vars), Literal('f', tuple(g.vars)), tuple(g.vars), 1]); what = 'of %s (pattern %s) under %s; %s' % (show(t), show(pat), shows(s0), w.describe())
    op = rng.randrange(3); v = Var()
    if op == 0:
        sols = call('.count', [goal, v], s0, a); require(len(sols) == 1 and walk(v, sols[0]) == len(want), '.count %s: %s instead of %d', what, [walk(v, s) for s in sols], len(want))
        k = rng.randrange(4); require(len(call('.count', [goal, k], s0, a)) == (k == len(want)), '.count %s: compared with %d', what, k)
    elif op == 1:
        sols = call('.findall', [pat, goal, v], s0, a); require(len(sols) == 1, '.findall %s: %d results', what, len(sols)); got = apply(v, sols[0])
        require(isinstance(got, tuple) and len(got) == len(want), '.findall %s: %d elements instead of %d', what, len(got), len(want))
        left = list(want); fresh = set(g.vars)
        for x in got:
            hit = next((i for i, s in enumerate(left) if variant(x, {}, pat, s)), None); require(hit is not None, '.findall %s: %s is no solution', what, show(x)); left.pop(hit)
        for i, x in enumerate(got):
            for y in tvars(x): require(y not in fresh and all(y not in tvars(z) for z in got[:i]), '.findall %s: the element %s shares a variable', what, show(x))
        require(same_scope({k: x for k, x in sols[0].items() if k is not v}, s0), '.findall %s: binds %s', what, shows(sols[0]))
        if got: h = Var(); require(len(call('.findall', [pat, goal, LinkedList(h, Var())], s0, a)) == 1, '.findall %s: the result does not match [H|T]', what); require(call('.findall', [pat, goal, ()], s0, a) == [], '.findall %s: taken for empty', what)
    else:
        x = rng.choice(g.vars)
        try: vals = [walk(x, s) for s in want]
        except TypeErr: raise Skip()
        if not all(isnum(y) for y in vals): fails('.sum', [x, goal, v], s0, '.sum %s' % what) if a is None else None; raise Skip()
        sols = call('.sum', [x, goal, v], s0, a); require(len(sols) == 1, '.sum %s: %d results', what, len(sols)); got = walk(v, sols[0]); require(isnum(got) and math.isclose(got, sum(vals), abs_tol=1e-9), '.sum %s: %s instead of %s', what, got, sum(vals))
        require(same_scope({k: y for k, y in sols[0].items() if k is not v}, s0), '.sum %s: binds %s', what, shows(sols[0]))
        require(call('.sum', [x, goal, sum(vals) + 1], s0, a) == [], '.sum %s: a wrong total is accepted', what)
    return '%d %s' % (op, what)
@check('C22', 2)
def in_a_program(rng, size):
    ps = [rng.randrange(5) for _ in range(rng.randrange(5))]; ps = list(dict.fromkeys(ps)); xs = [rng.randrange(6) for _ in range(rng.randrange(1, 5))]; j = rng.randrange(len(xs)); k = rng.randrange(len(xs) + 1)
    lst = lambda ys: '[%s]' % ', '.join(map(str, ys)) if rng.random() < 0.5 or not ys else '[%s|%s]' % (ys[0], lst(ys[1:]))
    text = '%s +!t <- .findall(X, p(X), L); .count(p(_), C); .sum(Y, p(Y), S); .length(%s, N); .nth(%d, %s, E); .min(%s, Mi); .max(%s, Ma); .sort(%s, So); .concat(%s, %s, Co); .tail(%s, Ta); +r(L, C, S, N, E, Mi, Ma, So, Co, Ta). !t.' % (' '.join('p(%d).' % p for p in ps), lst(xs), j, lst(xs), lst(xs), lst(xs), lst(xs), lst(xs[:k]), lst(xs[k:]), lst(xs))
    src = io.StringIO(text); src.name = 'x.asl'; env = RT.Environment(); a = env.build_agent(src, ACT)
    try: env.run()
    except agentspeak.AggregatedError as e: raise Fail('%s: %s' % (text, e))
    r = list(a.beliefs[('r', 10)]); require(len(r) == 1, '%s: %s', text, r); got = list(r[0].args); got[0] = tuple(sorted(got[0]))
    want = [tuple(sorted(ps)), len(ps), sum(ps), len(xs), xs[j], min(xs), max(xs), tuple(sorted(xs)), tuple(xs), tuple(xs[1:])]
    require(canon(tuple(got), {}) == canon(tuple(want), {}), '%s: %s instead of %s', text, show(tuple(got)), show(tuple(want)))
    return text
