from lib import *
NAME_POOL = ['x.asl', 'x', 'dir/x.asl', 'x1', 'x10.asl', 'agent.asl', '../a b.asl', 'Äx.asl', '.asl', '', '9.asl', 'x.y.asl', '/abs/x.asl', 'X.asl', '-.asl', 'x1.asl', 'agent1']
FACTS = [('p', 1), ('q', 1), ('r', 2)]
class Src(io.StringIO):
    def __init__(self, text, name): io.StringIO.__init__(self, text); self.name = name
def program(rng):
    out = []; n = [0]
    val = lambda: rng.choice(['1', '2', '"s"', 'foo', '[1, 2]', 'f(3)'])
    for _ in range(rng.randrange(4)): f, k = rng.choice(FACTS); out.append('%s(%s).' % (f, ', '.join(val() for _ in range(k))))
    for _ in range(rng.randrange(3)): out.append('t(X) :- %s(X).' % rng.choice('pq'))
    for i in range(rng.randrange(1, 4)): out.append('+!g%d(X) : %s <- +%s(X); !!g%d(X); -p(X).' % (rng.randrange(3), rng.choice(['true', 'p(_)', 'not q(X)']), rng.choice('pq'), rng.randrange(3)))
    out.append('+p(X) <- +r(X, seen).')
    for _ in range(rng.randrange(3)): out.append('!g%d(%s).' % (rng.randrange(3), val()))
    return ' '.join(out)
def snap(a):
    """everything observable of an agent"""
    bs = tuple(sorted((k, tuple(sorted((canon(b, {}) for b in v), key=repr))) for k, v in a.beliefs.items() if v))
    rs = tuple(sorted((k, tuple(id(r) for r in v)) for k, v in a.rules.items() if v))
    ps = tuple(sorted(((str(k), tuple(id(p) for p in v)) for k, v in a.plans.items() if v)))
    ints = tuple(tuple((canon(i.head_term, {}) if i.head_term is not None else None, id(i.instr), len(i.stack), len(i.query_stack), tuple(sorted(canon(v, i.scope) for v in i.scope)) if i.scope else ()) for i in st) for st in a.intentions)
    return bs, rs, ps, ints
def described(a):
    """the same, up to the identity of objects"""
    bs, rs, ps, ints = snap(a)
    return bs, tuple((k, len(v)) for k, v in rs), tuple((k, len(v)) for k, v in ps), tuple(tuple(x[0] for x in st) for st in ints)
def change(rng, env, a, text):
    """one random operation on a"""
    op = rng.randrange(7); g = G(rng, 0, wild=False, annots=False, bools=False); f, n = rng.choice(FACTS)
    try:
        if op == 0: a.call(T.addition, GT.belief, g.glit(f, n, 1), RT.Intention())
        elif op == 1:
            bs = [b for v in a.beliefs.values() for b in v]
            if bs: a.call(T.removal, GT.belief, rng.choice(sorted(bs, key=lambda b: repr(canon(b, {})))), RT.Intention())
        elif op == 2: v = Var(); a.add_rule(RT.Rule(Literal('t', (v,)), RT.TermQuery(Literal(f, (v,) * n))))
        elif op == 3: v = Var(); a.add_plan(RT.Plan(T.addition, GT.belief, Literal('q', (v,)), RT.TrueQuery(), RT.Instruction(RT.noop), None, None))
        elif op == 4: a.call(T.addition, GT.achievement, Literal('g%d' % rng.randrange(3), (rng.randrange(3),)), RT.Intention())
        elif op == 5:
            for _ in range(rng.randrange(1, 6)): a.step()
        else:
            for _ in SL.actions.lookup('.abolish', 1)(a, Literal('.abolish', [Literal(f, [Wildcard()] * n)]), RT.Intention()): pass
    except (AslError, agentspeak.AggregatedError): pass
    return op
T, GT = Trigger, GoalType
@check('C15', 3)
def names_are_unique(rng, size):
    env = RT.Environment(); have = {}; log = []
    for k in range(rng.randrange(2, 9)):
        path = rng.choice(NAME_POOL); name = rng.choice([None, None, rng.choice(NAME_POOL), '']); n = rng.choice([1, 1, 2, 3, 12, 0]); text = rng.choice(['', 'p(1).', '+!g <- true. !g.'])
        bad = rng.random() < 0.2
        if bad: text = rng.choice(['p(1)', 'p(', 'p(X', '+!g <- .foo(. ', '$', '+!g <- nosuchthing(1) + .', 'p :- 3.', '+!g <- 1 + 2.', '!nothing.', 'p(X).', '+!g : p + 1 <- true.', 'p(1). q(.) r.'])
        log.append('build%s(%r, name=%r, %r)' % ('_agents x %d' % n if n != 1 else '', path, name, text)); what = '; '.join(log)
        try: ags = [env.build_agent(Src(text, path), SL.actions, name=name)] if n == 1 else env.build_agents(Src(text, path), n, SL.actions, name=name)
        except (AslError, agentspeak.AggregatedError): 
            require(bad, '%s: fails', what); ags = []
        else: require(not bad or n == 0, '%s: an erroneous program is accepted', what); require(len(ags) == n, '%s: %d agents', what, len(ags))
        for a in ags:
            require(isinstance(a.name, str) and a.name and a.name not in have, '%s: the name %r is taken', what, a.name); require(env.agents.get(a.name) is a, '%s: %r is not registered under its name', what, a.name); have[a.name] = a
        require(set(env.agents) == set(have), '%s: registered %s, expected %s', what, sorted(env.agents), sorted(have))
        for nm, a in have.items(): require(env.agents[nm] is a and a.name == nm, '%s: agent %r was displaced', what, nm); require(a.env is env, '%s: agent %r lives elsewhere', what, nm)
    return '; '.join(log)
@check('C15', 4)
def agents_built_together_are_separate(rng, size):
    text = program(rng); n = rng.randrange(2, 5); env = RT.Environment()
    try:
        ags = env.build_agents(Src(text, 'x.asl'), n, SL.actions)
        ref = RT.Environment().build_agent(Src(text, 'x.asl'), SL.actions)
    except (AslError, agentspeak.AggregatedError): raise Skip()
    other = env.build_agent(Src('p(1). q(2). +!g0(X) <- +p(X). +p(X) <- +q(X).', 'y.asl'), SL.actions) if rng.random() < 0.3 else None
    for k, a in enumerate(ags): require(described(a) == described(ref), '%s: instance %d of %d is %s, built alone it is %s', text, k, n, described(a), described(ref))
    everyone = ags + ([other] if other else []); ops = []
    for _ in range(rng.randrange(1, 8)):
        a = rng.choice(everyone); before = [snap(b) for b in everyone]; ops.append('%d:%d' % (everyone.index(a), change(rng, env, a, text)))
        for b, s in zip(everyone, before):
            if b is not a: now = snap(b); require(now == s, '%s; operations %s: agent %d changed: %s before, %s after', text, ops, everyone.index(b), s, now)
        if rng.random() < 0.1:
            c = env.build_agent(Src(text, 'x.asl'), SL.actions); require(described(c) == described(ref), '%s; operations %s: a new agent starts as %s', text, ops, described(c))
    return text + ' ' + ' '.join(ops)
@check('C15', 2)
def instances_run_like_single_agents(rng, size):
    text = program(rng); n = rng.randrange(2, 4)
    try: env = RT.Environment(); ags = env.build_agents(Src(text, 'x.asl'), n, SL.actions); refs = [RT.Environment().build_agent(Src(text, 'x.asl'), SL.actions) for _ in range(n)]
    except (AslError, agentspeak.AggregatedError): raise Skip()
    extra = [[Literal(rng.choice('pq'), (rng.choice([1, 2, 'z']),)) for _ in range(rng.randrange(3))] for _ in range(n)]
    def run(a, xs, k):
        for x in xs: a.call(T.addition, GT.belief, x, RT.Intention())
        for _ in range(k):
            try: a.step()
            except (AslError, agentspeak.AggregatedError): pass
    ks = [rng.randrange(1, 30) for _ in range(n)]
    for a, r, xs, k in zip(ags, refs, extra, ks): run(a, xs, k); run(r, xs, k)
    for j, (a, r) in enumerate(zip(ags, refs)): require(described(a) == described(r), '%s: instance %d (+%s, %d steps) ends as %s, alone as %s', text, j, [show(x) for x in extra[j]], ks[j], described(a), described(r))
    return text + str(ks)
