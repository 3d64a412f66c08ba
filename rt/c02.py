from lib import *
import agentspeak.ext_stdlib as XL, contextlib, io, tempfile
class Abandon(BaseException): pass
def drive(gen, scope, stack, what, rng, cleanup=True):
    """exhaust a solution generator, checking the trail discipline"""
    s0 = dict(scope); t0 = list(stack); n = 0
    while True:
        try: next(gen)
        except StopIteration: break
        n += 1
        for k, v in s0.items(): require(k in scope and scope[k] is v, '%s: solution %d lost or changed the binding of %s', what, n, show(k))
        require(same_trail(list(stack)[:len(t0)], t0), '%s: solution %d changed the earlier trail', what, n)
        tr = list(stack)[len(t0):]
        for k in scope:
            if k not in s0: require(any(x is k for x in tr), '%s: the new binding of %s is not on the trail', what, show(k))
        if rng.random() < 0.3:        # a consumer with its own choice point
            cp = object(); stack.append(cp); v = Var()
            m0 = dict(scope)
            agentspeak.unify(v, 1, scope, stack)
            for k in [k for k in [x for x in PROBE if x not in scope]][:1]: agentspeak.unify(k, 7, scope, stack)
            agentspeak.reroll(scope, stack, cp)
            require(same_scope(scope, m0), '%s: undoing a later choice point did not restore the bindings', what)
        if n > 60: gen.close(); raise Skip()
    require(same_scope(scope, s0), '%s: after the last solution the bindings are %s instead of %s', what, shows(scope), shows(s0))
    require(same_trail(list(stack), t0), '%s: after the last solution %d entries are on the trail instead of %d', what, len(stack), len(t0))
    return n
PROBE = []
@check('C02', 5)
def queries_restore(rng, size):
    w = gen_world(rng); g = G(rng, 4, bools=False); s0 = g.scope()
    PROBE[:] = g.vars
    q = gen_query(rng, g, min(size, 4), ALLPREDS)
    i = new_intention(s0)
    what = 'query %s under %s, %s' % (q, shows(s0), w.describe())
    reference_solutions(q, s0, w, 60)
    n = drive(q.real.execute(w.agent, i), i.scope, i.stack, what, rng)
    return what
@check('C02', 3)
def abandoned_query_is_undone(rng, size):
    w = gen_world(rng); g = G(rng, 4, bools=False); s0 = g.scope()
    q = gen_query(rng, g, min(size, 4), ALLPREDS); i = new_intention(s0)
    reference_solutions(q, s0, w, 60)
    m0 = dict(i.scope); t0 = list(i.stack); cp = object(); i.stack.append(cp)
    what = 'query %s under %s, %s' % (q, shows(s0), w.describe())
    it = q.real.execute(w.agent, i)
    try:
        for _ in range(rng.randrange(1, 4)): next(it)
    except StopIteration: pass
    agentspeak.reroll(i.scope, i.stack, cp)
    require(same_scope(i.scope, m0) and same_trail(list(i.stack), t0), 'undoing the choice point before %s left %s instead of %s', what, shows(i.scope), shows(m0))
    return what
@check('C02', 3)
def matching_restores(rng, size):
    g = G(rng, 4); l = g.term(2); r = g.similar(l, 2); s0 = g.scope(); i = new_intention(s0); PROBE[:] = g.vars
    try: list(rmatch(l, r, s0))[:1]
    except (Cyclic, TypeErr): raise Skip()
    what = 'unify_annotated(%s, %s) under %s' % (show(l), show(r), shows(s0))
    drive(agentspeak.unify_annotated(l, r, i.scope, i.stack), i.scope, i.stack, what, rng)
    return what
@check('C02', 1)
def reroll_exact(rng, size):
    g = G(rng, 5, wild=False); scope = g.scope(); stack = collections.deque(scope)
    marks = []
    for _ in range(rng.randrange(1, 5)):
        cp = object(); marks.append((cp, dict(scope), list(stack))); stack.append(cp)
        for _ in range(rng.randrange(3)):
            l = g.term(1); r = g.similar(l, 1)
            try: runify(l, r, scope)
            except (Cyclic, RecursionError): continue
            agentspeak.unify(l, r, scope, stack)
    cp, m, t = rng.choice(marks)
    agentspeak.reroll(scope, stack, cp)
    require(same_scope(scope, m) and same_trail(list(stack), t), 'reroll to a choice point (%d on the trail) left %s instead of %s', len(marks), shows(scope), shows(m))
    return 'reroll %d marks %s' % (len(marks), shows(m))
ACTS = ['.my_name/1', '.concat/2', '.concat/3', '.min/2', '.max/2', '.length/2', '.nth/3', '.sort/2', '.substring/3', '.member/2', '.atom/1', '.literal/1', '.list/1',
        '.number/1', '.string/1', '.structure/1', '.ground/1', '.findall/3', '.count/2', '.abolish/1', '.date/3', '.time/3', '.range/2', '.tail/2', '.floor/2', '.ceil/2',
        '.round/2', '.sum/3', '.fail/0', '.print/2', '.send/3', '.broadcast/2', '.wait/1', '.random/1', '.randint/3']
def act_args(rng, g, name, n):
    def lst():
        xs = [g.term(1) if rng.random() < 0.3 else rng.choice([1, 2, 3]) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.2: return LinkedList(xs[0], tuple(xs[1:]))
        return tuple(xs)
    def goal(): return g.lit(1, *rng.choice(ALLPREDS), annots=False)
    def out(): return rng.choice(g.vars) if rng.random() < 0.7 else g.term(1)
    if name in ('.min', '.max', '.length', '.sort', '.tail'): a = [lst()]
    elif name == '.nth': a = [rng.choice([0, 1, 2]), lst()]
    elif name == '.concat': a = [lst() if rng.random() < 0.7 else 's' for _ in range(n - 1)]
    elif name == '.substring': a = [rng.choice(['a', 's', 'ab']), rng.choice(['abab', 'sas', ''])]
    elif name == '.member': return [out(), lst()]
    elif name in ('.findall',): a = [g.term(1), goal()]
    elif name == '.sum': a = [rng.choice([1, 2] + g.vars), goal()]
    elif name == '.count': a = [goal()]
    elif name == '.abolish': return [goal()]
    elif name == '.range': a = [rng.choice([0, 1, 3])]
    elif name in ('.floor', '.ceil', '.round'): a = [rng.choice([0, 1.5, -2.5, 3])]
    elif name == '.randint': a = [1, 2]
    elif name == '.send': return [rng.choice([Literal('other'), 'other', (Literal('other'), 'me')]), Literal(rng.choice(['tell', 'untell'])), goal()]
    elif name == '.broadcast': return [Literal(rng.choice(['tell', 'untell'])), goal()]
    elif name == '.wait': return [rng.choice([5, '+!x', '+p(1)'])]
    elif name in ('.date', '.time'): return [out() for _ in range(n)]
    else: return [g.term(1) for _ in range(n)]
    return a + [out()]
@check('C02', 5)
def actions_restore(rng, size):
    w = gen_world(rng, rules=False); env = w.agent.env; env.agents['me'] = w.agent; other = RT.Agent(env, 'other'); env.agents['other'] = other
    g = G(rng, 4, bools=False, wild=False, annots=rng.random() < 0.3); s0 = g.scope(); PROBE[:] = g.vars
    name, n = rng.choice(ACTS).split('/'); n = int(n)
    term = Literal(name, act_args(rng, g, name, n))
    i = new_intention(s0)
    what = 'action %s under %s, %s' % (show(term), shows(s0), w.describe())
    try: impl = XL.actions.lookup(name, n)
    except KeyError: raise Fail('action %s/%d is gone' % (name, n))
    try:
        with contextlib.redirect_stdout(io.StringIO()): drive(impl(w.agent, term, i), i.scope, i.stack, what, rng)
    except Fail: raise
    except (Skip, Hang): raise
    except Exception: raise Skip()     # an error surfaces and ends the plan
    return what
@check('C02', 2)
def mixed_with_actions(rng, size):
    """actions inside conjunctions, disjunctions and negations"""
    w = gen_world(rng, rules=False); g = G(rng, 4, bools=False, wild=False, annots=False); s0 = g.scope(); PROBE[:] = g.vars
    def q(d):
        k = rng.random()
        if d and k < 0.35: return RT.AndQuery(q(d - 1), q(d - 1))
        if d and k < 0.6: return RT.OrQuery(q(d - 1), q(d - 1))
        if d and k < 0.7: return RT.NotQuery(q(d - 1))
        if k < 0.85:
            name, n = rng.choice(['.member/2', '.my_name/1', '.concat/3', '.range/2', '.length/2', '.findall/3', '.count/2', '.substring/3', '.ground/1', '.number/1']).split('/')
            t = Literal(name, act_args(rng, g, name, int(n))); NAMED.append(show(t))
            return RT.ActionQuery(t, XL.actions.lookup(name, int(n)))
        r = gen_query(rng, g, 0, PREDS); NAMED.append(str(r)); return r.real
    NAMED = []
    Q = q(min(size, 3)); i = new_intention(s0)
    what = 'a query over %s under %s, %s' % ('; '.join(NAMED), shows(s0), w.describe())
    try: drive(Q.execute(w.agent, i), i.scope, i.stack, what, rng)
    except Fail: raise
    except (Skip, Hang): raise
    except Exception: raise Skip()
    return what
@check('C02', 2)
def failed_calls_keep_the_callers_bindings(rng, size):
    w = gen_world(rng); g = G(rng, 3, bools=False, wild=False, annots=False); s0 = g.scope(); i = new_intention(s0)
    t = g.lit(1, *rng.choice(ALLPREDS))
    for _ in range(rng.randrange(3)):
        pg = G(rng, 3, bools=False, annots=False)
        q = gen_query(rng, pg, 2, ALLPREDS)
        w.agent.add_plan(RT.Plan(Trigger.addition, GoalType.test, pg.lit(1, t.functor, len(t.args)), q.real, RT.Instruction(RT.noop), None, None))
    m0 = dict(i.scope); t0 = list(i.stack)
    what = 'the test goal ?%s under %s, %s' % (show(t), shows(s0), w.describe())
    try: r = w.agent.call(Trigger.addition, GoalType.test, t, i)
    except AslError: raise Skip()
    for k, v in m0.items(): require(k in i.scope and i.scope[k] is v, '%s changed the binding of %s', what, show(k))
    if not r or w.agent.intentions: require(same_scope(i.scope, m0) and same_trail(list(i.stack), t0), '%s left bindings %s behind', what, shows(i.scope))
    return what
