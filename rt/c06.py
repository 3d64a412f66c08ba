from lib import *
T, GT = Trigger, GoalType
KINDS = [(T.addition, GT.belief), (T.removal, GT.belief), (T.addition, GT.achievement), (T.addition, GT.test)]
GROUPS = [('p', 1), ('q', 2), ('e', 2), ('e', 1), ('s', 0)]
def make_plans(rng, agent, n, kinds):
    plans = []
    for k in range(n):
        tr, gt = rng.choice(kinds); f, ar = rng.choice(GROUPS); g = G(rng, 3, bools=False, annots=False)
        head = g.lit(1, f, ar)
        if rng.random() < 0.7: head = Literal(f, [rng.choice(g.vars) if rng.random() < 0.6 else x for x in head.args])
        if rng.random() < 0.3: head = Literal(f, head.args, [rng.choice([Literal('source', (rng.choice(g.vars),)), Literal('source', (Literal('bob'),)), Literal('urgent'), rng.choice(g.vars)])])
        ctx = gen_query(rng, g, 2) if rng.random() < 0.7 else Rq(RT.TrueQuery(), 'true')
        p = RT.Plan(tr, gt, head, ctx.real, RT.Instruction(RT.noop), None, None); agent.add_plan(p); plans.append((p, ctx, tvars(head) + [v for v in g.vars if v not in tvars(head)]))
    return plans
def show_plans(plans): return '; '.join('%s%s%s : %s' % (p.trigger.value, p.goal_type.value, show(p.head), c) for p, c, _ in plans)
@check('C06', 5)
def first_applicable_plan(rng, size):
    env = TestEnv(); w = gen_world(rng, env, annots=False, maxbeliefs=2, wild=False); a = w.agent
    w.order = lambda g: list(a.beliefs[g])
    tr, gt = rng.choice(KINDS); kinds = [(tr, gt)] * 4 + KINDS
    plans = make_plans(rng, a, rng.randrange(0, 7), kinds)
    # running intentions
    stacks = []
    for _ in range(rng.randrange(0, 4)):
        st = collections.deque(RT.Intention() for _ in range(rng.choice([0, 1, 1, 2]))); a.intentions.append(st); stacks.append(st)
    g = G(rng, 3, bools=False, wild=False, annots=False); s = g.scope(); ci = None
    if rng.random() < 0.6:
        c = [st for st in stacks if st]
        if c: ci = rng.choice(c)[-1 if rng.random() < 0.85 else 0]
    if ci is None: ci = RT.Intention()
    ci.scope.update(s); s0 = dict(ci.scope); delayed = rng.random() < 0.3
    f, n = rng.choice(GROUPS)
    cand = [p for p, _, _ in plans if (p.trigger, p.goal_type) == (tr, gt)]
    if cand and rng.random() < 0.8: t = g.similar(rename(rng.choice(cand).head, {}))
    else: t = g.lit(2, f, n)
    if not islit(t) or haswild(t): raise Skip()
    an = [Literal('source', (Literal(rng.choice(['bob', 'amy'])),)), Literal('urgent'), Literal('q', (1,))]; t = Literal(t.functor, t.args, rng.sample(an, rng.choice([0, 0, 1, 1, 2, 3])))
    if gt is GT.belief:
        try:
            if not rground(t, s0): raise Skip()
            tb = t.grounded(s0)
        except (TypeErr, Cyclic, RecursionError): raise Skip()
        if tr is T.removal:
            if [x for x in a.beliefs[(t.functor, len(t.args))] if canon(x, {}) != canon(tb, {}) and next(rmatch(tb, x, {}), None) is not None]: raise Skip()
            a.beliefs[(t.functor, len(t.args))].add(tb)
    what = 'event %s%s%s under %s%s; plans: %s; %s' % (tr.value, gt.value, show(t), shows(s), ', deferred' if delayed else '', show_plans(plans), w.describe())
    snap = [list(st) for st in stacks]; instrs = [[i.instr for i in st] for st in stacks]
    err = None; r = None
    try: r = a.call(tr, gt, t, ci, delayed=delayed)
    except RecursionError: raise Skip()
    except AslError as e: err = e
    # reference
    try:
        frozen = rename(apply(t, s0), {}); chosen = None
        for p, ctx, vs in plans:
            if (p.trigger, p.goal_type, p.head.functor, len(p.head.args)) != (tr, gt, frozen.functor, len(frozen.args)): continue
            ms = list(itertools.islice(rmatch(p.head, frozen, {}), 20))
            if not ms: continue
            if len({repr(canon(tuple(vs), m)) for m in ms}) > 1: raise Skip()
            sol = next(solve(ctx, ms[0], w), None)
            if sol is not None: chosen = (p, ctx, vs, sol); break
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    now = [list(st) for st in a.intentions]; known = {id(i) for st in snap for i in st}
    new = [i for st in now for i in st if id(i) not in known]
    for st, old in zip(stacks, snap): require([x for x in st if id(x) in known] == old and any(x is st for x in a.intentions), '%s: a running intention disappeared', what)
    require([[i.instr for i in st][:len(x)] for st, x in zip(stacks, instrs)] == instrs, '%s: a running intention was changed', what)
    if chosen is None:
        require(not new, '%s: started %s although no plan is applicable', what, [show(i.head_term) for i in new])
        if gt is GT.achievement: require(err is not None, '%s: no applicable plan and no error', what)
        elif gt is GT.belief: require(err is None, '%s: no plan is needed for a belief event: %s', what, err)
        else:
            if err is not None: raise Skip()
            try: td = walk(t, s0); sols = next(solve(Rq(None, 'term', t), s0, w), None)
            except (TypeErr, Cyclic, RecursionError): raise Skip()
            require(bool(r) == (sols is not None), '%s: the test goal is answered %s from the beliefs', what, r)
        return what
    p, ctx, vs, sol = chosen
    require(err is None, '%s: %s', what, err); require(r is True or r, '%s: returns %r', what, r)
    require(len(new) == 1, '%s: %d new intentions', what, len(new)); i = new[0]
    require(i.instr is p.body, '%s: started another plan than %s', what, show(p.head))
    require(variant(tuple(vs), i.scope, tuple(vs), sol), '%s: %s runs with %s, expected %s', what, show(p.head), show(tuple(vs), i.scope) + ' under ' + shows(i.scope), shows(sol))
    require(variant(i.head_term, {}, frozen, {}), '%s: runs for %s', what, show(i.head_term))
    for v in tvars(i.head_term): require(v not in s0 and v not in tvars(t), '%s: shares the variable %s of the caller', what, show(v))
    require(not i.query_stack and not i.choicepoint_stack and i.waiter is None and i.scope is not ci.scope, '%s: does not start afresh', what)
    require(variant(i.calling_term, s0, t, s0), '%s: will answer %s', what, show(i.calling_term))
    home = [st for st in a.intentions if any(x is i for x in st)]; require(len(home) == 1, '%s: the intention is on %d stacks', what, len(home)); home = home[0]
    caller = [st for st, old in zip(stacks, snap) if old and old[-1] is ci]
    if caller and not delayed: require(home is caller[0] and home[-1] is i and len(home) == len(snap[stacks.index2(home) if hasattr(stacks, 'index2') else [x is home for x in stacks].index(True)]) + 1, '%s: not on top of the calling intention', what)
    else: require(all(home is not st for st in stacks) and len(home) == 1, '%s: not a separate intention', what)
    return what
@check('C06', 2)
def plans_of_a_program(rng, size):
    """whole programs: which plan answers a goal"""
    env = TestEnv(); log = []; acts = agentspeak.Actions(SL.actions); acts.add_procedure('.rec', (int, None), lambda k, x: log.append((k, str(int(x)) if isnum(x) else show(x))))
    bel = sorted(set((rng.choice('ab'), rng.randrange(3)) for _ in range(rng.randrange(4)))); text = ' '.join('%s(%d).' % b for b in bel); plans = []
    for k in range(rng.randrange(1, 6)):
        arg = rng.choice(['X', '0', '1', '2']); kind = rng.choice(['!', '!', '?', '']); nm = 'g'
        c = rng.choice(['', 'a(X)', 'b(X)', 'not a(X)', 'X > 0', 'a(1)', 'a(X) & b(X)', 'a(X) | b(X)'])
        if arg != 'X': c = c.replace('X', arg)
        plans.append((kind, arg, c)); text += ' +%sg(%s)%s <- .rec(%d, %s).' % (kind, arg, ' : ' + c if c else '', k, arg)
    v = rng.randrange(3); kind = rng.choice(['!', '!!', '?', '+'])
    def holds(c):
        if not c: return True
        c = c.replace('X', str(v))
        ev = lambda q: eval(q) if '>' in q else (q[0], int(q[2])) in bel
        if c.startswith('not '): return not ev(c[4:])
        if '&' in c: return all(ev(q.strip()) for q in c.split('&'))
        if '|' in c: return any(ev(q.strip()) for q in c.split('|'))
        return ev(c)
    stmt = {'!': '!g(%d)', '!!': '!!g(%d)', '?': '?g(%d)', '+': '+g(%d)'}[kind] % v
    text += ' !go. +!go <- %s; .rec(99, go).' % stmt
    tk = {'!': '!', '!!': '!', '?': '?', '+': ''}[kind]
    k = next((k for k, (pk, arg, c) in enumerate(plans) if pk == tk and (arg == 'X' or int(arg) == v) and holds(c)), None)
    src = io.StringIO(text); src.name = 'x.asl'; env.build_agent(src, acts)
    failed = False
    try: env.run()
    except agentspeak.AggregatedError: failed = True
    ok = not (k is None and kind in ('!', '!!', '?'))
    want = [(k, str(v))] if k is not None else []
    if ok: want = want + [(99, 'go')] if kind in ('!', '?') else [(99, 'go')] + want if False else want + [(99, 'go')]
    require(failed == (not ok), '%s: %s', text, 'reports an error' if failed else 'no error although no plan is applicable')
    require(sorted(log) == sorted(want), '%s: ran %s, expected %s', text, log, want)
    if kind in ('!', '?') and ok: require(log == want, '%s: ran %s, expected %s', text, log, want)
    return text
import itertools
