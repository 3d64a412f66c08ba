from lib import *
T, GT = Trigger, GoalType
def instr(log, key, out, ok=None, fail=None):
    def f(agent, intention):
        log.append((key, intention))
        if isinstance(out, Exception): raise out
        return out
    i = RT.Instruction(f); i.success = ok; i.failure = fail; return i
@check('C07', 4)
def one_step(rng, size):
    env = TestEnv(); a = RT.Agent(env, 'me'); log = []; stacks = []; desc = []
    for k in range(rng.randrange(0, 5)):
        st = collections.deque(); n = rng.choice([0, 1, 1, 1, 2, 3])
        for j in range(n):
            i = RT.Intention(); key = (k, j)
            kind = rng.randrange(8)
            okI, failI = RT.Instruction(RT.noop), RT.Instruction(RT.noop)
            out, ok, fail = {0: (True, okI, None), 1: (True, okI, failI), 2: (True, None, failI), 3: (False, okI, failI), 4: (False, okI, None), 5: (ValueError('boom'), okI, failI), 6: (AslError('bad'), okI, failI), 7: (True, None, None)}[kind]
            if kind in (4, 5, 6) and rng.random() < 0.6: out, ok, fail = True, okI, None
            i.instr = instr(log, key, out, ok, fail) if rng.random() < 0.75 else None; i.exp = (out, ok, fail)
            g = G(rng, 2, bools=False); i.scope.update(g.scope()); i.stack.extend(i.scope)
            if rng.random() < 0.35: i.waiter = RT.Waiter(None if rng.random() < 0.7 else RT.Event(T.addition, GT.belief, Literal('x')), rng.choice([env.now - 1, env.now + 1, env.now - 0.001, env.now]))
            if i.waiter is not None and rng.random() < 0.3: i.waiter.until = None; i.waiter.event = RT.Event(T.addition, GT.belief, Literal('x'))
            st.append(i)
        a.intentions.append(st); stacks.append(st)
        desc.append('[%s]' % ', '.join('%s%s' % ('end' if i.instr is None else repr(i.exp[0]), ' waiting' if i.waiter and not (i.waiter.until is not None and i.waiter.until < env.now) else ' due' if i.waiter else '') for i in st))
    what = 'stacks %s' % ' '.join(desc)
    def state(i): return (i, i.instr, i.waiter, dict(i.scope), list(i.stack), list(i.query_stack), list(i.choicepoint_stack), i.head_term, i.calling_term)
    before = [[state(i) for i in st] for st in stacks]
    k = next((k for k, st in enumerate(stacks) if st and (st[-1].waiter is None or (st[-1].waiter.until is not None and st[-1].waiter.until < env.now))), None)
    i = stacks[k][-1] if k is not None else None; ins = i.instr if i else None
    err = None; r = None
    try: r = a.step()
    except agentspeak.AggregatedError as e: err = e
    except agentspeak.AslError as e: require(False, '%s: a bare error escapes: %r', what, e)
    def same(x, y): return x[0] is y[0] and x[1] is y[1] and x[2] is y[2] and same_scope(x[3], y[3]) and same_trail(x[4], y[4]) and x[5:] == y[5:]
    for m, st in enumerate(stacks):
        nowst = [state(x) for x in st]
        if m == k: nowst = nowst[:len(before[m]) - 1]; require(len(nowst) == len(before[m]) - 1, '%s: intentions below the running one disappear', what)
        require(all(same(x, y) for x, y in zip(nowst, before[m][:-1] if m == k else before[m])) and (m == k or len(nowst) == len(before[m])), '%s: intention %d was not the one to run but changed', what, m)
    kept = [st for st in a.intentions if st]; want = [st for st in stacks if st]
    require(len(kept) == len(want) and all(x is y for x, y in zip(kept, want)), '%s: the set or order of running intentions changed', what)
    if k is None: require(err is None and not r and not log, '%s: no intention can run, but step returns %s, runs %s', what, r, log); return what
    if ins is None:
        require(err is None and r, '%s: %r %r', what, r, err); require(len(stacks[k]) == len(before[k]) - 1, '%s: a finished intention stays', what); require(not log, '%s: runs %s', what, log)
        if not stacks[k]: require(len([1 for st in a.intentions if not st]) <= len([1 for x in before if not x]), '%s: a finished intention leaves an empty stack', what)
        return what
    require([x for x, _ in log] == [(k, len(before[k]) - 1)] and log[0][1] is i, '%s: runs %s', what, [x for x, _ in log])
    require(len(stacks[k]) == len(before[k]), '%s: the running intention disappeared', what)
    out, ok, fail = i.exp
    if isinstance(out, Exception) or (out is False and fail is None): require(err is not None, '%s: the failure %r of intention %d is dropped', what, out, k); return what
    require(err is None, '%s: %s', what, err); require(r, '%s: reports no work', what)
    require(i.instr is (ok if out else fail), '%s: continues with the wrong instruction', what)
    require(i.waiter is None, '%s: still waiting after it ran', what)
    return what
@check('C07', 3)
def results_come_back(rng, size):
    env = TestEnv(); a = RT.Agent(env, 'me'); g = G(rng, 4, bools=False, wild=False, annots=rng.random() < 0.4)
    caller = RT.Intention(); callee = RT.Intention(); s = g.scope(); caller.scope.update(s); caller.stack.extend(s); callee.instr = None
    t = g.lit(2); head = t.freeze(dict(s), {}); callee.head_term = head; callee.calling_term = t
    g2 = G(rng, 2, bools=False, wild=False, annots=False); vs = tvars(head)
    for v in vs:
        if rng.random() < 0.7: callee.scope[v] = g2.term(1) if rng.random() < 0.6 else rng.choice(vs + g2.vars)
        if v in callee.scope and (callee.scope[v] is v): del callee.scope[v]
    try:
        if any(occurs(v, callee.scope[v], {k: x for k, x in callee.scope.items() if k is not v}) for v in list(callee.scope)): raise Skip()
        for v in g2.vars:
            if rng.random() < 0.3: callee.scope[v] = rng.choice([1, Literal('z'), (2, 3)])
        if any(occurs(v, callee.scope[v], {k: x for k, x in callee.scope.items() if k is not v}) for v in list(callee.scope)): raise Skip()
        res = rename(apply(head, callee.scope), {}); exp = runify(t, res, dict(s)); canon(tuple(g.vars), exp or {})
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    if exp is None: raise Skip()
    nxt = RT.Instruction(RT.noop); caller.instr = nxt; c0 = dict(callee.scope)
    below = RT.Intention(); below.instr = RT.Instruction(RT.noop)
    st = collections.deque(([below] if rng.random() < 0.3 else []) + [caller, callee]); other = collections.deque([RT.Intention()]); a.intentions.extend([st, other]) 
    other[0].instr = RT.Instruction(RT.noop)
    what = '%s called under %s; the plan ends with %s' % (show(t), shows(s), show(res))
    n = len(st)
    try: r = a.step()
    except RecursionError: raise Skip()
    require(r, '%s: no work', what); require(len(st) == n - 1 and st[-1] is caller, '%s: the finished plan stays', what)
    require(variant(tuple(g.vars), caller.scope, tuple(g.vars), exp), '%s: the caller has %s, expected %s', what, show(tuple(g.vars), caller.scope), show(tuple(g.vars), exp))
    require(all(v in caller.scope and caller.scope[v] is s[v] for v in s), '%s: the caller lost bindings', what)
    require(caller.instr is nxt, '%s: the caller does not continue where it was', what)
    for v in caller.scope: require(v not in callee.scope or v in s, '%s: shares variables', what)
    require(not other[0].scope and len(a.intentions) == 2, '%s: changes another intention', what)
    return what
@check('C07', 3)
def programs_compute(rng, size):
    """goals that compute through subgoals, several of them interleaved"""
    env = TestEnv(); log = []; acts = agentspeak.Actions(SL.actions); acts.add_procedure('.rec', (int, None), lambda k, x: log.append((k, x)))
    n = rng.randrange(1, 5); text = ''; fs = []
    for k in range(n):
        kind = rng.randrange(5); c = rng.randrange(1, 5); sub = rng.randrange(k) if k else None
        if sub is None: kind = 0
        if kind == 0: body = 'Y = X + %d' % c; f = lambda x, c=c: x + c
        elif kind == 1: body = '!f%d(X, Z); Y = Z * %d' % (sub, c); f = lambda x, c=c, h=fs[sub]: h(x) * c
        elif kind == 2: body = '!f%d(X + %d, Y)' % (sub, c); f = lambda x, c=c, h=fs[sub]: h(x + c)
        elif kind == 3: body = '!f%d(X, A); !f%d(A, B); Y = A - B' % (sub, sub); f = lambda x, h=fs[sub]: h(x) - h(h(x))
        else: body = 'if (X > %d) { !f%d(X, Y) } else { Y = %d }' % (c, sub, c); f = lambda x, c=c, h=fs[sub]: h(x) if x > c else c
        extra = rng.choice(['', ' +b%d(X);' % k, ' !!nothing;', '']); text += '+!f%d(X, Y) <-%s %s. ' % (k, extra, body); fs.append(f)
    text += '+!nothing. '; m = rng.randrange(1, 4); want = []
    for j in range(m):
        k = rng.randrange(n); x = rng.randrange(6); text += '!go%d. +!go%d <- !f%d(%d, R); .rec(%d, R). ' % (j, j, k, x, j); want.append((j, fs[k](x)))
    src = io.StringIO(text); src.name = 'x.asl'; a = env.build_agent(src, acts); env.run()
    require(sorted(log) == sorted(want), '%s: computed %s, expected %s', text, sorted(log), sorted(want))
    require(not [st for st in a.intentions if st], '%s: intentions are left over', text)
    return text
@check('C07', 2)
def errors_surface(rng, size):
    """a failing statement somewhere in a program is reported, and nothing of that plan runs after it"""
    env = TestEnv(); log = []; acts = agentspeak.Actions(SL.actions); acts.add_procedure('.rec', (int,), lambda k: log.append(k))
    def boom(): raise KeyError('boom')
    acts.add_procedure('.boom', (), boom)
    bad = rng.choice(['.fail', '.boom', '1 = 2', '?nope(1)', '!noplan', 'X = a; X + 1 = 2', '+b(_)', '.rec(foo)', 'q(Z)', '!!noplan', 'not true'])
    depth = rng.randrange(3); text = '!g0. '
    for d in range(depth + 1): text += '+!g%d <- .rec(%d); %s; .rec(%d). ' % (d, d, '!g%d' % (d + 1) if d < depth else bad, 50 + d)
    src = io.StringIO(text); src.name = 'x.asl'; env.build_agent(src, acts); err = None
    try: env.run()
    except agentspeak.AggregatedError as e: err = e
    except (AslError, KeyError) as e: require(False, '%s: %r escapes', text, e)
    require(err is not None, '%s: the failure is silently dropped (ran %s)', text, log)
    require(log == list(range(depth + 1)), '%s: ran %s', text, log)
    return text
