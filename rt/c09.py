from lib import *
T, GT = Trigger, GoalType
@check('C09', 4)
def exactly_the_matching_goals(rng, size):
    env = TestEnv(); a = RT.Agent(env, 'me'); g = G(rng, 3, bools=False, wild=False, annots=False); ran = []; n = 0
    for f, ar in (('p', 1), ('q', 2), ('p', 2), ('s', 0)):
        body = RT.Instruction(RT.noop); a.add_plan(RT.Plan(T.addition, GT.achievement, Literal(f, [Var() for _ in range(ar)]), RT.TrueQuery(), body, None, None))
        body.success = RT.Instruction(lambda agent, intention: ran.append(intention) or True)
    goals = []
    for _ in range(rng.randrange(0, 6)):
        under = [st[-1] for st in a.intentions if st]; ci = rng.choice(under) if under and rng.random() < 0.4 else RT.Intention()
        f, ar = rng.choice([('p', 1), ('q', 2), ('p', 2), ('s', 0)]); t = g.lit(2, f, ar)
        if goals and rng.random() < 0.4: t = g.similar(rng.choice(goals), 2)
        if not islit(t) or haswild(t) or (t.functor, len(t.args)) not in [('p', 1), ('q', 2), ('p', 2), ('s', 0)]: continue
        goals.append(t); a.call(T.addition, GT.achievement, t, ci, delayed=rng.random() < 0.3)
    if rng.random() < 0.2: a.intentions.append(collections.deque([RT.Intention()]))
    if rng.random() < 0.2: a.intentions.insert(rng.randrange(len(a.intentions) + 1), collections.deque())
    for st in a.intentions:
        if st and rng.random() < 0.3: st[-1].waiter = RT.Waiter(None, rng.choice([env.now - 1, env.now + 50]))
    drops = []
    for rnd in range(rng.choice([1, 1, 1, 2, 3])):
        t = g.similar(rng.choice(goals), 2) if goals and rng.random() < 0.8 else g.lit(2, *rng.choice([('p', 1), ('q', 2), ('s', 0)]))
        if not islit(t) or haswild(t): continue
        t = rename(t, {})
        if rng.random() < 0.3: t = Literal(t.functor, t.args, [Literal('source', (Literal('boss'),))])
        drops.append(t); stacks = list(a.intentions); before = [[(i, i.waiter, i.instr, dict(i.scope), list(i.stack)) for i in st] for st in stacks]
        what = 'goals %s; drop %s; intentions %s' % (', '.join(map(show, goals)), ', '.join(map(show, drops)), ' | '.join(', '.join(show(x[0].head_term) for x in b) for b in before))
        try:
            exp = [bool(b) and b[-1][0].head_term is not None and b[-1][0].head_term.functor == t.functor and runify(tuple(t.args), tuple(b[-1][0].head_term.args), {}) is not None for b in before]
        except (Cyclic, TypeErr): raise Skip()
        try: r = a.call(T.removal, GT.achievement, t, RT.Intention())
        except RecursionError: raise Skip()
        require(r, '%s: returns %r', what, r)
        for st, b, e in zip(stacks, before, exp):
            keep = b[:-1] if e else b; left = list(st)
            require(len(left) == len(keep) and all(x is y[0] for x, y in zip(left, keep)), '%s: the stack %s is left with %s', what, [show(x[0].head_term) for x in b], [show(x.head_term) for x in left])
            for x in keep: i = x[0]; require(i.waiter is x[1] and i.instr is x[2] and same_scope(i.scope, x[3]) and same_trail(list(i.stack), x[4]), '%s: intention %s was changed', what, show(i.head_term))
        require(len([st for st in a.intentions if st]) == len([1 for st in stacks if st]) and all(any(x is st for x in a.intentions) for st in stacks if st), '%s: a whole intention disappeared', what)
    if not drops: raise Skip()
    # the agent keeps working
    left = [st for st in a.intentions if st]; new = g.lit(1, 'p', 1)
    if haswild(new): raise Skip()
    try: a.call(T.addition, GT.achievement, new, RT.Intention())
    except Exception as e: require(False, '%s: then posting %s fails: %r', what, show(new), e)
    i = a.intentions[-1][-1]; require(i.head_term is not None and variant(i.head_term, {}, new, {}), '%s: the goal posted next does not start', what)
    waiting = [x for st in a.intentions for x in st if x.waiter is not None]
    todo = [x for st in a.intentions for x in st if x.instr is not None and x.instr.success is not None and not any(w in st and list(st).index(w) >= list(st).index(x) for w in waiting if not w.waiter.poll(env))]
    for _ in range(200):
        try:
            if not a.step(): break
        except Exception as e: require(False, '%s: then stepping fails: %r', what, e)
    require(all(any(x is y for y in ran) for x in todo) and all(ran.count(x) == 1 for x in todo), '%s: %d of the %d goals left ran afterwards', what, len(ran), len(todo))
    return what
@check('C09', 2)
def withdrawn_by_a_message(rng, size):
    """.send(..., unachieve, ...) between running agents"""
    env = TestEnv(); log = []; acts = agentspeak.Actions(SL.actions); acts.add_procedure('.rec', (RT.Agent, None), lambda a, x: log.append((a.name, show(x))))
    gs = [rng.choice(['p', 'q']) + '(%d)' % rng.randrange(3) for _ in range(rng.randrange(1, 4))]; drop = rng.choice(['p', 'q']); arg = rng.choice(['0', '1', '2', '_', '_'])
    worker = '+!p(X) <- .wait("+go"); .rec(p(X)). +!q(X) <- .wait("+go"); .rec(q(X)). ' + ' '.join('!%s.' % x for x in gs)
    late = rng.choice(['p(7)', 'q(7)'])
    boss = '!b. +!b <- %s.send(w, unachieve, %s(%s)); .send(w, achieve, %s); .wait(10); .send(w, tell, go).' % (rng.choice(['', '.wait(5); ']), drop, 'Y' if arg == '_' else arg, late)
    text = 'worker: %s boss: %s' % (worker, boss)
    for nm, tx in (('w', worker), ('boss', boss)): src = io.StringIO(tx); src.name = nm + '.asl'; env.build_agent(src, acts)
    w, b = env.agents['w'], env.agents['boss']
    for k in range(400):
        x = w.step(); y = b.step()
        if not x and not y:
            env.now += 1
            if k > 300: break
    num = lambda t: t[:-1] + '.0)'
    want = sorted(('w', num(x)) for x in gs + [late] if not (x in gs and x[0] == drop and (arg == '_' or x[2] == arg)))
    require(sorted(log) == want, '%s: ran %s, expected %s', text, sorted(log), want)
    return text
