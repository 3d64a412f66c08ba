from lib import *
T, GT = Trigger, GoalType
FORCES = {'tell': (T.addition, GT.belief), 'untell': (T.removal, GT.belief), 'achieve': (T.addition, GT.achievement), 'unachieve': (T.removal, GT.achievement)}
SEND = SL.actions.lookup('.send', 3); BROADCAST = SL.actions.lookup('.broadcast', 2)
class Rec(RT.Agent):
    """records what reaches it"""
    def call(self, trigger, goal_type, term, calling_intention, delayed=False):
        self.env.log.append((self, trigger, goal_type, term, calling_intention)); return True
def names(rng): 
    pool = ['a', 'b', 'c', 'me', 'agent_with_long_name', 'c1']; rng.shuffle(pool); return pool[:rng.randrange(1, 6)]
def setup(rng):
    env = TestEnv(); env.log = []
    for n in names(rng): env.agents[n] = Rec(env, n)
    return env, rng.choice(list(env.agents.values()))
def message(rng, g):
    m = g.lit(2, *rng.choice([('p', 1), ('q', 2), ('s', 0), ('f', 1)]), annots=False)
    n = rng.choice([0, 0, 0, 1, 2, 3])
    return Literal(m.functor, m.args, [rng.choice([Literal('source', (Literal(rng.choice(['a', 'b', 'self', 'me'])),)), g.annot(1), Literal('urgent')]) for _ in range(n)])
def wrap(rng, t, s):
    """the same argument, possibly through variables"""
    if rng.random() < 0.3:
        v = Var(); s[v] = t
        if rng.random() < 0.3: w = Var(); s[w] = v; return w
        return v
    return t
def run(impl, agent, term, i):
    try: return len(list(impl(agent, term, i))), None
    except Skip: raise
    except Exception as e: return 0, e
def judge(what, env, sender, n, err, msg, s0, expect, force, ok):
    """expect: list of receivers in any order; ok: force and receivers are fine"""
    if not ok:
        require(not env.log, '%s: delivered to %s although an addressee or the force is unknown', what, [a.name for a, *_ in env.log])
        require(n == 0, '%s: succeeds although an addressee or the force is unknown', what); return
    require(err is None, '%s: %r', what, err); require(n == 1, '%s: the action succeeds %d times', what, n)
    got = [a for a, *_ in env.log]
    require(sorted(a.name for a in got) == sorted(a.name for a in expect) and all(any(a is b for b in expect) for a in got), '%s: delivered to %s instead of %s', what, [a.name for a in got], [a.name for a in expect])
    src = Literal('source', (Literal(sender.name),)); want = Literal(msg.functor, msg.args, tuple(msg.annots) + (src,))
    for a, tr, gt, t, ci in env.log:
        require((tr, gt) == FORCES[force], '%s: arrives as %s%s', what, tr.value, gt.value)
        require(islit(t), '%s: not a literal arrives: %r', what, t)
        require(variant(want, s0, t, {}), '%s: arrives as %s instead of %s', what, show(t), show(want, s0))
        for v in tvars(t): require(v not in s0 and all(v is not u for u in tvars(msg)), '%s: the message shares a variable with the sender', what)
        require(not ci.scope and not ci.head_term and ci is not None, '%s: the event arrives with foreign bindings', what)
    its = [ci for *_, ci in env.log]; require(len(set(map(id, its))) == len(its), '%s: receivers share one intention', what)
@check('C13', 5)
def send_reaches_the_addressees(rng, size):
    env, sender = setup(rng); g = G(rng, 3, bools=False, wild=False, exprs=rng.random() < 0.2); s = g.scope()
    k = rng.choice([0, 1, 1, 1, 2, 3, 4]); pick = rng.sample(list(env.agents), min(k, len(env.agents))); bad = rng.random() < 0.12
    items = [Literal(n) if rng.random() < 0.6 else n for n in pick]
    if bad: items.insert(rng.randrange(len(items) + 1), rng.choice([Literal('nobody'), 'nobody', 'c2', Literal('selff')]))
    if len(items) == 1 and rng.random() < 0.7: to = items[0]
    else:
        items2 = [wrap(rng, x, s) for x in items]; to = tuple(items2)
        if rng.random() < 0.3 and items2: j = rng.randrange(1, len(items2) + 1); to = tuple(items2[j:]) ; 
        if rng.random() < 0.3 and items2 and len(to) != len(items2):
            for x in reversed(items2[:len(items2) - len(to)]): to = LinkedList(x, wrap(rng, to, s) if isinstance(to, tuple) and rng.random() < 0.3 else to)
        elif len(to) != len(items2): to = tuple(items2)
    force = rng.choice(['tell', 'tell', 'untell', 'achieve', 'unachieve']); badforce = rng.random() < 0.08
    f = Literal(rng.choice(['shout', 'Tell', 'tel', 'achieve_', 'untellhow'])) if badforce else Literal(force)
    if rng.random() < 0.04: badforce = True; f = rng.choice(['tell', Literal('tell', (1,)), 3])
    msg = message(rng, g); arg = wrap(rng, msg, s)
    term = Literal('.send', (wrap(rng, to, s), wrap(rng, f, s), arg)); i = new_intention(s); s0 = dict(i.scope); t0 = list(i.stack)
    what = '%s runs %s under %s (agents %s)' % (sender.name, show(term), shows(s), ', '.join(env.agents))
    try: canon(msg, s0)
    except (TypeErr, Cyclic, RecursionError): raise Skip()
    n, err = run(SEND, sender, term, i)
    judge(what, env, sender, n, err, msg, s0, [env.agents[x] for x in pick], force, not bad and not badforce)
    require(same_scope(i.scope, s0) and same_trail(t0, list(i.stack)), '%s: changes the bindings of the sender', what)
    return what
@check('C13', 3)
def broadcast_reaches_all_others(rng, size):
    env, sender = setup(rng); g = G(rng, 3, bools=False, wild=False); s = g.scope()
    force = rng.choice(['tell', 'untell', 'achieve']); badforce = rng.random() < 0.1; f = Literal(rng.choice(['shout', 'Tell', 'tel'])) if badforce else Literal(force)
    msg = message(rng, g); term = Literal('.broadcast', (wrap(rng, f, s), wrap(rng, msg, s))); i = new_intention(s); s0 = dict(i.scope); t0 = list(i.stack)
    what = '%s runs %s under %s (agents %s)' % (sender.name, show(term), shows(s), ', '.join(env.agents))
    try: canon(msg, s0)
    except (TypeErr, Cyclic, RecursionError): raise Skip()
    n, err = run(BROADCAST, sender, term, i)
    judge(what, env, sender, n, err, msg, s0, [a for a in env.agents.values() if a is not sender], force, not badforce)
    require(same_scope(i.scope, s0) and same_trail(t0, list(i.stack)), '%s: changes the bindings of the sender', what)
    return what
@check('C13', 2)
def annotation_is_added(rng, size):
    g = G(rng, 3, bools=False); l = g.lit(2); a = g.annot(1); old = l.annots; r = l.with_annotation(a); what = '%s with annotation %s' % (show(l), show(a))
    require(r.functor == l.functor and r.args == l.args, '%s: %s', what, show(r))
    require(set(r.annots) == set(old) | {a}, '%s: annotations %s', what, [show(x) for x in r.annots])
    require(l.annots == old, '%s: the original is changed', what)
    return what
@check('C13', 3)
def messages_between_running_agents(rng, size):
    """whole programs: told beliefs and requested goals of every agent after the sender has run"""
    env = TestEnv(); n = rng.randrange(1, 4); rec = []
    acts = agentspeak.Actions(SL.actions)
    @acts.add_procedure('.got', (RT.Agent, None, None))
    def _got(agent, a, b): rec.append((agent.name, asl(a), asl(b)))
    def asl(t): return show(t)
    def build(name, text): src = io.StringIO(text); src.name = name + '.asl'; return env.build_agent(src, acts)
    hearers = ['h%d' % k for k in range(n)]
    for h in hearers: build(h, '+!do(X)[source(S)] <- .got(X, S). +news(X)[source(S)] <- .got(X, S). -news(X)[source(S)] <- .got(gone, S).')
    x = rng.choice(['1', 'foo', '"txt"', '[1, 2]', 'f(a)']); force = rng.choice(['tell', 'achieve']); ft = 'news' if force == 'tell' else 'do'
    to = rng.sample(hearers, rng.randrange(1, n + 1))
    how = rng.randrange(3)
    if how == 0: stmt = '.broadcast(%s, %s(X))' % (force, ft); to = hearers
    elif how == 1: to = to[:1]; stmt = '.send(%s, %s, %s(X))' % (to[0], force, ft)
    else: stmt = '.send([%s], %s, %s(X))' % (', '.join(to), force, ft)
    twice = rng.random() < 0.3
    text = '!go. +!go : true <- X = %s; %s; %s.got(done, X).' % (x, stmt, stmt + '; ' if twice and force == 'achieve' else '')
    build('boss', text); env.run()
    src = io.StringIO
    d = [e for e in rec if e[1] == 'done']; require(len(d) == 1 and d[0][0] == 'boss', '%s: the sender does not get past the message: %s', text, rec)
    val = d[0][2]; want = sorted((h, val, 'boss') for h in to for _ in range(2 if twice and force == 'achieve' else 1)); got = sorted(e for e in rec if e[1] != 'done')
    require(got == want, '%s: %s instead of %s', text, got, want)
    for h in hearers:
        bs = [show(b) for b in env.agents[h].beliefs[('news', 1)]]; exp = ['news(%s)[source(boss)]' % val] if force == 'tell' and h in to else []
        require(bs == exp, '%s: %s believes %s instead of %s', text, h, bs, exp)
    return text
