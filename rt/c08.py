from lib import *
import time, functools
T, GT = Trigger, GoalType
def noplan_agent(env=None): return RT.Agent(env or TestEnv(), 'me')
def mkevent(rng, g):
    tr, gt = rng.choice([(T.addition, GT.belief), (T.removal, GT.belief), (T.addition, GT.achievement), (T.addition, GT.test), (T.removal, GT.achievement)])
    f, n = rng.choice([('p', 1), ('q', 2), ('s', 0)])
    return RT.Event(tr, gt, g.lit(1, f, n, annots=rng.random() < 0.3))
def mkstack(rng, agent, g, env, waiting=0.7):
    """a stack of intentions; only the top one may run"""
    st = collections.deque()
    for k in range(rng.choice([1, 1, 2])):
        i = RT.Intention(); st.append(i)
        if rng.random() < waiting:
            ev = mkevent(rng, g) if rng.random() < 0.75 else None
            un = rng.choice([None, env.now - 1, env.now + 5, env.now, env.now + rng.randrange(100)]) if ev else rng.choice([env.now - 1, env.now, env.now + rng.randrange(100)])
            i.waiter = RT.Waiter(ev, un)
    agent.intentions.append(st)
    return st
def snap(a): return [[(i, i.waiter, i.waiter and i.waiter.event, i.waiter and i.waiter.until) for i in st] for st in a.intentions]
def showw(w): return '-' if w is None else '%s until %s' % ('%s%s%s' % (w.event.trigger.value, w.event.goal_type.value, show(w.event.head)) if w.event else 'no event', w.until)
@check('C08', 4)
def events_wake_exactly_their_waiters(rng, size):
    env = TestEnv(); a = noplan_agent(env); g = G(rng, 2, bools=False, exprs=False)
    for _ in range(rng.randrange(1, 5)): mkstack(rng, a, g, env)
    if rng.random() < 0.3: a.intentions.append(collections.deque())
    e = rng.choice([st[-1].waiter.event for st in a.intentions if st and st[-1].waiter and st[-1].waiter.event] or [None])
    trg, gt = (e.trigger, e.goal_type) if e and rng.random() < 0.8 else rng.choice([(T.addition, GT.belief), (T.removal, GT.belief), (T.addition, GT.achievement), (T.addition, GT.test)])
    gg = G(rng, 3, bools=False, wild=False); ci = new_intention(gg.scope())
    head = e.head if e and rng.random() < 0.8 else mkevent(rng, g).head
    term = gg.similar(rename(head, {}))
    if not islit(term) or haswild(term): raise Skip()
    if gt is GT.belief:
        try: ok = rground(term, ci.scope)
        except TypeErr: raise Skip()
        if not ok: raise Skip()
        if trg is T.removal: a.beliefs[(term.functor, len(term.args))].add(term.grounded(ci.scope))
    started = rng.random() < 0.5
    if started: a.add_plan(RT.Plan(trg, gt, Literal(term.functor, [Var() for _ in term.args]), RT.TrueQuery(), RT.Instruction(RT.noop), None, None))
    before = snap(a); s0 = dict(ci.scope); t0 = [st for st in a.intentions]
    what = 'event %s%s%s under %s; waiting: %s' % (trg.value, gt.value, show(term), shows(s0), ' | '.join(', '.join(showw(x[1]) for x in st) for st in before))
    expect = []
    for st in before:
        if not st: expect.append(None); continue
        i, w, ev, un = st[-1]; wake = False
        if w is not None and ev is not None and ev.trigger is trg and ev.goal_type is gt:
            try: wake = next(rmatch(ev.head, rename(apply(term, s0), {}), s0), None) is not None
            except (Cyclic, TypeErr): raise Skip()
        expect.append(wake)
    if trg is T.removal and gt is GT.achievement: raise Skip()
    try: a.call(trg, gt, term, ci, delayed=rng.random() < 0.5)
    except AslError:
        if not (gt is GT.achievement and not started): raise
    after = [st for st in a.intentions]
    for k, st in enumerate(t0):
        if not before[k]: continue
        require(after[k] is st and len(st) >= len(before[k]), '%s: intention %d moved', what, k)
        for j, (i, w, ev, un) in enumerate(before[k]):
            require(st[j] is i, '%s: intention %d replaced', what, k)
            if j == len(before[k]) - 1 and expect[k]: require(i.waiter is None, '%s: intention %d still waits although the event matches', what, k)
            else: require(i.waiter is w and (w is None or (w.event is ev and w.until == un)), '%s: intention %d was disturbed (now %s)', what, k, showw(i.waiter))
    return what
def recorder(log, key):
    def f(agent, intention): log.append(key); return True
    return f
@check('C08', 3)
def deadlines(rng, size):
    env = TestEnv(); a = noplan_agent(env); log = []; g = G(rng, 1, bools=False); sts = []
    for k in range(rng.randrange(1, 6)):
        st = mkstack(rng, a, g, env, 0.8); sts.append(st)
        for j, i in enumerate(st): i.instr = RT.Instruction(recorder(log, (k, j)))
    if rng.random() < 0.3: a.intentions.append(collections.deque())
    dl = [st[-1].waiter.until for st in sts if st[-1].waiter and st[-1].waiter.until is not None]
    what = 'at %s: %s' % (env.now, ' | '.join(', '.join(showw(i.waiter) for i in st) for st in sts))
    require(a.shortest_deadline() == (min(dl) if dl else None), '%s: next deadline %s', what, a.shortest_deadline())
    for _ in range(12):
        exp = None; before = [[(i, i.waiter, i.instr) for i in st] for st in sts]
        for k, st in enumerate(sts):
            w = st[-1].waiter if st else None
            if not st or (w is not None and not (w.until is not None and w.until < env.now)): continue
            exp = k; break
        log[:] = []; instr = sts[exp][-1].instr if exp is not None else None; size_ = len(sts[exp]) if exp is not None else 0
        r = a.step()
        require(bool(r) == (exp is not None), '%s, now %s: step reports %s although intention %s is the first that can run', what, env.now, r, exp)
        for k, st in enumerate(sts):
            if k == exp: continue
            require([(i, i.waiter, i.instr) for i in st] == before[k], '%s, now %s: stepping intention %s changed intention %s', what, env.now, exp, k)
        if exp is not None and instr is not None: require(log == [(exp, size_ - 1)], '%s, now %s: ran %s instead of %s', what, env.now, log, (exp, size_ - 1))
        if exp is not None and sts[exp]: require(sts[exp][-1].waiter is None or instr is None, '%s: the intention that ran is still marked as waiting', what)
        env.now += rng.choice([0, 0, 1, 6, 30])
    return what
class Clock(TestEnv):
    """the clock moves between any two readings; sleeping is recorded"""
    def __init__(self, rng): TestEnv.__init__(self); self.r = rng; self.sleeps = []; self.readings = []; self.jumpy = rng.random() < 0.7
    def time(self):
        if self.jumpy and self.r.random() < 0.5: self.now += self.r.choice([0.001, 0.01, 0.5, 3])
        self.readings.append(self.now); return self.now
    def sleep(self, s):
        if s < 0: raise ValueError('sleep length must be non-negative')
        if len(self.sleeps) > 400: raise Fail('keeps sleeping without end: %r' % self.sleeps[-10:])
        self.sleeps.append((self.readings[-1] if self.readings else self.now, s)); self.now += s + self.r.choice([0, 0.0001, 0.002, 0.2])
@contextlib.contextmanager
def patched_sleep(f):
    old = time.sleep; time.sleep = f
    try: yield
    finally: time.sleep = old
@check('C08', 2)
def run_loops(rng, size):
    env = Clock(rng); acts = agentspeak.Actions(SL.actions); woke = []
    acts.add_procedure('.rec', (RT.Agent, int), lambda a, k: woke.append((a.name, k, env.now)))
    n = rng.randrange(1, 3); waits = {}; agents = []; texts = []
    for j in range(n):
        lines = []; kk = 0
        for k in range(rng.randrange(1, 4)):
            ms = rng.choice([0, 10, 50, 100, 1500, 3000, 7]); form = rng.choice(['.wait(%d)' % ms, '.wait("+never(%d)", %d)' % (k, ms), '.wait(%d)' % ms])
            lines.append('!g%d. +!g%d <- %s; .rec(%d).' % (k, k, form, k)); waits[(j, k)] = ms / 1000.0; kk = k
        if rng.random() < 0.5:
            lines.append('!h. +!h <- .wait("+tick(X)"); .rec(77). !t. +!t <- .wait(20); +tick(1).')
        texts.append('\n'.join(lines))
    what = 'agents %r' % texts
    with contextlib.redirect_stderr(io.StringIO()), patched_sleep(env.sleep):
        t0 = {}
        for j, tx in enumerate(texts):
            f = io.StringIO(tx); f.name = 'a%d.asl' % j; agents.append(env.build_agent(f, acts))
        start = env.now
        if n == 1 and rng.random() < 0.5: env.run_agent(agents[0])
        else: env.run()
    for j, a in enumerate(agents):
        got = [k for nm, k, t in woke if nm == a.name]
        exp = [k for (jj, k) in waits if jj == j] + ([77] if 'tick' in texts[j] else [])
        require(sorted(got) == sorted(exp), '%s: resumed %s, expected each of %s once', what, got, exp)
        for nm, k, t in woke:
            if nm == a.name and k != 77: require(t > start + waits[(j, k)], '%s: intention %d resumed %s s after the start, before its deadline', what, k, t - start)
    return what
@check('C08', 2)
def wait_action(rng, size):
    """what .wait suspends on"""
    env = TestEnv(); g = G(rng, 3, wild=False, bools=False, strings=False, annots=False)
    tr, gt = rng.choice([('+', ''), ('-', ''), ('+', '!'), ('+', '?'), ('-', '!')]); s = {}
    head = g.lit(1, 'p', rng.choice([1, 2])); names = {}
    def txt(t):
        if isvar(t): return names.setdefault(t, 'X%d' % len(names))
        if isinstance(t, tuple): return '[%s]' % ', '.join(txt(x) for x in t)
        if isinstance(t, LinkedList): return '[%s|%s]' % (txt(t.head), txt(t.tail))
        if islit(t): return t.functor + ('(%s)' % ', '.join(txt(x) for x in t.args) if t.args else '') + ('[%s]' % ', '.join(txt(x) for x in t.annots) if t.annots else '')
        return repr(t)
    an = [Literal('source', [rng.choice([Literal('bob'), g.vars[0]])])] if rng.random() < 0.4 else []
    head = Literal(head.functor, head.args, an)
    ev = '%s%s%s' % (tr, gt, txt(head)); ms = rng.choice([0, 1, 250, 1000, 1.5]); i = RT.Intention(); a = RT.Agent(env, 'me')
    form = rng.randrange(3); v = Var(); i.scope[v] = ms
    args = [ms if rng.random() < 0.5 else v] if form == 0 else [ev + rng.choice(['', '.'])] if form == 1 else [ev, ms]
    what = '.wait(%s)' % ', '.join(show(x) for x in args); trail = list(i.stack)
    n = 0
    for _ in SL.actions.lookup('.wait', len(args))(a, Literal('.wait', args), i): n += 1
    require(n == 1, '%s: offered %d solutions', what, n); w = i.waiter
    require(w is not None, '%s: does not wait', what)
    if form == 0: require(w.event is None, '%s: waits for an event', what)
    else:
        require(w.event is not None and (w.event.trigger.value, w.event.goal_type.value) == (tr, gt), '%s: waits for the wrong kind of event %s', what, w.event)
        require(canon(w.event.head, {}) == canon(head, {}), '%s: waits for %s', what, show(w.event.head))
    if form == 1: require(w.until is None, '%s: has a deadline', what)
    else: require(w.until is not None and abs(w.until - (env.now + ms / 1000.0)) < 1e-6, '%s: deadline %s at time %s', what, w.until, env.now)
    require(len(i.scope) == 1 and list(i.stack) == trail, '%s: changes bindings', what)
    return what
