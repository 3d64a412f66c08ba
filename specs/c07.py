"""C07: a step advances the first intention that can run, and nothing else."""
from specs.rt_heap import *
from specs.c09 import nin, ANY, unif
unm = spec('unm7', V, V, Map, Map); unok = spec('unok', V, V, Map, Bool); frz7 = spec('frz7', V, Map, V)
LOG = agentspeak.Log
class LoggerI(object): "a logger"
F = heap_fields(); F.update({(RT.Intention, 'head_term'): lambda v: [Or(V.is_none(v), V.is_lit(v))], (RT.Intention, 'calling_term'): lambda v: [Or(V.is_none(v), V.is_lit(v))]})
def beside(f, l, i, v, h, *r): return Implies(nin(i, l), f(l, Store(h, i, v), *r) == f(l, h, *r))
def beside2(l, b, i, v, j, w): return Implies(nin(i, l), live(l, Store(Store(b, i, v), j, w)) == live(l, Store(b, j, w)))
@handler('live')
def _(t, ix):
    l, h = ch(t); out = []
    if info(h)[3] == z3.Z3_OP_STORE:
        a, j, w = ch(h); out.append(beside(live, l, j, w, a))
        if info(a)[3] == z3.Z3_OP_STORE: b, i, v = ch(a); out.append(beside2(l, b, i, v, j, w))
    return out
@handler('ready')
def _(t, ix):
    l, h, w, u, n = ch(t); return [Implies(t != NONE, isready(t, h, w, u, n))] + ([beside(ready, l, ch(h)[1], ch(h)[2], ch(h)[0], w, u, n)] if info(h)[3] == z3.Z3_OP_STORE else [])
@handler('memq')
def _(t, ix):
    x, l, h = ch(t); return [Implies(And(l == ch(x)[0], ch(x)[1] >= 0, ch(x)[1] < llen(l)), t)] if info(x)[2] == 'nth' else []
@handler('removeq')
def _(t, ix):
    l, x, h = ch(t); out = [Implies(Select(h, V.oi(x)) == NIL, live(t, h) == live(l, h))]      # lemma: taking an empty stack out
    for e in ix.by.get('nin', ())[:20]: out.append(Implies(nin(ch(e)[0], l), nin(ch(e)[0], t)))
    return out
def _l():
    l = z3.Const('l', L); h = z3.Const('h', SeqA); i = z3.Int('i'); v = z3.Const('v', L); x = z3.Const('x', V); hw, hu = z3.Consts('hw hu', ValA); n = z3.Const('n', V)
    lv = z3.Function('live0', L, SeqA, L); rd = z3.Function('ready0', L, SeqA, ValA, ValA, V, V); rm = z3.Function('removeq0', L, V, SeqA, L)
    d = lambda l, h: lv(l, h) == If(l == NIL, NIL, If(full(L.hd(l), h), cons(L.hd(l), lv(L.tl(l), h)), lv(L.tl(l), h)))
    e = lambda l, h: rd(l, h, hw, hu, n) == If(l == NIL, NONE, If(isready(L.hd(l), h, hw, hu, n), L.hd(l), rd(L.tl(l), h, hw, hu, n)))
    h2 = Store(h, i, v); t = L.tl(l)
    yield 'live', [d(l, h), d(l, h2), Implies(And(l != NIL, nin(i, t)), lv(t, h2) == lv(t, h)), nin(i, l)], lv(l, h2) == lv(l, h)
    j = z3.Int('j'); w = z3.Const('w', L); A, B = Store(Store(h, i, v), j, w), Store(h, j, w)
    yield 'live, below another store', [d(l, A), d(l, B), Implies(And(l != NIL, nin(i, t)), lv(t, A) == lv(t, B)), nin(i, l)], lv(l, A) == lv(l, B)
    yield 'ready', [e(l, h), e(l, h2), Implies(And(l != NIL, nin(i, t)), rd(t, h2, hw, hu, n) == rd(t, h, hw, hu, n)), nin(i, l)], rd(l, h2, hw, hu, n) == rd(l, h, hw, hu, n)
    yield 'what is ready can run', [e(l, h), Implies(rd(t, h, hw, hu, n) != NONE, isready(rd(t, h, hw, hu, n), h, hw, hu, n))], Implies(rd(l, h, hw, hu, n) != NONE, isready(rd(l, h, hw, hu, n), h, hw, hu, n))
    mq = z3.Function('memq0', V, L, SeqA, Bool); n0 = z3.Function('nth0', L, Int, V); ln = z3.Function('llen0', L, Int); md = lambda y: mq(y, l, h) == And(l != NIL, Or(Select(h, V.oi(L.hd(l))) == Select(h, V.oi(y)), mq(y, t, h)))
    y = n0(l, i)
    yield 'an element is in its list', [md(y), n0(l, i) == If(i == 0, L.hd(l), n0(t, i - 1)), ln(l) == If(l == NIL, 0, 1 + ln(t)), i >= 0, i < ln(l), Implies(And(i - 1 >= 0, i - 1 < ln(t)), mq(n0(t, i - 1), t, h))], mq(y, l, h)
    r = rm(l, x, h)
    rn = lambda l: rm(l, x, h) == If(l == NIL, NIL, If(Select(h, V.oi(L.hd(l))) == Select(h, V.oi(x)), L.tl(l), cons(L.hd(l), rm(L.tl(l), x, h)))); ni = z3.Function('nin0', Int, L, Bool); nd = lambda l: ni(i, l) == If(l == NIL, True, And(V.oi(L.hd(l)) != i, ni(i, L.tl(l))))
    yield 'removal keeps strangers out', [rn(l), nd(l), nd(rm(l, x, h)), ni(i, l), Implies(And(l != NIL, ni(i, t)), ni(i, rm(t, x, h)))], ni(i, rm(l, x, h))
    yield 'removal', [d(l, h), d(r, h), r == If(l == NIL, NIL, If(Select(h, V.oi(L.hd(l))) == Select(h, V.oi(x)), t, cons(L.hd(l), rm(t, x, h)))), Select(h, V.oi(x)) == NIL, Implies(l != NIL, lv(rm(t, x, h), h) == lv(t, h))], lv(r, h) == lv(l, h)
Lemma('stores beside stacks, removal of an empty stack', lambda: list(_l()))
G0 = lambda c: {'ran': NIL, 'failed': FALSE, 'res': NONE, 'unified': NIL}
ints = lambda c: c.old.seq(c.old.f('intentions', c.self))
now_ = lambda c: timeof(c.old.f('env', c.self))
def chosen(c): return ready(ints(c), c.old.arr('seq'), c.old.arr('f:waiter'), c.old.arr('f:until'), now_(c))
def cur(c): return llast(c.old.seq(chosen(c)))
def untouched(c, h, woken):
    """everything but the list of stacks and the waiter of the woken intention is as at the start"""
    d = V.oi(c.old.f('intentions', c.self)); o = c.old
    return [('stacks untouched', Implies(ANY != d, Select(h.arr('seq'), ANY) == Select(o.arr('seq'), ANY))), ('instructions untouched', Select(h.arr('f:instr'), ANY) == Select(o.arr('f:instr'), ANY)),
            ('no other intention is woken', Select(h.arr('f:waiter'), ANY) == (If(ANY == V.oi(cur(c)), NONE, Select(o.arr('f:waiter'), ANY)) if woken else Select(o.arr('f:waiter'), ANY))),
            ('only empty stacks are dropped', live(h.seq(o.f('intentions', c.self)), o.arr('seq')) == live(ints(c), o.arr('seq')))]
def run_req(c):
    e = c.eng.cctx
    return [('runs in the first intention that can', And(chosen(e) != NONE, c.intention == cur(e))), ('its own next instruction', And(e.old.f('instr', c.intention) != NONE, c.f == e.old.f('f', e.old.f('instr', c.intention)))), ('for this agent', c.agent == e.self), ('once', c.old.ghost['ran'] == NIL)] + untouched(e, c.old, True)
def run_fx(c): return {'ran': cons(c.f, c.old.ghost['ran']), 'failed': TRUE} if c.exc else {'ran': cons(c.f, c.old.ghost['ran']), 'res': c.res}
run = Contract('iface:instruction', params=['f', 'agent', 'intention'], modifies=lambda c: '*', result='bool', requires=run_req, effects=run_fx, raises=[(Exception, None)], verify=False, name='any instruction')
poll = Contract('agentspeak.runtime:Waiter.poll', params=['self', 'env'], resfn=lambda c: V.bool(due(c.self, c.old.arr('f:until'), timeof(c.env))), modifies=lambda c: [], verify=False, name='Waiter.poll (C08)')
freeze = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], modifies=lambda c: [('map', c.memo)], resfn=lambda c: frz7(c.term, c.old.map(c.scope)), requires=lambda c: [('with an empty memo', c.old.map(c.memo) == EMPTYMAP)], raises=[(Exception, None)], verify=False, name='freeze (C04)')
freezem = Contract('agentspeak:Literal.freeze', params=['term', 'scope', 'memo'], modifies=lambda c: [('map', c.memo)], resfn=lambda c: frz7(c.term, c.old.map(c.scope)), requires=lambda c: [('with an empty memo', c.old.map(c.memo) == EMPTYMAP)], raises=[(Exception, None)], verify=False, name='freeze (C04)')
unify = Contract('agentspeak:unify', params=['left', 'right', 'scope', 'stack'], modifies=lambda c: [('map', c.scope), ('seq', c.stack)], resfn=lambda c: V.bool(unok(c.left, c.right, c.old.map(c.scope))), ensures=lambda c: [c.now.map(c.scope) == unm(c.left, c.right, c.old.map(c.scope))], raises=[(Exception, None)],
    requires=lambda c: [('bindings and their own trail', z3.BoolVal(True))], verify=False, name='unify (C01)', effects=lambda c: {} if c.exc else {'unified': cons(V.tup(mklist([c.scope, c.stack])), c.old.ghost['unified'])})
logerr = Contract(['agentspeak:Log.error', 'agentspeak:Log.exception'], params=['self', 'msg', 'args', 'kwargs'], modifies=lambda c: [('f:num_errors', c.self)], result=('exc', agentspeak.AggregatedError), raises=[(agentspeak.AggregatedError, None)], verify=False, name='Log.error (C18)')
def distinct_(c):
    o = c.old; s = chosen(c); d = o.f('intentions', c.self)
    return [('the list of stacks is none of them', nin(V.oi(d), ints(c))), ('a trail of bindings is not the list of stacks', V.oi(o.f('stack', caller(c))) != V.oi(d)), ('intentions have their bindings', And(*[V.oi(o.f('scope', x)) < o.alloc for x in (caller(c), cur(c))]))]
def caller(c): return llast(linit(c.old.seq(chosen(c))))
def finished(c): return And(chosen(c) != NONE, c.old.f('instr', cur(c)) == NONE)
def ens(c):
    g = c.now.ghost; s = chosen(c); i = cur(c); o, n = c.old, c.now; ins = o.f('instr', i); d = V.oi(o.f('intentions', c.self)); rest = linit(o.seq(s)); k = caller(c)
    ended = And(V.b(c.res), finished(c)); back = And(ended, rest != NIL, o.f('calling_term', i) != NONE); term = (o.f('calling_term', i), frz7(o.f('head_term', i), o.map(o.f('scope', i))), o.map(o.f('scope', k)))
    st = Select(n.arr('seq'), ANY)
    return [('a boolean', V.is_bool(c.res)), ('work is found exactly when an intention can run', V.b(c.res) == (s != NONE)), ('an error is never swallowed', g['failed'] == FALSE),
        ('one instruction runs exactly when there is one', (g['ran'] != NIL) == And(s != NONE, ins != NONE)),
        ('then the instruction that follows is next', Implies(And(s != NONE, ins != NONE), And(n.f('instr', i) == If(g['res'] == TRUE, o.f('success', ins), o.f('failure', ins)), Or(g['res'] == TRUE, n.f('instr', i) != NONE)))),
        ('idle: nothing changes', Implies(Not(V.b(c.res)), And(*[f for _, f in untouched(c, n, False)]))),
        ('ended: no other intention is woken, nothing runs', Implies(ended, And(Select(n.arr('f:waiter'), ANY) == If(ANY == V.oi(i), NONE, Select(o.arr('f:waiter'), ANY)), Select(n.arr('f:instr'), ANY) == Select(o.arr('f:instr'), ANY)))),
        ('ended: the finished intention leaves its stack, the others stay', Implies(And(ended, ANY != d, Or(Not(back), ANY != V.oi(o.f('stack', k)))), st == If(ANY == V.oi(s), rest, Select(o.arr('seq'), ANY)))),
        ('ended: the stacks that hold an intention stay', Implies(And(ended, Not(back)), live(n.seq(o.f('intentions', c.self)), n.arr('seq')) == live(ints(c), n.arr('seq')))), ('returned: the list of stacks only loses empty ones', Implies(back, live(n.seq(o.f('intentions', c.self)), Store(o.arr('seq'), V.oi(s), rest)) == live(ints(c), Store(o.arr('seq'), V.oi(s), rest)))),
        ('returned: the answer fits the call', Implies(back, unok(*term))), ('returned: the caller has the bindings of the answer', Implies(back, n.map(o.f('scope', k)) == unm(*term))), ('returned: they are recorded on its trail', Implies(back, g['unified'] == cons(V.tup(mklist([o.f('scope', k), o.f('stack', k)])), NIL))),
        ('no caller: nothing is bound', Implies(And(ended, Not(back)), g['unified'] == NIL))]
def failed_(c):
    g = c.now.ghost; s = chosen(c); return [('only when the instruction failed', And(s != NONE, c.old.f('instr', cur(c)) != NONE, Or(g['failed'] == TRUE, And(g['res'] == FALSE, c.old.f('failure', c.old.f('instr', cur(c))) == NONE))))]
def loop(lc):
    c = lc.c; n = lc.n; l = ints(c); o = c.old; d = o.f('intentions', c.self); out = untouched(c, n, False)
    out += [('no waiter changes', n.arr('f:waiter') == o.arr('f:waiter')), ('no instruction changes', n.arr('f:instr') == o.arr('f:instr')), ('no other stack changes', n.arr('seq') == Store(o.arr('seq'), V.oi(d), n.seq(d)))]
    h2 = Store(o.arr('seq'), V.oi(chosen(c)), linit(o.seq(chosen(c)))); out += [('only empty stacks are dropped, with or without what the step ends', Implies(chosen(c) != NONE, live(n.seq(d), h2) == live(l, h2)))]
    q = n.seq(d); A = (o.arr('seq'), o.arr('f:waiter'), o.arr('f:until'), now_(c))
    out += [('the list of stacks is none of those left', nin(V.oi(d), q)), ('the same intention comes first', ready(q, *A) == chosen(c)), ('no error so far', And(lc.ghost['failed'] == FALSE, lc.ghost['ran'] == NIL, lc.ghost['unified'] == NIL))]
    if lc.kind == 'seq' and len(lc.ls) == 1:
        r = drop(lc.ls[0], lc.idx); out += [('the same intention is still to come', ready(r, *A) == chosen(c)), ('stacks to come are no list of stacks', nin(V.oi(d), r)), ('the list is walked as it is', lc.ls[0] == q)]
    return out
step = Contract('agentspeak.runtime:Agent.step', params=['self'], ghost=G0, requires=distinct_, modifies=lambda c: '*', loop=loop, ensures=ens, raises=[(agentspeak.AggregatedError, failed_), (Exception, lambda c: [('only while handing back the answer', And(finished(c), linit(c.old.seq(chosen(c))) != NIL))])], name='Agent.step')
view = View('C07', [step, poll, freeze, freezem, unify, logerr], fields=F, stable=STABLE + ['f:success', 'f:failure', 'f:f', 'f:until', 'f:loc', 'f:extra_locs'], classes=CLASSES + [LOG], iface={(InstrFnI, '__call__'): IFn('instruction', ['f', 'agent', 'intention'], run), (RT.Environment, 'time'): IFn('time', ['env'], env_time)})
LEMMAS = ['stores beside stacks, removal of an empty stack']
