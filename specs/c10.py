"""C10: loops and conditionals run as written - the instructions they are made of.

A query of a plan body lives on the query stack; a choice point is a mark on the choice-point stack and in the trail.
Each instruction touches its own stack at the top only."""
from specs.rt_heap import *
from specs.c02 import undoS, undoT
class GenI(object): "a running query"
F = heap_fields()
F.update({(RT.Intention, 'query_stack'): ('deque', ('iface', GenI)), (RT.Intention, 'choicepoint_stack'): ('deque', ('obj', object))})
ANY = z3.Int('any_object')
qs = lambda c: c.old.f('query_stack', c.intention); cps = lambda c: c.old.f('choicepoint_stack', c.intention); sc = lambda c: c.old.f('scope', c.intention); tr = lambda c: c.old.f('stack', c.intention)
def apart(c):
    a, b, t = [V.oi(x(c)) for x in (qs, cps, tr)]
    return [('the stacks of an intention are different objects', And(a != b, a != t, b != t, a < c.old.alloc, b < c.old.alloc, t < c.old.alloc))]
running = spec('running', V, V)                  # the run of a query
execute = Contract('iface:execute', params=['self', 'agent', 'intention'], modifies=lambda c: [], resfn=lambda c: running(c.self), effects=lambda c: {'started': cons(V.tup(mklist([c.self, c.agent, c.intention])), c.old.ghost['started'])}, verify=False, name='starting a query')
def nat_next(eng, st, args, kw, fr):
    """advancing a query: it may bind variables; it has a next answer, or none, or fails with an error"""
    c = eng.cctx; g = eng.toV(args[0])
    for out in ('answer', 'none', 'error'):
        s = st.copy(); s.ghost['advanced'] = cons(g, s.ghost['advanced'])
        eng.write(s, 'map', sc(c), fresh('bindings', Map)); eng.write(s, 'seq', tr(c), fresh('trail', L))
        if out == 'answer': s.ghost['answer'] = TRUE; yield s, fresh('item', V)
        elif out == 'none': s.ghost['answer'] = FALSE; yield s, Raise(ExcV(StopIteration), eng.line)
        else:
            e = ExcV(Exception); e.open = True; e.excl = (StopIteration,); yield s, Raise(e, eng.line)
from pydv.engine import Raise, ExcV
G0 = lambda c: {'started': NIL, 'advanced': NIL, 'answer': NONE}
S = lambda h, x: h.seq(x)
def keeps(c, *parts):
    """which of the stacks stay as they are"""
    out = []
    for nm, x in (('query stack', qs), ('choice-point stack', cps), ('trail', tr)):
        if nm in parts: out.append(('the %s stays' % nm, S(c.now, x(c)) == S(c.old, x(c))))
    if 'bindings' in parts: out.append(('the bindings stay', c.now.map(sc(c)) == c.old.map(sc(c))))
    return out
K = dict(params=['agent', 'intention'], types={'intention': ('obj', RT.Intention), 'agent': ('obj', RT.Agent)}, ghost=G0)
T = lambda c: ('the instruction succeeds', c.res == TRUE)
req = lambda *more: lambda c: apart(c) + [f(c) for f in more]
some = lambda x, nm: lambda c: ('there is a %s' % nm, S(c.old, x(c)) != NIL)
push_query = Contract('agentspeak.runtime:push_query', **{**K, 'params': ['query', 'agent', 'intention'], 'types': {**K['types'], 'query': ('iface', QueryI)}}, requires=req(), modifies=lambda c: [('seq', qs(c))], raises=[(Exception, None)],
    ensures=lambda c: [T(c), ('a run of this query is put on the query stack', S(c.now, qs(c)) == snoc(S(c.old, qs(c)), running(c.query))), ('it is started once, for this agent and intention', c.now.ghost['started'] == mklist([V.tup(mklist([c.query, c.agent, c.intention]))])), ('it is not advanced', c.now.ghost['advanced'] == NIL)] + keeps(c, 'choice-point stack', 'trail', 'bindings'), name='push_query')
top1 = lambda c: c.now.ghost['advanced'] == mklist([llast(S(c.old, qs(c)))])
next_or_fail = Contract('agentspeak.runtime:next_or_fail', **K, requires=req(some(qs, 'query')), modifies=lambda c: [('map', sc(c)), ('seq', tr(c))],
    ensures=lambda c: [('the query on top is advanced, once', top1(c)), ('succeeds exactly when it has a next answer', And(V.is_bool(c.res), (c.res == TRUE) == (c.now.ghost['answer'] == TRUE))), ('no query is started', c.now.ghost['started'] == NIL)] + keeps(c, 'query stack', 'choice-point stack'),
    raises=[(Exception, lambda c: keeps(c, 'query stack', 'choice-point stack'))], name='next_or_fail')
pop_query = Contract('agentspeak.runtime:pop_query', **K, requires=req(some(qs, 'query')), modifies=lambda c: [('seq', qs(c))],
    ensures=lambda c: [T(c), ('the query on top is taken away', S(c.now, qs(c)) == linit(S(c.old, qs(c)))), ('no query is advanced', c.now.ghost['advanced'] == NIL)] + keeps(c, 'choice-point stack', 'trail', 'bindings'), name='pop_query')
def newmark(c):
    m = llast(S(c.now, cps(c))); return And(V.is_obj(m), V.oi(m) >= c.old.alloc, V.oi(m) < c.now.alloc)
push_choicepoint = Contract('agentspeak.runtime:push_choicepoint', **K, requires=req(), modifies=lambda c: [('seq', cps(c)), ('seq', tr(c))],
    ensures=lambda c: [T(c), ('a new mark is put on the choice-point stack', And(S(c.now, cps(c)) == snoc(S(c.old, cps(c)), llast(S(c.now, cps(c)))), newmark(c))), ('and in the trail', S(c.now, tr(c)) == snoc(S(c.old, tr(c)), llast(S(c.now, cps(c)))))] + keeps(c, 'query stack', 'bindings'), name='push_choicepoint')
pop_choicepoint = Contract('agentspeak.runtime:pop_choicepoint', **K, requires=req(some(cps, 'choice point')), modifies=lambda c: [('seq', cps(c)), ('seq', tr(c)), ('map', sc(c))],
    ensures=lambda c: [T(c), ('the mark on top is taken away', S(c.now, cps(c)) == linit(S(c.old, cps(c)))), ('the bindings made since that mark are undone', c.now.map(sc(c)) == undoS(c.old.map(sc(c)), S(c.old, tr(c)), llast(S(c.old, cps(c))))),
        ('the trail goes back to that mark', S(c.now, tr(c)) == undoT(S(c.old, tr(c)), llast(S(c.old, cps(c)))))] + keeps(c, 'query stack'), name='pop_choicepoint')
noop = Contract('agentspeak.runtime:noop', **K, ensures=lambda c: [T(c)], name='noop')
reroll = Contract('agentspeak:reroll', params=['scope', 'stack', 'choicepoint'], modifies=lambda c: [('map', c.scope), ('seq', c.stack)], result='none', verify=False, name='reroll (C02)',
    ensures=lambda c: [c.now.map(c.scope) == undoS(c.old.map(c.scope), c.old.seq(c.stack), c.choicepoint), c.now.seq(c.stack) == undoT(c.old.seq(c.stack), c.choicepoint)])
view = View('C10', [push_query, next_or_fail, pop_query, push_choicepoint, pop_choicepoint, noop, reroll], fields=F, stable=STABLE, classes=CLASSES, natives={next: nat_next}, iface={(QueryI, 'execute'): IFn('execute', ['self', 'agent', 'intention'], execute)})
