"""Vocabulary over the heap of the interpreter: intentions, waiters, stacks."""
from specs.common import *
SeqA = z3.ArraySort(Int, L); ValA = z3.ArraySort(Int, V)
timeof = spec('timeof', V, V)                    # the clock of an environment
env_time = Contract('iface:time', params=['env'], resfn=lambda c: timeof(c.env), ensures=lambda c: [Or(V.is_int(c.res), V.is_flt(c.res))], name='the clock', verify=False)
def heap_fields():
    F = runtime_fields()
    F.update({(RT.Waiter, 'event'): ('opt', ('obj', RT.Event)), (RT.Waiter, 'until'): lambda v: [Or(V.is_none(v), V.is_int(v), V.is_flt(v))], (RT.Event, 'trigger'): 'any', (RT.Event, 'goal_type'): 'any', (RT.Event, 'head'): 'any',
              (RT.Environment, 'agents'): ('dict', ('obj', RT.Agent)), (RT.Agent, 'env'): ('obj', RT.Environment)})
    return F
def due(w, hu, now): 
    u = Select(hu, V.oi(w)); return And(u != NONE, numval(u) < numval(now))
top = lambda o, hs: llast(Select(hs, V.oi(o)))
full = lambda o, hs: Select(hs, V.oi(o)) != NIL
# the deadlines pending at the tops of a list of intention stacks
deadl = spec('deadl', L, SeqA, ValA, ValA, L)
@unfolds(deadl)
def _(l, hs, hw, hu):
    o = L.hd(l); w = Select(hw, V.oi(top(o, hs))); u = Select(hu, V.oi(w)); r = deadl(L.tl(l), hs, hw, hu)
    return [deadl(l, hs, hw, hu) == If(l == NIL, NIL, If(And(full(o, hs), w != NONE, u != NONE), cons(u, r), r))]
# the first stack that can run
ready = spec('ready', L, SeqA, ValA, ValA, V, V)
def isready(o, hs, hw, hu, now):
    w = Select(hw, V.oi(top(o, hs))); return And(full(o, hs), Or(w == NONE, due(w, hu, now)))
@unfolds(ready)
def _(l, hs, hw, hu, now):
    o = L.hd(l)
    return [ready(l, hs, hw, hu, now) == If(l == NIL, NONE, If(isready(o, hs, hw, hu, now), o, ready(L.tl(l), hs, hw, hu, now)))]
# the stacks that still hold an intention
live = spec('live', L, SeqA, L)
@unfolds(live)
def _(l, hs): return [live(l, hs) == If(l == NIL, NIL, If(full(L.hd(l), hs), cons(L.hd(l), live(L.tl(l), hs)), live(L.tl(l), hs)))]
