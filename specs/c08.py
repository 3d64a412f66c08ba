"""C08: waiting intentions wake exactly on their event or deadline."""
from specs.rt_heap import *
import time
poll = Contract('agentspeak.runtime:Waiter.poll', params=['self', 'env'], types={'env': ('obj', RT.Environment)},
    ensures=lambda c: [('true exactly when there is a deadline and the clock is past it', V.b(c.res) == due(c.self, c.old.arr('f:until'), timeof(c.env))), V.is_bool(c.res)])
def ints(c): return c.old.seq(c.old.f('intentions', c.self))
def dl_of(c): return deadl(ints(c), c.old.arr('seq'), c.old.arr('f:waiter'), c.old.arr('f:until'))
def dl_loop(lc):
    out = []
    if lc.kind == 'seq' and len(lc.ls) == 1:
        d = deadl(drop(lc.ls[0], lc.idx), lc.c.old.arr('seq'), lc.c.old.arr('f:waiter'), lc.c.old.arr('f:until'))
        for a, a0 in zip(lc.accs, lc.accs0): out.append(('deadlines so far and those to come', app(a, d) == app(a0, deadl(lc.ls[0], lc.c.old.arr('seq'), lc.c.old.arr('f:waiter'), lc.c.old.arr('f:until')))))
    return out
shortest = Contract('agentspeak.runtime:Agent.shortest_deadline', params=['self'], loop=dl_loop,
    ensures=lambda c: [('none when nothing waits for a deadline', Implies(dl_of(c) == NIL, c.res == NONE)), ('the earliest pending deadline', Implies(dl_of(c) != NIL, c.res == lmin(dl_of(c))))])
view = View('C08', [poll, shortest], fields=heap_fields(), stable=STABLE, classes=CLASSES, iface={(RT.Environment, 'time'): IFn('time', ['env'], env_time)})
LEMMAS = []
