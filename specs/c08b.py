"""C08: the run loops sleep towards the earliest deadline, whatever the clock does."""
from specs.rt_heap import *
import time
num_ = lambda v: Or(V.is_int(v), V.is_flt(v))
G0 = lambda c: {'clock': fresh('clock0', V), 'dl': V.none, 'step': TRUE}
clock = Contract('iface:time', params=['env'], modifies=lambda c: [], ensures=lambda c: [num_(c.res)], effects=lambda c: {} if c.exc else {'clock': c.res}, name='any clock', verify=False)
step = Contract('agentspeak.runtime:Agent.step', params=['self'], modifies=lambda c: '*', result='bool', raises=[(Exception, None)], effects=lambda c: {} if c.exc else {'step': c.res, 'dl': V.none}, verify=False, name='Agent.step (C07)')
shortest = Contract('agentspeak.runtime:Agent.shortest_deadline', params=['self'], modifies=lambda c: [], ensures=lambda c: [Or(c.res == NONE, num_(c.res))], verify=False, name='shortest_deadline',
    effects=lambda c: {} if c.exc else {'dl': If(c.res == NONE, c.old.ghost['dl'], If(Or(c.old.ghost['dl'] == NONE, numval(c.res) < numval(c.old.ghost['dl'])), c.res, c.old.ghost['dl']))})
def sleep(eng, st, args, kw, fr):
    v = eng.toV(args[0]); g = st.ghost
    eng.oblige(st, And(num_(v), numval(v) >= 0), 'sleep is never asked for a negative time')
    eng.oblige(st, g['dl'] != NONE, 'sleeps only when there is a deadline')
    eng.oblige(st, numval(v) == If(numval(g['dl']) - numval(g['clock']) < 0, z3.RealVal(0), numval(g['dl']) - numval(g['clock'])), 'sleeps exactly until the earliest deadline')
    if eng.contract is run_agent: eng.oblige(st, g['step'] == FALSE, 'sleeps only when the last step found nothing to do')
    st = st.copy(); st.ghost['dl'] = V.none; st.ghost['step'] = TRUE; yield st, lift(None)
def loop(lc):
    g = lc.ghost; e = lc.eghost; out = [('clock', num_(g['clock'])), ('step', V.is_bool(g['step'])), ('dl', Or(g['dl'] == NONE, num_(g['dl']))), ('no deadline yet', g['dl'] == NONE)]
    for nm, v, v0 in lc.vals():
        out += [('%s mirrors work' % nm, v == g['step']), ('%s: work found' % nm, Or(v == TRUE, g['step'] == FALSE)),]
    for a in lc.accs: out += [('deadlines collected', And(Implies(a == NIL, g['dl'] == NONE), Implies(a != NIL, And(num_(g['dl']), g['dl'] == lmin(a)))))]
    return out
R = dict(modifies=lambda c: '*', raises=[(Exception, None)], ghost=G0, loop=loop, ensures=lambda c: [('returns only when nothing is pending', And(c.now.ghost['dl'] == NONE, c.now.ghost['step'] == FALSE))])
run_agent = Contract('agentspeak.runtime:Environment.run_agent', params=['self', 'agent'], types={'agent': ('obj', RT.Agent)}, **R)
run = Contract('agentspeak.runtime:Environment.run', params=['self'], **{**R, 'ensures': lambda c: [('returns only when no deadline is pending', c.now.ghost['dl'] == NONE)]})
view = View('C08b', [run_agent, run, step, shortest], fields=heap_fields(), stable=STABLE, classes=CLASSES, natives={time.sleep: sleep}, iface={(RT.Environment, 'time'): IFn('time', ['env'], clock)})
