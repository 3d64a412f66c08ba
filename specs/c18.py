"""C18: every error is counted and reported, and stops the loading of a program."""
from specs.common import *
LOG = agentspeak.Log
class LoggerI(object): "a logger"
F = {(LOG, 'logger'): ('iface', LoggerI), (LOG, 'max_errors'): lambda v: [Or(V.is_none(v), V.is_int(v))], (LOG, 'num_errors'): 'int', (LOG, 'num_warnings'): 'int'}
S_ = lambda s: V.str(z3.StringVal(s))
def entry(lv, msg, loc): return V.tup(mklist([S_(lv), msg, loc]))
def extra_loc(c): e = Select(c.old.map(c.extra), S_('loc')); return If(Opt.is_present(e), Opt.pv(e), S_('no location given'))
def said(lv): return Contract('iface:' + lv, params=['self', 'msg', 'args', 'extra'], modifies=lambda c: [], verify=False, name='logger.' + lv, effects=lambda c: {'log': app(c.old.ghost['log'], cons(entry(lv, c.msg, extra_loc(c)), NIL))})
def loc_(c): e = Select(c.old.map(c.kwargs), S_('loc')); return If(Opt.is_present(e), Opt.pv(e), NONE)
n_ = lambda c, h: V.i(h.f('num_errors', c.self)); w_ = lambda c, h: V.i(h.f('num_warnings', c.self))
def limit(c): m = c.old.f('max_errors', c.self); return And(m != NONE, n_(c, c.now) >= V.i(m))
def told(lv, c): return ('reported exactly once, with its place', c.now.ghost['log'] == cons(entry(lv, c.msg, loc_(c)), NIL))
G0 = lambda c: {'log': NIL}
def counting(nm, lv):
    both = lambda c: [('one more error', n_(c, c.now) == n_(c, c.old) + 1), ('warnings as before', w_(c, c.now) == w_(c, c.old)), told(lv, c)]
    return Contract('agentspeak:Log.' + nm, params=['self', 'msg', 'args', 'kwargs'], ghost=G0, modifies=lambda c: [('f:num_errors', c.self)], result=('exc', agentspeak.AggregatedError), ensures=lambda c: both(c) + [('the limit was not reached', Not(limit(c))), ('the error to raise is returned', BoolVal(isinstance(c.resE, ExcV) and c.resE.cls is agentspeak.AggregatedError))],
        raises=[(agentspeak.AggregatedError, lambda c: both(c) + [('the limit was reached', limit(c))])], name='Log.' + nm)
error = counting('error', 'error'); exception = counting('exception', 'exception')
def quiet(nm, k): return Contract('agentspeak:Log.' + nm, params=['self', 'msg', 'args', 'kwargs'], ghost=G0, modifies=lambda c: [('f:num_warnings', c.self)], name='Log.' + nm,
    ensures=lambda c: [('no error counted', n_(c, c.now) == n_(c, c.old)), ('warnings counted', w_(c, c.now) == w_(c, c.old) + k), told(nm, c)])
warning = quiet('warning', 1); info_ = quiet('info', 0)
throw = Contract('agentspeak:Log.throw', params=['self'], ensures=lambda c: [('no error was reported', n_(c, c.old) == 0)], raises=[(agentspeak.AggregatedError, lambda c: [('an error was reported', n_(c, c.old) != 0)])], name='Log.throw')
init = Contract('agentspeak:Log.__init__', params=['self', 'logger', 'max_errors'], types={'logger': ('iface', LoggerI), 'max_errors': F[(LOG, 'max_errors')]}, modifies=lambda c: [('f:' + f, c.self) for f in ('logger', 'max_errors', 'num_errors', 'num_warnings')],
    ensures=lambda c: [('nothing reported yet', And(c.now.f('num_errors', c.self) == V.int(0), c.now.f('num_warnings', c.self) == V.int(0))), ('limit kept', c.now.f('max_errors', c.self) == c.max_errors), ('logger kept', c.now.f('logger', c.self) == c.logger)], name='Log')
view = View('C18', [error, exception, warning, info_, throw, init], fields=F, stable=['f:logger', 'f:max_errors'], classes=[LOG], iface={(LoggerI, k): IFn(k, ['self', 'msg', '*args', 'extra'], said(k)) for k in ('error', 'exception', 'warning', 'info')})
LEMMAS = []
