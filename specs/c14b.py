"""C14: what a registered function, predicate or procedure offers when it is called as an action."""
from specs.c03 import *
from specs.c14 import zp, FnI, F as F14
from specs import c14
fres = spec('fres', V, L, V)
def fcall(eng, st, f, args, kw, fr):
    """a registered function: any result or exception; it cannot reach the bindings of the intention"""
    if eng.hintof(st, f) != ('iface', FnI): return None
    eng.assumed.add('a registered Python function does not change the bindings of an intention')
    l = mklist([eng.toV(a) for a in args])
    if '*' in kw: l = app(l, eng.read(st, 'seq', eng.toV(kw['*']))) if args else eng.read(st, 'seq', eng.toV(kw['*']))
    def go():
        yield st.copy(), Raise(ExcV(Exception), eng.line)
        s = st.copy(); v = fres(f, l); s.alloc = fresh('alloc', Int); s.assume(s.alloc >= st.alloc, Implies(V.is_obj(v), V.oi(v) < st.alloc)); yield s, v
    return go()
zips = Contract('agentspeak:_zip_specs', params=['specs', 'agent', 'args', 'scope'], types={'specs': 'tup', 'args': 'tup', 'scope': D, 'agent': ('obj', RT.Agent)}, modifies=lambda c: [], raises=[(Exception, None)], result=('list', None), verify=False,
    ensures=lambda c: [c.now.seq(c.res) == c14.zexp(c)], name='_zip_specs (proved above)')
def result(c): return fres(c.f, zp(V.t(c.arg_specs), V.la(c.term), m_(c), EMPTYMAP, c.agent, c.old.f('env', c.agent)))
def last(c): return llast(V.la(c.term))
def t_function(c): return If(unb(last(c), result(c), m_(c)), cons(enc(unm(last(c), result(c), m_(c))), NIL), NIL)
def t_predicate(c): return If(c.eng.truth(c.old.st, result(c)), one(c), NIL)
W_ = 'agentspeak:Actions.add_%s.<locals>._add_%s.<locals>.wrapper'
def wrapper(k, trace):
    con = traced(Contract(W_ % (k, k), params=['agent', 'term', 'intention'], trace=trace, name=k + ' wrapper', **{**BASE, 'types': {**QARGS, 'term': 'lit'},
        'requires': lambda c: q_requires(c) + ([('there is an argument for the result', V.la(c.term) != NIL)] if k == 'function' else []), 'exits': restored(I_sc, I_st)}))
    con.free = {'f': ('iface', FnI), 'arg_specs': 'tup'}; return con
ws = [wrapper('function', t_function), wrapper('predicate', t_predicate), wrapper('procedure', one)]
view = View('C14b', ws + [zips, unify, reroll], fields=F14, stable=STABLE, classes=CLASSES, symcall=fcall)
LEMMAS = ['ext_trans', 'ext_mono', 'ext_len', 'undo']
