"""C02: backtracking restores bindings exactly."""
from specs.common import *

def ext(c, sc, st, n=None):
    return Ext(c.old.alloc if n is None else n, c.old.map(sc), c.old.seq(st), c.now.map(sc), c.now.seq(st))
SCST = {'scope': ('dict', None), 'stack': ('deque', None)}
mods = lambda c: [('map', c.scope), ('seq', c.stack)]
ext_ = lambda c: [('the trail records every new binding', ext(c, c.scope, c.stack))]

unify = Contract(
    ['agentspeak:unify', 'agentspeak:Var.unify', 'agentspeak:Wildcard.unify', 'agentspeak:UnaryExpr.unify', 'agentspeak:BinaryExpr.unify',
     'agentspeak:Literal.unify', 'agentspeak:LinkedList.unify'],
    params=['left', 'right', 'scope', 'stack'], types=SCST, modifies=mods, result='bool', ensures=ext_, raises=[(Exception, ext_)],
    loop=lambda lc: [('trail', Ext(lc.c.old.alloc, lc.c.old.map(lc.c.scope), lc.c.old.seq(lc.c.stack), lc.n.map(lc.c.scope), lc.n.seq(lc.c.stack)))],
    name='unify')
evaluate = Contract(['agentspeak:evaluate', 'agentspeak:Var.evaluate', 'agentspeak:Wildcard.evaluate', 'agentspeak:UnaryExpr.evaluate', 'agentspeak:BinaryExpr.evaluate', 'agentspeak:deref'],
    params=['term', 'scope'], types={'scope': ('dict', None)}, raises=[(Exception, None)], name='evaluate')
freeze = Contract(['agentspeak:freeze', 'agentspeak:Var.freeze', 'agentspeak:Wildcard.freeze', 'agentspeak:UnaryExpr.freeze', 'agentspeak:BinaryExpr.freeze', 'agentspeak:Literal.freeze', 'agentspeak:LinkedList.freeze'],
    params=['term', 'scope', 'memo'], types={'scope': ('dict', None), 'memo': ('dict', None)}, modifies=lambda c: [('map', c.memo)], raises=[(Exception, None)], name='freeze')
grounded = Contract(['agentspeak:grounded', 'agentspeak:Var.grounded', 'agentspeak:Wildcard.grounded', 'agentspeak:UnaryExpr.grounded', 'agentspeak:BinaryExpr.grounded', 'agentspeak:Literal.grounded', 'agentspeak:LinkedList.grounded'],
    params=['term', 'scope'], types={'scope': ('dict', None)}, raises=[(Exception, None)], name='grounded')
reroll = Contract('agentspeak:reroll', params=['scope', 'stack', 'choicepoint'], types={**SCST, 'choicepoint': ('obj', object)}, modifies=mods, result='none',
    ensures=lambda c: [('unwinds the bindings above the choicepoint', c.now.map(c.scope) == undoS(c.old.map(c.scope), c.old.seq(c.stack), c.choicepoint)),
                       ('pops the trail down to the choicepoint', c.now.seq(c.stack) == undoT(c.old.seq(c.stack), c.choicepoint))],
    loop=lambda lc: [('undoS', undoS(lc.n.map(lc.c.scope), lc.n.seq(lc.c.stack), lc.c.choicepoint) == undoS(lc.c.old.map(lc.c.scope), lc.c.old.seq(lc.c.stack), lc.c.choicepoint)),
                     ('undoT', undoT(lc.n.seq(lc.c.stack), lc.c.choicepoint) == undoT(lc.c.old.seq(lc.c.stack), lc.c.choicepoint))])
def restored(sc, st):
    return lambda c: [('bindings are restored exactly', c.now.map(sc(c)) == c.old.map(sc(c))), ('the trail is restored exactly', c.now.seq(st(c)) == c.old.seq(st(c)))]
def trail_loop(sc, st):
    """candidate loop invariants over the trail"""
    def f(lc):
        a, b = sc(lc.c), st(lc.c)
        o, e, n = lc.c.old, lc.e, lc.n
        return [('trail since function entry', Ext(o.alloc, o.map(a), o.seq(b), n.map(a), n.seq(b))),
                ('trail since loop entry', Ext(e.alloc, e.map(a), e.seq(b), n.map(a), n.seq(b))),
                ('bindings as at entry', n.map(a) == o.map(a)), ('trail as at entry', n.seq(b) == o.seq(b)),
                ('bindings as at loop entry', n.map(a) == e.map(a)), ('trail as at loop entry', n.seq(b) == e.seq(b))]
    return f
P_sc = lambda c: c.scope; P_st = lambda c: c.stack
uann = Contract(['agentspeak:unify_annotated', 'agentspeak:Literal.unify_annotated'], params=['left', 'right', 'scope', 'stack'], types=SCST,
    gen=True, modifies=mods, yields=ext_, rely=lambda c: [('trail discipline', ext(c, c.scope, c.stack))], exits=restored(P_sc, P_st),
    raises=[(Exception, None)], loop=trail_loop(P_sc, P_st), name='unify_annotated')

STRICT = z3.Const('STRICT', Bool)   # whoever consumes the solutions undoes its own bindings before asking for the next one
mann1 = Contract('agentspeak:Literal.match_annotated', params=['left', 'right', 'scope', 'stack'], types=SCST,
    gen=True, modifies=mods, yields=ext_, rely=lambda c: restored(P_sc, P_st)(c), exits=restored(P_sc, P_st),
    raises=[(Exception, None)], loop=trail_loop(P_sc, P_st), name='match_annotated')
mann = Contract('agentspeak:match_annots', params=['left', 'right', 'scope', 'stack'], types={**SCST, 'left': 'tup', 'right': 'tup'},
    gen=True, modifies=mods, yields=ext_, rely=lambda c: restored(P_sc, P_st)(c), exits=restored(P_sc, P_st),
    raises=[(Exception, None)], loop=trail_loop(P_sc, P_st), name='match_annots')
I_sc = lambda c: c.old.f('scope', c.intention); I_st = lambda c: c.old.f('stack', c.intention)
def i_types(c):
    return type_facts(I_sc(c), ('dict', None), c.old.alloc) + type_facts(I_st(c), ('deque', None), c.old.alloc)
def ext_i(c): return [('the trail records every new binding', ext(c, I_sc(c), I_st(c)))]
QARGS = {'agent': ('obj', RT.Agent), 'intention': ('obj', RT.Intention)}
def gencontract(targets, params, name):
    return Contract(targets, params=params, types=QARGS, gen=True, requires=lambda c: [('intention has a scope and a trail', And(*i_types(c)))],
        modifies=lambda c: '*', relymods=lambda c: '*', yields=ext_i, rely=lambda c: [('trail discipline', ext(c, I_sc(c), I_st(c))), ('strict consumer', Implies(STRICT, And(*[f for n, f in restored(I_sc, I_st)(c)])))],
        exits=lambda c: ext_i(c) + [(n, Implies(STRICT, f)) for n, f in restored(I_sc, I_st)(c)], raises=[(Exception, None)], loop=trail_loop(I_sc, I_st), name=name)
QUERIES = [q for q in vars(RT).values() if isinstance(q, type) and q.__module__ == RT.__name__ and 'execute' in q.__dict__]
query = gencontract(['agentspeak.runtime:%s.execute' % q.__name__ for q in QUERIES], ['self', 'agent', 'intention'], 'query')
ACTS = [k for k, nm in action_targets() if nm not in ((".unbind_all", 0), (".control_flow", 0), ".csv", (".dump", 0), ".send", (".send", 3), ".broadcast", (".broadcast", 2), (".raise", 0))]
action = gencontract(ACTS, ['agent', 'term', 'intention'], 'action')
action.types = {**QARGS, 'term': 'lit'}
class FnI(object): "a registered Python function"
fnc = Contract('iface:function', params=['f'], modifies=lambda c: [], raises=[(Exception, None)], name='registered function')
def fcall(eng, st, f, args, kw, fr):
    """a registered function: any result or exception; it cannot reach the intention's bindings"""
    h = eng.hintof(st, f)
    if h == ('iface', FnI):
        eng.assumed.add('a registered Python function does not change the bindings of an intention')
        def go():
            yield st.copy(), Raise(ExcV(Exception), eng.line)
            s = st.copy(); v = fresh('fres', V); s.alloc = fresh('alloc', Int); s.assume(s.alloc >= st.alloc, Implies(V.is_obj(v), V.oi(v) < s.alloc)); yield s, v
        return go()
zips = Contract('agentspeak:_zip_specs', params=['specs', 'agent', 'args', 'scope'], modifies=lambda c: [], raises=[(Exception, None)], result=('list', None), verify=False, name='_zip_specs')
walk = Contract('agentspeak:LinkedList.__iter__', params=['self'], gen=True, modifies=lambda c: [], relymods=lambda c: '*', raises=[(Exception, None)], name='list iteration')
pure = Contract(['agentspeak:is_ground'], types={'scope': D}, modifies=lambda c: [], params=['term', 'scope'], raises=[(Exception, None)], name='is_ground')
W_ = 'agentspeak:Actions.add_%s.<locals>._add_%s.<locals>.wrapper'
wrappers = gencontract([W_ % (k, k) for k in ('function', 'predicate', 'procedure')], ['agent', 'term', 'intention'], 'function wrapper')
wrappers.types = {**QARGS, 'term': 'lit'}; wrappers.free = {'f': ('iface', FnI), 'arg_specs': 'tup'}
import datetime
class NowI(object): "a point in time"
NOW = {(NowI, k): 'int' for k in ('year', 'month', 'day', 'hour', 'minute', 'second')}
def nat_now(eng, st, args, kw, fr):
    """the present time: any date and time; binds nothing"""
    st = st.copy(); v = eng.newobj(st, NowI)
    for cls, k in NOW: eng.write(st, 'f:' + k, v, V.int(fresh(k, Int)))
    yield st, v
aslstr = Contract('agentspeak:asl_str', params=['term'], modifies=lambda c: [], result='str', raises=[(Exception, None)], verify=False, name='asl_str')
view = View('C02', [unify, evaluate, freeze, grounded, reroll, uann, mann1, mann, query, action, wrappers, zips, walk, pure, aslstr], fields={**runtime_fields(), **NOW}, stable=STABLE, classes=list(CLASSES) + [NowI],
            iface={(QueryI, 'execute'): IFn('execute', ['self', 'agent', 'intention'], query),
                   (ActionI, '__call__'): IFn('impl', ['impl', 'agent', 'term', 'intention'], gencontract('iface:action', ['impl', 'agent', 'term', 'intention'], 'action interface'))},
            natives={copy.deepcopy: native_deepcopy, datetime.datetime.now: nat_now}, symcall=fcall, fixedlists=FIXED, strfns=(spec('slen', Str, Int), spec('schar', Str, Int, Str), spec('sfind', Str, Str, Int, Int)))
LEMMAS = ['ext_trans', 'ext_mono', 'ext_len', 'undo']
