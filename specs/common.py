"""Shared specification vocabulary: the trail theory and the types of the runtime objects."""
import pydv.load
import agentspeak, agentspeak.runtime as RT, collections
from pydv.smt import *
from pydv.engine import *
from pydv.exec import *
import z3

D = ('dict', None); DQ = ('deque', None)

# ------------------------------------------------------------------ trail: Ext and undo
# Ext(n, sc0, st0, sc, st): popping the entries above st0 from st (removing each from sc) leads back to exactly
# (sc0, st0); every such entry is a variable or a choicepoint object with identity >= n.
Ext = spec('Ext', Int, Map, L, Map, L, Bool)
undoS = spec('undoS', Map, L, V, Map)
undoT = spec('undoT', L, V, L)
def trail_entry(n, x): return Or(V.is_var(x), And(V.is_obj(x), V.oi(x) >= n))
def ext_def(n, a, s, b, t):
    x = llast(t); i = linit(t)
    return Or(And(b == a, t == s),
              And(t != NIL, llen(t) > llen(s), trail_entry(n, x), Ext(n, a, s, Store(b, x, Opt.absent), i)))
@unfolds(Ext)
def _(n, a, s, b, t):
    if t.eq(s) and b.eq(a): return [Ext(n, a, s, b, t)]
    return [Ext(n, a, s, b, t) == ext_def(n, a, s, b, t), Implies(t != NIL, t == snoc(linit(t), llast(t))),
            Implies(Ext(n, a, s, b, t), llen(t) >= llen(s))]          # second: lemma ext_len
@unfolds(undoS)
def _(b, t, cp):
    return [undoS(b, t, cp) == If(t == NIL, b, If(llast(t) == cp, b, undoS(Store(b, llast(t), Opt.absent), linit(t), cp)))]
@unfolds(undoT)
def _(t, cp):
    return [undoT(t, cp) == If(t == NIL, NIL, If(llast(t) == cp, linit(t), undoT(linit(t), cp)))]
_tf = {}
def trans_fact(n, a, s, b, t, m, c, u):
    k = tuple(x.get_id() for x in (n, a, s, b, t, m, c, u)); r = _tf.get(k)
    if r is None:
        f = trans_fact_(n, a, s, b, t, m, c, u); r = _tf[k] = (f, n, a, s, b, t, m, c, u)
    return r[0]
def trans_fact_(n, a, s, b, t, m, c, u):
    return Implies(And(Ext(n, a, s, b, t), Ext(m, b, t, c, u), n <= m), Ext(n, a, s, c, u))
def mono_fact(lo, n, a, s, b, t): return Implies(And(Ext(n, a, s, b, t), lo <= n), Ext(lo, a, s, b, t))
def undo_fact(n, a, s0, s, b, t, cp):
    """s == snoc(s0, cp)"""
    return Implies(And(Ext(n, a, s, b, t), s == snoc(s0, cp), V.is_obj(cp), V.oi(cp) < n), And(undoS(b, t, cp) == a, undoT(t, cp) == s0))
@handler('Ext')
def _(t1, ix):
    out = []
    starts = ix.x.setdefault('Ext.start', {}); ends = ix.x.setdefault('Ext.end', {}); done = ix.x.setdefault('Ext.done', set())
    for e in ix.by.get('Ext', ()):
        if e.get_id() not in done:
            done.add(e.get_id()); n, a, s, b, t = ch(e)
            starts.setdefault((a.get_id(), s.get_id()), []).append(e); ends.setdefault((b.get_id(), t.get_id()), []).append(e)
    n, a, s, b, t = ch(t1)
    ka, kb = (a.get_id(), s.get_id()), (b.get_id(), t.get_id())
    lo = None
    for e in ix.by.get('Ext', ())[:200]:                   # Ext is antitone in its first argument (lemma ext_mono): keep the oldest
        m = ch(e)[0]
        if info(m)[3] == z3.Z3_OP_UNINTERPRETED and not ch(m) and (lo is None or const_num(info(m)[2]) < const_num(info(lo)[2])): lo = m
    if lo is not None and lo.get_id() != n.get_id() and maxnum(n) > const_num(info(lo)[2]): out.append(mono_fact(lo, n, a, s, b, t))
    if ka != kb:
        for t2 in starts.get(kb, ())[:40]:                 # t1 then t2
            m, b2, s2, c, u = ch(t2)
            if (c.get_id(), u.get_id()) != kb: out.append(trans_fact(n, a, s, b, t, m, c, u))
        for t2 in ends.get(ka, ())[:40]:                   # t2 then t1
            m, a2, s2, b2, u2 = ch(t2)
            if (a2.get_id(), s2.get_id()) != ka: out.append(trans_fact(m, a2, s2, a, s, n, b, t))
        for t2 in ends.get(kb, ())[:40]:                   # common end: split in the middle
            m, a2, s2, b2, u2 = ch(t2)
            if t2.get_id() == t1.get_id() or (a2.get_id(), s2.get_id()) == kb: continue
            out.append(trans_fact(n, a, s, a2, s2, m, b, t)); out.append(trans_fact(m, a2, s2, a, s, n, b, t))
    if info(s)[2] == 'snoc': cps = [ch(s)]
    else:
        xs = []; q = s
        while ctorL(q) == 'cons': xs.append(ch(q)[0]); q = ch(q)[1]
        cps = [(mklist(xs[:-1]), xs[-1])] if ctorL(q) == 'nil' and xs else []
    for s0, cp in cps: out.append(undo_fact(n, a, s0, s, b, t, cp))
    return out
@handler('undoS')
def _(t1, ix):
    b, t, cp = ch(t1); out = []
    for e in ix.by.get('Ext', ())[:60]:
        n, a, s, b2, t2 = ch(e)
        if info(s)[2] != 'snoc' and not (b2.get_id() == b.get_id() and t2.get_id() == t.get_id()): continue
        if t2.get_id() != t.get_id():  out.append(Implies(And(b2 == b, t2 == t, V.is_obj(cp), V.oi(cp) < n, s == snoc(linit(s), cp), e), And(undoS(b, t, cp) == a, undoT(t, cp) == linit(s))))
        else: out.append(Implies(And(b2 == b, V.is_obj(cp), V.oi(cp) < n, s == snoc(linit(s), cp), e), And(undoS(b, t, cp) == a, undoT(t, cp) == linit(s))))
    return out

def _lemma_cases():
    n, m = z3.Ints('n m'); a, b, c = [z3.Const(x, Map) for x in 'abc']; s, t, u = [z3.Const('l' + x, L) for x in 'stu']
    x = llast(u); i = linit(u); c2 = Store(c, x, Opt.absent)
    ih = Implies(And(u != NIL), trans_fact(n, a, s, b, t, m, c2, i))
    yield 'ext_trans step', [ih, Ext(n, a, s, b, t), Ext(m, b, t, c, u), n <= m], Ext(n, a, s, c, u)
def _mono_cases():
    n, m = z3.Ints('n m'); a, b = [z3.Const(x, Map) for x in 'ab']; s, t = [z3.Const('l' + x, L) for x in 'st']
    ih = Implies(t != NIL, mono_fact(m, n, a, s, Store(b, llast(t), Opt.absent), linit(t)))
    yield 'ext_mono step', [ih, Ext(n, a, s, b, t), m <= n, Ext(n, a, s, b, t) == ext_def(n, a, s, b, t), Ext(m, a, s, b, t) == ext_def(m, a, s, b, t)], Ext(m, a, s, b, t)
def _len_cases():
    n = z3.Int('n'); a, b = [z3.Const(x, Map) for x in 'ab']; s, t = [z3.Const('l' + x, L) for x in 'st']
    yield 'ext_len', [ext_def(n, a, s, b, t)], llen(t) >= llen(s)
def _undo_cases():
    n = z3.Int('n'); a, b = [z3.Const(x, Map) for x in 'ab']; s0, t = [z3.Const('l' + x, L) for x in ['s0', 't']]; cp = z3.Const('cp', V)
    b2 = Store(b, llast(t), Opt.absent)
    ih = Implies(t != NIL, undo_fact(n, a, s0, snoc(s0, cp), b2, linit(t), cp))
    yield 'undo step', [ih, Ext(n, a, snoc(s0, cp), b, t), V.is_obj(cp), V.oi(cp) < n], And(undoS(b, t, cp) == a, undoT(t, cp) == s0)
L_TRANS = Lemma('ext_trans', lambda: list(_lemma_cases()), view=('trail',))
L_MONO = Lemma('ext_mono', lambda: list(_mono_cases()), view=('trail',))
L_LEN = Lemma('ext_len', lambda: list(_len_cases()), view=('trail',))
L_UNDO = Lemma('undo', lambda: list(_undo_cases()), view=('trail',))

# ------------------------------------------------------------------ runtime object types
class QueryI(object): "any query object"
class ActionI(object): "any action implementation"
class InstrFnI(object): "any instruction function"
class EnvI(object): "the environment"

def runtime_fields():
    I, A = RT.Intention, RT.Agent
    F = {
        (I, 'scope'): ('dict', None), (I, 'stack'): ('deque', None),
        (I, 'query_stack'): ('deque', None), (I, 'choicepoint_stack'): ('deque', None),
        (I, 'instr'): ('opt', ('obj', RT.Instruction)), (I, 'waiter'): ('opt', ('obj', RT.Waiter)),
        (I, 'head_term'): 'any', (I, 'calling_term'): 'any',
        (A, 'beliefs'): ('ddict', set, ('set', None)), (A, 'rules'): ('ddict', list, ('list', ('obj', RT.Rule))),
        (A, 'plans'): ('ddict', list, ('list', ('obj', RT.Plan))),
        (A, 'intentions'): ('deque', ('deque', ('obj', I))), (A, 'env'): ('obj', RT.Environment), (A, 'name'): 'any',
        (RT.Rule, 'head'): 'any', (RT.Rule, 'query'): ('iface', QueryI),
        (RT.Plan, 'head'): 'any', (RT.Plan, 'context'): ('iface', QueryI), (RT.Plan, 'body'): ('opt', ('obj', RT.Instruction)),
        (RT.AndQuery, 'left'): ('iface', QueryI), (RT.AndQuery, 'right'): ('iface', QueryI),
        (RT.OrQuery, 'left'): ('iface', QueryI), (RT.OrQuery, 'right'): ('iface', QueryI),
        (RT.NotQuery, 'query'): ('iface', QueryI), (RT.ActionQuery, 'impl'): ('iface', ActionI), (RT.ActionQuery, 'term'): 'any',
        (RT.UnifyQuery, 'left'): 'any', (RT.UnifyQuery, 'right'): 'any', (RT.TermQuery, 'term'): 'any',
        (RT.Instruction, 'success'): ('opt', ('obj', RT.Instruction)), (RT.Instruction, 'failure'): ('opt', ('obj', RT.Instruction)),
        (RT.Instruction, 'f'): ('iface', InstrFnI), (RT.Instruction, 'loc'): 'any', (RT.Instruction, 'extra_locs'): 'any',
        (RT.Waiter, 'event'): 'any', (RT.Waiter, 'until'): 'any',
        (RT.Environment, 'agents'): ('dict', ('obj', A)),
    }
    return F
STABLE = ['f:scope', 'f:stack', 'f:query_stack', 'f:choicepoint_stack', 'f:left', 'f:right', 'f:query', 'f:term', 'f:impl',
          'f:head', 'f:context', 'f:body', 'f:beliefs', 'f:rules', 'f:plans', 'f:intentions', 'f:env', 'f:trigger', 'f:goal_type', 'f:agents']
FIXED = {RT.Rule: 'the list of rules of an agent does not change while a query walks it', RT.Plan: 'the list of plans of an agent does not change while it is walked'}
CLASSES = [RT.Intention, RT.Agent, RT.Rule, RT.Plan, RT.Event, RT.Waiter, RT.Instruction, RT.Environment]

def ids_distinct(*vs):
    out = []
    for i in range(len(vs)):
        for j in range(i): out.append(V.oi(vs[i]) != V.oi(vs[j]))
    return out

def action_targets():
    """the generator actions registered by the library (found through the live registries)"""
    import agentspeak.stdlib as SL, agentspeak.ext_stdlib as XL
    out = []
    for reg in (SL.actions, XL.actions):
        for name, f in list(reg.actions.items()) + list(reg.variadic_actions.items()):
            fn = fn_of_live(f)
            if fn is None or '<locals>' in fn.qual: continue
            k = fn.key
            if k not in [o for o, _ in out]: out.append((k, name))
    return out
def native_deepcopy(eng, st, args, kw, fr):
    """copy.deepcopy of a rule: a new rule (its terms and query are only known to be a copy)"""
    v = args[0]
    if eng.cls_of(st, v) is not RT.Rule: raise Unsupported('deepcopy of something else than a rule')
    eng.assumed.add('copy.deepcopy of a rule has no effect besides creating the copy')
    st = st.copy(); o = eng.newobj(st, RT.Rule)
    for f in ('head', 'query'):
        x = fresh('dc_' + f, V); eng.write(st, 'f:' + f, o, x)
        eng.typed(st, x, eng.view.fields[(RT.Rule, f)])
    st.alloc = fresh('alloc', Int); st.assume(st.alloc > V.oi(o))
    yield st, o
