"""C03: queries enumerate exactly the logical solutions.

sols(q, m) is the sequence of bindings a query offers when started under the bindings m; enc/dec code bindings as list
elements.  Every query class must produce its defining sequence: element by element at the yields, and nothing more."""
from specs.common import *
sols = spec('sols', V, Map, L); enc = spec('enc', Map, V); dec = spec('dec', V, Map)
flat = spec('flat', L, V, L)                    # solutions of q under every bindings in a list
ua = spec('ua', V, V, Map, L)                   # matches of two terms including annotations (C19)
flatB = spec('flatB', L, V, Map, L)             # a literal against every belief of a list
flatR = spec('flatR', L, V, Map, L)             # a literal through every rule of a list
rsol = spec('rsol', V, V, Map, L)               # through one rule
asol = spec('asol', V, V, Map, L)               # solutions of an action
evl = spec('evl', V, Map, V); unb = spec('unb', V, V, Map, Bool); unm = spec('unm', V, V, Map, Map)
hdc = spec('hdc', V, V); qc = spec('qc', V, V); copyof = spec('copyof', V, V)
@handler('enc')
def _(t, ix): return [dec(t) == ch(t)[0]]
@unfolds(flat)
def _(l, q): return [flat(l, q) == If(l == NIL, NIL, app(sols(q, dec(L.hd(l))), flat(L.tl(l), q)))]
@unfolds(flatB)
def _(l, t, m): return [flatB(l, t, m) == If(l == NIL, NIL, app(ua(t, L.hd(l), m), flatB(L.tl(l), t, m)))]
@unfolds(flatR)
def _(l, t, m): return [flatR(l, t, m) == If(l == NIL, NIL, app(rsol(L.hd(l), t, m), flatR(L.tl(l), t, m)))]
@handler('unb')
def _(e, ix):
    t, h, m = ch(e)
    if info(h)[2] != 'hdc': return []
    o = ch(h)[0]
    return [rsol(copyof(o), t, m) == If(unb(t, h, m), sols(qc(o), unm(t, h, m)), NIL)]
@handler('drop')
def _(e, ix):
    l, i = ch(e); out = []
    for a in ix.by.get('app', ())[:40]:
        x, y = ch(a); out.append(Implies(And(l == a, i == llen(x)), e == y))      # lemma drop_app
    return out
@handler('app')
def _(a, ix):
    x, y = ch(a); out = []
    if info(x)[2] == 'flatB': l, t, m = ch(x); out.append(Implies(l != NIL, a == app(ua(t, L.hd(l), m), app(flatB(L.tl(l), t, m), y))))     # app is associative
    for e in ix.by.get('drop', ())[:40]:
        l, i = ch(e); out.append(Implies(And(l == a, i == llen(x)), e == y))
    return out
def _da():
    x, y = z3.Consts('x y', L); a0 = z3.Function('app0', L, L, L); d0 = z3.Function('drop0', L, Int, L)
    n = z3.Function('llen0', L, Int)
    facts = [a0(x, y) == If(x == NIL, y, cons(L.hd(x), a0(L.tl(x), y))), n(x) == If(x == NIL, 0, 1 + n(L.tl(x))), n(L.tl(x)) >= 0, d0(y, 0) == y]
    l = a0(x, y)
    yield 'drop_app', facts + [Implies(x != NIL, d0(a0(L.tl(x), y), n(L.tl(x))) == y), Implies(n(x) > 0, Implies(l != NIL, d0(l, n(x)) == d0(L.tl(l), n(x) - 1)))], d0(l, n(x)) == y
Lemma('drop_app', lambda: list(_da()))

I_sc = lambda c: c.old.f('scope', c.intention); I_st = lambda c: c.old.f('stack', c.intention)
def i_types(c): return type_facts(I_sc(c), D, c.old.alloc) + type_facts(I_st(c), DQ, c.old.alloc)
QARGS = {'agent': ('obj', RT.Agent), 'intention': ('obj', RT.Intention)}
TR = dict(tracecons=lambda l: L.is_cons(l), tracehead=lambda l: L.hd(l), tracetail=lambda l: L.tl(l), tracenil=lambda l: l == NIL)
def traced(con):
    for k, f in TR.items(): setattr(con, k, f)
    return con
def ext(c, sc, st): return Ext(c.old.alloc, c.old.map(sc), c.old.seq(st), c.now.map(sc), c.now.seq(st))
def restored(sc, st): return lambda c: [c.now.map(sc(c)) == c.old.map(sc(c)), c.now.seq(st(c)) == c.old.seq(st(c))]
imods = lambda c: [('map', I_sc(c)), ('seq', I_st(c))]
def is_solution(c): return [('the bindings offered are those of the next solution', c.now.map(I_sc(c)) == dec(c.item))]
def suffix(lc, part): 
    """what is expected after the part now being enumerated"""
    e = lc.eghost['rest']
    return drop(e, llen(part))
def loop_base(lc):
    c = lc.c; g = lc.ghost; out = []
    m, n = c.old.map(I_sc(c)), lc.n.map(I_sc(c))
    out += [('bindings as at the start', n == m), ('trail as at the start', c.old.seq(I_st(c)) == lc.n.seq(I_st(c)))]
    out += [('bindings as at loop entry', n == lc.e.map(I_sc(c))), ('trail as at loop entry', lc.n.seq(I_st(c)) == lc.e.seq(I_st(c)))]
    out += [('nothing offered', g['rest'] == lc.eghost['rest'])]
    if lc.kind == 'gen' and lc.rest is not None: out.append(('no solution so far', lc.rest == lc.erest))
    return out
def loop(lc):
    c = lc.c; g = lc.ghost; out = loop_base(lc)
    if lc.kind == 'gen' and lc.rest is not None:
        r, re = lc.rest, lc.erest
        out += [('pending: the rest of this sequence', g['rest'] == r), ('pending: the rest of this sequence, then what follows', g['rest'] == app(r, suffix(lc, re)))]
        for q in ('right', 'left', 'query'):
            try: out += [('pending: for each of the rest, the solutions of ' + q, g['rest'] == flat(r, c.old.f(q, c.self)))]
            except Exception: pass
    return out
def q_requires(c): return [('intention has a scope and a trail', And(*i_types(c)))]
BASE = dict(types=QARGS, gen=True, requires=q_requires, modifies=imods, relymods=imods, raises=[(Exception, None)],
    yields=is_solution, rely=lambda c: restored(I_sc, I_st)(c), loop=loop)
IBASE = {**BASE, 'yields': lambda c: is_solution(c) + [ext(c, I_sc(c), I_st(c))], 'exits': restored(I_sc, I_st)}
def qcontract(cls, trace): return traced(Contract('agentspeak.runtime:%s.execute' % cls, params=['self', 'agent', 'intention'], trace=trace, name=cls, **{**BASE, **(TBASE if cls == 'TermQuery' else {})}))
m_ = lambda c: c.old.map(I_sc(c))
one = lambda c: cons(enc(m_(c)), NIL)
def and_(c): return flat(sols(c.old.f('left', c.self), m_(c)), c.old.f('right', c.self))
def or_(c): return app(sols(c.old.f('left', c.self), m_(c)), sols(c.old.f('right', c.self), m_(c)))
def not_(c): return If(sols(c.old.f('query', c.self), m_(c)) == NIL, one(c), NIL)
def bel_rul(c):
    """the term asked for, the beliefs and the rules of its group"""
    t = evl(c.old.f('term', c.self), m_(c)); g = V.tup(mklist([V.lf(t), V.int(llen(V.la(t)))]))
    return t, Select(c.old.map(c.old.f('beliefs', c.agent)), g), Select(c.old.map(c.old.f('rules', c.agent)), g)
def bel_lists(c):
    t, b, r = bel_rul(c)
    return t, If(Opt.is_present(b), elems(c.old.set(Opt.pv(b))), NIL), If(Opt.is_present(r), c.old.seq(Opt.pv(r)), NIL)
def term_(c):
    t, bs, rs = bel_lists(c)
    return If(t == TRUE, one(c), If(t == FALSE, NIL, app(flatB(bs, t, m_(c)), flatR(rs, t, m_(c)))))
def t_requires(c):
    t, b, r = bel_rul(c)
    return q_requires(c) + [('beliefs and rules were there before', And(Implies(Opt.is_present(b), V.oi(Opt.pv(b)) < c.old.alloc), Implies(Opt.is_present(r), V.oi(Opt.pv(r)) < c.old.alloc)))]
def t_loop(lc):
    """beliefs first, then rules: what is left of the group asked for"""
    c = lc.c; g = lc.ghost; m = c.old.map(I_sc(c)); t, bs, rs = bel_lists(c)
    out = [x for x in loop_base(lc)]
    if lc.kind == 'gen':
        if lc.rest is not None: out.append(('pending: the rest of this sequence, then what follows', g['rest'] == app(lc.rest, suffix(lc, lc.erest))))
    elif lc.kind == 'seq' and len(lc.ls) == 1:
        l, d = lc.ls[0], drop(lc.ls[0], lc.idx)
        out += [('pending: the other beliefs, then the rules', And(l == bs, g['rest'] == app(flatB(drop(bs, lc.idx), t, m), flatR(rs, t, m)))), ('pending: the other rules', And(l == rs, g['rest'] == flatR(drop(rs, lc.idx), t, m)))]
    return out
TBASE = dict(requires=t_requires, loop=t_loop)
TRACES = {'TrueQuery': one, 'FalseQuery': lambda c: NIL, 'AndQuery': and_, 'OrQuery': or_, 'NotQuery': not_, 'TermQuery': term_,
          'ActionQuery': lambda c: asol(c.old.f('impl', c.self), c.old.f('term', c.self), m_(c)), 'UnifyQuery': lambda c: ua(c.old.f('left', c.self), c.old.f('right', c.self), m_(c))}
queries = [qcontract(k, t) for k, t in TRACES.items() if hasattr(RT, k)]
iq = traced(Contract('iface:query', params=['self', 'agent', 'intention'], trace=lambda c: sols(c.self, m_(c)), verify=False, name='query interface', **IBASE))
ia = traced(Contract('iface:action', params=['impl', 'agent', 'term', 'intention'], trace=lambda c: asol(c.impl, c.term, m_(c)), verify=False, name='action interface', **IBASE))
SCST = {'scope': D, 'stack': DQ}; P_sc = lambda c: c.scope; P_st = lambda c: c.stack
mods = lambda c: [('map', c.scope), ('seq', c.stack)]
uann = traced(Contract('agentspeak:unify_annotated', params=['left', 'right', 'scope', 'stack'], types=SCST, gen=True, modifies=mods, relymods=mods, raises=[(Exception, None)], verify=False,
    trace=lambda c: ua(c.left, c.right, c.old.map(c.scope)), yields=lambda c: [c.now.map(c.scope) == dec(c.item), ext(c, c.scope, c.stack)], rely=lambda c: restored(P_sc, P_st)(c), exits=restored(P_sc, P_st), name='unify_annotated (C19, C02)'))
unify = Contract('agentspeak:unify', params=['left', 'right', 'scope', 'stack'], types=SCST, modifies=mods, result='bool', raises=[(Exception, None)], verify=False, name='unify (C01, C02)',
    ensures=lambda c: [V.b(c.res) == unb(c.left, c.right, c.old.map(c.scope)), Implies(V.b(c.res), c.now.map(c.scope) == unm(c.left, c.right, c.old.map(c.scope))), ext(c, c.scope, c.stack)])
evaluate = Contract('agentspeak:evaluate', params=['term', 'scope'], types={'scope': D}, raises=[(Exception, None)], verify=False, name='evaluate (C01)', resfn=lambda c: evl(c.term, c.old.map(c.scope)))
reroll = Contract('agentspeak:reroll', params=['scope', 'stack', 'choicepoint'], types={**SCST, 'choicepoint': ('obj', object)}, modifies=mods, result='none', verify=False, name='reroll (C02)',
    ensures=lambda c: [c.now.map(c.scope) == undoS(c.old.map(c.scope), c.old.seq(c.stack), c.choicepoint), c.now.seq(c.stack) == undoT(c.old.seq(c.stack), c.choicepoint)])
def deepcopy_rule(eng, st, args, kw, fr):
    v = args[0]
    if eng.cls_of(st, v) is not RT.Rule: raise Unsupported('deepcopy of something else than a rule')
    eng.assumed.add('copy.deepcopy of a rule is the rule with its variables renamed apart; which new variables are used does not matter')
    st = st.copy(); o = eng.newobj(st, RT.Rule)
    for f, u in (('head', hdc), ('query', qc)):
        eng.write(st, 'f:' + f, o, u(o)); eng.typed(st, u(o), eng.view.fields[(RT.Rule, f)])
    st.assume(copyof(o) == v); st.alloc = fresh('alloc', Int); st.assume(st.alloc > V.oi(o))
    yield st, o
view = View('C03', queries + [uann, unify, evaluate, reroll], fields=runtime_fields(), stable=STABLE, classes=CLASSES,
            iface={(QueryI, 'execute'): IFn('execute', ['self', 'agent', 'intention'], iq), (ActionI, '__call__'): IFn('impl', ['impl', 'agent', 'term', 'intention'], ia)},
            natives={copy.deepcopy: deepcopy_rule}, fixedlists=FIXED, ddictpure=True)
LEMMAS = ['drop_app', 'ext_trans', 'ext_mono', 'ext_len', 'undo']
