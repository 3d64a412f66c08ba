"""C19: annotated matching finds a match whenever one exists.

mt(l, r, m) are all ways to match the literal l with r, manns(ls, rs, m) all ways to match every annotation of ls with a
different one of rs: for every choice of the first partner, recursively.  A match exists exactly when some choice works;
unify_annotated offers the first way, if there is one.  Unification is taken by contract (C01), restoring by C02."""
from specs.c03 import *
mt = spec('mt', V, V, Map, L); manns = spec('manns', L, L, Map, L)
cho = spec('cho', L, L, Int, Map, L)            # matching the first of ls with rs[i], rs[i+1], ...
flatA = spec('flatA', L, L, L, Int, L)          # after each of these bindings: the others of ls with rs without rs[i]
m1 = lambda l, r, m: If(V.is_lit(l), mt(l, r, m), If(unb(l, r, m), cons(enc(unm(l, r, m)), NIL), NIL))
minus = lambda rs, i: app(take(rs, i), drop(rs, i + 1))
@unfolds(manns)
def _(a, b, m): return [manns(a, b, m) == If(a == NIL, cons(enc(m), NIL), cho(a, b, IntVal(0), m))]
@unfolds(cho)
def _(a, b, i, m): return [cho(a, b, i, m) == If(i >= llen(b), NIL, app(flatA(m1(L.hd(a), nth(b, i), m), a, b, i), cho(a, b, i + 1, m)))]
@unfolds(flatA)
def _(s, a, b, i): return [flatA(s, a, b, i) == If(s == NIL, NIL, app(manns(L.tl(a), minus(b, i), dec(L.hd(s))), flatA(L.tl(s), a, b, i)))]
isv = lambda v: Or(V.is_var(v), V.is_wild(v))
@unfolds(mt)
def _(l, r, m):
    e = evl(r, m)
    return [mt(l, r, m) == If(isv(e), If(unb(e, l, m), cons(enc(unm(e, l, m)), NIL), NIL), If(unb(l, e, m), manns(V.ln(l), V.ln(e), unm(l, e, m)), NIL))]
first = lambda s: If(s == NIL, NIL, cons(L.hd(s), NIL))
uas = lambda l, r, m: If(V.is_lit(l), first(mt(l, r, m)), If(unb(l, r, m), cons(enc(unm(l, r, m)), NIL), NIL))
GB = dict(types=SCST, gen=True, modifies=mods, relymods=mods, raises=[(Exception, None)], rely=lambda c: restored(P_sc, P_st)(c), exits=restored(P_sc, P_st),
          yields=lambda c: [('the bindings offered are those of the next match', c.now.map(c.scope) == dec(c.item)), ('the trail records them', ext(c, c.scope, c.stack))])
def ints_of(lc): return [V.i(v) for nm, v, v0 in lc.vals() if is_expr(v) and v.sort() == V and info(v)[2] == 'int']
def tr_inv(lc):
    """where the trail stands"""
    a, b = lc.c.scope, lc.c.stack; o, e, n = lc.c.old, lc.e, lc.n
    return [('bindings as at the start', n.map(a) == o.map(a)), ('trail as at the start', n.seq(b) == o.seq(b)), ('bindings as at loop entry', n.map(a) == e.map(a)), ('trail as at loop entry', n.seq(b) == e.seq(b)),
            ('the trail since the start', Ext(o.alloc, o.map(a), o.seq(b), n.map(a), n.seq(b)))]
def a_loop(lc):
    c = lc.c; g = lc.ghost; m = c.old.map(c.scope); multi = c.fn.key.endswith('match_annots')
    out = tr_inv(lc)
    if multi: out = out[4:] if lc.kind == 'gen' else out[:2] + out[4:]
    else: out.append(('nothing offered', g['rest'] == lc.eghost['rest']))
    if lc.kind == 'gen' and lc.rest is not None:
        if not multi: out += [('pending: the rest of this sequence', g['rest'] == lc.rest), ('no match so far', lc.rest == lc.erest)]
        else:
            out.append(('pending: the rest of this sequence, then what follows', g['rest'] == app(lc.rest, suffix(lc, lc.erest))))
            for k, i in enumerate(ints_of(lc)):
                f = lambda s: flatA(s, V.t(c.left), V.t(c.right), i)
                out.append(('pending: after each of the rest, the other annotations (%d)' % k, g['rest'] == app(f(lc.rest), suffix(lc, f(lc.erest)))))
    elif lc.kind == 'seq' and len(lc.ls) == 1 and c.fn.key.endswith('match_annots'):
        out.append(('pending: the other partners', g['rest'] == cho(V.t(c.left), V.t(c.right), lc.idx, m)))
    return out
_dr = lambda e: e
@handler('flatA')
def _(e, ix):
    s, a, b, i = ch(e); out = []
    for x in ix.by.get('app', ())[:40]:
        if ch(x)[0].eq(e): out.append(Implies(s != NIL, x == app(manns(L.tl(a), minus(b, i), dec(L.hd(s))), app(flatA(L.tl(s), a, b, i), ch(x)[1]))))
    return out
def gc(t, params, trace, name, **k): return traced(Contract(t, params=params, trace=trace, name=name, loop=a_loop, **{**GB, **k}))
LR = ['left', 'right', 'scope', 'stack']; mm = lambda c: c.old.map(c.scope)
match_annots = gc('agentspeak:match_annots', LR, lambda c: manns(V.t(c.left), V.t(c.right), mm(c)), 'match_annots', types={**SCST, 'left': 'tup', 'right': 'tup'})
match1 = gc('agentspeak:Literal.match_annotated', LR, lambda c: mt(c.left, c.right, mm(c)), 'Literal.match_annotated', types={**SCST, 'left': 'lit'})
uann_ = gc(['agentspeak:unify_annotated', 'agentspeak:Literal.unify_annotated'], LR, lambda c: uas(c.left, c.right, mm(c)), 'unify_annotated')
UN = ['agentspeak:unify'] + ['agentspeak:%s.unify' % k for k in ('Var', 'Wildcard', 'UnaryExpr', 'BinaryExpr', 'Literal', 'LinkedList')]
unify19 = Contract(UN, params=LR, types=SCST, modifies=mods, result='bool', raises=[(Exception, None)], verify=False, name='unify (C01, C02)',
    ensures=lambda c: [V.b(c.res) == unb(c.left, c.right, c.old.map(c.scope)), Implies(V.b(c.res), c.now.map(c.scope) == unm(c.left, c.right, c.old.map(c.scope))), ext(c, c.scope, c.stack),
                       Implies(And(V.b(c.res), V.is_lit(c.left), Not(isv(c.right))), Or(V.is_lit(c.right), V.is_un(c.right), V.is_bin(c.right)) if hasattr(V, 'is_un') else V.is_lit(c.right))])
evaluate19 = Contract(['agentspeak:evaluate'], params=['term', 'scope'], types={'scope': D}, raises=[(Exception, None)], verify=False, name='evaluate (C01, C04)', resfn=lambda c: evl(c.term, c.old.map(c.scope)))
unis = Contract('agentspeak:unifies_annotated', params=LR, result='bool', raises=[(Exception, None)], name='unifies_annotated')
view = View('C19', [match_annots, match1, uann_, unify19, evaluate19, reroll], fields=runtime_fields(), stable=STABLE, classes=CLASSES)
LEMMAS = ['drop_app', 'ext_trans', 'ext_mono', 'ext_len', 'undo']
