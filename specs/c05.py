"""C05: the belief base is an exact set of ground facts.

cont(s, G) is the set of facts filed under the group G.  Adding, removing and abolishing change the contents of one group
in exactly one way; matching and grounding are taken by contract (C19, C04)."""
from specs.common import *
grd = spec('grd', V, Map, V); evl = spec('evl', V, Map, V); frz = spec('frz5', V, Map, V)
okm = spec('okm', V, V, Map, Bool)               # the pattern matches the fact under these bindings
okmap = spec('okmap', V, V, Map, Map)            # ... and these are the bindings then
firstm = spec('firstm', L, V, Map, V)            # the first matching fact of an enumeration
anym = spec('anym', L, V, Map, Bool)             # some fact of it matches
@unfolds(firstm)
def _(l, t, m): return [firstm(l, t, m) == If(l == NIL, NONE, If(okm(t, L.hd(l), m), L.hd(l), firstm(L.tl(l), t, m)))]
@unfolds(anym)
def _(l, t, m): return [anym(l, t, m) == If(l == NIL, False, Or(okm(t, L.hd(l), m), anym(L.tl(l), t, m)))]
@handler('firstm')
def _(e, ix): l, t, m = ch(e); return [Implies(anym(l, t, m), And(mem(e, l), okm(t, e, m)))]       # lemma
def _fm():
    l, u = z3.Consts('l u', L); t, x = z3.Consts('t x', V); m = z3.Const('m', Map); u = L.tl(l)
    f0 = z3.Function('firstm0', L, V); a0 = z3.Function('anym0', L, Bool); m0 = z3.Function('mem0', V, L, Bool); ok = z3.Function('ok0', V, Bool)
    h = L.hd(l)
    d = [f0(l) == If(l == NIL, NONE, If(ok(h), h, f0(u))), a0(l) == If(l == NIL, False, Or(ok(h), a0(u)))] 
    dm = lambda x: m0(x, l) == If(l == NIL, False, Or(h == x, m0(x, u)))
    yield 'firstm', d + [dm(f0(l)), Implies(And(l != NIL, a0(u)), And(m0(f0(u), u), ok(f0(u)))), a0(l)], And(m0(f0(l), l), ok(f0(l)))
Lemma('the first match is a match', lambda: list(_fm()))
ANYG = z3.Const('any_group', V); ANYF = z3.Const('any_fact', V)
def cont(s, b, G):
    e = Select(s.map(b), G); return If(Opt.is_present(e), s.set(Opt.pv(e)), EMPTYSET)
B = lambda c: c.old.f('beliefs', c.self if hasattr(c, 'self') else c.agent)
grp = lambda t: V.tup(mklist([V.lf(t), V.int(llen(V.la(t)))]))
def wf(c, b, *gs):
    """facts of different groups are in different sets, all made before"""
    out = []
    for g in gs:
        e = Select(c.old.map(b), g); out.append(Implies(Opt.is_present(e), V.oi(Opt.pv(e)) < c.old.alloc))
        for h in gs:
            if h is not g: d = Select(c.old.map(b), h); out.append(Implies(And(Opt.is_present(e), Opt.is_present(d), g != h), V.oi(Opt.pv(e)) != V.oi(Opt.pv(d))))
    return And(*out)
SETM = lambda c: [('map', B(c)), ('set', '*')]
D_ = {'scope': D}
def unchanged(c): return [('no fact is added or lost', cont(c.now, B(c), ANYG) == cont(c.old, B(c), ANYG))]
def only(c, G, new): return cont(c.now, B(c), ANYG) == If(ANYG == G, new, cont(c.old, B(c), ANYG))
# ---- add
g_ = lambda c: grd(c.term, c.old.map(c.scope))
add_belief = Contract('agentspeak.runtime:Agent.add_belief', params=['self', 'term', 'scope'], types=D_, modifies=SETM, raises=[(Exception, unchanged)], name='Agent.add_belief',
    requires=lambda c: [('groups have their own sets', wf(c, B(c), ANYG, grp(g_(c))))],
    ensures=lambda c: [('exactly the grounded fact is added', only(c, grp(g_(c)), Store(cont(c.old, B(c), grp(g_(c))), g_(c), BoolVal(True)))), ('only literals are believed', V.is_lit(g_(c)))])
grounded = Contract(['agentspeak:grounded'] + ['agentspeak:%s.grounded' % k for k in ('Var', 'Wildcard', 'UnaryExpr', 'BinaryExpr', 'Literal', 'LinkedList')], params=['term', 'scope'], types=D_, raises=[(Exception, None)], verify=False, name='grounded (C04)', resfn=lambda c: grd(c.term, c.old.map(c.scope)))
evaluate = Contract(['agentspeak:evaluate'] + ['agentspeak:%s.evaluate' % k for k in ('Var', 'Wildcard', 'UnaryExpr', 'BinaryExpr')], params=['term', 'scope'], types=D_, raises=[(Exception, None)], verify=False, name='evaluate (C01)', resfn=lambda c: evl(c.term, c.old.map(c.scope)))
freeze = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, requires=lambda c: [('with an empty memo', c.old.map(c.memo) == EMPTYMAP)], modifies=lambda c: [('map', c.memo)], raises=[(Exception, None)], verify=False, name='freeze (C04)', resfn=lambda c: frz(c.term, c.old.map(c.scope)))
# ---- matching: true with the bindings of the match on the trail, or false with the bindings as they were
SCST = {'scope': D, 'stack': DQ}
def ua_native_types(c): return {}
M0 = EMPTYMAP
uann = Contract('agentspeak:unifies_annotated', params=['left', 'right', 'scope', 'stack'], modifies=lambda c: [('map', c.scope), ('seq', c.stack)] if given(c) else [], result='bool', raises=[(Exception, None)], verify=False, name='unifies_annotated (C19, C02)',
    ensures=lambda c: ([V.b(c.res) == okm(c.left, c.right, c.old.map(c.scope)), Implies(V.b(c.res), c.now.map(c.scope) == okmap(c.left, c.right, c.old.map(c.scope))), Ext(c.old.alloc, c.old.map(c.scope), c.old.seq(c.stack), c.now.map(c.scope), c.now.seq(c.stack))]
                       if given(c) else [V.b(c.res) == okm(c.left, c.right, M0)]))
def given(c):
    return not (is_expr(c.scope) and info(c.scope)[2] == 'none')
reroll = Contract('agentspeak:reroll', params=['scope', 'stack', 'choicepoint'], types={**SCST, 'choicepoint': ('obj', object)}, modifies=lambda c: [('map', c.scope), ('seq', c.stack)], result='none', verify=False, name='reroll (C02)',
    ensures=lambda c: [c.now.map(c.scope) == undoS(c.old.map(c.scope), c.old.seq(c.stack), c.choicepoint), c.now.seq(c.stack) == undoT(c.old.seq(c.stack), c.choicepoint)])
# ---- remove
I_sc = lambda c: c.old.f('scope', c.intention); I_st = lambda c: c.old.f('stack', c.intention)
e_ = lambda c: evl(c.term, c.old.map(I_sc(c)))
def rem_req(c):
    return [('intention has bindings and a trail', And(*(type_facts(I_sc(c), D, c.old.alloc) + type_facts(I_st(c), DQ, c.old.alloc)))), ('groups have their own sets', wf(c, B(c), ANYG, grp(e_(c))))]
def removed(c):
    t, m = e_(c), c.old.map(I_sc(c)); G = grp(t); s = cont(c.old, B(c), G); f = firstm(elems(s), t, m); found = anym(elems(s), t, m)
    return [('it says whether a fact matched', c.res == V.bool(found)), ('exactly one matching fact is removed', Implies(found, And(only(c, G, Store(s, f, BoolVal(False))), Select(s, f), okm(t, f, m)))),
            ('without a match no fact is removed', Implies(Not(found), cont(c.now, B(c), ANYG) == cont(c.old, B(c), ANYG))),
            ('the bindings are those of the match', c.now.map(I_sc(c)) == If(found, okmap(t, f, m), m)), ('without a match the trail is as before', Implies(Not(found), c.now.seq(I_st(c)) == c.old.seq(I_st(c))))]
def rest_(lc):
    return lc.ls[0] if z3.is_int_value(lc.idx) and lc.idx.as_long() == 0 else drop(lc.ls[0], lc.idx)
def rem_loop(lc):
    c = lc.c; t, m = e_(c), c.old.map(I_sc(c)); out = []
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    l, r = lc.ls[0], rest_(lc); G = grp(t)
    out += [('bindings as before', lc.n.map(I_sc(c)) == m), ('trail as before', lc.n.seq(I_st(c)) == c.old.seq(I_st(c))),
            ('the same facts as before', cont(lc.n, B(c), ANYG) == cont(c.old, B(c), ANYG)), ('the same facts of this group', cont(lc.n, B(c), G) == cont(c.old, B(c), G)),
            ('the facts walked are those of the group', Or(l == elems(cont(c.old, B(c), G)), And(l == NIL, cont(c.old, B(c), G) == EMPTYSET))),
            ('no match so far', And(firstm(l, t, m) == firstm(r, t, m), anym(l, t, m) == anym(r, t, m)))]
    out.append(('groups keep their sets', And(*[keepgroup(lc.n, c, g) for g in (ANYG, G)])))
    return out
def keepgroup(n, c, g):
    e, x = Select(c.old.map(B(c)), g), Select(n.map(B(c)), g)
    return And(Implies(Opt.is_present(e), x == e), Implies(And(Opt.is_present(x), Not(Opt.is_present(e))), V.oi(Opt.pv(x)) >= c.old.alloc))
QT = {'intention': ('obj', RT.Intention)}
remove_belief = Contract('agentspeak.runtime:Agent.remove_belief', params=['self', 'term', 'intention'], types=QT, requires=rem_req, modifies=lambda c: SETM(c) + [('map', I_sc(c)), ('seq', I_st(c))], raises=[(Exception, unchanged)], ensures=removed, loop=rem_loop, name='Agent.remove_belief')
# ---- abolish
pat = lambda c: frz(L.hd(V.la(c.term)), c.old.map(I_sc(c)))
AT = {'agent': ('obj', RT.Agent), 'intention': ('obj', RT.Intention), 'term': 'lit'}
inn = lambda s, c, G: Select(cont(s, B(c), G), ANYF)
def ab_req(c):
    return [('called with its argument', V.la(c.term) != NIL), ('intention has bindings and a trail', And(*(type_facts(I_sc(c), D, c.old.alloc) + type_facts(I_st(c), DQ, c.old.alloc)))), ('groups have their own sets', wf(c, B(c), ANYG, grp(pat(c))))]
def abolished(c):
    G = grp(pat(c))
    return [('exactly the matching facts of the group are gone', inn(c.now, c, ANYG) == And(inn(c.old, c, ANYG), Not(And(ANYG == G, okm(pat(c), ANYF, M0))))), ('no bindings change', c.now.map(I_sc(c)) == c.old.map(I_sc(c)))]
def ab_loop(lc):
    c = lc.c; out = []
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    l, r = lc.ls[0], rest_(lc); G = grp(pat(c)); ok = okm(pat(c), ANYF, M0); now, old = inn(lc.n, c, G), inn(lc.c.old, c, G)
    out += [('other groups keep their facts', Implies(ANYG != G, cont(lc.n, B(c), ANYG) == cont(c.old, B(c), ANYG))), ('nothing appears, nothing else goes', And(Implies(now, old), Implies(And(old, Not(ok)), now))),
            ('matching facts met are gone', Implies(And(now, ok), mem(ANYF, r))), ('bindings as before', lc.n.map(I_sc(c)) == c.old.map(I_sc(c))), ('groups keep their sets', And(*[keepgroup(lc.n, c, g) for g in (ANYG, G)])),
            ('the group has a set', Implies(now, Opt.is_present(Select(lc.n.map(B(c)), G)))), ('the group of now is the one of loop entry', Select(lc.n.map(B(c)), G) == Select(lc.e.map(B(c)), G)), ('other entries too', Select(lc.n.map(B(c)), ANYG) == Select(lc.e.map(B(c)), ANYG))]
    return out
def traced(con):
    con.tracecons, con.tracehead, con.tracetail, con.tracenil = (lambda l: L.is_cons(l)), (lambda l: L.hd(l)), (lambda l: L.tl(l)), (lambda l: l == NIL)
    return con
abolish = [traced(Contract(k, params=['agent', 'term', 'intention'], types=AT, gen=True, requires=ab_req, modifies=lambda c: SETM(c), relymods=lambda c: [], yields=abolished, exits=abolished, raises=[(Exception, None)], loop=ab_loop, name='.abolish', trace=lambda c: cons(NONE, NIL))) for k, nm in action_targets() if nm[0] == '.abolish']
view = View('C05', [add_belief, remove_belief, grounded, evaluate, freeze, uann, reroll] + abolish, fields=runtime_fields(), stable=STABLE, classes=CLASSES, ddictpure=False)
LEMMAS = ['the first match is a match', 'ext_trans', 'ext_mono', 'ext_len', 'undo']
