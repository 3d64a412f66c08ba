"""C09: withdrawing a goal removes exactly the matching intentions."""
from specs.rt_heap import *
unif = spec('unif', V, V, Bool)                  # two terms unify under no bindings (C01)
nin = spec('nin', Int, L, Bool)                  # no element of the list has this identity
dist = spec('dist', L, Bool)                     # pairwise different objects
sameS = spec('sameS', L, SeqA, SeqA, Bool)       # the stacks of a list hold the same in both heaps
once = spec('once', L, SeqA, Bool)               # no stack holds its top intention twice
@unfolds(nin)
def _(i, l): return [nin(i, l) == If(l == NIL, True, And(V.oi(L.hd(l)) != i, nin(i, L.tl(l))))]
@unfolds(dist)
def _(l): return [dist(l) == If(l == NIL, True, And(nin(V.oi(L.hd(l)), L.tl(l)), dist(L.tl(l))))]
@unfolds(once)
def _(l, h): s = Select(h, V.oi(L.hd(l))); return [once(l, h) == If(l == NIL, True, And(Not(mem(llast(s), linit(s))), once(L.tl(l), h)))]
def same_store(l, h, i, v, g): return Implies(nin(i, l), sameS(l, Store(h, i, v), g) == sameS(l, h, g))
@unfolds(sameS)
def _(l, h, g):
    if h.eq(g): return [sameS(l, h, g)]
    out = [sameS(l, h, g) == If(l == NIL, True, And(Select(h, V.oi(L.hd(l))) == Select(g, V.oi(L.hd(l))), sameS(L.tl(l), h, g)))]
    if info(h)[3] == z3.Z3_OP_STORE: out.append(same_store(l, *ch(h), g))
    return out
def rem_last(l, x): return Implies(And(l != NIL, x == llast(l), Not(mem(x, linit(l)))), remove1(l, x) == linit(l))
@handler('remove1')
def _(t, ix): return [rem_last(*ch(t))]
def _ss():
    l = z3.Const('l', L); h, g = z3.Consts('h g', SeqA); i = z3.Int('i'); v = z3.Const('v', L); s = z3.Function('sameS0', L, SeqA, SeqA, Bool)
    d = lambda l, h: s(l, h, g) == If(l == NIL, True, And(Select(h, V.oi(L.hd(l))) == Select(g, V.oi(L.hd(l))), s(L.tl(l), h, g)))
    yield 'step', [d(l, h), d(l, Store(h, i, v)), Implies(And(l != NIL, nin(i, L.tl(l))), s(L.tl(l), Store(h, i, v), g) == s(L.tl(l), h, g)), nin(i, l)], s(l, Store(h, i, v), g) == s(l, h, g)
def _rl():
    l = z3.Const('l', L); x = z3.Const('x', V); r = z3.Function('rem0', L, V, L)
    d = lambda l: r(l, x) == If(l == NIL, NIL, If(L.hd(l) == x, L.tl(l), cons(L.hd(l), r(L.tl(l), x))))
    ih = lambda l: Implies(And(l != NIL, x == llast(l), Not(mem(x, linit(l)))), r(l, x) == linit(l))
    t = L.tl(l)
    yield 'one', [d(l), l != NIL, t == NIL, x == llast(l), l == snoc(linit(l), llast(l)), linit(l) == NIL], r(l, x) == linit(l)
    yield 'more', [d(l), ih(t), l != NIL, t != NIL, x == llast(l), Not(mem(x, linit(l))), l == snoc(linit(l), llast(l)), linit(l) == cons(L.hd(l), linit(t)), llast(l) == llast(t)], r(l, x) == linit(l)
Lemma('stores beside a list of stacks', lambda: list(_ss())); Lemma('removing the last', lambda: list(_rl()))
F = heap_fields(); F[(RT.Intention, 'head_term')] = lambda v: [Or(V.is_none(v), V.is_lit(v))]
ints = lambda c: c.old.seq(c.old.f('intentions', c.self))
ANY = z3.Int('any_stack')
def matches(x, term, hh):
    h = Select(hh, V.oi(x)); return And(h != NONE, pyeq(V.lf(h), V.lf(term)), unif(V.tup(V.la(term)), V.tup(V.la(h))))
def after(c, i):
    s = Select(c.old.arr('seq'), i); return If(And(s != NIL, matches(llast(s), c.term, c.old.arr('f:head_term'))), linit(s), s)
def req(c):
    l = ints(c); d = c.old.f('intentions', c.self)
    return [('the stacks of an agent are different objects', And(dist(l), nin(V.oi(d), l))), ('an intention is on a stack once', once(l, c.old.arr('seq')))]
def loop(lc):
    c = lc.c; out = []
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    l, r = lc.ls[0], drop(lc.ls[0], lc.idx); h, g = lc.n.arr('seq'), c.old.arr('seq'); d = c.old.f('intentions', c.self)
    out += [('stacks to come differ', And(dist(r), nin(V.oi(d), r), once(r, g))), ('stacks to come are untouched', sameS(r, h, g)), ('the list of stacks is kept', Select(h, V.oi(d)) == Select(g, V.oi(d)))]
    out += [('stacks to come are stacks', Implies(Not(nin(ANY, r)), Not(nin(ANY, l)))), ('every stack met holds what it should', Select(h, ANY) == If(nin(ANY, r), If(nin(ANY, l), Select(g, ANY), after(c, ANY)), Select(g, ANY)))]
    return out
unachieve = Contract('agentspeak.runtime:Agent._unachieve', params=['self', 'term'], requires=req, loop=loop, modifies=lambda c: [('seq', '*')], name='Agent._unachieve',
    ensures=lambda c: [('only literals are withdrawn', V.is_lit(c.term)), ('exactly the matching top intentions are gone', Select(c.now.arr('seq'), ANY) == If(nin(ANY, ints(c)), Select(c.old.arr('seq'), ANY), after(c, ANY)))],
    raises=[(Exception, None)])
unifies = Contract('agentspeak:unifies', params=['left', 'right'], resfn=lambda c: V.bool(unif(c.left, c.right)), modifies=lambda c: [], raises=[(Exception, None)], verify=False, name='unifies (C01)')
view = View('C09', [unachieve, unifies], fields=F, stable=[x for x in STABLE] + ['f:head_term'], classes=CLASSES)
LEMMAS = ['stores beside a list of stacks', 'removing the last']
