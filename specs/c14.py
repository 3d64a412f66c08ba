"""C14: action calls resolve and pass arguments exactly."""
from specs.common import *
AC = agentspeak.Actions
MISS = z3.Const('no_such_action', V)
regtype = {'self': ('obj', AC)}
class FnI(object): "a registered Python function"
F = runtime_fields()
F.update({(AC, 'parent'): ('opt', ('obj', AC)), (AC, 'actions'): ('dict', None), (AC, 'variadic_actions'): ('dict', None)})
# ------------------------------------------------------------------ lookup
ParA = z3.ArraySort(Int, V); MapA = z3.ArraySort(Int, Map)
lk = spec('lk', V, V, V, ParA, ParA, ParA, MapA, V)
@unfolds(lk)
def _(r, f, n, pa, aa, va, ma):
    fx = Select(Select(ma, V.oi(Select(aa, V.oi(r)))), V.tup(mklist([f, n]))); vx = Select(Select(ma, V.oi(Select(va, V.oi(r)))), f); p = Select(pa, V.oi(r))
    return [lk(r, f, n, pa, aa, va, ma) == If(Opt.is_present(fx), Opt.pv(fx), If(Opt.is_present(vx), Opt.pv(vx), If(p != NONE, lk(p, f, n, pa, aa, va, ma), MISS)))]
def found(c): h = c.old; return lk(c.self, c.functor, c.arity, h.arr('f:parent'), h.arr('f:actions'), h.arr('f:variadic_actions'), h.arr('map'))
def lk_loop(lc):
    out = []
    for nm, v, v0 in lc.vals():
        h = lc.c.old; out.append(('the answer is that of ' + nm, And(V.is_obj(v), lk(v, lc.c.functor, lc.c.arity, h.arr('f:parent'), h.arr('f:actions'), h.arr('f:variadic_actions'), h.arr('map')) == found(lc.c))))
    return out
NOMISS = lambda c: [('entries are functions', And())]
lookup = Contract('agentspeak:Actions.lookup', params=['self', 'functor', 'arity'], types={'functor': 'str', 'arity': 'int'}, loop=lk_loop,
    ensures=lambda c: [('exact entry, else variadic entry, else what the parent finds', c.res == found(c))],
    raises=[(KeyError, lambda c: [('only when nothing is registered', found(c) == MISS)])], name='Actions.lookup')
# ------------------------------------------------------------------ registration
def keyed(c): return c.old.f('actions', c.self), V.tup(mklist([c.functor, c.arity]))
def variadic(c): return c.old.f('variadic_actions', c.self), c.functor
def taken(c):
    a, k = keyed(c); v, f = variadic(c)
    return If(c.arity == NONE, Opt.is_present(Select(c.old.map(v), f)), Opt.is_present(Select(c.old.map(a), k)))
def after(c):
    a, k = keyed(c); v, f = variadic(c); p = Opt.present(c.f)
    return If(c.arity == NONE, And(c.now.map(v) == Store(c.old.map(v), f, p), Implies(V.oi(a) != V.oi(v), c.now.map(a) == c.old.map(a))), And(c.now.map(a) == Store(c.old.map(a), k, p), Implies(V.oi(a) != V.oi(v), c.now.map(v) == c.old.map(v))))
reg_mods = lambda c: [('map', c.old.f('actions', c.self)), ('map', c.old.f('variadic_actions', c.self))]
def reg_req(c):
    a, v = c.old.f('actions', c.self), c.old.f('variadic_actions', c.self)
    return [('two tables', V.oi(a) != V.oi(v)), ('tables are dictionaries', And(*(type_facts(a, D, c.old.alloc) + type_facts(v, D, c.old.alloc))))]
RKW = dict(requires=reg_req, modifies=reg_mods, ensures=lambda c: [('refused when taken', Not(taken(c))), ('exactly this entry is added', after(c)), ('the function is handed back', c.res == c.f)],
    raises=[(AssertionError, lambda c: [('only an existing entry is refused', taken(c)), ('nothing changes', And(c.now.map(c.old.f('actions', c.self)) == c.old.map(c.old.f('actions', c.self)), c.now.map(c.old.f('variadic_actions', c.self)) == c.old.map(c.old.f('variadic_actions', c.self))))])])
ARITY = lambda v: [Or(v == NONE, V.is_int(v))]
_add = Contract('agentspeak:Actions.add.<locals>._add', params=['f'], free={'functor': 'str', 'arity': ARITY, 'self': ('obj', AC)}, name='Actions.add decorator', **RKW)
isfn = lambda v: [V.is_obj(v), v != NONE]
add = Contract('agentspeak:Actions.add', params=['self', 'functor', 'arity', 'f'], types={'functor': 'str', 'arity': ARITY, 'f': isfn}, name='Actions.add', **RKW)
# ------------------------------------------------------------------ counting and converting arguments
LV = lambda o: OBJ(type(o), IntVal(REG.lid(o)))
frz = spec('frz', V, Map, Map, V); frzm = spec('frzm', V, Map, Map, Map)
conv = {k: spec('as_' + k.__name__, V, V) for k in (int, float, agentspeak.asl_str, tuple)}
isa = spec('isa', V, V, Bool)
def cv(sp, x):
    r = x
    for k, f in conv.items(): r = If(sp == LV(k), f(x), r)
    return r
cnt = spec('cnt', L, Int)
plain = lambda sp: And(sp != LV(RT.Environment), sp != LV(RT.Agent))
@unfolds(cnt)
def _(l): return [cnt(l) == If(l == NIL, 0, cnt(L.tl(l)) + If(plain(L.hd(l)), 1, 0)), cnt(l) >= 0]
zp = spec('zp', L, L, Map, Map, V, V, L)
@unfolds(zp)
def _(l, a, m, k, ag, en):
    sp = L.hd(l); x = L.hd(a); r = lambda a, k: zp(L.tl(l), a, m, k, ag, en)
    return [zp(l, a, m, k, ag, en) == If(l == NIL, NIL, If(sp == LV(RT.Environment), cons(en, r(a, k)), If(sp == LV(RT.Agent), cons(ag, r(a, k)), cons(cv(sp, frz(x, m, k)), r(L.tl(a), frzm(x, m, k))))))]
freeze = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, modifies=lambda c: [('map', c.memo)], raises=[(Exception, None)], verify=False, name='freeze (C04)',
    resfn=lambda c: frz(c.term, c.old.map(c.scope), c.old.map(c.memo)), ensures=lambda c: [c.now.map(c.memo) == frzm(c.term, c.old.map(c.scope), c.old.map(c.memo))])
lst = lambda v: If(V.is_tup(v), V.t(v), NIL)
def zexp(c): return zp(V.t(c.specs), V.t(c.args), c.old.map(c.scope), EMPTYMAP, c.agent, c.old.f('env', c.agent))
def z_loop(lc):
    c = lc.c; out = []
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    en = c.old.f('env', c.agent)
    left = [a for a0, a in lc.iters] + [drop(V.t(c.args), V.i(v)) for nm, v, v0 in lc.vals() if v0 is not None and v.sort() == V and (ctor(v) == 'int' or ctor(v0) == 'int')]      # what is left of the call's arguments
    got = [b for b0, b in lc.lists] + lc.accs                                                                      # what was collected so far
    for i, (d0, d) in enumerate(lc.dicts):
        for j, a in enumerate(left):
            for k, b in enumerate(got): out.append(('collected and to come (%d, %d, %d)' % (i, j, k), app(b, zp(drop(lc.ls[0], lc.idx), a, c.old.map(c.scope), d, c.agent, en)) == zexp(c)))
    out.append(('bindings', lc.n.map(c.scope) == c.old.map(c.scope)))
    return out
zip_specs = Contract('agentspeak:_zip_specs', params=['specs', 'agent', 'args', 'scope'], types={'specs': 'tup', 'args': 'tup', 'scope': D, 'agent': ('obj', RT.Agent)}, raises=[(Exception, None)], result=('list', None), loop=z_loop,
    ensures=lambda c: [('agent and environment where declared, copies of the arguments elsewhere', c.now.seq(c.res) == zexp(c)), ('bindings unchanged', c.now.map(c.scope) == c.old.map(c.scope))], name='_zip_specs')
def cnt_loop(lc):
    out = []
    if lc.kind == 'seq' and len(lc.ls) == 1:
        for nm, v, v0 in lc.vals(): out.append((nm + ' counts', And(V.is_int(v), V.i(v) + cnt(drop(lc.ls[0], lc.idx)) == cnt(lc.ls[0]))))
    return out
count_specs = Contract('agentspeak:_count_specs', params=['specs'], types={'specs': 'tup'}, loop=cnt_loop, result='int', ensures=lambda c: [('agent and environment are not counted', c.res == V.int(cnt(V.t(c.specs))))], name='_count_specs')
def conversion(k):
    def nat(eng, st, args, kw, fr):
        v = eng.toV(args[0])
        yield st.copy(), Raise(ExcV(Exception), eng.line)
        yield st, conv[k](v)
    return nat
def nat_isinstance(eng, st, args, kw, fr):
    c = eng.norm(args[1])
    if is_expr(c): yield st, V.bool(isa(eng.toV(args[0]), c)); return
    yield from eng.bi_isinstance(st, args, kw, fr)
view = View('C14', [lookup, _add, zip_specs, count_specs, freeze], fields=F, stable=[x for x in STABLE] + ['f:parent', 'f:actions', 'f:variadic_actions'], classes=CLASSES + [AC],
            natives={**{k: conversion(k) for k in conv}, isinstance: nat_isinstance})
LEMMAS = []
