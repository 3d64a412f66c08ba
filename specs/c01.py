"""C01: unification is exact.

val is an arbitrary assignment of ground values to variables (and wildcards), extended to terms; M(scope) says
that it respects the bindings.  The contracts hold for every such assignment."""
from specs.common import *
_G = z3.Datatype('GV')
for nm, fs in (('gnum', [('gr', Real)]), ('gbool', [('gb', Bool)]), ('gstr', [('gs', Str)]), ('gnil', []), ('gcons', [('ghd', _G), ('gtl', _G)]),
               ('glit', [('gf', Int), ('ga', _G)]), ('goth', [('go', V)])): _G.declare(nm, *fs)
GV = _G.create()
val = spec('val', V, GV); vlist = spec('vlist', L, GV); M = spec('M', Map, Bool); fk = spec('fk', V, Int)
W = spec('W', V, Bool); WL = spec('WL', L, Bool); Wm = spec('Wm', Map, Bool)     # a term without wildcard
def isterm(t): return Not(Or(V.is_fset(t), V.is_obj(t)))
@unfolds(val)
def _(t):
    v = val(t)
    return [Implies(isnum_(t), If(V.is_bool(t), v == GV.gbool(V.b(t)), v == GV.gnum(numval(t)))), Implies(V.is_str(t), v == GV.gstr(V.s(t))),
            Implies(V.is_tup(t), v == vlist(V.t(t))), Implies(V.is_lit(t), v == GV.glit(fk(V.lf(t)), vlist(V.la(t)))),
            Implies(V.is_link(t), v == GV.gcons(val(V.lh(t)), val(V.lt(t)))),
            Implies(Or(V.is_none(t), V.is_obj(t), V.is_fset(t)), v == GV.goth(t))]
@unfolds(vlist)
def _(l): return [vlist(l) == If(l == NIL, GV.gnil, GV.gcons(val(L.hd(l)), vlist(L.tl(l))))]
glen = spec('glen', GV, Int)          # number of elements of a denoted list
@unfolds(glen)
def _(g): return [glen(g) == If(GV.is_gcons(g), 1 + glen(GV.gtl(g)), 0), glen(g) >= 0]
@handler('vlist')
def _(t, ix): return [glen(t) == llen(ch(t)[0])]       # lemma vlist_len
def _vlen():
    l = z3.Const('l', L)
    yield 'vlist_len step', [Implies(l != NIL, GLEN(VL(L.tl(l))) == llen(L.tl(l))), VL(l) == If(l == NIL, GV.gnil, GV.gcons(val(L.hd(l)), VL(L.tl(l)))),
        GLEN(VL(l)) == If(GV.is_gcons(VL(l)), 1 + GLEN(GV.gtl(VL(l))), 0)], GLEN(VL(l)) == llen(l)
GLEN = z3.Function('glen0', GV, Int); VL = z3.Function('vlist0', L, GV)      # uninstrumented copies for the proof of the lemma
Lemma('vlist_len', lambda: list(_vlen()))
@unfolds(W)
def _(t):
    return [Implies(Or(V.is_wild(t), V.is_obj(t), V.is_fset(t)), Not(W(t))), Implies(V.is_tup(t), W(t) == WL(V.t(t))), Implies(V.is_lit(t), W(t) == WL(V.la(t))),
            Implies(V.is_link(t), W(t) == And(W(V.lh(t)), W(V.lt(t)))), Implies(Or(isnum_(t), V.is_str(t), V.is_var(t), V.is_none(t)), W(t))]
@unfolds(WL)
def _(l): return [WL(l) == If(l == NIL, True, And(W(L.hd(l)), WL(L.tl(l))))]
@handler('pyeq')
def _(t, ix):
    a, b = ch(t); return [t == (fk(a) == fk(b))]          # == is an equivalence on functors
def on_store(m):
    a, k, o = ch(m)
    if info(o)[2] != 'present': return None
    return a, k, ch(o)[0]
@unfolds(M)
def _(m):
    if info(m)[3] == z3.Z3_OP_STORE:
        r = on_store(m)
        if r: a, k, x = r; return [Implies(Not(Opt.is_present(Select(a, k))), M(m) == And(M(a), val(k) == val(x)))]
    if info(m)[3] == z3.Z3_OP_CONST_ARRAY: return [M(m) == True]
@unfolds(Wm)
def _(m):
    if info(m)[3] == z3.Z3_OP_STORE:
        r = on_store(m)
        if r: a, k, x = r; return [Implies(And(Wm(a), W(x)), Wm(m))]
    if info(m)[3] == z3.Z3_OP_CONST_ARRAY: return [Wm(m) == True]
@handler('M')
def _(t, ix):
    ix.x.setdefault('Mmaps', {})[ch(t)[0].get_id()] = 1
    return []
def _sel(t, ix):
    m, k = ch(t)
    if m.sort() != Map: return []
    p = Opt.pv(t)
    return [Implies(And(M(m), Opt.is_present(t)), val(k) == val(p)), Implies(And(Wm(m), Opt.is_present(t)), W(p))]
SELECT_HANDLERS.append(_sel)

NOATTR = (AttributeError,)
SC = {'scope': D}; SCST = {'scope': D, 'stack': DQ}
mods = lambda c: [('map', c.scope), ('seq', c.stack)]
def uniq(c, l, r):
    """the exactness of unification between the heaps of c"""
    m, n = c.old.map(c.scope), c.now.map(c.scope)
    return m, n
def post(c):
    m, n = c.old.map(c.scope), c.now.map(c.scope); ok = V.b(c.res)
    eq = val(c.left) == val(c.right)
    P = And(W(c.left), W(c.right), Wm(m))
    return [('success exactly when unifiable: failure means no assignment', Implies(And(Not(ok), M(m)), val(c.left) != val(c.right))),
            ('most general: an assignment that unifies respects the new bindings', Implies(And(ok, M(m), eq), M(n))),
            ('earlier bindings stay in force', Implies(M(n), M(m))),
            ('sound: an assignment respecting the new bindings unifies the terms', Implies(And(P, ok, M(n)), eq)),
            ('no wildcard is stored', Implies(P, Wm(n)))]
def loop(lc):
    c = lc.c; out = []
    m, n, e = c.old.map(c.scope), lc.n.map(c.scope), lc.e.map(c.scope)
    out += [('earlier bindings stay in force', Implies(M(n), M(m))), ('no wildcard is stored', Implies(And(W(c.left), W(c.right), Wm(m)), Wm(n)))]
    if len(lc.ls) == 2:
        a, b = [drop(x, lc.idx) for x in lc.ls]
        P = And(WL(lc.ls[0]), WL(lc.ls[1]), Wm(e))
        out += [('most general so far', Implies(And(M(e), vlist(lc.ls[0]) == vlist(lc.ls[1])), And(M(n), vlist(a) == vlist(b)))),
                ('sound so far', Implies(And(P, M(n), vlist(a) == vlist(b)), vlist(lc.ls[0]) == vlist(lc.ls[1]))),
                ('no wildcard is stored yet', Implies(P, And(Wm(n), WL(a), WL(b))))]
    return out
U = ['Var', 'Wildcard', 'UnaryExpr', 'BinaryExpr', 'Literal', 'LinkedList']
unify = Contract(['agentspeak:unify'] + ['agentspeak:%s.unify' % k for k in U], params=['left', 'right', 'scope', 'stack'], types=SCST, modifies=mods, result='bool',
    assumes=lambda c: [isterm(c.left), isterm(c.right)], ensures=post, raises=[(Exception, None)], noraise=NOATTR, loop=loop, name='unify')
def epost(c):
    m = c.old.map(c.scope)
    return [('evaluation keeps the value', Implies(M(m), val(c.res) == val(c.term))),
            ('the result is not a bound variable', Implies(V.is_var(c.res), Not(Opt.is_present(Select(m, c.res))))),
            ('the result is evaluated', Not(Or(V.is_una(c.res), V.is_bino(c.res)))),
            ('no wildcard appears', Implies(And(W(c.term), Wm(m)), W(c.res)))]
evaluate = Contract(['agentspeak:evaluate', 'agentspeak:Var.evaluate', 'agentspeak:Wildcard.evaluate'], params=['term', 'scope'], types=SC, raises=[(Exception, None)], noraise=NOATTR, ensures=epost, name='evaluate')
# expressions: the value denoted by an expression is what its operator's Python function computes from the values of the operands
OP = agentspeak.Operator
opf = spec('opf', V, V); op1 = spec('op1', V, GV, GV); op2 = spec('op2', V, GV, GV, GV)
class OpFn(object): "the Python function of an operator"
@unfolds(val)
def _(t):
    if info(t)[2] in ('tup', 'lit', 'link'): return []
    return [Implies(V.is_una(t), val(t) == op1(opf(V.uo(t)), val(V.ux(t)))), Implies(V.is_bino(t), val(t) == op2(opf(V.bo(t)), val(V.bl(t)), val(V.br(t))))]
def opfacts(c):
    o = V.uo(c.term) if c.fn.key.endswith('UnaryExpr.evaluate') else V.bo(c.term)
    return type_facts(o, ('obj', OP), c.old.alloc) + [c.old.f('func', o) == opf(o)]
evalx = Contract(['agentspeak:UnaryExpr.evaluate', 'agentspeak:BinaryExpr.evaluate'], params=['term', 'scope'], types=SC, raises=[(Exception, None)], noraise=NOATTR, ensures=epost, assumes=opfacts, name='evaluate an expression')
def opcall(eng, st, f, args, kw, fr):
    if eng.hintof(st, f) != ('iface', OpFn): return None
    eng.assumed.add("an operator's Python function computes a number or truth value from its operands' values, or raises something else than AttributeError")
    def go():
        e = ExcV(Exception); e.open = True; e.excl = NOATTR
        yield st.copy(), Raise(e, eng.line)
        s = st.copy(); v = fresh('op', V); a = [val(eng.toV(x)) for x in args]
        s.assume(isnum_(v), val(v) == (op1(f, *a) if len(a) == 1 else op2(f, *a))); yield s, v
    return go()
ground = Contract('agentspeak:grounded', params=['term', 'scope'], types=SC, raises=[(Exception, None)], noraise=NOATTR, verify=False,
    ensures=lambda c: [Implies(M(c.old.map(c.scope)), val(c.res) == val(c.term))], name='grounded (proved under C04)')
def dpost(c):
    m = c.old.map(c.scope)
    return [('dereferencing keeps the value', Implies(M(m), val(c.res) == val(c.term))), ('the result is not bound', Not(Opt.is_present(Select(m, c.res)))),
            ('no wildcard appears', Implies(And(W(c.term), Wm(m)), W(c.res)))]
deref = Contract('agentspeak:deref', params=['term', 'scope'], types=SC, ensures=dpost, name='deref',
    loop=lambda lc: [('same value', Implies(M(lc.n.map(lc.c.scope)), val(lc.local('term')) == val(lc.c.term))), ('no wildcard', Implies(And(W(lc.c.term), Wm(lc.c.old.map(lc.c.scope))), W(lc.local('term'))))])
unifies = Contract('agentspeak:unifies', params=['left', 'right'], result='bool', raises=[(Exception, None)], noraise=NOATTR,
    assumes=lambda c: [isterm(c.left), isterm(c.right)], ensures=lambda c: [('failure means the terms are not unifiable', Implies(Not(V.b(c.res)), val(c.left) != val(c.right)))], name='unifies')
view = View('C01', [unify, evaluate, evalx, ground, deref, unifies], fields={**runtime_fields(), (OP, 'boolean_op'): 'bool', (OP, 'numeric_op'): 'bool', (OP, 'comp_op'): 'bool', (OP, 'lexeme'): 'str', (OP, 'func'): ('iface', OpFn)}, stable=STABLE, classes=CLASSES + [OP], symcall=opcall)
LEMMAS = ['vlist_len']
