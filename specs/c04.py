"""C04: copied terms are faithful and independent; grounding agrees with the groundness test.

val is an arbitrary assignment of ground values to variables, extended to terms with their annotations (as a set).
M(scope): the assignment respects the bindings.  M(memo): copies get the value of their originals.
FV(t, n): no variable of t is older than n.  Gr(t, m): t is ground under the bindings m."""
from specs.common import *
_G = z3.Datatype('GV')
for nm, fs in (('gnum', [('gr', Real)]), ('gbool', [('gb', Bool)]), ('gstr', [('gs', Str)]), ('gnil', []), ('gcons', [('ghd', _G), ('gtl', _G)]),
               ('glit', [('gf', V), ('ga', _G), ('gn', Int)]), ('goth', [('go', V)])): _G.declare(nm, *fs)
GV = _G.create(); GS = z3.ArraySort(GV, Bool)
val = spec('val', V, GV); vlist = spec('vlist', L, GV); M = spec('M', Map, Bool)
vset = spec('vset', L, GS); code = spec('code', GS, Int)
vapp = spec('vapp', L, GV, GV); sapp = spec('sapp', L, GS, GS)      # the elements of a list in front of a denoted list, added to a denoted set
LO = z3.Const('LO', Int)                     # an arbitrary age
FV = spec('FV', V, Bool); FVL = spec('FVL', L, Bool); FVm = spec('FVm', Map, Bool)
VF = spec('VF', V, Bool); VFL = spec('VFL', L, Bool)     # no variable and no wildcard
Gr = spec('Gr', V, Map, Bool); GrL = spec('GrL', L, Map, Bool)
Ex = spec('Ex', V, Map, Bool); ExL = spec('ExL', L, Map, Bool)    # an arithmetic or logical expression occurs (its evaluation may fail)
isexpr = lambda t: Or(V.is_una(t), V.is_bino(t))
@unfolds(val)
def _(t):
    v = val(t)
    return [Implies(isnum_(t), If(V.is_bool(t), v == GV.gbool(V.b(t)), v == GV.gnum(numval(t)))), Implies(V.is_str(t), v == GV.gstr(V.s(t))),
            Implies(V.is_tup(t), v == vlist(fld('t', t))), Implies(V.is_lit(t), v == GV.glit(fld('lf', t), vlist(fld('la', t)), code(vset(fld('ln', t))))),
            Implies(V.is_link(t), v == GV.gcons(val(fld('lh', t)), val(fld('lt', t)))),
            Implies(Or(V.is_none(t), V.is_obj(t), V.is_fset(t)), v == GV.goth(t)),
            Implies(V.is_una(t), v == op1(opf(fld('uo', t)), val(fld('ux', t)))), Implies(V.is_bino(t), v == op2(opf(fld('bo', t)), val(fld('bl', t)), val(fld('br', t))))]
OP = agentspeak.Operator
opf = spec('opf', V, V); op1 = spec('op1', V, GV, GV); op2 = spec('op2', V, GV, GV, GV)
class OpFn(object): "the Python function of an operator"
@unfolds(vlist)
def _(l):
    return [vlist(l) == If(l == NIL, GV.gnil, GV.gcons(val(L.hd(l)), vlist(L.tl(l))))]
@unfolds(vapp)
def _(l, g):
    r = [Implies(l == NIL, vapp(l, g) == g), Implies(g == GV.gnil, vapp(l, g) == vlist(l))]
    if info(l)[2] == 'snoc': a, x = ch(l); r.append(vapp(l, g) == vapp(a, GV.gcons(val(x), g)))
    return r
@unfolds(sapp)
def _(l, g):
    r = [Implies(l == NIL, sapp(l, g) == g), Implies(g == z3.K(GV, BoolVal(False)), sapp(l, g) == vset(l))]
    if info(l)[2] == 'snoc': a, x = ch(l); r.append(sapp(l, g) == sapp(a, Store(g, val(x), BoolVal(True))))
    return r
@unfolds(vset)
def _(l):
    r = [vset(l) == If(l == NIL, z3.K(GV, BoolVal(False)), Store(vset(L.tl(l)), val(L.hd(l)), BoolVal(True)))]
    if info(l)[2] == 'fsl': r.append(vset(l) == vset(ch(l)[0]))
    return r
def struct(P, PL, var, wild, expr=None):
    """P holds of a term iff it holds of its parts; PL: of every element"""
    @unfolds(P)
    def _(t):
        r = [Implies(V.is_var(t), P(t) == var(t)), Implies(V.is_wild(t), P(t) == wild), Implies(V.is_tup(t), P(t) == PL(fld('t', t))),
             Implies(V.is_lit(t), P(t) == And(PL(fld('la', t)), PL(fld('ln', t)))), Implies(V.is_link(t), P(t) == And(P(fld('lh', t)), P(fld('lt', t)))),
             Implies(Or(isnum_(t), V.is_str(t), V.is_none(t), V.is_obj(t), V.is_fset(t)), P(t))]
        if expr is not None: r.append(Implies(isexpr(t), P(t) == expr))
        return r
    @unfolds(PL)
    def _(l):
        r = [PL(l) == If(l == NIL, True, And(P(L.hd(l)), PL(L.tl(l))))]
        if info(l)[2] == 'snoc': a, x = ch(l); r.append(PL(l) == And(PL(a), P(x)))
        if info(l)[2] == 'fsl': r.append(PL(l) == PL(ch(l)[0]))
        return r
struct(FV, FVL, lambda t: V.vi(t) >= LO, True)
struct(VF, VFL, lambda t: BoolVal(False), False, BoolVal(False))
@unfolds(Gr)
def _(t, m):
    x = Select(m, t)
    return [Implies(V.is_var(t), Gr(t, m) == And(Opt.is_present(x), Gr(Opt.pv(x), m))), Implies(V.is_wild(t), Not(Gr(t, m))), Implies(V.is_tup(t), Gr(t, m) == GrL(fld('t', t), m)),
            Implies(V.is_lit(t), Gr(t, m) == And(GrL(fld('la', t), m), GrL(fld('ln', t), m))), Implies(V.is_link(t), Gr(t, m) == And(Gr(fld('lh', t), m), Gr(fld('lt', t), m))),
            Implies(Or(isnum_(t), V.is_str(t), V.is_none(t), V.is_obj(t), V.is_fset(t)), Gr(t, m)),
            Implies(V.is_una(t), Gr(t, m) == Gr(fld('ux', t), m)), Implies(V.is_bino(t), Gr(t, m) == And(Gr(fld('bl', t), m), Gr(fld('br', t), m)))]
@unfolds(GrL)
def _(l, m):
    r = [GrL(l, m) == If(l == NIL, True, And(Gr(L.hd(l), m), GrL(L.tl(l), m)))]
    if info(l)[2] == 'snoc': a, x = ch(l); r.append(GrL(l, m) == And(GrL(a, m), Gr(x, m)))
    return r
@unfolds(Ex)
def _(t, m):
    x = Select(m, t)
    return [Implies(V.is_var(t), Ex(t, m) == And(Opt.is_present(x), Ex(Opt.pv(x), m))), Implies(V.is_tup(t), Ex(t, m) == ExL(fld('t', t), m)),
            Implies(V.is_lit(t), Ex(t, m) == Or(ExL(fld('la', t), m), ExL(fld('ln', t), m))), Implies(V.is_link(t), Ex(t, m) == Or(Ex(fld('lh', t), m), Ex(fld('lt', t), m))), Implies(isexpr(t), Ex(t, m))]
@unfolds(ExL)
def _(l, m): return [ExL(l, m) == If(l == NIL, False, Or(Ex(L.hd(l), m), ExL(L.tl(l), m)))]
# facts about an element of a list (lemmas elem_*)
@handler('nth')
def _(t, ix):
    l, i = ch(t); g = And(i >= 0, i < llen(l)); r = []
    ms = [ch(e)[1] for e in ix.by.get('GrL', ())[:50]] + [ch(e)[1] for e in ix.by.get('ExL', ())[:50]]
    done = set()
    for m in ms:
        if m.get_id() in done: continue
        done.add(m.get_id())
        r += [Implies(And(g, GrL(l, m)), Gr(t, m)), Implies(And(g, Ex(t, m)), ExL(l, m))]
    return r
def _elem():
    """induction over the list: position i of l is position i-1 of its tail"""
    l = z3.Const('l', L); i = z3.Int('i'); m = z3.Const('m', Map); x = z3.Const('x', V)
    P = z3.Function('P0', V, Bool); PL = z3.Function('PL0', L, Bool); n0 = z3.Function('nth0', L, Int, V)
    df = PL(l) == If(l == NIL, True, And(P(L.hd(l)), PL(L.tl(l))))
    nd = [Implies(And(i == 0, l != NIL), n0(l, i) == L.hd(l)), Implies(And(i > 0, l != NIL), n0(l, i) == n0(L.tl(l), i - 1))]
    g = And(i >= 0, i < llen(l), llen(l) == If(l == NIL, 0, 1 + llen(L.tl(l))))
    yield 'every element', [df, g] + nd + [Implies(And(i - 1 >= 0, i - 1 < llen(L.tl(l)), PL(L.tl(l))), P(n0(L.tl(l), i - 1))), PL(l)], P(n0(l, i))
    df = PL(l) == If(l == NIL, False, Or(P(L.hd(l)), PL(L.tl(l))))
    yield 'some element', [df, g] + nd + [Implies(And(i - 1 >= 0, i - 1 < llen(L.tl(l)), P(n0(L.tl(l), i - 1))), PL(L.tl(l))), P(n0(l, i))], PL(l)
Lemma('elem', lambda: list(_elem()))
def on_store(m):
    a, k, o = ch(m)
    return None if info(o)[2] != 'present' else (a, k, ch(o)[0])
@unfolds(M)
def _(m):
    if info(m)[3] == z3.Z3_OP_STORE:
        r = on_store(m)
        if r: a, k, x = r; return [Implies(Not(Opt.is_present(Select(a, k))), M(m) == And(M(a), val(k) == val(x)))]
    if info(m)[3] == z3.Z3_OP_CONST_ARRAY: return [M(m) == True]
@unfolds(FVm)
def _(m):
    if info(m)[3] == z3.Z3_OP_STORE:
        r = on_store(m)
        if r: a, k, x = r; return [Implies(And(FVm(a), FV(x)), FVm(m))]
    if info(m)[3] == z3.Z3_OP_CONST_ARRAY: return [FVm(m) == True]
def _sel(t, ix):
    m, k = ch(t)
    if m.sort() != Map: return []
    p = Opt.pv(t)
    return [Implies(And(M(m), Opt.is_present(t)), val(k) == val(p)), Implies(And(FVm(m), Opt.is_present(t)), FV(p))]
SELECT_HANDLERS.append(_sel)

K1, K2 = z3.Consts('K1 K2', V)       # two arbitrary distinct variables
def inj(m):
    a, b = Select(m, K1), Select(m, K2)
    return Implies(And(K1 != K2, Opt.is_present(a), Opt.is_present(b)), Opt.pv(a) != Opt.pv(b))
def below(m, n): return And(*[Implies(Opt.is_present(Select(m, k)), And(V.is_var(Opt.pv(Select(m, k))), V.vi(Opt.pv(Select(m, k))) < n)) for k in (K1, K2)])
NOATTR = (AttributeError,)
T = {'scope': D}
F = ['Var', 'Wildcard', 'UnaryExpr', 'BinaryExpr', 'Literal', 'LinkedList']
def tgt(m): return ['agentspeak:' + m] + ['agentspeak:%s.%s' % (k, m) for k in F]
def fpost(c):
    m, a, b = c.old.map(c.scope), c.old.map(c.memo), c.now.map(c.memo)
    return mpost(c.old, c.now, c.memo) + [('the copy denotes the same term', Implies(And(M(m), M(b)), val(c.res) == val(c.term))),
            ('the copy contains no variable of the original', Implies(And(LO <= c.old.alloc, FVm(a)), FV(c.res)))]
def mpost(o, n, memo):
    a, b = o.map(memo), n.map(memo)
    return [('earlier renamings are kept', Implies(M(b), M(a))), ('renamings use new variables only', Implies(And(LO <= o.alloc, FVm(a)), FVm(b))),
            ('distinct variables get distinct copies', Implies(And(inj(a), below(a, o.alloc)), And(inj(b), below(b, n.alloc))))]
def floop(lc):
    c = lc.c; m = c.old.map(c.scope); out = mpost(c.old, lc.n, c.memo)
    b = lc.n.map(c.memo); out.append(('renamings of this loop are kept', Implies(M(b), M(lc.e.map(c.memo)))))
    if lc.accs and lc.ls:
        acc, ls = lc.accs[0], lc.ls[0]; dr = drop(ls, lc.idx)
        out += [('copied so far', Implies(And(M(m), M(b)), And(vapp(acc, vlist(dr)) == vlist(ls), sapp(acc, vset(dr)) == vset(ls)))),
                ('no variable of the original so far', Implies(And(LO <= c.old.alloc, FVm(c.old.map(c.memo))), FVL(acc)))]
    return out
freeze = Contract(tgt('freeze'), params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, requires=lambda c: [('separate containers', V.oi(c.scope) != V.oi(c.memo))],
    modifies=lambda c: [('map', c.memo)], raises=[(Exception, lambda c: mpost(c.old, c.now, c.memo))], noraise=NOATTR, ensures=fpost, loop=floop, name='freeze')
def gpost(c):
    m = c.old.map(c.scope)
    return [('success means the term is ground', Gr(c.term, m)), ('the result contains no variable', VF(c.res)), ('the result is the same term', Implies(M(m), val(c.res) == val(c.term)))]
def gfail(c):
    m = c.old.map(c.scope)
    return [('an error means the term is not ground (or an expression in it cannot be evaluated)', Or(Not(Gr(c.term, m)), Ex(c.term, m)))]
def gloop(lc):
    c = lc.c; m = c.old.map(c.scope); out = []
    if lc.ls:
        ls = lc.ls[0]; dr = drop(ls, lc.idx)
        out += [('ground so far', GrL(ls, m) == GrL(dr, m))]
        if lc.accs: out += [('same so far', Implies(M(m), And(vapp(lc.accs[0], vlist(dr)) == vlist(ls), sapp(lc.accs[0], vset(dr)) == vset(ls)))), ('variable-free so far', VFL(lc.accs[0]))]
    return out
grounded = Contract(tgt('grounded'), params=['term', 'scope'], types=T, raises=[(Exception, gfail)], noraise=NOATTR, ensures=gpost, loop=gloop, name='grounded')
isg = Contract(tgt('is_ground'), params=['term', 'scope'], types=T, result='bool', noraise=NOATTR,
    ensures=lambda c: [('true exactly for ground terms', V.b(c.res) == Gr(c.term, c.old.map(c.scope)))], loop=gloop, name='is_ground')
def epost(c):
    m = c.old.map(c.scope)
    return [('evaluation keeps the value', Implies(M(m), val(c.res) == val(c.term))), ('evaluation keeps groundness', Gr(c.res, m) == Gr(c.term, m)),
            ('an unbound variable stays itself', Implies(V.is_var(c.res), Not(Opt.is_present(Select(m, c.res))))), ('the result is evaluated', Not(isexpr(c.res)))]
def opfacts(c):
    o = V.uo(c.term) if c.fn.key.endswith('UnaryExpr.evaluate') else V.bo(c.term)
    if not c.fn.key.endswith('Expr.evaluate'): return []
    if c.fn.key.endswith('UnaryExpr.evaluate'): return type_facts(o, ('obj', OP), c.old.alloc) + [c.old.f('func', o) == opf(o), Or(c.old.f('boolean_op', o) == TRUE, c.old.f('numeric_op', o) == TRUE)]
    return type_facts(o, ('obj', OP), c.old.alloc) + [c.old.f('func', o) == opf(o)] + [Or(c.old.f(f'boolean_op', o) == TRUE, c.old.f('numeric_op', o) == TRUE, c.old.f('comp_op', o) == TRUE)]
evaluate = Contract(tgt('evaluate')[:5], params=['term', 'scope'], types=T, raises=[(Exception, lambda c: [Ex(c.term, c.old.map(c.scope))])], noraise=NOATTR, assumes=opfacts, ensures=epost, name='evaluate')
def dpost(c):
    m = c.old.map(c.scope)
    return [('dereferencing keeps the value', Implies(M(m), val(c.res) == val(c.term))), ('the result is not bound', Not(Opt.is_present(Select(m, c.res)))),
            ('dereferencing keeps groundness', Gr(c.res, m) == Gr(c.term, m)), ('and expressions', Ex(c.res, m) == Ex(c.term, m))]
VK = spec('VK', Map, Bool)
deref = Contract('agentspeak:deref', params=['term', 'scope'], types=T, assumes=lambda c: [onlyvars(c)], ensures=dpost, name='deref',
    loop=lambda lc: [('same value', Implies(M(lc.n.map(lc.c.scope)), val(lc.local('term')) == val(lc.c.term))),
                     ('same groundness', Gr(lc.local('term'), lc.n.map(lc.c.scope)) == Gr(lc.c.term, lc.n.map(lc.c.scope))),
                     ('same expressions', Ex(lc.local('term'), lc.n.map(lc.c.scope)) == Ex(lc.c.term, lc.n.map(lc.c.scope)))])
def onlyvars(c): return VK(c.old.map(c.scope))     # only variables are bound
def _sel2(t, ix):
    m, k = ch(t)
    return [Implies(And(VK(m), Opt.is_present(t)), V.is_var(k))] if m.sort() == Map else []
SELECT_HANDLERS.append(_sel2)
for c_ in (freeze, grounded, isg, evaluate):
    c_.assumes = (lambda old: lambda c: [onlyvars(c)] + (old(c) if old else []))(c_.assumes)
def opcall(eng, st, f, args, kw, fr):
    if eng.hintof(st, f) != ('iface', OpFn): return None
    eng.assumed.add("an operator's Python function computes a number or truth value from its operands' values, or raises something else than AttributeError")
    def go():
        e = ExcV(Exception); e.open = True; e.excl = NOATTR
        yield st.copy(), Raise(e, eng.line)
        s = st.copy(); v = fresh('op', V); a = [val(eng.toV(x)) for x in args]
        s.assume(isnum_(v), val(v) == (op1(f, *a) if len(a) == 1 else op2(f, *a))); yield s, v
    return go()
view = View('C04', [freeze, grounded, isg, evaluate, deref], fields={**runtime_fields(), (OP, 'boolean_op'): 'bool', (OP, 'numeric_op'): 'bool', (OP, 'comp_op'): 'bool', (OP, 'lexeme'): 'str', (OP, 'func'): ('iface', OpFn)},
            stable=STABLE, classes=CLASSES + [OP], symcall=opcall)
LEMMAS = ['elem']
