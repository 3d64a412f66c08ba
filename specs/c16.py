"""C16: equality, hashing and ordering of terms are coherent.

canon maps every term to a normal form; two terms are equal exactly when their normal forms are.  Equality being the
equality of normal forms, it is symmetric and transitive, and a hash that is a function of the normal form is coherent.
Order is given by one comparison code per pair of terms (-1, 0, 1, or 2 for incomparable)."""
from specs.common import *
canon = spec('canon', V, V); canonl = spec('canonl', L, L); canonset = spec('canonset', L, L)
proper = spec('proper', V, Bool); its = spec('its', V, L); strs = spec('strs', L, Bool)
HH = spec('HH', V, Int)                          # the builtin hash of a builtin value, by its normal form
vcmp = spec('vcmp', V, V, Int); tcmp = spec('tcmp', L, L, Int)
islist = lambda v: Or(V.is_tup(v), V.is_link(v))
@unfolds(proper)
def _(v): return [proper(v) == If(V.is_tup(v), True, If(V.is_link(v), proper(V.lt(v)), False))]
@unfolds(its)
def _(v): return [its(v) == If(V.is_tup(v), V.t(v), If(V.is_link(v), cons(V.lh(v), its(V.lt(v))), NIL))]
@unfolds(canonl)
def _(l):
    if ctorL(l): return [canonl(l) == (NIL if ctorL(l) == 'nil' else cons(canon(l.arg(0)), canonl(l.arg(1))))]
    return [canonl(l) == If(l == NIL, NIL, cons(canon(L.hd(l)), canonl(L.tl(l))))]
@unfolds(canon)
def _(v):
    c = canon(v)
    if ctor(v) == 'tup': return [c == V.tup(canonl(v.arg(0)))]
    if ctor(v) == 'fset': return [c == V.fset(canonset(v.arg(0)))]
    if ctor(v) == 'lit': return [c == V.lit(canon(v.arg(0)), canonl(v.arg(1)), canonset(v.arg(2)))]
    return [Implies(isnum_(v), c == V.flt(numval(v))), Implies(V.is_tup(v), c == V.tup(canonl(V.t(v)))), Implies(V.is_fset(v), c == V.fset(canonset(V.fs(v)))),
            Implies(V.is_lit(v), c == V.lit(canon(V.lf(v)), canonl(V.la(v)), canonset(V.ln(v)))),
            Implies(V.is_link(v), c == If(proper(v), V.tup(canonl(its(v))), V.link(canon(V.lh(v)), canon(V.lt(v))))),
            Implies(Not(Or(isnum_(v), V.is_tup(v), V.is_fset(v), V.is_lit(v), V.is_link(v))), c == v)]
eq = lambda a, b: canon(a) == canon(b)
# ------------------------------------------------------------------ order
atom = lambda v: And(V.la(v) == NIL, V.ln(v) == NIL)
cmpable = lambda a, b: And(V.is_lit(b), Or(And(atom(a), atom(b)), And(V.lf(a) == V.lf(b), llen(V.la(a)) == llen(V.la(b)))))
slt = lambda a, b: V.s(a) < V.s(b)
scmp = lambda a, b: If(a == b, 0, If(slt(a, b), -1, 1))
lcmp = lambda a, b: If(And(atom(a), atom(b)), scmp(V.lf(a), V.lf(b)), tcmp(V.la(a), V.la(b)))
ncmp = lambda a, b: If(numval(a) < numval(b), IntVal(-1), If(numval(a) > numval(b), IntVal(1), IntVal(0)))
@unfolds(tcmp)
def _(a, b):
    r = tcmp(a, b); h = eq(L.hd(a), L.hd(b))
    return [r == If(a == NIL, If(b == NIL, 0, -1), If(b == NIL, 1, If(h, tcmp(L.tl(a), L.tl(b)), vcmp(L.hd(a), L.hd(b)))))]
@unfolds(vcmp)
def _(a, b):
    r = vcmp(a, b)
    return [r == If(And(isnum_(a), isnum_(b)), ncmp(a, b), If(And(V.is_str(a), V.is_str(b)), scmp(a, b), If(And(islist(a), islist(b)), If(And(proper(a), proper(b)), tcmp(its(a), its(b)), 2),
            If(And(V.is_lit(a), V.is_lit(b)), If(cmpable(a, b), lcmp(a, b), 2), 2))))]
REL = {'lt': lambda k: k == -1, 'le': lambda k: Or(k == -1, k == 0), 'gt': lambda k: k == 1, 'ge': lambda k: Or(k == 1, k == 0)}
def orderv(eng, st, nm, A, B):
    """a tuple against a tuple, element by element (the documented behaviour of the builtin)"""
    if eng.tag_of(st, A) != 'tup' or eng.tag_of(st, B) != 'tup': return None
    eng.assumed.add('tuples are ordered by their first unequal elements (builtin)')
    def go():
        k = tcmp(V.t(A), V.t(B))
        for s, bad in eng.split(st, k == 2):
            if bad: yield s, mkraise(TypeError, eng.line)
            else: yield s, V.bool(REL[nm](k))
    return go()
def nat_hash(eng, st, args, kw, fr):
    eng.assumed.add('builtin hashes of equal values agree (numbers, strings, tuples and frozensets of such)')
    yield st, V.int(HH(canon(eng.toV(args[0]))))
tup_ = lambda *xs: V.tup(mklist(list(xs)))
def hashof(v): return If(V.is_lit(v), HH(canon(tup_(V.lf(v), V.tup(V.la(v)), V.fset(V.ln(v))))), If(proper(v), HH(canon(V.tup(its(v)))), HH(canon(tup_(V.lh(v), V.lt(v))))))
hcode = spec('hcode', V, V)                      # the hash of a term as a function of its normal form
@handler('hcode')
def _(e, ix):
    t = ch(e)[0]; return [Implies(V.is_lit(t), hcode(t) == V.int(HH(tup_(V.lf(t), V.tup(V.la(t)), V.fset(V.ln(t)))))), Implies(V.is_tup(t), hcode(t) == V.int(HH(t))), Implies(V.is_link(t), hcode(t) == V.int(HH(tup_(V.lh(t), V.lt(t)))))]
isstr = lambda v: [V.is_str(V.lf(v))]
NI = OBJ(type(NotImplemented), IntVal(REG.lid(NotImplemented)))
fstr = lambda c: [('functors are strings', And(V.is_str(V.lf(c.self)), Implies(V.is_lit(c.other), V.is_str(V.lf(c.other)))))]
LT, LK = agentspeak.Literal, agentspeak.LinkedList
def eqcon(cls): return [Contract('agentspeak:%s.__ne__' % cls, params=['self', 'other'], requires=fstr if cls == 'Literal' else None, ensures=lambda c: [('different normal forms', c.res == V.bool(Not(eq(c.self, c.other))))], name=cls + '.__ne__', fuels=(2, 4, 6)),
                        Contract('agentspeak:%s.__eq__' % cls, params=['self', 'other'], requires=fstr if cls == 'Literal' else None, ensures=lambda c: [('the same normal form', c.res == V.bool(eq(c.self, c.other)))], name=cls + '.__eq__', fuels=(2, 4, 6)),
                        Contract('agentspeak:%s.__hash__' % cls, params=['self'], ensures=lambda c: [('a function of the normal form', c.res == hcode(canon(c.self)))], name=cls + '.__hash__', fuels=(2, 4, 6))]
def litord(nm): return Contract('agentspeak:Literal.__%s__' % nm, params=['self', 'other'], requires=fstr, name='Literal.__%s__' % nm, fuels=(2, 4, 6),
    ensures=lambda c: [('incomparable literals are not ordered', (c.res == NI) == Not(cmpable(c.self, c.other))), ('one comparison decides', Implies(cmpable(c.self, c.other), c.res == V.bool(REL[nm](lcmp(c.self, c.other)))))],
    raises=[(TypeError, lambda c: [('only for incomparable arguments', And(cmpable(c.self, c.other), lcmp(c.self, c.other) == 2))])])
def linkord(nm): return Contract('agentspeak:LinkedList.__%s__' % nm, params=['self', 'other'], name='LinkedList.__%s__' % nm, fuels=(2, 4, 6), loop=tloop,
    ensures=lambda c: [('a list is only ordered against a list', (c.res == NI) == Not(islist(c.other))), ('one comparison decides', Implies(islist(c.other), And(proper(c.self), proper(c.other), c.res == V.bool(REL[nm](tcmp(its(c.self), its(c.other)))))))],
    raises=[(TypeError, lambda c: [('only for open lists or incomparable elements', Or(Not(proper(c.self)), Not(proper(c.other)), tcmp(its(c.self), its(c.other)) == 2))])])
# ------------------------------------------------------------------ the elements of a list
def tloop(lc):
    out = []
    if lc.kind == 'gen' and lc.rest is not None:
        for i, a in enumerate(lc.accs): out.append(('elements so far and to come %d' % i, app(a, lc.rest) == lc.erest))
        if 'rest' in lc.ghost: out.append(('offered as the tail gives them', lc.ghost['rest'] == lc.rest))
    if lc.kind == 'seq' and len(lc.ls) == 1:
        for i, a in enumerate(lc.accs): out.append(('elements of the tuple so far and to come %d' % i, app(a, drop(lc.ls[0], lc.idx)) == lc.ls[0]))
    if lc.kind == 'seq' and len(lc.ls) == 1 and 'rest' in lc.ghost: out.append(('the rest of the tail', lc.ghost['rest'] == drop(lc.ls[0], lc.idx)))
    return out
iter_ = Contract('agentspeak:LinkedList.__iter__', params=['self'], types={}, gen=True, trace=lambda c: its(c.self), loop=tloop, modifies=lambda c: [],
    yields=lambda c: [('the next element', c.y == c.item)], exits=lambda c: [('a proper list', proper(c.self))], raises=[(TypeError, lambda c: [('only open lists are refused', Not(proper(c.self)))])], name='LinkedList.__iter__', fuels=(2, 4, 6))
for k, f in dict(tracecons=lambda l: L.is_cons(l), tracehead=lambda l: L.hd(l), tracetail=lambda l: L.tl(l), tracenil=lambda l: l == NIL).items(): setattr(iter_, k, f)
for con in (LKC := eqcon('LinkedList')): con.loop = tloop
view = View('C16', eqcon('Literal') + LKC + [iter_] + [litord(n) for n in REL] + [linkord(n) for n in REL], classes=[type(NotImplemented)], eqv=eq, orderv=orderv, natives={hash: nat_hash})
# ------------------------------------------------------------------ antisymmetry of the comparison
def anti(a, b): x, y = (vcmp(a, b), vcmp(b, a)) if a.sort() == V else (tcmp(a, b), tcmp(b, a)); return And((x == 2) == (y == 2), Implies(x != 2, x == -y))
def _anti():
    a, b = z3.Consts('a b', V); l, r = z3.Consts('l r', L)
    yield 'lists', [anti(L.hd(l), L.hd(r)), anti(L.tl(l), L.tl(r)), anti(NIL, r), anti(l, NIL)][:2], anti(l, r)
    x, y = V.s(a), V.s(b)
    yield 'terms', [anti(V.la(a), V.la(b)), anti(its(a), its(b)), Implies(And(V.is_lit(a), V.is_lit(b)), And(V.is_str(V.lf(a)), V.is_str(V.lf(b))))], anti(a, b)
Lemma('comparison is antisymmetric', lambda: list(_anti()))
LEMMAS = ['comparison is antisymmetric']
