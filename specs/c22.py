"""C22: .count, .findall, .member, .range and .nth compute what they promise, over the solutions of their query (C03)."""
from specs.c03 import *
import agentspeak.ext_stdlib
from pydv.exec import strjoin, lsum
from pydv.engine import Unsupported, Raise, ExcV
from specs.common import action_targets
tsols = spec('tsols', V, Map, L)                # the solutions a literal query offers (C03)
frz = spec('frz', V, Map, V); frzs = spec('frzs', L, V, L)
grd = spec('grd', V, Map, V)
isll, lhd, ltl = V.is_link, V.lh, V.lt
mems = spec('mems', V, Map, L)                  # the elements of an evaluated list, in either notation
each = spec('each', L, V, Map, L)               # the ways to unify a term with each of a list of values, in order
upto = spec('upto', Int, Int, V, Map, L)        # with each number from the first to below the second
@unfolds(frzs)
def _(l, p): return [frzs(l, p) == If(l == NIL, NIL, cons(frz(p, dec(L.hd(l))), frzs(L.tl(l), p)))]
@unfolds(mems)
def _(v, m): return [mems(v, m) == If(isll(v), cons(lhd(v), mems(evl(ltl(v), m), m)), V.t(v))]
proper = spec('proper', V, Map, Bool)           # a list, in either notation
@unfolds(proper)
def _(v, m): return [proper(v, m) == If(isll(v), proper(evl(ltl(v), m), m), V.is_tup(v))]
def uni(a, b, m, rest=NIL): return If(unb(a, b, m), cons(enc(unm(a, b, m)), rest), rest)
@unfolds(each)
def _(l, t, m): return [each(l, t, m) == If(l == NIL, NIL, uni(t, L.hd(l), m, each(L.tl(l), t, m)))]
@unfolds(upto)
def _(i, k, t, m): return [upto(i, k, t, m) == If(i >= k, NIL, uni(V.int(i), t, m, upto(i + 1, k, t, m)))]
unify22 = Contract('agentspeak:unify', params=['left', 'right', 'scope', 'stack'], types=SCST, modifies=mods, result='bool', raises=[(Exception, None)], verify=False, name='unify (C01, C02)',
    ensures=unify.ensures)
@handler('unb')
def _(e, ix):
    """unifying with a number or a list of values is symmetric (C01)"""
    a, b, m = ch(e); v = lambda x: Or(V.is_int(x), V.is_flt(x), V.is_tup(x))
    return [Implies(Or(v(a), v(b)), And(e == unb(b, a, m), unm(a, b, m) == unm(b, a, m)))]
frz22 = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, requires=lambda c: [('with an empty memo', c.old.map(c.memo) == EMPTYMAP)], modifies=lambda c: [('map', c.memo)], raises=[(Exception, None)], verify=False, name='freeze (C04)', resfn=lambda c: frz(c.term, c.old.map(c.scope)))
grd22 = Contract('agentspeak:grounded', params=['term', 'scope'], types={'scope': D}, raises=[(Exception, None)], verify=False, name='grounded (C04)', resfn=lambda c: grd(c.term, c.old.map(c.scope)))
tq22 = traced(Contract('agentspeak.runtime:TermQuery.execute', params=['self', 'agent', 'intention'], trace=lambda c: tsols(c.old.f('term', c.self), m_(c)), name='TermQuery (C03, C02)', verify=False, **IBASE))
arg = lambda c, i: nth(V.la(c.term), IntVal(i))
def tr_count(c): s = tsols(arg(c, 0), m_(c)); return uni(V.int(llen(s)), arg(c, 1), m_(c))
def tr_findall(c): s = tsols(arg(c, 1), m_(c)); return uni(V.tup(frzs(s, evl(arg(c, 0), m_(c)))), arg(c, 2), m_(c))
def tr_member(c): return each(mems(evl(arg(c, 1), m_(c)), m_(c)), arg(c, 0), m_(c))
@handler('lsum')
def _(e, ix):
    l, = ch(e); out = [Implies(l == NIL, e == V.int(IntVal(0)))]
    for x in ([l] if info(l)[2] == 'snoc' else []): out.append(Implies(And(V.is_int(lsum(ch(x)[0])), V.is_int(ch(x)[1])), e == V.int(V.i(lsum(ch(x)[0])) + V.i(ch(x)[1]))))
    return out
def loop22(lc):
    c = lc.c; m = m_(c); g = lc.ghost; out = loop_base(lc); kindof = lambda v: ctor(v) or lc.eng.tag_of(lc.st, v)
    gen = lc.kind == 'gen' and lc.rest is not None
    if gen:
        p = evl(arg(c, 0), m)
        for a, a0 in zip(lc.accs, lc.accs0): out += [('the instances collected and to come are all', app(a, frzs(lc.rest, p)) == app(a0, frzs(lc.erest, p))), ('the collected and the solutions to come are all', llen(a) + llen(lc.rest) == llen(a0) + llen(lc.erest)), ('one is collected each time', lsum(a) == V.int(llen(a)))]
    for nm, v, v0 in lc.vals():
        if v0 is None: continue
        if kindof(v0) == 'int': out.append(('%s is a number' % nm, Or(V.is_int(v), V.is_flt(v))))
        if gen and kindof(v0) == 'int': p = evl(arg(c, 0), m); out.append(('%s and the values to come are all' % nm, sumv(lc.rest, p, v) == sumv(lc.erest, p, v0)))
        if not gen and kindof(v0) == 'int': out.append(('pending: the occurrences from %s on' % nm, g['rest'] == subs(*texts(c), V.i(v), arg(c, 2), m)))
        if not gen and kindof(v0) == 'int': h, n_ = texts(c); out.append(('pending: the occurrences after %s' % nm, And(V.i(v) >= -1, g['rest'] == subs(h, n_, sfind(h, n_, V.i(v) + 1), arg(c, 2), m))))
        if not gen and kindof(v0) == 'int': out += [('pending: the numbers from %s%s on' % (nm, ' + 1' * o), g['rest'] == upto(V.i(v) + o, bound(c), arg(c, 1), m)) for o in (0, 1)]
        if gen and kindof(v0) == 'int': out.append(('%s and the solutions to come are all' % nm, V.i(v) + llen(lc.rest) == V.i(v0) + llen(lc.erest)))
        if kindof(v0) == 'obj' and lc.eng.cls_of(lc.st, v0) is list:
            if lc.kind == 'seq': out.append(('pending: the others of %s' % nm, g['rest'] == each(drop(lc.n.seq(v), lc.idx), arg(c, 0), m)))
            out.append(('%s stays' % nm, lc.n.seq(v) == lc.e.seq(v0)))
            if gen: p = evl(arg(c, 0), m); out.append(('%s and the instances to come are all' % nm, app(lc.n.seq(v), frzs(lc.rest, p)) == app(lc.e.seq(v0), frzs(lc.erest, p))))
            for n2, w, w0 in lc.vals():
                if w0 is not None and kindof(w0) != 'obj' and not w.eq(c.term): out.append(('%s is a list' % n2, proper(w, m)))
                if w0 is not None and n2 != nm and kindof(w0) != 'obj' and not w.eq(c.term): out.append(('%s and the elements of %s are all' % (nm, n2), app(lc.n.seq(v), mems(w, m)) == app(lc.e.seq(v0), mems(w0, m))))
    if lc.kind == 'seq' and len(lc.ls) == 1: out += [('taken so far and those to come', app(a, drop(lc.ls[0], lc.idx)) == lc.ls[0]) for a in lc.accs]
    if lc.kind == 'seq': out.append(('pending: the other numbers', g['rest'] == upto(lc.idx, bound(c), arg(c, 1), m)))
    if lc.kind == 'seq' and len(lc.ls) == 1: out.append(('pending: the others', g['rest'] == each(drop(lc.ls[0], lc.idx), arg(c, 0), m)))
    return out
def num(x): return If(V.is_int(x), z3.ToReal(V.i(x)), If(V.is_bool(x), If(V.b(x), z3.RealVal(1), z3.RealVal(0)), V.r(x)))
def nint(x): return If(V.is_int(x), V.i(x), If(V.b(x), IntVal(1), IntVal(0)))
def addv(x, y): return If(Or(V.is_flt(x), V.is_flt(y)), V.flt(num(x) + num(y)), V.int(nint(x) + nint(y)))
sumv = spec('sumv', L, V, V, V)                 # the values of a term under a list of bindings, added up from the left
@unfolds(sumv)
def _(l, p, a): return [sumv(l, p, a) == If(l == NIL, a, sumv(L.tl(l), p, addv(a, grd(p, dec(L.hd(l))))))]
def tr_sum(c): s = tsols(arg(c, 1), m_(c)); return uni(sumv(s, evl(arg(c, 0), m_(c)), V.int(IntVal(0))), arg(c, 2), m_(c))
toint = spec('toint', V, Int); strof = spec('strof', V, Str)
sfind = spec('sfind', Str, Str, Int, Int)       # str.find from a position (documented meaning)
subs = spec('subs', Str, Str, Int, V, Map, L)   # with each occurrence from this one on
@unfolds(subs)
def _(h, n, p, t, m): return [subs(h, n, p, t, m) == If(p == -1, NIL, uni(V.int(p), t, m, subs(h, n, sfind(h, n, p + 1), t, m)))]
def nat_int(eng, st, args, kw, fr):
    if kw or len(args) != 1: raise Unsupported('arguments of int')
    yield st.copy(), Raise(ExcV(Exception), eng.line)
    yield st, V.int(toint(eng.toV(args[0])))
def texts(c): return strof(grd(arg(c, 1), m_(c))), strof(grd(arg(c, 0), m_(c)))
def tr_sub(c): h, n = texts(c); return subs(h, n, sfind(h, n, IntVal(0)), arg(c, 2), m_(c))
def bound(c): return toint(grd(arg(c, 0), m_(c)))
def tr_range(c): return upto(IntVal(0), bound(c), arg(c, 1), m_(c))
aslstr = Contract('agentspeak:asl_str', params=['term'], modifies=lambda c: [], raises=[(Exception, None)], verify=False, name='asl_str', resfn=lambda c: V.str(strof(c.term)))
grds = spec('grds', L, Map, L)                  # the values of some terms
alltup = spec('alltup', L, Bool); nolink = spec('nolink', L, Bool); cat = spec('cat', L, L); pstr = spec('pstr', V, Str); strs = spec('strs', L, L)
@unfolds(grds)
def _(l, m):       # the value of a list is a tuple (C04)
    return [grds(l, m) == If(l == NIL, NIL, cons(grd(L.hd(l), m), grds(L.tl(l), m))), nolink(grds(l, m)), Not(V.is_link(grd(L.hd(l), m)))]
@unfolds(alltup)
def _(l): return [alltup(l) == Or(l == NIL, And(V.is_tup(L.hd(l)), alltup(L.tl(l))))]
@unfolds(nolink)
def _(l): return [nolink(l) == Or(l == NIL, And(Not(V.is_link(L.hd(l))), nolink(L.tl(l))))]
@unfolds(cat)
def _(l): return [cat(l) == If(l == NIL, NIL, app(V.t(L.hd(l)), cat(L.tl(l))))]
@unfolds(strs)
def _(l): return [strs(l) == If(l == NIL, NIL, cons(V.str(pstr(L.hd(l))), strs(L.tl(l))))]
@handler('app')
def _(e, ix):
    x, y = ch(e)
    if info(y)[2] != 'cat' or info(x)[2] in ('app', 'cons', 'nil'): return []
    return [Implies(x == a, e == app(ch(a)[0], app(ch(a)[1], y))) for a in ix.by.get('app', ())[:40] if info(ch(a)[1])[2] != 'cat']      # app is associative
def nat_str(eng, st, args, kw, fr):
    if kw or len(args) != 1: raise Unsupported('arguments of str')
    yield st.copy(), Raise(ExcV(Exception), eng.line)
    yield st, V.str(pstr(eng.toV(args[0])))
def joined(l): return V.str(strjoin(V.str(z3.StringVal('')), strs(l)))
def tr_concat(c):
    l = grds(linit(V.la(c.term)), m_(c)); t = llast(V.la(c.term))
    return uni(t, If(alltup(l), V.tup(cat(l)), joined(l)), m_(c))
def loop_concat(lc):
    c = lc.c; m = m_(c); out = loop_base(lc); ls = linit(V.la(c.term)); l = grds(ls, m)
    if lc.kind == 'seq' and len(lc.ls) == 1:
        x, d = lc.ls[0], drop(lc.ls[0], lc.idx); out += [('the lists so far', alltup(x) == alltup(d)), ('no linked lists', nolink(d))]; out.append(('these arguments', x == ls))
        for a, a0 in zip(lc.accs, lc.accs0): out += [('evaluated so far and to come', app(a, grds(d, m)) == grds(x, m)), ('taken so far and to come', app(a, cat(d)) == app(a0, cat(x))), ('elements so far and to come', app(a, d) == app(a0, x)), ('texts so far and to come', app(a, strs(d)) == app(a0, strs(x)))]
    return out
def acontract(fn, n, trace, req=lambda c: []):
    return traced(Contract(('agentspeak.' if ':' in fn else 'agentspeak.stdlib:') + fn, params=['agent', 'term', 'intention'], trace=trace, name=fn, **{**BASE, 'types': {**QARGS, 'term': 'lit'}, 'loop': loop22,
        'requires': lambda c: q_requires(c) + [('the arity of the action (C14)', llen(V.la(c.term)) == n)] + req(c)}))
concat = acontract('_concat', 3, tr_concat); concat.loop = loop_concat; concat.requires = lambda c: q_requires(c) + [('at least the result', V.la(c.term) != NIL)]
ACTS = [concat, acontract('ext_stdlib:_sum', 3, tr_sum), acontract('_range_2', 2, tr_range), acontract('_substring', 3, tr_sub), acontract('_count', 2, tr_count), acontract('_findall', 3, tr_findall), acontract('_member', 2, tr_member, lambda c: [('the second argument is a list', proper(evl(arg(c, 1), m_(c)), m_(c)))])]
inside = lambda c: And(V.i(c.index) >= 0, V.i(c.index) < llen(V.t(c.l)))
FN = dict(modifies=lambda c: [])
FNS = [Contract('agentspeak.stdlib:_nth', params=['index', 'l'], types={'index': 'int', 'l': 'tup'}, ensures=lambda c: [('the element at this index', And(inside(c), c.res == nth(V.t(c.l), V.i(c.index))))], raises=[(Exception, lambda c: [('only outside the list', Not(inside(c)))])], name='_nth', **FN),
    Contract('agentspeak.stdlib:_sort', params=['l'], types={'l': 'tup'}, ensures=lambda c: [('the sorted list', c.res == V.tup(lsorted(V.t(c.l))))], raises=[(TypeError, None)], name='_sort', **FN),
    Contract('agentspeak.ext_stdlib:_tail', params=['l'], types={'l': 'tup'}, ensures=lambda c: [('the list without its first element', c.res == V.tup(If(V.t(c.l) == NIL, NIL, L.tl(V.t(c.l)))))], raises=[], name='_tail', **FN)]
view = View('C22', ACTS + FNS + [unify22, evaluate, reroll, aslstr, frz22, grd22, tq22], fields=runtime_fields(), stable=STABLE, classes=CLASSES, fixedlists=FIXED, ddictpure=True, candtime=2000, natives={int: nat_int, str: nat_str}, strfns=(spec('slen', Str, Int), spec('schar', Str, Int, Str), sfind))
LEMMAS = ['ext_trans', 'ext_mono', 'ext_len', 'undo']
