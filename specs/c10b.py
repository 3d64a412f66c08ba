"""C10: loops and conditionals run as written - the instructions a body is compiled to.

Compiling a node extends the instruction graph at the tail of the visitor: the links of all other instructions stay.
For each kind of node the new instructions, their functions and their success and failure links are stated exactly,
with the blocks of the inner nodes between them (`built` records which node was compiled from where to where)."""
from specs.envbuild import *
import functools
INS, BIV = RT.Instruction, RT.BuildInstructionsVisitor
F.update({(INS, 'f'): 'any', (INS, 'success'): ('opt', ('obj', INS)), (INS, 'failure'): ('opt', ('obj', INS)), (INS, 'loc'): 'any', (INS, 'extra_locs'): 'any',
          (BIV, 'tail'): ('obj', INS), (BIV, 'log'): ('obj', LOG), (BIV, 'actions'): 'any', (BIV, 'variables'): ('dict', 'any'), (RT.BuildTermVisitor, 'variables'): ('dict', 'any'), (RT.BuildQueryVisitor, 'variables'): ('dict', 'any'), (RT.BuildQueryVisitor, 'actions'): 'any', (RT.BuildQueryVisitor, 'log'): ('obj', LOG),
          (AstI, 'loc'): 'any', (P.AstFormula, 'formula_type'): 'any', (P.AstFormula, 'term'): node, (P.AstFormula, 'loc'): 'any', (P.AstWhile, 'condition'): node, (P.AstWhile, 'body'): node, (P.AstFor, 'generator'): node, (P.AstFor, 'body'): node,
          (P.AstIfThenElse, 'condition'): node, (P.AstIfThenElse, 'if_body'): ('opt', node), (P.AstIfThenElse, 'else_body'): ('opt', node), (P.AstBody, 'formulas'): ('list', node)})
part = spec('part', V, L, V)                     # functools.partial(f, args)
def nat_partial(eng, st, args, kw, fr):
    if kw: raise Unsupported('partial with keywords')
    yield st, part(eng.toV(args[0]), mklist([eng.toV(a) for a in args[1:]]))
from pydv.engine import Unsupported
newer = spec('newer', ValA, Int, Int, ValA)      # the same links for everything older
def newer_use(e, s):
    a, n, k = ch(e); arr, i = ch(s)
    return Implies(i < n, Select(e, i) == Select(a, i))
@handler('newer')
def _(e, ix): return [newer_use(e, s) for s in ix.by.get('select', ()) if s.sort() == V and s.children()[0].sort() == ValA]
def _sel(s, ix): return [newer_use(e, s) for e in ix.by.get('newer', ())] if s.sort() == V and s.children()[0].sort() == ValA else []
SELECT_HANDLERS.append(_sel)
ANY = z3.Int('any_instruction'); FT = lambda k: LV(getattr(agentspeak.FormulaType, k))
ARR = lambda h, k: h.arr('f:' + k)
lk = lambda h, k, i: Select(ARR(h, k), i)
TAIL = lambda h, v: h.f('tail', v)
ins = lambda h, x: And(V.is_obj(x), V.oc(x) == cid(INS), V.oi(x) < h.alloc, V.oi(x) >= 0)
G0 = lambda c: {'asked': NIL, 'built': NIL, 'in': BoolVal(False), 's': NONE, 'f': NONE, 'fn': NONE, 'errors': IntVal(0), 'called': NOCALLS}
def grow(c, self, skip=False):
    """what compiling any node into a body does to the graph"""
    o, n = c.old, c.now; t0 = TAIL(o, self); t1 = TAIL(n, self)
    return [('returns the new end', c.res == t1), ('the end is an instruction', ins(n, t1)), ('new unless it stays', Or(t1 == t0, V.oi(t1) >= o.alloc)), ('the end is open', Implies(t1 != t0, And(lk(n, 'success', V.oi(t1)) == NONE, lk(n, 'failure', V.oi(t1)) == NONE)))] + \
           [('an end that stays is unchanged (%s)' % k, Implies(t1 == t0, lk(n, k, V.oi(t0)) == lk(o, k, V.oi(t0)))) for k in ('success', 'failure', 'f')]
def frame(c, self):
    o, n = c.old, c.now; t0 = V.oi(TAIL(o, self))
    out = [('earlier instructions keep their %s link' % k, Implies(And(ANY < o.alloc, ANY >= 0, ANY != t0), lk(n, k, ANY) == lk(o, k, ANY))) for k in ('success', 'failure')]
    return out + [('earlier instructions keep their action', Implies(And(ANY < o.alloc, ANY >= 0), lk(n, 'f', ANY) == lk(o, 'f', ANY))), ('the former end keeps its failure link', lk(n, 'failure', t0) == lk(o, 'failure', t0))]
isbody = lambda c: c.eng.cls_of(c.old.st, c.visitor) is BIV
def acc_post(c):
    if not isbody(c): return [('the query or term of this node', And(V.is_obj(c.res)) if c.eng.cls_of(c.old.st, c.visitor) is RT.BuildQueryVisitor else BoolVal(True))]
    o, n, v = c.old, c.now, c.visitor; t0 = V.oi(TAIL(o, v)); k1, k2, k3, x = [fresh('k', Int) for _ in range(3)] + [fresh('link', V)]
    return [p for _, p in grow(c, v)] + [ARR(n, 'success') == Store(newer(ARR(o, 'success'), o.alloc, k1), t0, x), ARR(n, 'failure') == Store(newer(ARR(o, 'failure'), o.alloc, k2), t0, lk(o, 'failure', t0)), ARR(n, 'f') == newer(ARR(o, 'f'), o.alloc, k3)]
def acc_eff(c):
    g = c.old.ghost
    if c.exc: return {}
    if not isbody(c): return {'asked': snoc(g['asked'], V.tup(mklist([c.self, OBJ(c.eng.cls_of(c.old.st, c.visitor), IntVal(0)), c.res])))}
    o, n, v = c.old, c.now, c.visitor; t0, t1 = TAIL(o, v), TAIL(n, v); here = And(ANY >= o.alloc, ANY < n.alloc, ANY != V.oi(t1))
    out = {'built': snoc(g['built'], V.tup(mklist([c.self, t0, t1]))), 'in': Or(g['in'], here)}
    for k, a in (('s', 'success'), ('f', 'failure'), ('fn', 'f')): out[k] = If(here, lk(n, a, ANY), g[k])
    return out
def acc_mods(c):
    m = [('map', c.old.f('variables', c.visitor))] if c.eng.cls_of(c.old.st, c.visitor) is not RT.BuildReplacePatternVisitor else []
    if isbody(c): m += [('f:success', '*'), ('f:failure', '*'), ('f:f', '*'), ('f:tail', c.visitor)]
    return m
accept = Contract('iface:accept', params=['self', 'visitor'], resfn=lambda c: OBJ(INS, fresh('end', Int)) if isbody(c) else OBJ(QueryI, fresh('query', Int)) if c.eng.cls_of(c.old.st, c.visitor) is RT.BuildQueryVisitor else fresh('term', V), modifies=acc_mods, ensures=acc_post, effects=acc_eff, raises=[(Exception, None)], verify=False, name='compiling a node (C10)')
def inner(c):
    """the instructions of the inner nodes stay as they were compiled (their ends are linked here)"""
    g, n = c.now.ghost, c.now
    return [('the inner instructions stay', Implies(g['in'], And(lk(n, 'success', ANY) == g['s'], lk(n, 'failure', ANY) == g['f'], lk(n, 'f', ANY) == g['fn'])))]
class Walk(object):
    """the new instructions from the former end on"""
    def __init__(self, c): self.c = c; self.n = c.now; self.out = []
    def s(self, x): return lk(self.n, 'success', V.oi(x))
    def fl(self, x): return lk(self.n, 'failure', V.oi(x))
    def at(self, what, x, fn, failure=NONE): self.out.append((what, And(ins(self.n, x), V.oi(x) >= self.c.old.alloc, lk(self.n, 'f', V.oi(x)) == fn, self.fl(x) == failure))); return x
    def eq(self, what, a, b): self.out.append((what, a == b))
fnv = lambda f: LV(f)
asked = lambda c, i: nth(c.now.ghost['asked'], IntVal(i))
third = lambda t: L.hd(L.tl(L.tl(V.t(t))))
def asks(c, *what):
    l = c.now.ghost['asked']; out = []
    for k, (nd, cls) in enumerate(what): e = drop(l, IntVal(k)); out.append(And(L.hd(V.t(L.hd(e))) == nd, L.hd(L.tl(V.t(L.hd(e)))) == OBJ(cls, IntVal(0))))
    return [('the conditions and terms of the node are compiled, once', And(llen(l) == len(what), *out))]
def blocks(c, *what): return [('the bodies are compiled between', c.now.ghost['built'] == mklist([V.tup(mklist(list(x))) for x in what]))]
def b(c, i, j): return L.hd(L.tl(L.tl(V.t(L.hd(drop(c.now.ghost['built'], IntVal(i))))))) if j else L.hd(L.tl(V.t(L.hd(drop(c.now.ghost['built'], IntVal(i))))))
def post(f):
    def p(c):
        w = Walk(c); f(c, w, TAIL(c.old, c.self)); return w.out + grow(c, c.self) + frame(c, c.self) + inner(c)
    return p
def while_(c, w, t0):
    nd = c.ast_while; cond, body = c.old.f('condition', nd), c.old.f('body', nd); w.out += asks(c, (cond, RT.BuildQueryVisitor)); q = third(asked(c, 0))
    h = w.at('the query is put on the stack', w.s(t0), part(fnv(RT.push_query), mklist([q]))); p = w.at('then a mark is made', w.s(h), fnv(RT.push_choicepoint)); t = w.s(p)
    e = w.at('no answer: the mark is taken away', w.fl(t), fnv(RT.pop_choicepoint)); w.at('then the query is advanced', t, fnv(RT.next_or_fail), e)
    x = w.at('then the query: the end of the loop', w.s(e), fnv(RT.pop_query)); w.eq('the end', x, TAIL(c.now, c.self))
    b0 = w.at('an answer: the query is taken away', w.s(t), fnv(RT.pop_query)); b1 = b(c, 0, 1); w.out += blocks(c, (body, b0, b1))
    l = w.at('after the body the mark is taken away', w.s(b1), fnv(RT.pop_choicepoint)); w.eq('and the condition is asked again', w.s(l), h)
def for_(c, w, t0):
    nd = c.ast_for; gen, body = c.old.f('generator', nd), c.old.f('body', nd); w.out += asks(c, (gen, RT.BuildQueryVisitor)); q = third(asked(c, 0))
    h = w.at('the query is put on the stack', w.s(t0), part(fnv(RT.push_query), mklist([q]))); t = w.s(h)
    x = w.at('no more answers: the query is taken away: the end of the loop', w.fl(t), fnv(RT.pop_query)); w.eq('the end', x, TAIL(c.now, c.self)); w.at('the query is advanced', t, fnv(RT.next_or_fail), x)
    p = w.at('an answer: a mark is made', w.s(t), fnv(RT.push_choicepoint)); b1 = b(c, 0, 1); w.out += blocks(c, (body, p, b1))
    l = w.at('after the body the mark is taken away', w.s(b1), fnv(RT.pop_choicepoint)); w.eq('and the query is advanced again', w.s(l), t)
def if_(c, w, t0):
    nd = c.ast_if_then_else; cond, yes, no = [c.old.f(k, nd) for k in ('condition', 'if_body', 'else_body')]; w.out += asks(c, (cond, RT.BuildQueryVisitor)); q = third(asked(c, 0)); n = c.now; bl = n.ghost['built']
    h = w.at('the query is put on the stack', w.s(t0), part(fnv(RT.push_query), mklist([q]))); t = w.s(h); x = w.at('the end takes the query away', TAIL(n, c.self), fnv(RT.pop_query)); f = w.fl(t)
    w.out.append(('then the query is advanced', And(ins(n, t), V.oi(t) >= c.old.alloc, lk(n, 'f', V.oi(t)) == fnv(RT.next_or_fail))))
    both, e = And(yes != NONE, no != NONE), If(yes != NONE, L.tl(bl), bl); bk = lambda l, j: nth(simp(V.t(L.hd(l))), IntVal(j))
    w.out.append(('an answer: the first branch runs, then the end', If(yes == NONE, w.s(t) == x, And(bl != NIL, bk(bl, 0) == yes, bk(bl, 1) == t, w.s(bk(bl, 2)) == x))))
    w.out.append(('no answer: the other branch runs, then the end', If(no == NONE, And(f == x, e == NIL), And(e != NIL, L.tl(e) == NIL, bk(e, 0) == no, bk(e, 1) == f, ins(n, f), V.oi(f) >= c.old.alloc, lk(n, 'f', V.oi(f)) == fnv(RT.noop), w.fl(f) == NONE, w.s(bk(e, 2)) == x))))
def formula_(c, w, t0):
    nd = c.ast_formula; ty, tm = c.old.f('formula_type', nd), c.old.f('term', nd); n = c.now; at = c.now.ghost['asked']; new = TAIL(n, c.self)
    def seq(*fns):
        x = t0; out = []
        for fn in fns: x = w.s(x); out.append(And(ins(n, x), V.oi(x) >= c.old.alloc, lk(n, 'f', V.oi(x)) == fn, w.fl(x) == NONE))
        return And(x == new, *out)
    def q(*cls): return And(llen(at) == len(cls), *[And(L.hd(V.t(nth(at, IntVal(k)))) == tm, L.hd(L.tl(V.t(nth(at, IntVal(k))))) == OBJ(x, IntVal(0))) for k, x in enumerate(cls)])
    one = third(L.hd(at)); two_ = third(L.hd(L.tl(at))); BT = RT.BuildTermVisitor; ach = [LV(agentspeak.Trigger.addition), LV(agentspeak.GoalType.achievement)]
    def case(k, nm, cls, *fns): w.out.append((nm, Implies(ty == FT(k), And(q(*cls), seq(*fns)))))
    P1 = lambda f, *a: part(fnv(f), mklist(list(a)))
    case('add', '+b adds the belief', [BT], P1(RT.add_belief, one)); case('remove', '-b removes the belief', [BT], P1(RT.remove_belief, one)); case('test', '?b tests the belief', [BT], P1(RT.test_belief, one))
    case('replace', '-+b removes the pattern, then adds the belief', [RT.BuildReplacePatternVisitor, BT], P1(RT.remove_belief, one), P1(RT.add_belief, two_)); case('achieve', '!g calls the goal', [BT], P1(RT.call, *ach, one)); case('achieve_later', '!!g starts the goal', [BT], P1(RT.call_delayed, *ach, one))
    case('term', 'a query is put on the stack, advanced once and taken away', [RT.BuildQueryVisitor], P1(RT.push_query, one), fnv(RT.next_or_fail), fnv(RT.pop_query))
VT = dict(types={'self': ('obj', BIV)}, modifies=lambda c: '*', ghost=G0, raises=[(Exception, None)])
def req(c): t = TAIL(c.old, c.self); return [('there is an open end', And(ins(c.old, t)))]
def mk(name, arg, cls, f): return Contract('agentspeak.runtime:BuildInstructionsVisitor.' + name, params=['self', arg], **{**VT, 'types': {'self': ('obj', BIV), arg: ('obj', cls)}}, requires=req, ensures=post(f), name='BuildInstructionsVisitor.' + name)
T = [mk('visit_while', 'ast_while', P.AstWhile, while_), mk('visit_for', 'ast_for', P.AstFor, for_), mk('visit_if_then_else', 'ast_if_then_else', P.AstIfThenElse, if_), mk('visit_formula', 'ast_formula', P.AstFormula, formula_)]
AT = z3.Int('any_statement')
def chained(bl, forms, t0, k):
    """the statement at any position is compiled from the end of the one before"""
    e = V.t(nth(bl, AT)); prev = If(AT == 0, t0, third(nth(bl, AT - 1)))
    return And(llen(bl) == k, Implies(And(AT >= 0, AT < k), And(V.is_tup(nth(bl, AT)), L.hd(e) == nth(forms, AT), L.hd(L.tl(e)) == prev)))
lastend = lambda bl, t0: If(bl == NIL, t0, third(llast(bl)))
def body_post(c):
    forms = c.old.seq(c.old.f('formulas', c.ast_body)); bl = c.now.ghost['built']; t0 = TAIL(c.old, c.self)
    return [('every statement is compiled, in order, each from the end of the one before', chained(bl, forms, t0, llen(forms))), ('up to the new end', TAIL(c.now, c.self) == lastend(bl, t0))] + grow(c, c.self) + frame(c, c.self) + inner(c)
def body_loop(lc):
    c = lc.c; n = lc.n; t0 = TAIL(c.old, c.self); t1 = TAIL(n, c.self); bl = lc.ghost['built']
    k = type('K', (), dict(old=c.old, now=n, self=c.self, res=t1)); K2 = type('K', (), dict(old=c.old, now=n))
    out = grow(k, c.self) + frame(k, c.self) + inner(K2) + [('up to the new end', t1 == lastend(bl, t0))]
    if lc.kind == 'seq' and len(lc.ls) == 1: out += [('the statements so far', chained(bl, lc.ls[0], t0, lc.idx)), ('the statements are walked', lc.ls[0] == c.old.seq(c.old.f('formulas', c.ast_body)))]
    return out + [('what is compiled lies before', Implies(lc.ghost['in'], And(ANY < n.alloc, ANY != V.oi(t1), ANY >= c.old.alloc)))]
body = Contract('agentspeak.runtime:BuildInstructionsVisitor.visit_body', params=['self', 'ast_body'], **{**VT, 'types': {'self': ('obj', BIV), 'ast_body': ('obj', P.AstBody)}}, requires=req, ensures=body_post, loop=body_loop, name='BuildInstructionsVisitor.visit_body')
view = View('C10b', T + [body, accept], fields=F, stable=STB + ['f:%s' % k for k in ('loc', 'formulas', 'condition', 'generator', 'body', 'if_body', 'else_body', 'formula_type', 'term')], classes=CLS + [INS, P.AstWhile, P.AstFor, P.AstIfThenElse, P.AstFormula, P.AstBody, RT.BuildReplacePatternVisitor], iface={(AstI, 'accept'): IFn('accept', ['self', 'visitor'], accept)}, natives={**NAT, functools.partial: nat_partial})

# what the rounds of a loop leave behind, from the contracts of the instructions (C10) and of queries (C02): by induction over the nesting, a block
# keeps the query stack and the choice-point stack and only extends the trail (Ext)
from specs.c02 import undoS, undoT, Ext
def _rounds():
    n = z3.Int('n'); s = [z3.Const('s%d' % i, Map) for i in range(5)]; t = [z3.Const('t%d' % i, L) for i in range(5)]; m, g = z3.Consts('m g', V); q, cp, q3, cp3 = [z3.Const(x, L) for x in ('q', 'cp', 'q3', 'cp3')]
    mark = And(V.is_obj(m), V.oi(m) < n); t1 = snoc(t[0], m); back = lambda sk, tk: And(undoS(sk, tk, m) == s[0], undoT(tk, m) == t[0])
    answer, body = Ext(n, s[0], t1, s[2], t[2]), And(Ext(n, s[2], t[2], s[3], t[3]), q3 == linit(snoc(q, g)), cp3 == snoc(cp, m))
    yield 'while: after a round everything is as before it', [mark, answer, body], And(back(s[3], t[3]), q3 == q, linit(cp3) == cp)
    yield 'while: after the last, failing test too', [mark, answer], And(back(s[2], t[2]), linit(snoc(cp, m)) == cp, linit(snoc(q, g)) == q)
    fbody = And(Ext(n, s[0], t1, s[3], t[3]), q3 == snoc(q, g), cp3 == snoc(cp, m))
    yield 'for: after a round the query goes on from its own answer', [mark, fbody], And(back(s[3], t[3]), llast(q3) == g, linit(q3) == q, linit(cp3) == cp)
    cond, branch = Ext(n, s[0], t[0], s[1], t[1]), And(Ext(n, s[1], t[1], s[2], t[2]), q3 == snoc(q, g), cp3 == cp)
    yield 'if: the bindings of the condition stay, the stacks are as before', [cond, branch], And(Ext(n, s[0], t[0], s[2], t[2]), linit(q3) == q, cp3 == cp)
    yield 'statements in sequence', [cond, Ext(n, s[1], t[1], s[2], t[2])], Ext(n, s[0], t[0], s[2], t[2])
Lemma('the rounds of loops', lambda: list(_rounds()))
LEMMAS = ['the rounds of loops', 'ext_trans', 'ext_mono', 'ext_len', 'undo']
