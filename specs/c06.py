"""C06: an event or goal starts exactly the first applicable plan, and nothing else."""
from specs.c03 import *
from specs.rt_heap import heap_fields, SeqA, ValA, top, full
from specs.c09 import nin
LV = lambda o: OBJ(type(o), IntVal(REG.lid(o)))
T, GT = agentspeak.Trigger, agentspeak.GoalType
one_of = lambda e: lambda v: [Or(*[v == LV(x) for x in e])]
F = heap_fields(); F.update({(RT.Event, 'trigger'): one_of(T), (RT.Event, 'goal_type'): one_of(GT)})
ANY = z3.Int('any_intention')
frz6 = spec('frz6', V, Map, V); ann6 = spec('ann6', V, V, Bool); frzok = spec('frzok', V, Map, Bool)
ps = lambda p, f, hh, hc: flat(ua(Select(hh, V.oi(p)), f, EMPTYMAP), Select(hc, V.oi(p)))
fpl = spec('fpl', L, V, ValA, ValA, V)           # the first applicable plan
@unfolds(fpl)
def _(l, f, hh, hc): return [fpl(l, f, hh, hc) == If(l == NIL, NONE, If(ps(L.hd(l), f, hh, hc) != NIL, L.hd(l), fpl(L.tl(l), f, hh, hc)))]
fst = spec('fst', L, SeqA, V, V)                 # the first stack with this intention on top
@unfolds(fst)
def _(l, h, i): return [fst(l, h, i) == If(l == NIL, NONE, If(And(full(L.hd(l), h), top(L.hd(l), h) == i), L.hd(l), fst(L.tl(l), h, i)))]
ontop = spec('ontop', L, SeqA, Int, Bool)        # the intention is on top of some stack
@unfolds(ontop)
def _(l, h, i): return [ontop(l, h, i) == If(l == NIL, False, Or(And(full(L.hd(l), h), V.oi(top(L.hd(l), h)) == i), ontop(L.tl(l), h, i)))]
allold = spec('allold', L, Int, Bool)            # every element was there before
@unfolds(allold)
def _(l, n): return [allold(l, n) == If(l == NIL, True, And(V.oi(L.hd(l)) < n, allold(L.tl(l), n)))]
@handler('nin')
def _(t, ix): return [Implies(And(e, ch(t)[0] >= ch(e)[1], ch(e)[0] == ch(t)[1]), t) for e in ix.by.get('allold', ())[:5]]
def beside(f, t, k, ix):
    out = []; h = ch(t)[k]; l = ch(t)[0]; ids = []
    while info(h)[3] == z3.Z3_OP_STORE and len(ids) < 12:
        a, i, v = ch(h); ids.append(i); xs = list(ch(t)); xs[k] = a; out.append(Implies(And(*[nin(j, l) for j in ids]), t == f(*xs))); h = a
    return out[:1] + out[-1:] if len(out) > 1 else out
for _f in (fst, ontop): handler(_f.name())(lambda t, ix, f=_f: beside(f, t, 1, ix))
def _b():
    l = z3.Const('l', L); h = z3.Const('h', SeqA); i, j, n = z3.Ints('i j n'); v = z3.Const('v', L); x = z3.Const('x', V); t = L.tl(l); h2 = Store(h, i, v)
    f0 = z3.Function('fst0', L, SeqA, V, V); o0 = z3.Function('ontop0', L, SeqA, Int, Bool); a0 = z3.Function('allold0', L, Int, Bool)
    df = lambda h: f0(l, h, x) == If(l == NIL, NONE, If(And(full(L.hd(l), h), top(L.hd(l), h) == x), L.hd(l), f0(t, h, x)))
    do = lambda h: o0(l, h, j) == If(l == NIL, False, Or(And(full(L.hd(l), h), V.oi(top(L.hd(l), h)) == j), o0(t, h, j)))
    yield 'fst', [df(h), df(h2), Implies(And(l != NIL, nin(i, t)), f0(t, h2, x) == f0(t, h, x)), nin(i, l)], f0(l, h2, x) == f0(l, h, x)
    yield 'ontop', [do(h), do(h2), Implies(And(l != NIL, nin(i, t)), o0(t, h2, j) == o0(t, h, j)), nin(i, l)], o0(l, h2, j) == o0(l, h, j)
    yield 'older', [a0(l, n) == If(l == NIL, True, And(V.oi(L.hd(l)) < n, a0(t, n))), Implies(And(a0(t, n), i >= n), nin(i, t)), a0(l, n), i >= n], nin(i, l)
Lemma('stores beside the stacks', lambda: list(_b()))
S_ = lambda s: V.str(z3.StringVal(s))
op = lambda nm, *xs: V.tup(mklist([S_(nm)] + list(xs)))
G0 = lambda c: {'ops': NIL, 'frozen': NONE}
def logs(nm, *ps_):
    return lambda c: {'ops': cons(op(nm + (' failed' if c.exc else ''), *[getattr(c, p) for p in ps_], *([] if c.exc else [c.res])), c.old.ghost['ops'])}
beliefmods = lambda c: [('map', c.old.f('beliefs', c.self)), ('set', '*')]
add_belief = Contract('agentspeak.runtime:Agent.add_belief', params=['self', 'term', 'scope'], modifies=beliefmods, result='none', raises=[(Exception, None)], effects=logs('add', 'self', 'term', 'scope'), verify=False, name='Agent.add_belief (C05)')
def imods6(c): return [('map', c.old.f('scope', c.intention)), ('seq', c.old.f('stack', c.intention))]
remove_belief = Contract('agentspeak.runtime:Agent.remove_belief', params=['self', 'term', 'intention'], modifies=lambda c: beliefmods(c) + imods6(c), result='bool', raises=[(Exception, None)], effects=logs('remove', 'self', 'term', 'intention'), verify=False, name='Agent.remove_belief (C05)')
test_belief = Contract('agentspeak.runtime:Agent.test_belief', params=['self', 'term', 'intention'], modifies=lambda c: beliefmods(c) + imods6(c), result='bool', raises=[(Exception, None)], effects=logs('test', 'self', 'term', 'intention'), verify=False, name='Agent.test_belief (C05)')
other = [Contract('agentspeak.runtime:Agent.' + k, params=['self', 'term'], modifies=lambda c: '*', raises=[(Exception, None)], effects=logs(k, 'self', 'term'), verify=False, name='Agent.' + k) for k in ('_unachieve', '_tell_how', '_ask_how', '_untell_how')]
freeze = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, modifies=lambda c: [('map', c.memo)], resfn=lambda c: frz6(c.term, c.old.map(c.scope)), requires=lambda c: [('with an empty memo', c.old.map(c.memo) == EMPTYMAP)], raises=[(Exception, None)], effects=lambda c: {} if c.exc else {'frozen': c.res}, verify=False, name='freeze (C04)')
unifies_ann = Contract('agentspeak:unifies_annotated', params=['left', 'right'], resfn=lambda c: V.bool(ann6(c.left, c.right)), modifies=lambda c: [], raises=[(Exception, None)], verify=False, name='unifies_annotated (C19)')
C = lambda c: c.calling_intention
stacks = lambda c: c.old.f('intentions', c.self)
ints = lambda c: c.old.seq(stacks(c))
is_ = lambda c, tr, gt: And(c.trigger == LV(tr), c.goal_type == LV(gt))
special = lambda c: Or(is_(c, T.removal, GT.achievement), is_(c, T.addition, GT.tellHow), is_(c, T.removal, GT.tellHow), is_(c, T.addition, GT.askHow))
def plans(c):
    f = c.now.ghost['frozen']; e = Select(c.old.map(c.old.f('plans', c.self)), V.tup(mklist([c.trigger, c.goal_type, V.lf(f), V.int(llen(V.la(f)))])))
    return If(Opt.is_present(e), c.old.seq(Opt.pv(e)), NIL)
def first(c): return fpl(plans(c), c.now.ghost['frozen'], c.old.arr('f:head'), c.old.arr('f:context'))
def gone(c): return And(is_(c, T.removal, GT.belief), c.now.ghost['ops'] == cons(op('remove', c.self, c.term, C(c), FALSE), NIL))
def match(c, f):
    w = Select(c.old.arr('f:waiter'), ANY); e = Select(c.old.arr('f:event'), V.oi(w)); tr, gt, hd = [Select(c.old.arr('f:' + k), V.oi(e)) for k in ('trigger', 'goal_type', 'head')]
    return And(w != NONE, e != NONE, tr == c.trigger, gt == c.goal_type, ann6(hd, f))
def woken(c): return And(ontop(ints(c), c.old.arr('seq'), ANY), match(c, c.now.ghost['frozen']))
waiter = lambda h: Select(h.arr('f:waiter'), ANY)
def beliefs_done(c):
    g = c.now.ghost['ops']; own = [(is_(c, T.addition, GT.belief), op('add', c.self, c.term, c.old.f('scope', C(c)), NONE))]
    return g, own
def place(c): return fst(ints(c), c.old.arr('seq'), C(c))
def ens(c):
    o, n, g = c.old, c.now, c.now.ghost; p = first(c); f = g['frozen']; st = Select(n.arr('seq'), ANY); ost = Select(o.arr('seq'), ANY); dd = V.oi(stacks(c)); run = And(Not(special(c)), Not(gone(c)))
    stacked = And(Not(truthy(c.delayed)), place(c) != NONE); I = If(stacked, llast(n.seq(place(c))), llast(n.seq(llast(n.seq(stacks(c)))))); s = dec(L.hd(ps(p, f, o.arr('f:head'), o.arr('f:context'))))
    trail = V.oi(o.f('stack', C(c))); old = And(ANY < o.alloc, ANY > 0); start = And(run, p != NONE)
    ops = lambda *xs: g['ops'] == mklist(list(xs))
    return [('a literal is posted', Or(gone(c), V.is_lit(f))),
        ('the belief is added', Implies(is_(c, T.addition, GT.belief), ops(op('add', c.self, c.term, o.f('scope', C(c)), NONE)))), ('the belief is taken away', Implies(is_(c, T.removal, GT.belief), Or(gone(c), ops(op('remove', c.self, c.term, C(c), TRUE))))),
        ('nothing else is done to the beliefs', Implies(And(c.goal_type != LV(GT.belief), run, Or(p != NONE, c.goal_type != LV(GT.test))), g['ops'] == NIL)),
        ('a removed goal is withdrawn', Implies(is_(c, T.removal, GT.achievement), ops(op('_unachieve', c.self, c.term, L.hd(L.tl(L.tl(L.tl(V.t(L.hd(g['ops'])))))))))),
        ('exactly the waiting intentions of this event wake', Implies(And(Not(special(c)), old), waiter(n) == If(And(Not(gone(c)), woken(c)), NONE, waiter(o)))),
        ('no event when nothing was removed', Implies(And(gone(c), old, ANY != trail), st == ost)),
        ('a goal without a plan is an error', Implies(And(run, p == NONE), c.goal_type != LV(GT.achievement))), ('a test without a plan asks the beliefs', Implies(And(run, p == NONE, c.goal_type == LV(GT.test)), ops(op('test', c.self, c.term, C(c), c.res)))),
        ('no plan starts when none is applicable', Implies(And(run, p == NONE, old, ANY != trail), st == ost)), ('reports success', Implies(And(run, Or(p != NONE, c.goal_type != LV(GT.test))), c.res == TRUE)),
        ('the new intention runs the first applicable plan', Implies(start, And(V.is_obj(I), V.oi(I) >= o.alloc, n.f('instr', I) == o.f('body', p)))), ('for the event', Implies(start, And(n.f('head_term', I) == f, n.f('calling_term', I) == c.term))),
        ('with the bindings of head and context', Implies(start, n.map(n.f('scope', I)) == s)),
        ('a called plan is put on its caller', Implies(And(start, stacked, old, ANY != trail), st == If(ANY == V.oi(place(c)), snoc(ost, I), ost))),
        ('any other plan is a new stack', Implies(And(start, Not(stacked), old, ANY != trail), st == If(ANY == dd, snoc(ost, llast(n.seq(stacks(c)))), ost))), ('a stack with nothing else', Implies(And(start, Not(stacked)), And(V.oi(llast(n.seq(stacks(c)))) >= o.alloc, n.seq(llast(n.seq(stacks(c)))) == cons(I, NIL))))]
truthy = lambda v: v == TRUE
def failed(c):
    old = And(ANY < c.old.alloc, ANY > 0, ANY != V.oi(c.old.f('stack', C(c)))); return [('nothing is started on an error', Implies(And(old, Not(special(c))), Select(c.now.arr('seq'), ANY) == Select(c.old.arr('seq'), ANY)))]
def loop(lc):
    c = lc.c; n, o, e = lc.n, c.old, lc.e; out = []; f = lc.ghost['frozen']; H, K = o.arr('f:head'), o.arr('f:context'); old = And(ANY < o.alloc, ANY > 0)
    out += [('stacks as before', Implies(And(old, ANY != V.oi(o.f('stack', C(c)))), Select(n.arr('seq'), ANY) == Select(o.arr('seq'), ANY))), ('nothing else done', And(lc.ghost['ops'] == lc.eghost['ops'], f == lc.eghost['frozen']))]
    out += [('stacks as at loop entry', n.arr('seq') == e.arr('seq')), ('bindings as at loop entry', n.arr('map') == e.arr('map'))]
    if lc.kind == 'seq' and len(lc.ls) == 1:
        l, r = lc.ls[0], drop(lc.ls[0], lc.idx); m = match(c, f); B = e.arr('seq')
        out += [('whoever woke was waiting for it', Or(waiter(n) == waiter(o), And(waiter(n) == NONE, m, ontop(ints(c), B, ANY)))), ('whoever was met is awake if it should', Or(ontop(r, B, ANY), waiter(n) == If(And(m, ontop(ints(c), B, ANY)), NONE, waiter(o))))]
        out += [('those to come are of the list', Implies(ontop(r, B, ANY), ontop(ints(c), B, ANY))), ('the first applicable plan is still to come', fpl(r, f, H, K) == fpl(l, f, H, K)), ('the stack of the caller is still to come', fst(r, B, C(c)) == fst(l, B, C(c))), ('the stack of the caller', fst(l, B, C(c)) == place(c)), ('the stacks are those of the start', l == ints(c)), ('plans walked are those of the event', BoolVal(True))]
        for nm, v, v0 in lc.vals():
            if lc.eng.cls_of(lc.st, v) is RT.Intention or lc.eng.hintof(lc.st, v) == ('obj', RT.Intention):
                out += [('%s: no bindings' % nm, n.map(n.f('scope', v)) == EMPTYMAP)]
    if lc.kind == 'gen' and lc.rest is not None:
        out.append(('no solution so far', lc.rest == lc.erest))
        for nm, v, v0 in lc.vals():
            if lc.eng.cls_of(lc.st, v) is RT.Plan or lc.eng.hintof(lc.st, v) == ('obj', RT.Plan):
                k = o.f('context', v); out.append(('%s: no solution of the context so far' % nm, flat(lc.rest, k) == flat(lc.erest, k)))
            if lc.eng.cls_of(lc.st, v) is RT.Intention:
                for q in ('scope', 'stack'): 
                    x = n.f(q, v); out += [('%s.%s as at loop entry' % (nm, q), (n.map(x) == e.map(x) if q == 'scope' else n.seq(x) == e.seq(x)))]
    return out
def req(c):
    o = c.old; d = stacks(c); st = o.f('stack', C(c))
    return [('the stacks were there before', allold(ints(c), o.alloc)), ('the caller has bindings', And(*(type_facts(o.f('scope', C(c)), D, o.alloc) + type_facts(st, DQ, o.alloc)))), ('its trail is no stack of intentions', And(V.oi(st) != V.oi(d), nin(V.oi(st), ints(c)))), ('the list of stacks is none of them', nin(V.oi(d), ints(c))), ('delayed or not', V.is_bool(c.delayed)), ('beliefs, plans and bindings are different dicts', And(V.oi(o.f('beliefs', c.self)) != V.oi(o.f('plans', c.self)), V.oi(o.f('scope', C(c))) != V.oi(o.f('plans', c.self)), V.oi(o.f('scope', C(c))) != V.oi(o.f('beliefs', c.self))))]
def case(tr, gt):
    con = Contract('agentspeak.runtime:Agent.call#%s%s' % (tr.name, gt.name), params=['self', 'trigger', 'goal_type', 'term', 'calling_intention', 'delayed'], types={'calling_intention': ('obj', RT.Intention)}, ghost=G0, requires=req, modifies=lambda c: '*', loop=loop, ensures=ens, raises=[(Exception, failed)], name='Agent.call for %s of %s' % (tr.name, gt.name))
    con.fixed = {'trigger': tr, 'goal_type': gt}; return con
calls = [case(tr, gt) for tr in T for gt in GT]
view = View('C06', calls + [add_belief, remove_belief, test_belief, freeze, unifies_ann, uann] + other, fields=F, stable=STABLE + ['f:until', 'f:event'], classes=CLASSES, iface={(QueryI, 'execute'): IFn('execute', ['self', 'agent', 'intention'], iq)}, fixedlists=FIXED, ddictpure=True)
LEMMAS = ['stores beside the stacks']
