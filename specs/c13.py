"""C13: messages reach exactly the addressees, as the event their force denotes, tagged with their sender."""
from specs.c14 import *
import agentspeak.stdlib as SL
T, GT = agentspeak.Trigger, agentspeak.GoalType
S_ = lambda s: V.str(z3.StringVal(s))
grd = spec('grd', V, Map, V); withann = spec('withann', V, V, V)
atom = lambda x: And(V.is_lit(x), V.la(x) == NIL, V.ln(x) == NIL)
TABLE = {'tell': (T.addition, GT.belief), 'untell': (T.removal, GT.belief), 'achieve': (T.addition, GT.achievement), 'unachieve': (T.removal, GT.achievement)}
HOW = {'tellHow': (T.addition, GT.tellHow), 'untellHow': (T.removal, GT.tellHow), 'askHow': (T.addition, GT.askHow)}
def entry(mp, x): return Select(mp, If(atom(x), V.lf(x), x))
tgt = spec('tgt', L, Map, L); allknown = spec('allknown', L, Map, Bool)
@unfolds(tgt)
def _(l, mp): return [tgt(l, mp) == If(l == NIL, NIL, cons(Opt.pv(entry(mp, L.hd(l))), tgt(L.tl(l), mp)))]
@unfolds(allknown)
def _(l, mp): return [allknown(l, mp) == If(l == NIL, True, And(Opt.is_present(entry(mp, L.hd(l))), allknown(L.tl(l), mp)))]
allag = spec('allag', L, Bool)                   # agents only
isag = lambda x: And(V.is_obj(x), V.oc(x) == cid(RT.Agent))
@unfolds(allag)
def _(l):
    if info(l)[2] == 'snoc': return [allag(l) == And(allag(ch(l)[0]), isag(ch(l)[1]))]
    return [allag(l) == If(l == NIL, True, And(isag(L.hd(l)), allag(L.tl(l))))]
item = lambda r, t, g, m: V.tup(mklist([r, t, g, m]))
dl = spec('dl', L, V, V, V, L); bc = spec('bc', L, Map, V, V, V, V, L)
@unfolds(dl)
def _(l, t, g, m): return [dl(l, t, g, m) == If(l == NIL, NIL, cons(item(L.hd(l), t, g, m), dl(L.tl(l), t, g, m)))]
@unfolds(bc)
def _(l, mp, a, t, g, m):
    r = Opt.pv(Select(mp, L.hd(l))); n = bc(L.tl(l), mp, a, t, g, m)
    return [bc(l, mp, a, t, g, m) == If(l == NIL, NIL, If(r == a, n, cons(item(r, t, g, m), n)))]
G0 = lambda c: {'log': NIL, 'failed': FALSE}
call = Contract('agentspeak.runtime:Agent.call', params=['self', 'trigger', 'goal_type', 'term', 'calling_intention', 'delayed'], modifies=lambda c: [], raises=[(Exception, None)], verify=False, name='Agent.call (C05, C06)',
    effects=lambda c: {'log': app(c.old.ghost['log'], cons(item(c.self, c.trigger, c.goal_type, c.term), NIL)), 'failed': TRUE if c.exc else c.old.ghost['failed']})
grounded = Contract('agentspeak:grounded', params=['term', 'scope'], types={'scope': D}, raises=[(Exception, None)], verify=False, name='grounded (C04)', resfn=lambda c: grd(c.term, c.old.map(c.scope)), ensures=lambda c: [Not(V.is_var(c.res)), Not(V.is_wild(c.res)), Not(V.is_obj(c.res))])
freeze13 = Contract('agentspeak:freeze', params=['term', 'scope', 'memo'], types={'scope': D, 'memo': D}, modifies=lambda c: [('map', c.memo)], raises=[(Exception, None)], verify=False, name='freeze (C04)', resfn=lambda c: frz(c.term, c.old.map(c.scope), c.old.map(c.memo)))
def wa_post(c):
    x = fresh('any_annotation', V)
    return [('name and arguments kept', And(V.is_lit(c.res), V.lf(c.res) == V.lf(c.self), V.la(c.res) == V.la(c.self))), ('exactly this annotation is added', mem(x, simp(V.ln(c.res))) == Or(mem(x, V.ln(c.self)), x == c.annot))]
with_annotation = Contract('agentspeak:Literal.with_annotation', params=['self', 'annot'], ensures=wa_post, name='Literal.with_annotation', fuels=(2, 5))
with_ann_use = Contract('agentspeak:Literal.with_annotation', params=['self', 'annot'], resfn=lambda c: withann(c.self, c.annot), verify=False, name='with_annotation (proved above)')
def m_(c): return c.old.map(c.old.f('scope', c.intention))
def agents(c): return c.old.map(c.old.f('agents', c.old.f('env', c.agent)))
def a_(c, k):
    l = V.la(c.term)
    for _ in range(k): l = L.tl(l)
    return L.hd(l)
def pick(tab, f, i, d=NONE):
    r = d
    for k, p in tab.items(): r = If(V.lf(f) == S_(k), LV(p[i]), r)
    return r
def known(tab, f): return And(atom(f), Or(*[V.lf(f) == S_(k) for k in tab]))
def how(f): return Or(*[V.lf(f) == S_(k) for k in HOW])
def message(c, k, f, m): return withann(If(how(f), V.lit(S_('plain_text'), mklist([a_(c, k)]), NIL), frz(a_(c, k), m, EMPTYMAP)) if k == 2 else frz(a_(c, k), m, EMPTYMAP), source(c))
def source(c): return V.lit(S_('source'), mklist([V.lit(c.old.f('name', c.agent), NIL, NIL)]), NIL)
def send_list(c):
    r = grd(a_(c, 0), m_(c)); return If(V.is_tup(r), V.t(r), cons(r, NIL))
SENDTAB = {**TABLE, **HOW}; CASTTAB = {k: TABLE[k] for k in ('tell', 'untell', 'achieve')}
def parts(c, k, tab):
    f = grd(a_(c, k - 1), m_(c)); return f, pick(tab, f, 0), pick(tab, f, 1), message(c, k, f, m_(c))
def send_expected(c):
    f, t, g, m = parts(c, 2, SENDTAB); return dl(tgt(send_list(c), agents(c)), t, g, m)
def send_ok(c): return And(known(SENDTAB, grd(a_(c, 1), m_(c))), allknown(send_list(c), agents(c)))
def cast_ok(c): return known(CASTTAB, grd(a_(c, 0), m_(c)))
def keysof(c): return mkeys(agents(c))
def cast_expected(c):
    f, t, g, m = parts(c, 1, CASTTAB); return bc(keysof(c), agents(c), c.agent, t, g, m)
def ends(ok): return lambda c: [('whoever is told nothing', Implies(c.now.ghost['failed'] == FALSE, c.now.ghost['log'] == NIL)), ('nobody is told when an addressee or the force is unknown', Implies(Not(ok(c)), c.now.ghost['log'] == NIL))]
def s_loop(lc):
    c = lc.c; g = lc.ghost; out = [('log as before', g['log'] == lc.eghost['log']), ('no failure', g['failed'] == FALSE)]
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    l, r = lc.ls[0], drop(lc.ls[0], lc.idx); f, t, gt, m = parts(c, 2, SENDTAB)
    for i, (b0, b) in enumerate(lc.lists): out.append(('receivers found and to come %d' % i, And(app(b, tgt(r, agents(c))) == tgt(l, agents(c)), allknown(l, agents(c)) == allknown(r, agents(c)))))
    for i, a in enumerate(lc.accs): out.append(('receivers found and to come (comprehension) %d' % i, And(app(a, tgt(r, agents(c))) == tgt(l, agents(c)), allknown(l, agents(c)) == allknown(r, agents(c)))))
    out.append(('agents to come', allag(r))); out += [('agents found %d' % i, allag(b)) for i, (b0, b) in enumerate(lc.lists)] + [('agents found (comprehension) %d' % i, allag(a)) for i, a in enumerate(lc.accs)]
    out.append(('told and to be told', app(g['log'], dl(r, t, gt, m)) == dl(l, t, gt, m)))
    return out
def b_loop(lc):
    c = lc.c; g = lc.ghost; out = [('log as before', g['log'] == lc.eghost['log']), ('no failure', g['failed'] == FALSE)]
    if lc.kind != 'seq' or len(lc.ls) != 1: return out
    l, r = lc.ls[0], drop(lc.ls[0], lc.idx); f, t, gt, m = parts(c, 1, CASTTAB); x = (agents(c), c.agent, t, gt, m)
    out.append(('told and to be told', And(l == keysof(c), app(g['log'], bc(r, *x)) == bc(keysof(c), *x))))
    return out
def sc_req(n): return lambda c: [('arguments', And(V.is_lit(c.term), llen(V.la(c.term)) == n))]
def action(target, n, ok, expected, loop, nm):
    return Contract(target, params=['agent', 'term', 'intention'], types={'agent': ('obj', RT.Agent), 'intention': ('obj', RT.Intention), 'term': 'lit'}, gen=True, ghost=G0, loop=loop, requires=lambda c: sc_req(n)(c) + i_req(c), modifies=lambda c: [], name=nm,
        yields=lambda c: [('force and addressees are known', ok(c)), ('every addressee was told exactly once, in order, and nobody else', c.now.ghost['log'] == expected(c)), ('once', c.idx == 0)],
        exits=lambda c: [('told nobody unless it succeeded', Or(c.now.ghost['log'] == NIL, ok(c)))], raises=[(Exception, ends(ok))])
def i_req(c):
    r = grd(a_(c, 0), m_(c)); return [('intention has a scope', And(*type_facts(c.old.f('scope', c.intention), D, c.old.alloc))), ('addressees are given as a closed list', Not(V.is_link(r)))]
fsend = 'agentspeak.stdlib:' + SL.actions.lookup('.send', 3).__name__; fcast = 'agentspeak.stdlib:' + SL.actions.lookup('.broadcast', 2).__name__
send = action(fsend, 3, send_ok, send_expected, s_loop, '.send')
cast = action(fcast, 2, cast_ok, cast_expected, b_loop, '.broadcast')
init = Contract('agentspeak.runtime:Intention.__init__', params=['self'], modifies=lambda c: '*', verify=False, name='new Intention')
view = View('C13', [send, cast, call, grounded, freeze13, with_ann_use], fields=heap_fields() if 'heap_fields' in globals() else runtime_fields(), stable=STABLE + ['f:agents'], classes=CLASSES)
LEMMAS = []
