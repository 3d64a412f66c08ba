"""C05: a test goal is answered from beliefs and rules, and changes no fact."""
from specs.c03 import *
I2 = lambda c: c.old.map(I_sc(c))
def tq(c, t):
    """solutions of a literal query"""
    g = V.tup(mklist([V.lf(t), V.int(llen(V.la(t)))])); b, r = Select(c.old.map(c.old.f('beliefs', c.self)), g), Select(c.old.map(c.old.f('rules', c.self)), g)
    bs = If(Opt.is_present(b), elems(c.old.set(Opt.pv(b))), NIL); rs = If(Opt.is_present(r), c.old.seq(Opt.pv(r)), NIL)
    return app(flatB(bs, t, I2(c)), flatR(rs, t, I2(c)))
et = lambda c: evl(c.term, I2(c))
@handler('evl')
def _(e, ix): t, m = ch(e); return [Implies(V.is_lit(e), evl(e, m) == e)] if info(t)[2] != 'evl' else []      # evaluating twice (C04)
def post(c):
    s = tq(c, et(c))
    return [('only literals are tested', V.is_lit(et(c))), ('the answer is whether there is a solution', c.res == V.bool(s != NIL)), ('the bindings are those of the first solution', c.now.map(I_sc(c)) == If(s != NIL, dec(L.hd(s)), I2(c)))]
def t_req(c):
    g = V.tup(mklist([V.lf(et(c)), V.int(llen(V.la(et(c))))])); b, r = Select(c.old.map(c.old.f('beliefs', c.self)), g), Select(c.old.map(c.old.f('rules', c.self)), g)
    return [('intention has a scope and a trail', And(*i_types(c))), ('beliefs and rules were there before', And(Implies(Opt.is_present(b), V.oi(Opt.pv(b)) < c.old.alloc), Implies(Opt.is_present(r), V.oi(Opt.pv(r)) < c.old.alloc)))]
def loop5(lc):
    c = lc.c; out = [('bindings as at the start', lc.n.map(I_sc(c)) == I2(c)), ('trail as at the start', c.old.seq(I_st(c)) == lc.n.seq(I_st(c)))]
    return out + ([('no solution so far', lc.rest == lc.erest)] if lc.kind == 'gen' and lc.rest is not None else [])
test_belief = Contract('agentspeak.runtime:Agent.test_belief', params=['self', 'term', 'intention'], types={'intention': ('obj', RT.Intention)}, requires=t_req, modifies=imods, raises=[(Exception, None)], ensures=post, loop=loop5, name='Agent.test_belief')
Q = [traced(Contract('agentspeak.runtime:TermQuery.execute', params=['self', 'agent', 'intention'], trace=term_, name='TermQuery (C03, C02)', verify=False, **{**IBASE, 'requires': t_requires}))]
view = View('C05b', [test_belief, evaluate] + Q, fields=runtime_fields(), stable=STABLE, classes=CLASSES, ddictpure=True)
