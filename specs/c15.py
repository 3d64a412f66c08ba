"""C15: agents built together are separate, complete and uniquely named."""
from specs.c18b import *
I, J = z3.Int('any_agent'), z3.Int('any_later_agent')
def whole(c, h, cs, a, ast, proto):
    """a complete agent of this environment with containers of its own"""
    o = c.old
    return [('every one is a new agent of the environment', And(V.is_obj(a), V.oc(a) == cid(AG), V.oi(a) >= o.alloc, V.oi(a) < h.alloc, h.f('env', a) == c.self)), ('every one owns its containers', owns(h, a)), ('every one is told its beliefs and goals', told(Select(cs, a), h, ast))] + [
        ('every one has the %s' % k, content(h, a, k) == content(h, proto, k)) for k in ('rules', 'plans')]
def reg(c, h, a): return And(Select(names(h, c), h.f('name', a)) == Opt.present(a))
quiet = spec('quiet', CalledA, Int, Bool)        # no agent this new has been told anything
def quiet_use(e, s): m, lo = ch(e); m2, k = ch(s); return Implies(And(e, m == m2, V.oi(k) >= lo), s == NIL)
@handler('quiet')
def _(e, ix):
    m, lo = ch(e); out = [quiet(NOCALLS, lo)]; t = m
    while info(t)[3] == z3.Z3_OP_STORE:
        b, a, v = ch(t); out.append(Implies(And(quiet(b, lo), Or(V.oi(a) < lo, v == NIL)), quiet(t, lo))); t = b
    for s in ix.by.get('store', ()):
        if s.sort() == CalledA and ch(s)[0].eq(m): out.append(Implies(And(quiet(s, lo), V.oi(ch(s)[1]) < lo), e))
    for f in ix.by.get('quiet', ()):
        if ch(f)[0].eq(m): out.append(Implies(And(f, ch(f)[1] <= lo), e))
    return out + [quiet_use(e, s) for s in ix.by.get('select', ()) if s.sort() == L and ch(s)[0].sort() == CalledA]
SELECT_HANDLERS.append(lambda s, ix: [quiet_use(e, s) for e in ix.by.get('quiet', ())] if s.sort() == L and ch(s)[0].sort() == CalledA else [])
def older(h, a, b): return before(h, a, b)
def stays(c, h): return Implies(Opt.is_present(Select(names(c.old, c), REGD)), Select(names(h, c), REGD) == Select(names(c.old, c), REGD))
def all_post(c):
    n = c.now; ls = n.seq(c.res); k = V.i(c.n); cs = n.ghost['called']; a, b, p = nth(ls, I), nth(ls, J), L.hd(ls); ast = n.ghost['ast']
    return [('as many as asked for', If(k <= 0, ls == NIL, llen(ls) == k)), *[(x, Implies(And(0 <= I, I < llen(ls)), f)) for x, f in whole(c, n, cs, a, ast, p)], ('every one is registered under its own name', Implies(And(0 <= I, I < llen(ls)), reg(c, n, a))),
            ('no two share anything', Implies(And(0 <= I, I < J, J < llen(ls)), older(n, a, b))), ('the agents there were stay', stays(c, n))]
def listed(e, n, cs0, cs, a): return And(*[part(e, a, k) == part(n, a, k) for k in DICTS], *[content(e, a, k) == content(n, a, k) for k in ('rules', 'plans')], Select(cs0, a) == Select(cs, a))
def all_loop(lc):
    c, n, e = lc.c, lc.n, lc.e; out = []; lists = locals_of(lc, list); A = newagent(lc)
    if len(lists) != 1 or lc.ghost['ast'].eq(V.none): return out
    AL = lists[0]; ls = n.seq(AL); p = lc.ghost['proto']; ast = lc.ghost['ast']; a, b = nth(ls, I), nth(ls, J); cs = lc.ghost['called']; at = And(0 <= I, I < llen(ls)); k = V.i(c.n)
    keep = [('the lists of the syntax tree stay', And(*[And(V.oi(n.f(x, ast)) < V.oi(p), n.seq(n.f(x, ast)) == e.seq(n.f(x, ast))) for x in ASTLISTS])), ('nobody newer is told anything', quiet(cs, n.alloc)), ('alloc', n.alloc >= e.alloc)]
    if A is None or lc.kind != 'seq' or len(lc.ls) != 1 or A.decl().name().startswith('l_'):
        return keep + [('some, and not too many', And(llen(ls) >= 1, llen(ls) <= k)), ('the first is the prototype', And(ls != NIL, L.hd(ls) == p, nth(ls, IntVal(0)) == p)), *[(x, Implies(at, f)) for x, f in whole(c, n, cs, a, ast, p)], ('every one is registered', Implies(at, reg(c, n, a))),
           ('no two share anything', Implies(And(0 <= I, I < J, J < llen(ls)), older(n, a, b))), ('the agents there were stay', stays(c, n)), ('the prototype is one of them', And(V.oi(p) < n.alloc, owns(n, p))),
           ('the list of agents is none of theirs', And(older(n, p, AL), V.oi(AL) < n.alloc, Implies(And(1 <= I, I < llen(ls)), V.oi(a) > V.oi(AL))))]
    cs0 = lc.eghost['called']; l = lc.ls[0]; r = l if z3.is_int_value(lc.idx) else drop(l, lc.idx)
    out = keep + [('the agents of the list stay', And(ls == e.seq(AL), Implies(at, listed(e, n, cs0, cs, a)))), ('the prototype stays', listed(e, n, cs0, cs, p)), ('the registry stays', names(e, c) == names(n, c)), ('the new one has its own', owns(n, A))] + told_inv(lc, ast, n)
    for kk in ('rules', 'plans'):
        x, y = content(n, A, kk), content(n, p, kk); out += [('%s copied' % kk, x == y), ('%s copied so far' % kk, And(l == mkeys(n.map(n.f(kk, p))), Implies(Not(mem(GRP, r)), x == y), Or(x == NIL, x == y))), ('no %s yet' % kk, x == NIL)]
    return out
many = Contract('agentspeak.runtime:Environment.build_agents', params=['self', 'source', 'n', 'actions', 'agent_cls', 'name'], types={'source': ('iface', SourceI), 'n': 'int', 'name': ('opt', 'str')}, ghost=lambda c: {'errors': IntVal(0), 'called': NOCALLS, 'ast': V.none, 'proto': V.none},
    requires=lambda c: [('the registry exists', And(*type_facts(c.old.f('agents', c.self), ('dict', None), c.old.alloc)))], modifies=lambda c: '*', ensures=all_post, raises=[(Exception, lambda c: [('the agents there were stay', stays(c, c.now))])], loop=all_loop, name='Environment.build_agents')
many.fixed = {'agent_cls': AG}
def fresh_all(c):
    g = fresh_told(c)
    if not c.exc: g['ast'] = simp(L.hd(V.t(c.res))); g['proto'] = simp(T1(c.res))
    return g
one15 = Contract('agentspeak.runtime:Environment._build_agent', resfn=one_use.resfn, requires=begin, effects=fresh_all, verify=False, name='_build_agent (C18)', **OP)
view = View('C15', [many, one15, make_name, accept, call], fields=F, stable=STB, classes=CLS, iface=IFACE, natives=NAT)
LEMMAS = []
