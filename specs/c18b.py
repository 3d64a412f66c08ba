"""C18: a program with errors is not loaded: no agent is built or registered from it."""
from specs.envbuild import *
G0 = lambda c: {'errors': IntVal(0), 'called': NOCALLS}
def loop(lc):
    c = lc.c; out = kept(type('K', (), dict(old=c.old, now=lc.n, self=c.self)))
    for nm, v, v0 in lc.vals():
        if lc.eng.cls_of(lc.st, v) is LOG: out += [('%s counts every error' % nm, And(lc.ghost['errors'] >= 0, nerr(lc.n, v) == lc.ghost['errors'], V.is_int(lc.n.f('num_errors', v))))]
    return out + told_inv(lc, c.ast_agent) + own_inv(lc, c.ast_agent) + ([('its containers are its own', owns(lc.n, newagent(lc)))] if newagent(lc) is not None else [])
bffa = Contract('agentspeak.runtime:Environment.build_agent_from_ast', ghost=G0, requires=tree_req('ast_agent'), loop=loop, name='Environment.build_agent_from_ast', **BP)
bffa.fixed = {'agent_cls': AG}
one = Contract('agentspeak.runtime:Environment._build_agent', ghost=G0, name='Environment._build_agent', **OP)
one.fixed = {'agent_cls': AG}
rest = [make_name, accept, parse, stream, init, throw, call]
view = View('C18b', [bffa] + rest, fields=F, stable=STB, classes=CLS, iface=IFACE, natives=NAT)
LEMMAS = []
