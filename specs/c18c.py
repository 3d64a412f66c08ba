"""C18: building from a source file: only a program that parses without errors is built."""
from specs.c18b import *
ba = Contract('agentspeak.runtime:Environment.build_agent', params=['self', 'source', 'actions', 'agent_cls', 'name'], types=OP['types'], ghost=G0, modifies=lambda c: '*', ensures=lambda c: registered(c, c.res) + [('the source had no error', c.now.ghost['errors'] == 0)], raises=[(Exception, kept)], name='Environment.build_agent')
ba.fixed = {'agent_cls': AG}
view = View('C18c', [one, bffa_use] + rest, fields=F, stable=STB, classes=CLS, iface=IFACE, natives=NAT)
