"""C18: build_agent over the contract of _build_agent."""
from specs.c18c import *
view = View('C18d', [ba, one_use], fields=F, stable=STB, classes=CLS, iface=IFACE, natives=NAT)
