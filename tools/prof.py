import sys; sys.path.insert(0,'/verif')
import importlib, cProfile, pstats
from pydv.verify import *
m=importlib.import_module('specs.'+sys.argv[1]); tgt=sys.argv[2]
con=m.view.contracts[tgt]
pr=cProfile.Profile(); pr.enable()
r=verify_one((m.view,con,tgt,float(sys.argv[3]) if len(sys.argv)>3 else 120))
pr.disable()
print(r['status'],r['reason'],len(r['obls']),[ (o['line'],o['name'],o['status']) for o in r['obls'] if o['status']!='proved'],'paths',r['paths'],'q',r['queries'],'solver',r['solver'],'wall',r['wall'])
pstats.Stats(pr).sort_stats('tottime').print_stats(18)
