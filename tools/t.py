"""t.py SPEC [TARGET|lemma|all] [bad shown] [chars] : run a view"""
import sys; sys.path.insert(0,'/verif')
import importlib, time
from pydv.verify import *
name=sys.argv[1]; only=sys.argv[2] if len(sys.argv)>2 else None
if only=='all': only=None
m=importlib.import_module('specs.'+name)
if only is None or only=='lemma':
    for nm,r,t in run_lemmas(getattr(m,'LEMMAS',None)): print('LEMMA',nm,r,round(t,2))
t=time.time()
if only!='lemma':
  for r in run_view(m.view, only=only):
    bad=[o for o in r['obls'] if o['status']!='proved']
    print(r['target'], r['status'], 'obls',len(r['obls']),'bad',len(bad),'paths',r['paths'],'reach',r['reach'],'q',r['queries'],'wall %.1f'%r['wall'], 'inl',r['inlined'])
    if r.get('dead'): print('   DEAD lines',r['dead'])
    if r['reason']: print('   REASON',r['reason'])
    for b in bad[:int(sys.argv[3]) if len(sys.argv)>3 else 2]: print('   BAD',b['line'],b['name'],b['status'],'\n      ',(b['detail'] or '').replace('\n','\n       ')[:int(sys.argv[4]) if len(sys.argv)>4 else 600])
print('total',time.time()-t)
