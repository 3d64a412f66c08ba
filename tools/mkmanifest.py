"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(H + '/checks.json')); na = json.load(open(H + '/not_applicable.json'))
checks = []; out = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    c = cfg.get(p)
    if c and not c.get('off'):
        cmd = 'python3-vt /verif/run.py %s' % p
        checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else: out.append({'property': p, 'reason': na.get(p, 'No contract for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt /verif/tools/setup.py', 'checks': checks, 'not_applicable': out}, open(H + '/MANIFEST.json', 'w'), indent=1)
