"""addcheck.py ID '{json overrides}' : register a property in checks.json, write its expectations, regenerate the manifest"""
import sys, json, subprocess, os
os.chdir('/verif'); I = sys.argv[1]
d = json.load(open('checks.json')); d.setdefault(I, {'level': 'proof', 'secs': 25, 'shards': 2, 'budget': 200}).update(json.loads(sys.argv[2]) if len(sys.argv) > 2 else {})
json.dump(dict(sorted(d.items())), open('checks.json', 'w'), indent=1)
na = json.load(open('not_applicable.json')); na.pop(I, None); json.dump(na, open('not_applicable.json', 'w'), indent=1)
r = subprocess.run(['python3-vt', 'run.py', I], env={**os.environ, 'VERIF_WRITE_EXPECT': '1'}); 
subprocess.run(['python3-vt', 'tools/mkmanifest.py']); sys.exit(r.returncode)
