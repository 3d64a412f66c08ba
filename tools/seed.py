"""seed.py SPECFILE : build and confirm a planted bug.  SPECFILE is Python defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source of the demonstration, exit 0 = property holds)"""
import sys, os, subprocess, shutil, json
spec = {}; exec(open(sys.argv[1]).read(), spec)
ID, EDITS = spec['ID'], spec['EDITS']
W = '/tmp/seedwt-%s' % ID
if os.path.exists(W): shutil.rmtree(W)
subprocess.run(['cp', '-a', '/repo', W], check=True)
d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
open(d + '/demo.py', 'w').write(spec['DEMO'])
open(d + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONPATH="$PWD" exec timeout 100 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
base = 'fda036b'
ok = True
def demo(): 
    try: return subprocess.run([d + '/demo.sh'], cwd=W, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = stderr = 'timeout'
        return R
r0 = demo()
for f, old, new in EDITS:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
r1 = demo()
# removed lines must be lines of the original repository
import re
orig = {}
for f in set(e[0] for e in EDITS): orig[f] = set(subprocess.run(['git', 'show', base + ':' + f], cwd=W, capture_output=True, text=True).stdout.split('\n'))
added = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
if not any(l in o for l in added for o in orig.values()): print('WARNING: no removed line of the original repository')
bad = [l for l in added if not any(l in o for o in orig.values())]
if bad: print('WARNING: touches lines of own commits', bad)
subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'compileall', '-q', 'agentspeak'], cwd=W)
env = {**os.environ, 'PYTHONPATH': W, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'tests'], cwd=W, capture_output=True, text=True, env=env)
for f in sorted(set(re.findall(r'python -m agentspeak (tests/asl/\S+\.asl)', open(W + '/tox.ini').read()))):
    if t.returncode: break
    try: t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'agentspeak', f], cwd=W, capture_output=True, text=True, env=env, stdin=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        t.returncode = 99
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
print(ID, 'demo clean', r0.returncode, 'patched', r1.returncode, 'tests', t.returncode, 'GOOD' if good else 'BAD')
if not good: print(r0.stdout[-500:], r0.stderr[-800:], '---', r1.stdout[-500:], r1.stderr[-500:], '---', t.stdout[-800:])
else: print('   ', (r1.stdout + r1.stderr).strip().split('\n')[-1][:200])
shutil.rmtree(W)
