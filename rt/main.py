"""usage: main.py PROPERTY --seed N --secs S --tier T   |   main.py --replay FILE
Prints one JSON object: cases run, distinct non-trivial cases, samples, failures."""
import sys, os, argparse, importlib, json, time, random, signal, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--secs', type=float, default=20)
ap.add_argument('--tier', default='quick'); ap.add_argument('--shard', type=int, default=0); ap.add_argument('--replay'); ap.add_argument('--only'); ap.add_argument('--cases', type=int, default=0)
A = ap.parse_args()
R = None
if A.replay:
    R = json.load(open(A.replay)); A.prop = R['property']
    hs = str(R.get('hashseed', 0))
else: hs = str((A.seed * 31 + A.shard) % 4000)
if os.environ.get('PYTHONHASHSEED') != hs:
    os.environ['PYTHONHASHSEED'] = hs
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.setrecursionlimit(3000)
import lib
mod = importlib.import_module(A.prop.lower())
CPU = 20
def alarm(sig, frm): raise lib.Hang()
signal.signal(signal.SIGPROF, alarm)
def run_case(name, fn, seed, size):
    """(status, message)"""
    lib.NAMES.clear()
    rng = random.Random('%s/%s/%s' % (name, seed, size))
    signal.setitimer(signal.ITIMER_PROF, CPU)
    try:
        r = fn(rng, size)
        return 'ok', r
    except lib.Skip: return 'skip', None
    except lib.Fail as e: return 'fail', str(e)
    except RecursionError: return 'deep', traceback.format_exc()[-600:]
    except lib.Hang: return 'fail', 'the code under test did not come to an end within %d s of processor time (the other cases take milliseconds)' % CPU
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and ('agentspeak' in tb[-1].filename) : return 'fail', 'unexpected %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
        inner = [f for f in tb if os.sep + 'agentspeak' + os.sep in f.filename]
        if inner: return 'fail', 'unexpected %s: %s raised through %s:%d' % (type(e).__name__, e, os.path.basename(inner[-1].filename), inner[-1].lineno)
        return 'error', traceback.format_exc()
    finally: signal.setitimer(signal.ITIMER_PROF, 0)
checks = lib.CHECKS[A.prop]
if R:
    fn = [f for n, f, w in checks if n == R['check']][0]
    st, msg = run_case(R['check'], fn, R['seed'], R['size'])
    print('%s: %s' % (st, msg)); sys.exit(1 if st == 'fail' else 0)
out = {'cases': 0, 'skipped': 0, 'distinct': 0, 'per_check': {}, 'samples': [], 'failures': [], 'errors': [], 'hashseed': int(hs)}
seen = set()
t0 = time.time()
i = 0
active = [c for c in checks if A.only is None or A.only in c[0]]
order = [c for c in active for _ in range(c[2])]
bad = set(); deep = {}
while time.time() - t0 < A.secs and (not A.cases or i < A.cases):
    name, fn, w = order[i % len(order)]
    rnd = i // len(order)
    size = min(1 + rnd // 30, 6)
    i += 1
    if name in bad: 
        if len(bad) == len(active): break
        continue
    seed = '%d.%d.%d' % (A.seed, A.shard, i)
    st, msg = run_case(name, fn, seed, size)
    out['cases'] += 1
    if st == 'skip': out['skipped'] += 1; continue
    if st == 'deep':      # a cyclic term: no occurs check; suspicious only when it happens all the time
        out['skipped'] += 1; deep[name] = deep.get(name, 0) + 1
        if deep[name] > 40 and deep[name] > 0.3 * (out['per_check'].get(name, 0) + deep[name]): st, msg = 'fail', 'endless recursion on ordinary inputs: ' + msg
        else: continue
    pc = out['per_check'].setdefault(name, 0); out['per_check'][name] = pc + 1
    if st == 'ok':
        if isinstance(msg, str):
            h = hashlib.md5((name + msg).encode('utf-8', 'surrogatepass')).digest()
            if h not in seen:
                seen.add(h)
                if len([s for s in out['samples'] if s.startswith(name)]) < 2: out['samples'].append(name + ': ' + msg[:400])
    elif st == 'fail':
        out['failures'].append({'check': name, 'seed': seed, 'size': size, 'message': msg[:4000], 'hashseed': int(hs)}); bad.add(name)
        if len(out['failures']) >= 5: break
    else:
        out['errors'].append({'check': name, 'seed': seed, 'size': size, 'message': msg[-1500:]}); bad.add(name)
out['distinct'] = len(seen); out['wall'] = time.time() - t0
import known; out['known'] = known.known(A.prop)
print(json.dumps(out))
