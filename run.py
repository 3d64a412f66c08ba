"""The check of one property: run.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)

1. the verifier (pydv) discharges every obligation of the property's contracts against /repo's source;
2. the same contracts are evaluated on the real code over generated inputs (rt): witness search for a
   failed obligation, and labelled bounded stand-in for the functions the verifier cannot reach.
"""
import sys, os, re, json, time, subprocess, importlib, collections
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
os.chdir(HERE)
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick'); 
try: SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
except ValueError: SEED = 1
REPO = os.environ.get('PYDV_REPO', '/repo')
PYREAL = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CFG = json.load(open(os.path.join(HERE, 'checks.json')))[PROP]
T0 = time.time()
WORK = os.path.join(HERE, 'work', PROP); os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
def log(*a): print(*a, flush=True)

def start_rt(secs, shards, seed, only=None):
    ps = []
    if not os.path.exists(os.path.join(HERE, 'rt', PROP.lower() + '.py')): return ps
    for k in range(shards):
        cmd = [PYREAL, '-B', os.path.join(HERE, 'rt', 'main.py'), PROP, '--seed', str(seed), '--secs', str(secs), '--tier', TIER, '--shard', str(k)]
        if only: cmd += ['--only', only]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=WORK))
    return ps
def end_rt(ps, secs):
    tot = {'cases': 0, 'skipped': 0, 'distinct': 0, 'samples': [], 'failures': [], 'errors': [], 'per_check': collections.Counter(), 'known': [], 'broken': []}
    end = time.time() + secs * 2 + 120
    for p in ps:
        try: o, e = p.communicate(timeout=max(5, end - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); tot['broken'].append('bounded run did not end'); continue
        try: d = json.loads(o.strip().split('\n')[-1])
        except Exception: tot['broken'].append((e or o)[-800:]); continue
        for k in ('cases', 'skipped', 'distinct'): tot[k] += d[k]
        for k in ('failures', 'errors'): tot[k] += d[k]
        if len(tot['samples']) < 8: tot['samples'] += d['samples'][:8 - len(tot['samples'])]
        tot['per_check'].update(d['per_check'])
        if d.get('known'): tot['known'] = d['known']
    return tot

def deductive():
    from pydv.verify import run_view, run_lemmas
    import pydv.smt as S
    out = {'results': [], 'lemmas': []}
    names = CFG.get('views', [PROP.lower()])
    for nm in names:
        if not os.path.exists(os.path.join(HERE, 'specs', nm + '.py')): continue
        m = importlib.import_module('specs.' + nm)
        rs = run_view(m.view, budget=CFG.get('budget', 240) * (3 if TIER == 'thorough' else 1), procs=CFG.get('procs', 8))
        out['results'] += [dict(r, view=m.view.name) for r in rs]
        out['lemmas'] += getattr(m, 'LEMMAS', [])
    ln = out['lemmas']
    out['lemmas'] = run_lemmas(set(ln)) if ln else []
    return out

def main():
    secs = CFG.get('secs', 25) * (8 if TIER == 'thorough' else 1)
    shards = CFG.get('shards', 3)
    ps = start_rt(secs, shards, SEED)
    ded = {'results': [], 'lemmas': []}
    dederr = None
    try: ded = deductive()
    except Exception as e:
        import traceback; dederr = traceback.format_exc()[-1500:]
    rt = end_rt(ps, secs)
    # ---------------------------------------------------------------- assemble
    expected = json.load(open(os.path.join(HERE, 'expect.json'))).get(PROP, {})
    obls = 0; done = 0; failed = []; proved_fns = []; notreached = []; backends = collections.Counter(); solver = 0.0; assumed = set(); used = set(); undecided = []
    for nm, cases, t in ded['lemmas']:
        for label, st, be in cases:
            obls += 1
            if st == 'proved': done += 1; backends[be] += 1
            else: undecided.append('lemma %s (%s): %s' % (nm, label, st))
    for r in ded['results']:
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        key = r['view'] + '/' + r['target']
        for o in r['obls']: backends[o['backend']] += 1 if o['status'] == 'proved' else 0
        solver += r['solver']; assumed |= set(r['assumed']); used |= set(r['used'])
        exp = expected.get(key)
        if r['status'] != 'ok':
            notreached.append('%s: %s' % (key, (r['reason'] or r['status'])[:200])); 
            continue
        if exp != 'proved':       # never proved on the reference tree: not part of the claim
            if bad: notreached.append('%s: %d obligation(s) beyond the verifier\'s reach' % (key, len(bad))); continue
        obls += len(r['obls']); done += len(r['obls']) - len(bad)
        if r['reach'] == 0: notreached.append('%s: no path reaches an exit (vacuous)' % key)
        if not bad: proved_fns.append(key)
        for o in bad:
            if o['status'] == 'failed': failed.append((key, o))
            else: undecided.append('%s line %s: %s (%s)' % (key, o['line'], o['name'], o['status']))
    lost = [k for k, v in expected.items() if v == 'proved' and k not in proved_fns and not any(f[0] == k for f in failed)]
    violations = []
    for f in rt['failures'][:3]:
        p = os.path.join(WORK, 'replay-%s-%s.json' % (f['check'], f['seed']))
        rel = [(k, o['line'], o['name']) for k, o in failed]
        json.dump({'property': PROP, 'check': f['check'], 'seed': f['seed'], 'size': f['size'], 'hashseed': f['hashseed'], 'message': f['message'],
                   'failed_obligations': rel[:20], 'how': '%s -B %s/rt/main.py --replay %s' % (PYREAL, HERE, p)}, open(p, 'w'), indent=1)
        violations.append((p, '', f['message']))
    listed = dict(re.findall(r'^finding: property=%s id=(\S+) (.*)$' % PROP, open(os.path.join(HERE, 'known-findings.txt')).read(), re.M))
    for i, text in rt['known']:
        if i in listed: log('KNOWN-FINDING: property=%s %s: %s' % (PROP, i, text))
        else:
            p = os.path.join(WORK, 'replay-known-%s.json' % i); json.dump({'property': PROP, 'probe': i, 'message': text, 'how': 'rt/known.py'}, open(p, 'w')); violations.append((p, '', text))
    if failed and not violations:
        # a longer witness search before giving up
        more = end_rt(start_rt(min(secs * 2, 60), 8, SEED + 1000), min(secs * 2, 60))
        rt['cases'] += more['cases']; rt['distinct'] += more['distinct']
        if more['failures']:
            f = more['failures'][0]; p = os.path.join(WORK, 'replay-%s-%s.json' % (f['check'], f['seed']))
            json.dump(dict(f, property=PROP, failed_obligations=[(k, o['line'], o['name']) for k, o in failed][:20]), open(p, 'w'), indent=1)
            violations.append((p, '', f['message']))
        else:
            p = os.path.join(WORK, 'obligation.txt')
            with open(p, 'w') as fh:
                fh.write('Property %s: the verifier does not accept these obligations (and no failing input was found)\n' % PROP)
                for k, o in failed: fh.write('\n%s line %s: %s\n%s\n' % (k, o['line'], o['name'], o['detail'] or ''))
            violations.append((p, ' no-failing-input-found', '; '.join('%s line %s: %s' % (k, o['line'], o['name']) for k, o in failed[:3])))
    level = CFG.get('level', 'proof')
    trusted = sorted(assumed) + CFG.get('trusted', [])
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations),
          'coverage': {'obligations': obls, 'discharged': done, 'checker_cmd': 'python3-vt /verif/run.py %s' % PROP,
                       'trusted_base': trusted + ['pydv (verification condition generator in /verif/pydv)', 'z3 %s, cvc5' % z3v(), 'CPython 3.12 executing the same source'],
                       'functions_under_contract': proved_fns, 'functions_not_reached': notreached, 'undecided': undecided, 'lost_since_reference': lost,
                       'backends': dict(backends), 'solver_s': round(solver, 2), 'lemmas': [l[0] for l in ded['lemmas']],
                       'bounded_standin': {'label': 'bounded, not counted as proved', 'evaluations': rt['cases'], 'skipped': rt['skipped'], 'distinct_nontrivial': rt['distinct'],
                                           'per_contract': dict(rt['per_check']), 'bound': CFG.get('bound', 'generated inputs, term depth <= 4, %d s per shard' % secs)},
                       'evaluations': rt['cases'], 'distinct_nontrivial': rt['distinct'],
                       'rule': 'contract evaluations on generated inputs; distinct = different rendered input that was not skipped as cyclic or ill-typed',
                       'samples': rt['samples'], 'explanation': CFG.get('explanation', '')},
          'assumptions': trusted + CFG.get('assumptions', [])}
    if dederr: ev['coverage']['verifier_error'] = dederr
    json.dump(ev, open(os.path.join(HERE, 'evidence', PROP + '.json'), 'w'), indent=1)
    log('%s: %d/%d obligations discharged, %d functions proved, %d not reached, %d lost, %d contract evaluations (%d distinct), %.1f s' % (
        PROP, done, obls, len(proved_fns), len(notreached), len(lost), rt['cases'], rt['distinct'], time.time() - T0))
    for x in notreached: log('  not reached: ' + x)
    for x in undecided: log('  undecided: ' + x)
    if os.environ.get('VERIF_WRITE_EXPECT'):
        f = os.path.join(HERE, 'expect.json'); d = json.load(open(f)); d[PROP] = {r['view'] + '/' + r['target']: 'proved' for r in ded['results'] if r['status'] == 'ok' and r['obls'] and all(o['status'] == 'proved' for o in r['obls'])}
        json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
    if violations:
        for p, suffix, msg in violations:
            log('  ' + msg.replace('\n', '\n  ')[:1500])
            log('VIOLATION property=%s replay=%s%s' % (PROP, p, suffix))
        return 1
    if dederr: log('verifier error:\n' + dederr)
    for e in rt['errors']: log('harness error in %s: %s' % (e['check'], e['message']))
    for e in rt['broken']: log('bounded run broken: ' + e)
    if (not ded['results'] or dederr) and CFG.get('needs_proof', True) and not rt['cases']: return 2
    if not rt['cases'] and not done: return 2
    return 0
def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'
sys.exit(main())
