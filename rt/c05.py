from lib import *
T, GT = Trigger, GoalType
ABOLISH = SL.actions.lookup('.abolish', 1)
GROUPS = [('p', 1), ('q', 2), ('s', 0), ('p', 2)]
def model_of(agent):
    out = []
    for k, bs in agent.beliefs.items():
        for b in bs:
            require(islit(b) and k == (b.functor, len(b.args)), 'the fact %s is filed under %s', show(b), k)
            require(rground(b, {}), 'the fact %s is not ground', show(b))
            out.append(canon(b, {}))
    return sorted(out, key=repr)
def facts(agent): return [b for bs in agent.beliefs.values() for b in bs]
def ev_plan(agent, log, tr, f, n):
    vs = [Var() for _ in range(n)]; agent.add_plan(RT.Plan(tr, GT.belief, Literal(f, vs), RT.TrueQuery(), RT.Instruction(RT.noop), None, None)); return vs
def f_n(t, s): t = walk(t, s); return t.functor, len(t.args)
@check('C05', 5)
def operations_on_the_belief_base(rng, size):
    env = TestEnv(); a = RT.Agent(env, 'me'); g = G(rng, 3, bools=False, annots=rng.random() < 0.5); ops = []; plans = rng.random() < 0.5
    if plans:
        for f, n in GROUPS:
            for tr in (T.addition, T.removal): ev_plan(a, None, tr, f, n)
    model = []
    for _ in range(rng.randrange(2, 9)):
        g.wild = False; s = g.scope() if rng.random() < 0.5 else {}; g.wild = True; i = new_intention(s); s0 = dict(i.scope); t0 = list(i.stack); n_int = len(a.intentions); before = facts(a)
        op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'abolish', 'test'])
        f, n = rng.choice(GROUPS)
        if before and rng.random() < 0.6: t = g.similar(rng.choice(before), 2)
        elif op == 'add' and rng.random() < 0.8: t = g.glit(f, n, 2)
        else: t = g.lit(2, f, n)
        if not islit(t):
            t2 = walk(t, s)
            if not islit(t2): continue
        ops.append('%s %s under %s' % (op, show(t), shows(s))); what = '; '.join(ops) + ' (facts before: %s)' % ', '.join(sorted(map(show, before)))
        try: td = walk(t, s0) if op != 'abolish' else rename(apply(t, s0), {}); matches = [(b, list(itertools.islice(rmatch(td, b, s0 if op != 'abolish' else {}), 50))) for b in before if (b.functor, len(b.args)) == (td.functor, len(td.args))]; ground = rground(td, s0); tc = canon(td, s0) if ground else None
        except (TypeErr, Cyclic, RecursionError): raise Skip()
        matches = [(b, m) for b, m in matches if m]
        newint = lambda: [st[-1] for st in list(a.intentions)[n_int:]]
        if op == 'add':
            try: r = a.call(T.addition, GT.belief, t, i)
            except Exception as e:
                require(not ground, '%s: rejected although it is ground (%r)', what, e)
                require(model_of(a) == model and all(x is y for x, y in zip(sorted(before, key=id), sorted(facts(a), key=id))), '%s: rejected but the facts changed', what)
                require(same_scope(i.scope, s0) and len(a.intentions) == n_int, '%s: rejected but something else changed', what); continue
            require(ground, '%s: a belief that is not ground is accepted', what)
            if tc not in model: model = sorted(model + [tc], key=repr)
            require(same_scope(i.scope, s0), '%s: changes the bindings', what)
            if plans: require((f_n(t, s0) not in GROUPS and not newint()) or len(newint()) == 1 and canon(newint()[0].head_term, {}) == tc, '%s: event for %s', what, [show(x.head_term) for x in newint()])
        elif op == 'remove':
            try: r = a.call(T.removal, GT.belief, t, i)
            except RecursionError: raise Skip()
            if not matches:
                require(r is True or r, '%s: fails although there is just nothing to remove', what)
                require(same_scope(i.scope, s0) and same_trail(t0, list(i.stack)), '%s: nothing matches but the bindings change to %s', what, shows(i.scope))
                require(len(a.intentions) == n_int, '%s: removal event although nothing was removed', what)
            else:
                gone = [c for c in model if c not in model_of(a)]
                require(len(gone) == 1, '%s: removes %d facts', what, len(gone))
                b, ms = next(((b, m) for b, m in matches if canon(b, {}) == gone[0]), (None, None))
                require(b is not None, '%s: removes a fact that does not match: %s', what, gone)
                require(any(variant(tuple(g.vars), i.scope, tuple(g.vars), m) for m in ms), '%s: removes %s with bindings %s', what, show(b), shows(i.scope))
                model.remove(gone[0])
                if plans and f_n(t, s0) in GROUPS: require(len(newint()) == 1, '%s: %d removal events', what, len(newint())); require(variant(newint()[0].head_term, {}, td, i.scope), '%s: removal event for %s', what, show(newint()[0].head_term))
        elif op == 'abolish':
            n = 0
            for _ in ABOLISH(a, Literal('.abolish', [t]), i): n += 1
            require(n == 1, '%s: succeeds %d times', what, n)
            for b, m in matches: model.remove(canon(b, {}))
            require(same_scope(i.scope, s0) and same_trail(t0, list(i.stack)), '%s: changes the bindings', what)
            require(len(a.intentions) == n_int, '%s: posts an event', what)
        else:
            r = a.call(T.addition, GT.test, t, i)
            require(bool(r) == bool(matches), '%s: answers %s', what, r)
            if r: require(any(variant(tuple(g.vars), i.scope, tuple(g.vars), m) for b, ms in matches for m in ms), '%s: answers with bindings %s', what, shows(i.scope))
            else: require(same_scope(i.scope, s0), '%s: fails but the bindings change', what)
        now = model_of(a)
        require(now == model, '%s: the facts are %s, expected %s', what, now, model)
        require(len(set(map(repr, now))) == len(now), '%s: a fact is present twice', what)
    return '; '.join(ops)
import itertools
@check('C05', 2)
def statements_of_a_program(rng, size):
    """+, -, -+ and .abolish in a plan body"""
    env = TestEnv(); model = set(); init = []; body = []
    val = lambda: rng.choice(['1', '2', '"x"', 'foo', '[1, 2]', 'f(3)', '7'])
    preds = [('p', 1), ('q', 2)]
    def fact(): f, n = rng.choice(preds); return f, tuple(val() for _ in range(n))
    txt = lambda f, a: '%s(%s)' % (f, ', '.join(a))
    for _ in range(rng.randrange(4)): f, a = fact(); init.append(txt(f, a) + '.'); model.add((f, a))
    for k in range(rng.randrange(1, 7)):
        op = rng.randrange(5); f, a = fact()
        if op <= 1: body.append('+' + txt(f, a)); model.add((f, a))
        elif op == 2: body.append('-' + txt(f, a)); model.discard((f, a))
        elif op == 3:
            held = [m for m in model if m[0] == f]
            keys = [rng.random() < 0.3 for _ in a]; held = [m for m in held if all(not kk or x == y for kk, x, y in zip(keys, a, m[1]))]
            if len(held) > 1: body.append('.abolish(%s(%s))' % (f, ', '.join('_' for _ in a))); model = {m for m in model if m[0] != f}
            else:
                for j, (kk, x) in enumerate(zip(keys, a)):
                    if not kk: body.append('R%d_%d = %s' % (k, j, x))
                body.append('-+' + txt(f, tuple(x if kk else 'R%d_%d' % (k, j) for j, (kk, x) in enumerate(zip(keys, a))))); model = {m for m in model if m not in held} | {(f, a)}
        else:
            x = rng.choice(a); pat = tuple(x if rng.random() < 0.5 else 'V%d_%d' % (k, j) for j in range(len(a))); body.append('.abolish(%s)' % txt(f, pat)); model = {m for m in model if m[0] != f or any(v[0] != 'V' and v != w for v, w in zip(pat, m[1]))}
    text = ' '.join(init) + ' !go. +!go <- ' + '; '.join(body) + '; +done.'
    src = io.StringIO(text); src.name = 'x.asl'; a = env.build_agent(src, SL.actions); env.run()
    require(('done', 0) in a.beliefs and len(a.beliefs[('done', 0)]) == 1, '%s: did not finish', text)
    T_ = lambda v: {'1': 1, '2': 2, '7': 7, '"x"': 'x', 'foo': Literal('foo'), '[1, 2]': (1, 2), 'f(3)': Literal('f', (3,))}[v]
    want = sorted((canon(Literal(f, tuple(T_(v) for v in x)), {}) for f, x in model), key=repr); got = [c for c in model_of(a) if c[1] != 'done']
    require(got == want, '%s: %s instead of %s', text, got, want)
    return text
