from lib import *
A_ = agentspeak
def marker(k):
    def f(agent, term, intention): yield
    f.k = k; return f
@check('C14', 3)
def lookup_and_registration(rng, size):
    regs = []; models = []; log = []
    for d in range(rng.randrange(1, 5)):
        p = rng.randrange(-1, len(regs)) if regs else -1
        regs.append(A_.Actions(regs[p]) if p >= 0 else A_.Actions()); models.append((p, {}, {})); log.append('registry %d (parent %s)' % (d, p))
    names = ['.a', '.b', 'c']; serial = [0]
    def register(k):
        nm = rng.choice(names); r = regs[k]; p, fixed, var = models[k]; serial[0] += 1; m = marker(serial[0])
        how = rng.randrange(6)
        if how <= 2: key = rng.choice([None, 0, 1, 2])
        else:
            specs = [rng.choice([None, int, A_.asl_str, RT.Agent, RT.Environment, tuple]) for _ in range(rng.randrange(4))]
            key = sum(1 for s in specs if s not in (RT.Agent, RT.Environment)) + (1 if how == 3 else 0)
            specs = tuple(specs) if rng.random() < 0.5 else list(specs)
        taken = nm in var if key is None else (nm, key) in fixed
        log.append('add %s/%s to %d' % (nm, '*' if key is None else key, k))
        try:
            if how == 0: got = r.add(nm, key, m)
            elif how <= 2: got = r.add(nm, key)(m) if key is not None or rng.random() < 0.5 else r.add(nm)(m)
            else:
                meth = {3: r.add_function, 4: r.add_predicate, 5: r.add_procedure}[how]
                got = meth(nm, specs, lambda *a: None) if rng.random() < 0.5 else meth(nm, specs)(lambda *a: None)
        except AssertionError:
            require(taken, '%s: refused although nothing of that name and arity is registered there', '; '.join(log)); return
        require(not taken, '%s: replaces an existing entry', '; '.join(log))
        if key is None: var[nm] = got
        else: fixed[(nm, key)] = got
        if how <= 2: require(got is m, '%s: registration returns something else than the function', '; '.join(log))
    def ref(k, nm, n):
        while k >= 0:
            p, fixed, var = models[k]
            if (nm, n) in fixed: return fixed[(nm, n)]
            if nm in var: return var[nm]
            k = p
        return None
    for _ in range(rng.randrange(2, 12)):
        register(rng.randrange(len(regs)))
        for k in range(len(regs)):
            for nm in names:
                for n in range(4):
                    want = ref(k, nm, n)
                    try: got = regs[k].lookup(nm, n)
                    except KeyError: got = None
                    require(got is want, '%s: looking up %s/%d in registry %d finds %s', '; '.join(log), nm, n, k, 'nothing' if got is None else 'another action' if want is not None else 'an action although none is registered')
    return '; '.join(log)
SPECS = [None, int, float, A_.asl_str, tuple, str, Literal, RT.Agent, RT.Environment]
class Stop(Exception): pass
def arg_for(rng, g, spec, s):
    """an argument that fits (mostly)"""
    if rng.random() < 0.04: return g.term(1)
    if spec in (int, float): t = rng.choice([0, 1, 2, 3.0, 2.5, -4, '7'])
    elif spec is str: t = rng.choice(['x', 'a b', ''])
    elif spec is tuple: t = tuple(g.term(1) for _ in range(rng.randrange(3))); t = LinkedList(g.term(1), t) if rng.random() < 0.4 else t
    elif spec is Literal: t = g.lit(1)
    else: t = g.term(2)
    if rng.random() < 0.35:
        v = Var(); s[v] = t; return v
    return t
def conv(spec, c, t, scope):
    """the converted argument in canonical form: ('py', value) or canonical term"""
    if spec in (int, float):
        x = walk(t, scope)
        try: return ('py', spec(x))
        except (TypeError, ValueError): raise Stop()
    if spec is A_.asl_str: return ('str?',)
    if spec is tuple:
        x = walk(t, scope); out = []
        while isinstance(x, LinkedList): out.append(x.head); x = walk(x.tail, scope)
        if isinstance(x, str): raise Skip()
        if not isinstance(x, tuple): raise Stop()
        return ('t', t)
    if spec is None: return ('t', t)
    if not isinstance(walk(t, scope), spec): raise Stop()
    return ('t', t)
@check('C14', 4)
def arguments_and_results(rng, size):
    env = TestEnv(); agent = RT.Agent(env, 'me'); g = G(rng, 4, exprs=rng.random() < 0.3, bools=False); s = g.scope()
    specs = [rng.choice(SPECS) for _ in range(rng.randrange(4))]
    args = [arg_for(rng, g, sp, s) for sp in specs if sp not in (RT.Agent, RT.Environment)]
    kind = rng.choice(['function', 'predicate', 'procedure']); calls = []; result = g.ground(2)
    if rng.random() < 0.3: result = rng.choice([True, False, 3, 'x', (1, 2)])
    if kind == 'predicate': result = rng.choice([True, False, None, 1, 0, 'x', ''])
    boom = rng.random() < 0.05
    def f(*a):
        calls.append(a)
        if boom: raise ZeroDivisionError('boom')
        return result
    acts = A_.Actions(); form = tuple(specs) if len(specs) != 1 or rng.random() < 0.5 else specs[0]
    getattr(acts, 'add_' + kind)('.f', form, f)
    if kind == 'function': last = g.similar(result) if rng.random() < 0.7 else g.term(2); args = args + [last]
    term = Literal('.f', args); i = new_intention(s); s0 = dict(i.scope); t0 = list(i.stack)
    what = '%s with specs %s called as %s under %s, result %r' % (kind, specs, show(term), shows(s), result)
    impl = acts.lookup('.f', len(args)); sols = []; err = None
    try:
        names = {}; want = []; k = 0; exp_err = False
        for sp in specs:
            if sp is RT.Agent: want.append(('me',))
            elif sp is RT.Environment: want.append(('env',))
            else:
                c = canon(args[k], s0, names); want.append(conv(sp, c, args[k], s0)); k += 1
    except (Stop, TypeErr): exp_err = True
    except (Cyclic, RecursionError): raise Skip()
    try:
        for _ in impl(agent, term, i):
            sols.append(canon(tuple(g.vars), i.scope))
            require(all(v in i.scope and i.scope[v] is s0[v] for v in s0), '%s: loses bindings', what)
    except Skip: raise
    except TypeErr: raise Skip()
    except Exception as e: err = e
    if exp_err:
        require(err is not None and not calls, '%s: arguments do not fit but the call goes ahead', what); return what
    require(len(calls) == 1, '%s: the function was called %d times (%r)', what, len(calls), err)
    if boom: require(isinstance(err, ZeroDivisionError), '%s: the exception of the function is lost', what); return what
    got = calls[0]; pairs = []
    require(len(got) == len(want), '%s: got %d arguments instead of %d', what, len(got), len(want))
    for sp, w, x in zip(specs, want, got):
        if sp is RT.Agent: require(x is agent, '%s: agent argument is %r', what, x); continue
        if sp is RT.Environment: require(x is env, '%s: environment argument is %r', what, x); continue
        for v in tvars(x, {}): require(v not in s0 and all(v is not u for u in g.vars), '%s: an argument contains a variable of the call', what)
        if sp in (int, float): require(type(x) is sp and x == w[1], '%s: argument %r instead of %r', what, x, w[1]); continue
        if sp is A_.asl_str: require(isinstance(x, str), '%s: argument %r is not a string', what, x); continue
        if sp is tuple: require(isinstance(x, tuple), '%s: argument %r is not a tuple', what, x)
        pairs.append((w[1], x))
    require(next(variants(pairs, s0, {}, {}), None) is not None, '%s: arguments %s instead of copies of %s', what, [show(x) for _, x in pairs], [show(t, s0) for t, _ in pairs])
    if kind == 'function':
        try: r = runify(args[-1], result, s0)
        except (Cyclic, TypeErr): raise Skip()
        exp = [canon(tuple(g.vars), r)] if r is not None else []
    else: exp = [canon(tuple(g.vars), s0)] if kind == 'procedure' or result else []
    require(err is None, '%s: unexpected %r', what, err)
    require(sols == exp, '%s: solutions %s instead of %s', what, sols, exp)
    require(same_scope(i.scope, s0) and same_trail(t0, list(i.stack)), '%s: bindings are not restored', what)
    return what
