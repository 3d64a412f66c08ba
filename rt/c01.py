from lib import *
def pair(rng, size, exprs=True):
    g = G(rng, nvars=min(2 + size // 2, 5), wild=rng.random() < 0.4, annots=rng.random() < 0.3, exprs=exprs and rng.random() < 0.2)
    d = min(1 + size // 2, 4)
    l = g.term(d); r = g.similar(l, d) if rng.random() < 0.75 else g.term(d)
    return g, l, r, g.scope(min(d, 2))
def resolved(vs, s):
    n = {}
    return [canon(v, s, n, annots=False) for v in vs]
@check('C01', 6)
def unify_exact(rng, size):
    g, l, r, s0 = pair(rng, size)
    scope = dict(s0); stack = collections.deque(s0)
    before = list(stack)
    what = 'unify(%s, %s) under %s' % (show(l), show(r), shows(s0))
    try: ref = runify(l, r, s0)
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    got = agentspeak.unify(l, r, scope, stack)
    require(got is True or got is False, '%s returned %r', what, got)
    require(bool(got) == (ref is not None), '%s is %s, but the terms are %sunifiable', what, got, '' if ref is not None else 'not ')
    for k, v in s0.items(): require(k in scope and scope[k] is v, '%s changed the existing binding of %s', what, show(k))
    require(same_trail(list(stack)[:len(before)], before), '%s changed the earlier trail', what)
    if got:
        if not haswild(l) and not haswild(r) and not any(haswild(x) for x in s0.values()):
            a, b = resolved(g.vars, scope), resolved(g.vars, ref)
            require(a == b, '%s bound %s, a most general unifier is %s', what, shows(scope), shows(ref))
        else:
            again = runify(l, r, scope)
            require(again is not None, '%s succeeded but its bindings %s do not unify the terms', what, shows(scope))
            new = [k for k in scope if k not in s0]
            require(all(k in ref or k not in s0 for k in new), '%s', what)
        for k in scope: require(not iswild(k), '%s bound a wildcard', what)
    return what
@check('C01', 2)
def unify_terms_alone(rng, size):
    g, l, r, s0 = pair(rng, size)
    try: ref = runify(l, r, {})
    except (Cyclic, TypeErr, RecursionError): raise Skip()
    got = agentspeak.unifies(l, r)
    require(bool(got) == (ref is not None), 'unifies(%s, %s) is %s', show(l), show(r), got)
    got2 = agentspeak.unifies(r, l)
    try: 
        if (runify(r, l, {}) is not None) != (ref is not None): raise Skip()
    except (Cyclic, TypeErr): raise Skip()
    require(bool(got2) == bool(got), 'unifies(%s, %s) is %s but %s the other way round', show(l), show(r), got, got2)
    return 'unifies(%s, %s)' % (show(l), show(r))
@check('C01', 1)
def wildcard_binds_nothing(rng, size):
    g = G(rng, 4); t = g.term(3); s0 = g.scope()
    for a, b in ((Wildcard(), t), (t, Wildcard())):
        scope = dict(s0); stack = collections.deque()
        try: walk(t, s0)
        except TypeErr: raise Skip()
        require(agentspeak.unify(a, b, scope, stack) is True, 'a wildcard does not unify with %s', show(t))
        require(same_scope(scope, s0) and not stack, 'a wildcard against %s bound something', show(t))
    return 'wildcard with %s' % show(t)
@check('C01', 2)
def triangular_chains(rng, size):
    """the same variables unified repeatedly: outcome independent of the order of the equations"""
    g = G(rng, 4, wild=False, annots=False); eqs = []
    for _ in range(rng.randrange(2, 5)):
        l = g.term(2); eqs.append((l, g.similar(l, 2)))
    s = {}
    try:
        for l, r in eqs:
            s = runify(l, r, s)
            if s is None: break
    except (Cyclic, RecursionError): raise Skip()
    scope = {}; stack = collections.deque(); ok = True
    for l, r in eqs:
        if not agentspeak.unify(l, r, scope, stack): ok = False; break
    what = ', '.join('%s = %s' % (show(l), show(r)) for l, r in eqs)
    require(ok == (s is not None), 'the equations %s: %s', what, ok)
    if ok: require(resolved(g.vars, scope) == resolved(g.vars, s), 'the equations %s give %s instead of %s', what, shows(scope), shows(s))
    return what
