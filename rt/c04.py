from lib import *
def case(rng, size, exprs=True):
    an = rng.random() < 0.5
    g = G(rng, nvars=min(2 + size // 2, 5), wild=rng.random() < 0.3, annots=an, bools=not an, exprs=exprs and rng.random() < 0.3, varexprs=True)
    t = g.term(min(1 + size // 2, 4)); s = g.scope(2)
    return g, t, s
def pos(t, s):
    """variable occurrences of a term in order, annotations as a sorted bag"""
    return tvars(t, s)
@check('C04', 5)
def copy_is_faithful(rng, size):
    g, t, s = case(rng, size)
    u = g.term(2); before = dict(s); memo = {}
    what = 'freeze(%s) under %s' % (show(t), shows(s))
    try: ref = canon((t, u), s)
    except (TypeErr, RecursionError): raise Skip()
    c = agentspeak.freeze(t, s, memo); c2 = agentspeak.freeze(u, s, memo)
    require(same_scope(s, before), '%s changed the bindings', what)
    got = canon((c, c2), {})
    if not anyannots(t, s) and not anyannots(u, s):
        require(got == ref, '%s (then %s with the same renaming) is %s, %s', what, show(u), show(c), show(c2))
    else:
        require(canon((c, c2), {}, annots=False) == canon((t, u), s, annots=False), '%s is %s', what, show(c))
        require(same_upto(c, t, s, {}), '%s is %s', what, show(c))
    old = set(g.vars)
    for v in allvars(c) + allvars(c2): require(v not in old, '%s contains the original variable %s', what, show(v))
    # binding the originals later does not reach the copy
    for v in g.vars:
        if v not in s and rng.random() < 0.5: s[v] = rng.choice([1, 2])
    require(canon((c, c2), s) == got, '%s: the copy depends on the original bindings', what)
    vals = list(memo.values()); require(len(set(map(id, vals))) == len(vals), '%s: two variables share a copy', what)
    return what
def anyannots(t, s):
    t = walk(t, s)
    if islit(t): return bool(t.annots) or any(anyannots(x, s) for x in t.args)
    if isinstance(t, tuple): return any(anyannots(x, s) for x in t)
    if isinstance(t, LinkedList): return anyannots(t.head, s) or anyannots(t.tail, s)
    return False
def allvars(t): return [v for v in tvars(t) if not iswild(v)]
def same_upto(c, t, s, m): return next(sameg(c, t, s, m), None) is not None
def sameg(c, t, s, m):
    """every injective renaming extending m under which c equals t under s (annotations in any order)"""
    t = walk(t, s)
    if iswild(t):
        if iswild(c): yield m
        return
    if isvar(t):
        if t in m:
            if m[t] is c: yield m
        elif isvar(c) and not any(x is c for x in m.values()): yield {**m, t: c}
        return
    a, b = shape(c) if not isinstance(c, Var) else ('other', c), shape(t)
    if a[0] != b[0]: return
    if a[0] == 'cons':
        for m1 in sameg(a[1], b[1], s, m): yield from sameg(a[2], b[2], s, m1)
    elif a[0] == 'lit':
        if a == b:
            for m1 in seqg(c.args, t.args, s, m): yield from permg(list(c.annots), list(t.annots), s, m1)
    elif a == b: yield m
def seqg(cs, ts, s, m):
    if not ts: yield m; return
    for m1 in sameg(cs[0], ts[0], s, m): yield from seqg(cs[1:], ts[1:], s, m1)
def permg(cs, ts, s, m, used=frozenset()):
    """every annotation has its copy and every copy is used (annotations that became equal are stored once)"""
    if not ts:
        if len(used) == len(cs): yield m
        return
    for i, c in enumerate(cs):
        for m1 in sameg(c, ts[0], s, m): yield from permg(cs, ts[1:], s, m1, used | {i})
def hastype(t, s, k):
    if isvar(t) and t in s: return hastype(s[t], s, k)
    if isinstance(t, k): return True
    if isinstance(t, tuple): return any(hastype(x, s, k) for x in t)
    if isinstance(t, LinkedList): return hastype(t.head, s, k) or hastype(t.tail, s, k)
    if islit(t): return any(hastype(x, s, k) for x in t.args) or any(hastype(x, s, k) for x in t.annots)
    return False
def isopen(t, s):
    n = 0
    while isvar(t) and t in s:
        t = s[t]; n += 1
        if n > 10000: raise Skip()
    if isinstance(t, (Var, Wildcard)): return True
    if isinstance(t, tuple): return any(isopen(x, s) for x in t)
    if isinstance(t, LinkedList): return isopen(t.head, s) or isopen(t.tail, s)
    if islit(t): return any(isopen(x, s) for x in t.args) or any(isopen(x, s) for x in t.annots)
    if isinstance(t, UnaryExpr): return isopen(t.operand, s)
    return isinstance(t, BinaryExpr) and (isopen(t.left, s) or isopen(t.right, s))
@check('C04', 4)
def grounding(rng, size):
    g, t, s = case(rng, size)
    what = '%s under %s' % (show(t), shows(s)); before = dict(s)
    try: ref = not isopen(t, s)
    except RecursionError: raise Skip()
    got = agentspeak.is_ground(t, s)
    require(got is ref or got == ref, 'is_ground(%s) is %s', what, got)
    try: ref = rground(t, s)
    except (TypeErr, RecursionError): raise Skip()
    require(got is ref or got == ref, 'is_ground(%s) is %s', what, got)
    try: r = agentspeak.grounded(t, s)
    except AslError: 
        require(not ref, 'grounded(%s) reports an error although the term is ground', what); return what
    require(ref, 'grounded(%s) gives %s although the term is not ground', what, show(r))
    require(same_scope(s, before), 'grounded(%s) changed the bindings', what)
    require(not hastype(r, {}, Var), 'grounded(%s) still contains a variable: %s', what, show(r))
    require(not hastype(r, {}, (UnaryExpr, BinaryExpr)), 'grounded(%s) still contains an expression: %s', what, show(r))
    require(canon(r, {}) == canon(t, s), 'grounded(%s) is %s', what, show(r))
    return what
@check('C04', 2)
def sharing_between_copies(rng, size):
    """several terms copied with one renaming keep the same sharing; with separate renamings they share nothing"""
    g, t, s = case(rng, size, False); ts = [g.term(2) for _ in range(rng.randrange(2, 4))]
    memo = {}
    try: ref = canon(tuple(ts), s, annots=False)
    except (TypeErr, RecursionError): raise Skip()
    cs = [agentspeak.freeze(x, s, memo) for x in ts]
    what = '%s under %s' % (', '.join(show(x) for x in ts), shows(s))
    require(canon(tuple(cs), {}, annots=False) == ref, 'copies of %s are %s', what, ', '.join(map(show, cs)))
    a = allvars(agentspeak.freeze(ts[0], s, {})); b = allvars(agentspeak.freeze(ts[0], s, {}))
    require(not any(x is y for x in a for y in b), 'two independent copies of %s under %s share a variable', show(ts[0]), shows(s))
    return what
