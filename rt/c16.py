from lib import *
import operator as op_
def notation(rng, t):
    """the same term with some lists written the other way"""
    if isinstance(t, tuple):
        xs = [notation(rng, x) for x in t]; k = rng.randrange(len(xs) + 1); tail = tuple(xs[k:])
        for x in reversed(xs[:k]): tail = LinkedList(x, tail)
        return tail
    if isinstance(t, LinkedList):
        h, tl = notation(rng, t.head), notation(rng, t.tail)
        return (h,) + tl if isinstance(tl, tuple) and rng.random() < 0.6 else LinkedList(h, tl)
    if islit(t):
        an = [notation(rng, x) for x in t.annots]; rng.shuffle(an); return Literal(t.functor, [notation(rng, x) for x in t.args], an)
    if isnum(t) and float(t).is_integer() and rng.random() < 0.5: return int(t) if isinstance(t, float) else float(t)
    return t
def same(t, u, names):
    return canon(t, {}, names) == canon(u, {}, names)
@check('C16', 4)
def equality_and_hash(rng, size):
    g = G(rng, rng.choice([0, 0, 3]), wild=False, bools=False)
    t = g.term(3); k = rng.random()
    u = notation(rng, t) if k < 0.4 else g.similar(t, 3) if k < 0.8 else g.term(3)
    names = {}; eq = same(t, u, names); what = '%s and %s (written %r and %r)' % (show(t), show(u), t, u)
    for a, b in ((t, u), (u, t)):
        require((a == b) is eq, '%s: == gives %s', what, a == b); require((a != b) is (not eq), '%s: != gives %s', what, a != b)
    for x in (t, u): require(x == x and not x != x and hash(x) == hash(x), '%s: %s is not equal to itself', what, show(x))
    if eq:
        require(hash(t) == hash(u), '%s: equal terms hash differently', what)
        f, h = Literal('f', (t,), (u,)), Literal('f', (u,), (t,))
        require(f == h and hash(f) == hash(h) and (t, u) == (u, t) and hash((t, 1)) == hash((u, 1)), '%s: terms built from equal terms differ', what)
    c = RT.Agent(TestEnv(), 'a').beliefs[('p', 1)]
    for x in (t, u, notation(rng, t)): c.add(Literal('p', (x,)))
    require(len(c) == (1 if eq else 2), '%s: a set of both has %d elements', what, len(c)); require(Literal('p', (notation(rng, u),)) in c, '%s: not found in the set', what)
    d = {t: 1}; require((u in d) is eq, '%s: used as a key', what); require((u in [t]) is eq and (u in frozenset([t])) is eq, '%s: membership', what)
    v = notation(rng, u); require(v == u and (v == t) is eq, '%s: transitivity fails for %s', what, show(v))
    for other in (None, object(), 'other', 3.25, Literal('zz'), ()):
        if not same(t, other, {}) if not isinstance(other, (type(None),)) and type(other) is not object else True: require(not (t == other) and t != other and not (other == t) and other != t, '%s: %s equals %r', what, show(t), other)
    return what
class Inc(Exception): pass
def cmp_(t, u):
    """reference order: -1, 0, 1, or Inc when the terms are not comparable"""
    if isnum(t) and isnum(u): return (t > u) - (t < u)
    if isinstance(t, str) and isinstance(u, str): return (t > u) - (t < u)
    a, b = shape(t), shape(u)
    if a[0] in ('cons', 'nil') and b[0] in ('cons', 'nil'): return lex(items(t), items(u))
    if a[0] == b[0] == 'lit':
        if not t.args and not t.annots and not u.args and not u.annots: return (t.functor > u.functor) - (t.functor < u.functor)
        if a != b: raise Inc()
        return lex(list(t.args), list(u.args))
    raise Inc()
def items(t):
    out = []
    while True:
        s = shape(t)
        if s[0] == 'nil': return out
        if s[0] != 'cons': raise Skip()
        out.append(s[1]); t = s[2]
def lex(xs, ys):
    for x, y in zip(xs, ys):
        if canon(x, {}) != canon(y, {}): return cmp_(x, y)
    return (len(xs) > len(ys)) - (len(xs) < len(ys))
OPS = [(op_.lt, '<', lambda c: c < 0), (op_.le, '<=', lambda c: c <= 0), (op_.gt, '>', lambda c: c > 0), (op_.ge, '>=', lambda c: c >= 0)]
BOPS = {'<': BinaryOp.op_lt, '<=': BinaryOp.op_le, '>': BinaryOp.op_gt, '>=': BinaryOp.op_ge}
@check('C16', 4)
def ordering(rng, size):
    g = G(rng, 0, wild=False, bools=False, annots=False); kind = rng.randrange(4)
    def val():
        if kind == 0: return g.glit(*rng.choice(FUNS), d=2)
        if kind == 1: return Literal(rng.choice(['a', 'b', 'ab', 'B', 'aa']))
        if kind == 2: n = rng.randrange(4); return tuple(rng.choice([1, 2, 2.0, 3]) for _ in range(n))
        n = rng.randrange(1, 3); return Literal('f', [tuple(rng.choice([0, 1, 1.0]) for _ in range(rng.randrange(3))) if rng.random() < 0.3 else rng.choice([0, 1, 2, -1]) for _ in range(n)])
    t, u = val(), val()
    if rng.random() < 0.3: u = g.similar(t, 2)
    t, u = notation(rng, t), notation(rng, u)
    if islit(t) and islit(u) and rng.random() < 0.2: t = Literal(t.functor, t.args, [g.annot() for _ in range(rng.randrange(2))])
    if not (islit(t) or isinstance(t, (tuple, LinkedList))) and not (islit(u) or isinstance(u, (tuple, LinkedList))): raise Skip()
    what = '%s and %s (%r, %r)' % (show(t), show(u), t, u)
    try: c = cmp_(t, u)
    except Inc: c = None
    for o, sign, f in OPS:
        try: r = o(t, u)
        except TypeError: r = None
        require(r is (None if c is None else f(c)), '%s: %s gives %s%s', what, sign, 'an error' if r is None else r, '' if c is not None else ' although they are not comparable')
        try: e = agentspeak.evaluate(BinaryExpr(BOPS[sign].value, t, u), {})
        except (TypeError, AslError): e = None
        require(e is r, '%s: the expression %s gives %s', what, sign, e)
    if c is not None:
        lt, gt, eq = t < u, t > u, (t.args == u.args and (t.functor == u.functor)) if islit(t) else t == u
        require([lt, eq, gt].count(True) == 1, '%s: less %s, equal arguments %s, greater %s', what, lt, eq, gt)
    return what
@check('C16', 2)
def sorting(rng, size):
    n = rng.randrange(2, 6); kind = rng.randrange(3); g = G(rng, 0, wild=False, bools=False, annots=False)
    mk = [lambda: Literal('f', (rng.randrange(3), rng.choice([0, 1.0, 1]))), lambda: Literal(rng.choice('abcde')), lambda: tuple(rng.randrange(3) for _ in range(rng.randrange(3)))][kind]
    xs = [notation(rng, mk()) for _ in range(n)]; ys = sorted(xs); what = show(tuple(xs))
    for a, b in zip(ys, ys[1:]): require(cmp_(a, b) <= 0, '%s sorts to %s', what, show(tuple(ys)))
    require(all(cmp_(min(xs), x) <= 0 and cmp_(max(xs), x) >= 0 for x in xs), '%s: min %s, max %s', what, show(min(xs)), show(max(xs)))
    return what
