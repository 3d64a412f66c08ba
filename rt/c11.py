from lib import *
NAMES_ = ['X', 'Y', 'Zed', '_Q', 'N1']
class Src(io.StringIO):
    name = 'prog.asl'
def parse(text):
    log = agentspeak.Log(agentspeak.get_logger('agentspeak'), 50)
    ag = PA.parse('prog.asl', LX.TokenStream(Src(text), log), log); log.throw(); return ag
def tree(n):
    """the tree of a parsed node, as data"""
    if n is None: return None
    k = type(n).__name__
    if k == 'AstBinaryOp': return ('bin', n.operator.value.lexeme, tree(n.left), tree(n.right))
    if k == 'AstUnaryOp': return ('un', n.operator.value.lexeme, tree(n.operand))
    if k == 'AstVariable': return ('v', n.name)
    if k == 'AstConst': return ('c', type(n.value).__name__, n.value)
    if k == 'AstLiteral': return ('lit', n.functor, tuple(map(tree, n.terms)), tuple(map(tree, n.annotations)))
    if k == 'AstList': return ('list', tuple(map(tree, n.terms)))
    if k == 'AstLinkedList': return ('link', tree(n.head), tree(n.tail))
    if k == 'AstRule': return ('rule', tree(n.head), tree(n.consequence))
    if k == 'AstGoal': return ('goal', tree(n.atom))
    if k == 'AstFormula': return ('formula', n.formula_type.value, tree(n.term))
    if k == 'AstEvent': return ('event', n.trigger.value, n.goal_type.value, tree(n.head))
    if k == 'AstBody': return ('body',) + tuple(map(tree, n.formulas))
    if k == 'AstWhile': return ('while', tree(n.condition), tree(n.body) or ('body',))
    if k == 'AstFor': return ('for', tree(n.generator), tree(n.body) or ('body',))
    if k == 'AstIfThenElse': return ('if', tree(n.condition), tree(n.if_body) or ('body',), tree(n.else_body) or ('body',))
    if k == 'AstPlan': return ('plan', tree(n.annotation), tree(n.event), tree(n.context), tree(n.body))
    if k == 'AstAgent': return ('agent', tuple(map(tree, n.rules)), tuple(map(tree, n.beliefs)), tuple(map(tree, n.goals)), tuple(map(tree, n.plans)))
    return (k, repr(n))
# precedence levels of the documented grammar
OR, AND, NOT, CMP, ADD, MUL, UN, POW, ATOM = range(9)
class E(object):
    """random expressions: (level, tokens, tree)"""
    def __init__(self, rng): self.r = rng
    def at(self, e, lvl):
        """tokens of e where an expression of at least this level is expected"""
        l, toks, t = e
        if l < lvl or self.r.random() < 0.07: toks = ['('] + toks + [')']
        return toks
    def var(self): n = self.r.choice(NAMES_); return ATOM, [n], ('v', n)
    def num(self, d):
        k = self.r.random()
        if d <= 0 or k < 0.2: return self.var()
        if k < 0.45:
            o = self.r.choice('+-'); a, b = self.num(d - 1), self.num(d - 1); return ADD, self.at(a, ADD) + [o] + self.at(b, MUL), ('bin', o, a[2], b[2])
        if k < 0.7:
            o = self.r.choice(['*', '/', 'div', 'mod']); a, b = self.num(d - 1), self.num(d - 1); return MUL, self.at(a, MUL) + [o] + self.at(b, UN), ('bin', o, a[2], b[2])
        if k < 0.82: o = self.r.choice('+-'); a = self.num(d - 1); return UN, [o] + self.at(a, UN), ('un', o, a[2])
        a, b = self.num(d - 1), self.num(d - 1); return POW, self.at(a, ATOM) + ['**'] + self.at(b, UN), ('bin', '**', a[2], b[2])
    def const(self):
        k = self.r.randrange(6)
        if k < 3: s, v = self.r.choice([('0', 0.0), ('12', 12.0), ('3.5', 3.5), ('.5', 0.5), ('2e3', 2000.0), ('1.5E-2', 0.015)]); return ATOM, [s], ('c', 'float', v)
        if k == 3: b = self.r.random() < 0.5; return ATOM, ['true' if b else 'false'], ('c', 'bool', b)
        s = self.r.choice(['', 'abc', 'x + y', 'not', '(', '// no', '/* */']); return ATOM, ['"%s"' % s], ('c', 'str', s)
    def lit(self, d, inner):
        f = self.r.choice(['p', 'q', '~r', 'notx', 'modulo', 'trueish', 'divide', 'endx', '.print', 'a.b'] if inner else ['p', 'q', '~r', 'notx', 'modulo', 'forx'])
        xs = [self.term(d - 1) for _ in range(self.r.choice([0, 0, 1, 2, 3]))]; ys = [self.term(d - 1) for _ in range(self.r.choice([0, 0, 0, 1, 2]))]
        toks = [f]
        if xs:
            toks.append('(')
            for i, x in enumerate(xs): toks += ([','] if i else []) + self.at(x, OR)
            toks.append(')')
        if ys:
            toks.append('[')
            for i, x in enumerate(ys): toks += ([','] if i else []) + self.at(x, OR)
            toks.append(']')
        return ATOM, toks, ('lit', f, tuple(x[2] for x in xs), tuple(y[2] for y in ys))
    def list(self, d):
        if self.r.random() < 0.5:
            xs = [self.term(d - 1) for _ in range(self.r.randrange(4))]; toks = ['[']
            for i, x in enumerate(xs): toks += ([','] if i else []) + self.at(x, AND)
            return ATOM, toks + [']'], ('list', tuple(x[2] for x in xs))
        xs = [self.term(d - 1) for _ in range(self.r.randrange(2, 4))]; toks = ['[']; t = xs[-1][2]
        for i, x in enumerate(xs): toks += (['|'] if i else []) + self.at(x, AND)
        for x in reversed(xs[:-1]): t = ('link', x[2], t)
        return ATOM, toks + [']'], t
    def term(self, d):
        """anything that may stand as an argument"""
        k = self.r.random()
        if d <= 0 or k < 0.2: return self.var() if self.r.random() < 0.6 else self.const()
        if k < 0.45: return self.num(d)
        if k < 0.65: return self.lit(d, True)
        if k < 0.8: return self.list(d)
        return self.boolean(d, False)
    def cmp(self, d):
        n = self.r.choice([1, 1, 1, 2, 3]); xs = []
        for i in range(n + 1):
            k = self.r.random()
            if k < 0.7: x = self.num(d - 1)
            elif k < 0.8: x = self.lit(d - 1, True)
            elif k < 0.9: x = self.list(d - 1)
            else: x = self.const() if i and xs[-1][2][0] != 'c' else self.var()
            xs.append(x)
        toks = self.at(xs[0], ADD); t = None
        for a, b in zip(xs, xs[1:]):
            o = self.r.choice(['<', '<=', '>', '>=', '==', '\\==', '=', '=']) if self.query_ok else self.r.choice(['<', '<=', '>', '>=', '==', '\\=='])
            toks += [o] + self.at(b, ADD); c = ('bin', o, a[2], b[2]); t = c if t is None else ('bin', '&', t, c)
        return (CMP if True else AND), toks, t
    def boolean(self, d, query):
        """query: literals may stand as formulas"""
        save = getattr(self, 'query_ok', False); self.query_ok = query
        try: return self.boolean_(d, query)
        finally: self.query_ok = save
    def boolean_(self, d, query):
        k = self.r.random()
        if d <= 0 or k < 0.15: return self.lit(1, True) if query and self.r.random() < 0.6 else self.var()
        if k < 0.45: return self.cmp(d)
        if k < 0.6: a = self.boolean_(d - 1, query); return NOT, ['not'] + self.at(a, NOT), ('un', 'not', a[2])
        if k < 0.8: a, b = self.boolean_(d - 1, query), self.boolean_(d - 1, query); return AND, self.at(a, AND) + ['&'] + self.at(b, NOT), ('bin', '&', a[2], b[2])
        a, b = self.boolean_(d - 1, query), self.boolean_(d - 1, query); return OR, self.at(a, OR) + ['|'] + self.at(b, AND), ('bin', '|', a[2], b[2])
    def text(self, toks):
        out = toks[0]
        for a, b in zip(toks, toks[1:]):
            if a in '([,' or b in ')],' : s = self.r.choice(['', '', ' ', '\n'])
            elif b == '(' and (a[-1].isalnum() or a[-1] == '_') and a not in ('not', 'div', 'mod'): s = ''
            else: s = self.r.choice([' ', ' ', ' ', '\n', ' /* c */ '])
            out += s + b
        return out
@check('C11', 3)
def precedence(rng, size):
    g = E(rng); query = rng.random() < 0.6; d = rng.randrange(1, 5)
    where = rng.choice(['context', 'rule', 'formula', 'arg', 'while', 'if', 'for'])
    e = g.term(d) if where == 'arg' else g.boolean(d, True); toks = e[1]
    if where == 'formula' and toks[0] in '+-!?': where = 'context'
    src = g.text(toks)
    if where == 'arg': text = '+!g <- p(%s).\n+!after.' % src
    elif where == 'context': text = '+!g : %s <- p.\n+!after.' % src
    elif where == 'rule': text = 'h :- %s.\n+!g.\n+!after.' % src
    elif where == 'formula': text = '+!g <- %s; q.\n+!after.' % src
    else: text = '+!g <- %s (%s) { p }.\n+!after.' % (where, src)
    try: ag = parse(text)
    except agentspeak.AggregatedError as err: require(False, 'program %r is rejected: %s', text, err)
    require(len(ag.plans) == 2 and ag.plans[1].event.head.functor == 'after' and ag.plans[1].body is None, 'program %r: the text after the expression is not left alone', text)
    p = ag.plans[0]
    if where == 'arg': n = p.body.formulas[0].term.terms[0]
    elif where == 'context': n = p.context; require(len(p.body.formulas) == 1, '%r', text)
    elif where == 'rule': n = ag.rules[0].consequence
    elif where == 'formula': n = p.body.formulas[0].term; require(len(p.body.formulas) == 2 and p.body.formulas[0].formula_type.value == '', 'program %r: the formula is cut wrongly', text)
    else:
        f = p.body.formulas[0]; n = f.generator if where == 'for' else f.condition
    require(tree(n) == e[2], 'expression %r parses as %s, expected %s', src, tree(n), e[2])
    return text
def rand_program(rng):
    g = E(rng); out = []
    def head(): return g.text(g.lit(2, False)[1]) if rng.random() < 0.3 else rng.choice(['p', 'q(X)', 'r(1, "s")', '~s(Y)[source(S)]', 't([A|B], [1, 2])', 'u(f(X), -1)'])
    def query(): return g.text(g.boolean(rng.randrange(1, 4), True)[1])
    def arith(): return rng.choice(['X = 1 + 2', 'X = (-1) ** Y', 'X = 2 ** -Y', 'Y = -(3) * X', 'X < -2', '(1 + X) * 2 = Y', 'X = -(-1)', '(2 - 3) ** X = Y ** (1 - 2)', 'X = "a\\"b\\\\ \\n"', 'X = 7 div 2 mod 3', 'p(2 ** 3 ** 2)'])
    def formula(d):
        k = rng.random()
        if d > 0 and k < 0.12: return 'while (%s) {%s}' % (query(), body(d - 1, True))
        if d > 0 and k < 0.24: return 'for (%s) {%s}' % (query(), body(d - 1, True))
        if d > 0 and k < 0.4: return 'if (%s) {%s}%s' % (query(), body(d - 1, True), ' else {%s}' % body(d - 1, True) if rng.random() < 0.5 else '')
        if k < 0.7: return rng.choice(['+', '-', '-+', '!', '!!', '?']) + rng.choice(['p', 'q(X, 1 + X)', 'r(X)[source(self)]', '~s(f(X))', 'X'])
        if k < 0.85: return arith()
        q = g.boolean(2, True)[1]
        return g.text(q) if q[0] not in '+-!?' else 'noop'
    def body(d, block):
        n = rng.choice([0, 1, 2, 3]) if block else rng.choice([1, 2, 3]); fs = [formula(d) for _ in range(n)]
        s = ''
        for i, f in enumerate(fs): s += f + ('' if i + 1 == len(fs) else (rng.choice(['; ', ' ']) if f.endswith('}') else '; '))
        return s + (';' if block and fs and rng.random() < 0.3 else '')
    for _ in range(rng.randrange(0, 3)): out.append(rng.choice(['b(1)', 'c', 'd([1|[2]])', 'e("x\\ty")[source(k)]', 'n(-1.5)', 'l([[], [a]])']))
    for _ in range(rng.randrange(0, 2)): out.append('%s :- %s' % (rng.choice(['p(X)', 'q', 'w([H|T])']), query()))
    for _ in range(rng.randrange(0, 2)): out.append('!' + rng.choice(['g', 'g(1)[x]']))
    for _ in range(rng.randrange(1, 3)):
        lab = rng.choice(['', '', '@l1 ', '@l2[atomic, x(1)] ']); ctx = ' : ' + query() if rng.random() < 0.6 else ''; b = ' <- ' + body(2, False) if rng.random() < 0.8 else ''
        out.append('%s%s%s%s%s%s' % (lab, rng.choice('+-'), rng.choice(['', '!', '?']), rng.choice(['p', 'q(X)', 'r(1, "s")', '~s(Y)[source(S)]', 't([A|B], [1, 2])', 'u(f(X), -1)']), ctx, b))
    return '.\n'.join(out) + '.\n'
@check('C11', 2)
def print_and_parse(rng, size):
    text = rand_program(rng)
    try: a = parse(text)
    except agentspeak.AggregatedError as e: raise Skip()
    t = tree(a); printed = str(a)
    try: b = parse(printed)
    except agentspeak.AggregatedError as e: require(False, 'program %r prints as %r, which is rejected: %s', text, printed, e)
    require(tree(b) == t, 'program %r prints as %r, which parses differently:\n%s\n%s', text, printed, tree(b), t)
    require(str(b) == printed, 'program %r: printing again gives %r instead of %r', text, str(b), printed)
    return text
