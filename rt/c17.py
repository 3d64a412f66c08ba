from lib import *
class Src(io.StringIO):
    name = 'prog.asl'
LEXEMES = ['(', ')', '[', ']', '{', '}', 'true', 'false', 'if', 'else', 'while', 'for', 'include', 'begin', 'end', '<-', ':-', ':', '|&|', '|||', '!!', '!', '?', '-+', 'not', '+', '-', '**', '*', '/', 'div', 'mod', '&', '|',
           '<=', '>=', '\\==', '==', '=..', '=', '<', '>', '.', ',', ';', '@', 'foo', '~foo', '.print', 'a.b', 'fooBar_1', 'X', '_', '__', '_X', 'X1', '_Foo', '12', '0', '1.5', '.5', '1e3', '2.5E-7', '1e+2', '"a"', '""', '"a b"', '"\\""', '"\\\\"', '"//"', '"/*"', '"*/"', '"#"', '"x\\ny"', '"ä"', '"a\tb"', '"."',
           'trueish', 'iffy', 'notx', 'endless', 'divide', 'true_', 'if1', 'forX', 'model', 'includes', 'beginX', 'elsewhere', '~nota', 'T', 'True', 'nota.div', 'ende', 'not1', '~iffy']
KW = ('true', 'false', 'if', 'else', 'while', 'for', 'include', 'begin', 'end', 'not', 'div', 'mod')
TYPE = {l: n for l, n in [('true', 'lit_true'), ('false', 'lit_false'), ('if', 'tok_if'), ('else', 'tok_else'), ('while', 'tok_while'), ('for', 'tok_for'), ('include', 'include'), ('begin', 'begin'), ('end', 'end'), ('not', 'op_not'), ('div', 'op_div'), ('mod', 'op_mod')]}
def kind(l):
    if l in TYPE: return TYPE[l]
    c = l[0]
    if c == '"': return 'string'
    if l[0].isdigit() or len(l) > 1 and c == '.' and l[1].isdigit(): return 'numeric'
    if c == '~' or c.islower() or c == '.' and len(l) > 1: return 'functor'
    if c == '_' or c.isupper(): return 'variable'
    return None
def kindof(tok):
    for t in LX.TokenType:
        if t.value is tok: return t.name
def lexeme(rng):
    """a token as the lexical grammar describes it"""
    w = 'abzXYZ09_'; k = rng.randrange(8); tail = lambda a=w: ''.join(rng.choice(a) for _ in range(rng.randrange(4)))
    if k < 2: return '_' * rng.choice([0, 0, 1, 2]) + rng.choice('ABZ') + tail()
    if k < 4:
        l = '~' * (rng.random() < 0.2) + '.' * 0 + rng.choice('abz') + tail() + ('.' + rng.choice('abz') + tail() if rng.random() < 0.2 else '')
        return l if l not in TYPE else 'foo'
    if k == 4: return '.' + rng.choice('abz') + tail()
    if k == 5:
        n = rng.choice([str(rng.randrange(100)), '%d.%d' % (rng.randrange(30), rng.randrange(30)), '.%d' % rng.randrange(30)])
        return n + (rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.randrange(20)) if rng.random() < 0.4 else '')
    if k == 6: return rng.choice(LEXEMES)
    return '"' + ''.join(rng.choice(['a', ' ', '\\"', '\\\\', '\\n', '\\t', '\\x', '\\u', '/', '*', '#', '1', '_', 'ß', '.', ';']) for _ in range(rng.randrange(6))) + '"'
class Errors(agentspeak.Log):
    """a log that only records"""
    def __init__(self): agentspeak.Log.__init__(self, agentspeak.get_logger('agentspeak')); self.got = []
    def error(self, msg, *a, **k): self.got.append((msg % a, k.get('loc'))); return agentspeak.Log.error(self, msg, *a, **k)
def comment(rng, line_end_ok=True):
    k = rng.randrange(5)
    body = rng.choice(['', 'x', ' a /* b', ' "s', '// x', ' # /', '*', ' p(1).', '/', ' /* x'])
    if k == 0: return '//' + body.replace('*/', '') + '\n'
    if k == 1: return '#' + body + '\n'
    if k == 2: return '/*' + body.replace('*/', '') + ' */'
    if k == 3: return '/*' + rng.choice(['', ' x\n', '\n\n', ' // y\n # z\n "', '*\n*', '\n/*\n']) + '*/'
    return rng.choice([' ', '  ', '\t', '\n', ' \n ', '\r\n', '\n\n\n'])
def position(text, pos):
    line = text.count('\n', 0, pos); return line + 1, pos - (text.rfind('\n', 0, pos) + 1)
@check('C17', 4)
def tokens(rng, size):
    n = rng.randrange(1, 12); text = ''; want = []; bad = []
    if rng.random() < 0.3: text += comment(rng)
    for _ in range(n):
        if rng.random() < 0.08: c = rng.choice(['$', '\\', '~', '%', '^', '`', "'", 'ö', '€', '\x00', '~1']); bad.append((position(text, len(text)), c[0])); text += c + ' '; want += [('1', position(text, len(text) - 2))] if c == '~1' else []
        else: l = rng.choice(LEXEMES) if rng.random() < 0.6 else lexeme(rng); want.append((l, position(text, len(text)))); text += l
        text += rng.choice([' ', ' ', comment(rng) if text[-1:] != '/' else ' ', ' ' + comment(rng), comment(rng) + comment(rng) if text[-1:] != '/' else '\n'])
    log = Errors(); toks = list(LX.tokenize(Src(text), log)); what = repr(text)
    got = [(t.lexeme, (t.loc.lineno, t.loc.startcol)) for t in toks]
    require(got == want, '%s is read as %s instead of %s', what, got, want)
    for t in toks:
        require(t.loc.endcol == t.loc.startcol + len(t.lexeme), '%s: %r ends at column %d', what, t.lexeme, t.loc.endcol); require(t.loc.filename == 'prog.asl', '%s: file %r', what, t.loc.filename)
        k = kind(t.lexeme); require(k is None or kindof(t.token) == k, '%s: %r is read as %s', what, t.lexeme, kindof(t.token))
        require(t.loc.line[t.loc.startcol:t.loc.endcol] == t.lexeme, '%s: the line recorded for %r is %r', what, t.lexeme, t.loc.line)
    errs = [((l.lineno, l.startcol), m) for m, l in log.got]; require([p for p, _ in errs] == [p for p, _ in bad] and all(c in m for (_, m), (_, c) in zip(errs, bad)) and log.num_errors == len(bad), '%s: reported %s, illegal characters are %s', what, errs, bad)
    return what
@check('C17', 3)
def every_character_is_covered(rng, size):
    """arbitrary text: tokens, illegal characters, comments and white space cover it exactly once and in order"""
    alpha = ['a', 'B', '1', '.', '"', '\\', '/', '*', '#', '-', '+', '<', '=', ' ', '\n', '\t', '|', '&', '~', '_', 'not', 'e', '!', '$', '(', 'é', 'true']
    text = ''.join(rng.choice(alpha) for _ in range(rng.randrange(1, 25))); log = Errors(); what = repr(text)
    lines = text.splitlines(True) if '\r' not in text else Skip; toks = list(LX.tokenize(Src(text), log))
    marks = sorted([((t.loc.lineno, t.loc.startcol), t.lexeme) for t in toks] + [((l.lineno, l.startcol), lines[l.lineno - 1][l.startcol]) for m, l in log.got])
    require([(t.loc.lineno, t.loc.startcol) for t in toks] == sorted((t.loc.lineno, t.loc.startcol) for t in toks), '%s: tokens out of order', what)
    inside = False; it = iter(marks); cur = next(it, None)
    for no, line in enumerate(text.split('\n'), 1):
        col = 0
        while col < len(line):
            if inside:
                e = line.find('*/', col)
                if e < 0: break
                inside = False; col = e + 2; continue
            if cur is not None and cur[0] == (no, col): require(line.startswith(cur[1], col), '%s: %r is not at line %d, column %d', what, cur[1], no, col); col += len(cur[1]); cur = next(it, None); continue
            if line.startswith('/*', col): inside = True; col += 2; continue
            if line.startswith('//', col) or line.startswith('#', col): break
            require(line[col].isspace(), '%s: %r at line %d, column %d is neither a token nor reported', what, line[col], no, col); col += 1
    require(cur is None, '%s: %s is not in the text at that place', what, cur)
    return what
def value(tok, variables=None):
    log = Errors(); src = Src('p(%s).' % tok); ag = PA.parse('prog.asl', LX.TokenStream(src, log), log); log.throw()
    return ag.beliefs[0].accept(RT.BuildTermVisitor({})).args[0]
@check('C17', 3)
def string_literals(rng, size):
    parts = []; want = []
    for _ in range(rng.randrange(6)):
        k = rng.randrange(7)
        if k == 0: e, c = rng.choice([('\\n', '\n'), ('\\t', '\t'), ('\\\\', '\\'), ('\\"', '"'), ("\\'", "'"), ('\\r', '\r')])
        elif k == 1: o = rng.randrange(256); e, c = '\\x%02x' % o, chr(o)
        elif k == 2: o = rng.choice([rng.randrange(0x20, 0xd800), rng.randrange(0xe000, 0x10000)]); e, c = '\\u%04x' % o, chr(o)
        elif k == 3: o = rng.choice([0x1f600, 0x10000, 0x10ffff, 0x41]); e, c = '\\U%08x' % o, chr(o)
        elif k == 4: e = c = rng.choice(['ä', '€', '日本', '\U0001f600', 'é', 'ß', '\x7f', '\xa0', '\t'])
        else: e = c = rng.choice(['a', 'b c', '//', '/*', '#', '.', ',', '%', "'", 'u0041', 'x41', 'n', ' '])
        parts.append(e); want.append(c)
    t = '"%s"' % ''.join(parts); v = value(t); w = ''.join(want)
    require(isinstance(v, str) and v == w, 'the string literal %s denotes %r instead of %r', t, v, w)
    return t
@check('C17', 3)
def print_and_read_back(rng, size):
    def val(d):
        k = rng.randrange(10)
        if k == 0: return float(rng.choice([0, 1, -1, 12, 10 ** 15, 10 ** 16, 10 ** 22, -10 ** 17, 123456789]))
        if k == 1: return rng.choice([0.5, -0.25, 1e-7, 1.5e300, -2.5e-300, 0.1, 1 / 3, 5e-324, 1.7976931348623157e308])
        if k == 2: return rng.uniform(-1e6, 1e6) * 10.0 ** rng.randrange(-20, 20)
        if k == 3: return rng.randrange(-10 ** 6, 10 ** 6)
        if k == 4: return rng.choice([True, False])
        if k <= 6: return ''.join(chr(rng.randrange(128)) if rng.random() < 0.2 else rng.choice(['x', 'n', 'u', 'N{', 't', 'r', '1', '0', 'U', 'b', '\\x', '\\\\']) if rng.random() < 0.3 else rng.choice(['a', ' ', '"', '\\', '\n', '\t', 'ä', '€', '\U0001f600', "'", '\x00', '\x1f', '\x7f', '\xa0', '\u2028', '\\n', '\\u', '%', '//', '\r', '\x85']) for _ in range(rng.randrange(6)))
        if d == 0: return Literal(rng.choice(['a', 'b1', '~c', 'x.y']))
        if k == 7: return tuple(val(d - 1) for _ in range(rng.randrange(4)))
        if k == 8: return LinkedList(val(d - 1), tuple(val(d - 1) for _ in range(rng.randrange(3))))
        return Literal(rng.choice(['f', 'gX', '~h', 'a']), [val(d - 1) for _ in range(rng.randrange(3))], [Literal(rng.choice('st'), [val(d - 1)] if rng.random() < 0.5 else ()) for _ in range(rng.choice([0, 0, 1, 2]))])
    t = val(2); text = agentspeak.asl_repr(t)
    try: v = value(text)
    except agentspeak.AggregatedError: raise Fail('%r prints as %s, which cannot be read back' % (t, text))
    require(canon(v, {}) == canon(t, {}), '%r prints as %s, which reads back as %r', t, text, v)
    require(v == t, '%r prints as %s, which reads back as %r', t, text, v)
    if isinstance(t, str): require(agentspeak.asl_str(t) == t, '%r displays as %r', t, agentspeak.asl_str(t))
    return text
