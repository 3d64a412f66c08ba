"""C17: every character of a source ends up in exactly one token, or is white space or comment, or is reported.

`lx(lines, n, p, c)` is the sequence of tokens and reports of the text from column p of the first line on (line number n, c: inside a block
comment), defined over the matches of the token table (regular expressions by their documented meaning: no match, or the end of a match)."""
from specs.common import *
import agentspeak.lexer as LX, agentspeak, re
import pydv.engine as E
from pydv.engine import Unsupported, Raise, ExcV, TupE, Live, lift
LOG = agentspeak.Log
class SourceI(list): "a source: the list of its lines, with a name"
class MatchI(object): "a match of a regular expression"
if SourceI not in E.SEQ: E.SEQ += (SourceI,)
class TypeI(object): "an entry of the token table"
class PatI(object): "a regular expression"
TYPES = z3.Const('token_table', L)               # the token table, in its order
TT = [t.value for t in LX.TokenType]
NONEMPTY = not any(t.re.match('') for t in TT)   # no token pattern matches the empty text
rx = spec('rx', V, Str, Int, Int)                # the end of the match of a pattern at a position, -1 if there is none
lexeme = spec('lexeme', Str, Int, Int, Str)      # the characters from one position to another
mline, mpos, mend = spec('mline', V, Str), spec('mpos', V, Int), spec('mend', V, Int)
valueof, reof, space, comment = spec('value_of', V, V), spec('re_of', V, V), spec('is_space', V, Bool), spec('is_comment', V, Bool)
LVP = lambda p: OBJ(PatI, IntVal(REG.lid(p)))
START, END = LVP(LX.RE_START_COMMENT), LVP(LX.RE_END_COMMENT)
slen, schar = spec('slen', Str, Int), spec('schar', Str, Int, Str)   # the length of a line and its characters
char = lambda l, p: V.str(schar(l, p))
def rxfacts(k, l, p):
    e = rx(k, l, p); live = any(k.eq(x) for x in (START, END))
    return [Or(e == -1, And(e > p if live or NONEMPTY else e >= p, e <= slen(l)))]
def found(k, l, p, m): e = rx(k, l, p); return rxfacts(k, l, p) + [(m == NONE) == (e == -1), Implies(m != NONE, And(mline(m) == l, mpos(m) == p, mend(m) == e))]
match = Contract('iface:match', params=['self', 'string', 'pos'], modifies=lambda c: [], result=('opt', ('iface', MatchI)), ensures=lambda c: found(c.self, V.s(c.string), V.i(c.pos), c.res), verify=False, name='pattern.match')
def nat_match(k):
    def f(eng, st, args, kw, fr):
        if kw or len(args) != 2: raise Unsupported('arguments of match')
        l, p = V.s(eng.toV(args[0])), eng.intval(eng.toV(args[1]), 'int')
        s = st.copy(); m = fresh('match', V); s.assume(*found(k, l, p, m)); yield s, eng.typed(s, m, ('opt', ('iface', MatchI)))
    return f
pos_ = lambda c: c.group == V.int(0)
MK = dict(params=['self', 'group'], requires=lambda c: [('the whole match', pos_(c))], modifies=lambda c: [], verify=False)
m_end = Contract('iface:end', resfn=lambda c: V.int(mend(c.self)), name='match.end', **MK)
m_start = Contract('iface:start', resfn=lambda c: V.int(mpos(c.self)), name='match.start', **MK)
m_group = Contract('iface:group', resfn=lambda c: V.str(lexeme(mline(c.self), mpos(c.self), mend(c.self))), name='match.group', **MK)
def nat_tuple(cls):
    def f(eng, st, args, kw, fr):
        vals = list(args) + [kw[k] for k in cls._fields[len(args):]]; yield st, TupE(vals)
    return f
T2 = lambda *xs: V.tup(mklist(list(xs)))
FV, FR, FS, FC = [z3.Const('H_f:' + k, z3.ArraySort(Int, V)) for k in ('value', 're', 'space', 'comment')]
tok = lambda t: Select(FV, V.oi(t)); pat = lambda t: Select(FR, V.oi(tok(t)))
first = spec('first', L, Str, Int, V)            # the first entry of the table that matches, None if there is none
@unfolds(first)
def _(ts, l, p): return [first(ts, l, p) == If(ts == NIL, NONE, If(rx(pat(L.hd(ts)), l, p) >= 0, L.hd(ts), first(L.tl(ts), l, p)))]
kind = lambda t: Or(Select(FS, V.oi(tok(t))) == TRUE, Select(FC, V.oi(tok(t))) == TRUE); endof = lambda t, l, p: rx(pat(t), l, p)
report = lambda nm, l, n, p: T2(V.str(z3.StringVal('report')), char(l, p), T2(nm, V.int(n), V.int(p), V.int(p), V.str(l)))
token = lambda nm, l, n, p, i: T2(V.str(lexeme(l, p, endof(i, l, p))), tok(i), T2(nm, V.int(n), V.int(p), V.int(endof(i, l, p)), V.str(l)))
lx = spec('lx', V, L, Int, Int, Bool, L)         # name of the source, lines, number of the first line, column, inside a comment
@unfolds(lx)
def _(nm, ls, n, p, c):
    l = V.s(L.hd(ls)); i = first(TYPES, l, p); nxt = lambda c2: lx(nm, L.tl(ls), n + 1, IntVal(0), c2); ce, cs = rx(END, l, p), rx(START, l, p); go = lambda q, c2: lx(nm, ls, n, q, c2); F = BoolVal(False)
    return [lx(nm, ls, n, p, c) == If(ls == NIL, NIL, If(p >= slen(l), nxt(c),
            If(c, If(ce < 0, nxt(BoolVal(True)), go(ce, F)),
            If(cs >= 0, go(cs, BoolVal(True)),
            If(i == NONE, cons(report(nm, l, n, p), go(p + 1, F)),
            If(kind(i), go(endof(i, l, p), F), cons(token(nm, l, n, p, i), go(endof(i, l, p), F))))))))]
def nat_error(eng, st, args, kw, fr):
    """an illegal character is reported: the next expected event is this report"""
    s = st.copy(); r = s.ghost['rest']; loc = kw.get('loc')
    ev = T2(V.str(z3.StringVal('report')), eng.toV(args[2]), eng.toV(loc)) if len(args) > 2 and loc is not None else None
    if ev is None: raise Unsupported('form of the report')
    eng.oblige(s, And(L.is_cons(r), L.hd(r) == ev), 'the report is expected')
    s2 = st.copy(); s2.ghost['rest'] = L.tl(r); yield s2, fresh('error', V)
    e = ExcV(agentspeak.AggregatedError); yield st.copy(), Raise(e, eng.line)
FL = {(SourceI, 'name'): 'str', (SourceI, '[]'): 'str', (TypeI, 'value'): ('obj', LX.Token), (LX.Token, 're'): ('iface', PatI), (LX.Token, 'space'): 'bool', (LX.Token, 'comment'): 'bool'}
linesof = lambda c: c.old.seq(c.sourcefile); name = lambda c: c.old.f('name', c.sourcefile); fl = lambda c: V.i(c.firstline)
def loop(lc):
    if lc.kind == 'seq' and len(lc.ls) == 1 and lc.ls[0].eq(TYPES):
        out = [('the rest of the table decides (%s %s)' % (a, b), first(TYPES, l, p) == first(drop(TYPES, lc.idx), l, p)) for a, b, l, p in places(lc)] + [('the expected events stay', lc.ghost['rest'] == lc.eghost['rest'])]
        return out
    c = lc.c; out = []; r = lc.ghost['rest']; ls = linesof(c); out.append(('the lines stay', lc.n.seq(c.sourcefile) == ls))
    kindof = lambda v: ctor(v) or lc.eng.tag_of(lc.st, v)
    bools = [(nm, v) for nm, v, v0 in lc.vals() if kindof(v0) == 'bool']; ints = [(nm, v) for nm, v, v0 in lc.vals() if kindof(v0) == 'int' and not v.eq(c.firstline)]
    for bn, b in bools:
        if lc.kind == 'seq' and len(lc.ls) == 1:
            out += [('from this line on (%s)' % bn, r == lx(name(c), drop(ls, lc.idx), fl(c) + lc.idx, IntVal(0), V.b(b))), ('these lines', lc.ls[0] == ls)]
        else:
            for an, a in ints:
                out.append(('%s is a column' % an, V.i(a) >= 0))
                for nn, n in ints:
                    if an != nn: out += [('from this column on (%s %s %s)' % (an, nn, bn), r == lx(name(c), drop(ls, V.i(n)), fl(c) + V.i(n), V.i(a), V.b(b))), ('from this column on, numbered (%s %s %s)' % (an, nn, bn), r == lx(name(c), drop(ls, V.i(n) - fl(c)), V.i(n), V.i(a), V.b(b)))]
    return out
def places(lc):
    ks = lambda v: ctor(v) or lc.eng.tag_of(lc.st, v)
    return [(a, b, V.s(l), V.i(p)) for a, l, l0 in lc.vals() for b, p, p0 in lc.vals() if ks(l0) == 'str' and ks(p0) == 'int']
tokenize = Contract('agentspeak.lexer:tokenize', params=['sourcefile', 'log', 'firstline'], types={'sourcefile': ('obj', SourceI), 'log': ('obj', LOG), 'firstline': 'int'}, gen=True, modifies=lambda c: [], loop=loop,
    trace=lambda c: lx(name(c), linesof(c), fl(c), IntVal(0), BoolVal(False)), yields=lambda c: [('the next token', c.y == c.item)], raises=[(agentspeak.AggregatedError, None)], name='tokenize')
for k, f in dict(tracecons=lambda l: L.is_cons(l), tracehead=lambda l: L.hd(l), tracetail=lambda l: L.tl(l), tracenil=lambda l: l == NIL).items(): setattr(tokenize, k, f)
NAT = {LX.TokenInfo: nat_tuple(LX.TokenInfo), agentspeak.SourceLocation: nat_tuple(agentspeak.SourceLocation), LOG.error: nat_error}
NAT.update({LX.RE_START_COMMENT.match: nat_match(START), LX.RE_END_COMMENT.match: nat_match(END)})
IFACE = {(MatchI, n): IFn(n, ['self', 'group'], k) for n, k in (('end', m_end), ('start', m_start), ('group', m_group))}
IFACE[(PatI, 'match')] = IFn('match', ['self', 'string', 'pos'], match)
view = View('C17', [tokenize], fields=FL, stable=['f:name', 'f:value', 'f:re', 'f:space', 'f:comment'], classes=[SourceI, MatchI, LOG, TypeI, PatI, LX.Token], natives=NAT, iface=IFACE, strfns=(slen, schar), candtime=1500, consts=(re.Pattern,), iters={LX.TokenType: (TYPES, ('obj', TypeI))})
LEMMAS = []
