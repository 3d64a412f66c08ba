from lib import *
import c11, re, tempfile, shutil
class Src(io.StringIO):
    def __init__(self, text, name='prog.asl'): io.StringIO.__init__(self, text); self.name = name
class Count(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.errors = self.warnings = 0; self.msgs = []
    def emit(self, r):
        if r.levelno >= logging.ERROR: self.errors += 1; self.msgs.append(r.getMessage())
        elif r.levelno >= logging.WARNING: self.warnings += 1
LOGGERS = [agentspeak.get_logger(n) for n in ('agentspeak', 'agentspeak.runtime', 'agentspeak.parser', 'agentspeak.lexer', 'agentspeak.stdlib', 'agentspeak.optimizer')]
@contextlib.contextmanager
def counting():
    c = Count(); c.seen = set()
    saved = [(l, l.handlers, l.level, l.propagate) for l in LOGGERS + [logging.getLogger()]]
    for l, *_ in saved: l.handlers = [c]; l.setLevel(logging.DEBUG); l.propagate = False
    logging.disable(logging.NOTSET)
    try: yield c
    finally:
        logging.disable(logging.CRITICAL)
        for l, h, lv, p in saved: l.handlers = h; l.setLevel(lv); l.propagate = p
def number(err): m = re.match(r'(\d+)', str(err)); return int(m.group(1)) if m else None
def build(text, name='prog.asl', n=1):
    """(environment, errors reported, outcome)"""
    env = RT.Environment(); old = env.build_agent(Src('p(1).', 'old.asl'), SL.actions)
    with counting() as c:
        try: r = ('ok', env.build_agent(Src(text, name), SL.actions) if n == 1 else env.build_agents(Src(text, name), n, SL.actions))
        except agentspeak.AggregatedError as e: r = ('error', e)
        except AslError as e: r = ('aslerror', e)
        except RecursionError: raise Fail('program %r: endless recursion' % text)
    names = [k for k, a in env.agents.items() if a is not old]
    return c, r, names
def judge(text, c, r, names, what, want=None):
    if r[0] == 'aslerror': raise Skip()      # raised when an initial goal or belief is started, not while reading
    require((r[0] == 'error') == (c.errors > 0), '%s: %d errors reported (%s) but the program is %s', what, c.errors, c.msgs, 'rejected' if r[0] == 'error' else 'accepted')
    if r[0] == 'error': require(names == [], '%s: rejected but the agents %s are registered', what, names); require(number(r[1]) == c.errors, '%s: %s, but %d errors were reported', what, r[1], c.errors)
    else: require(names, '%s: accepted but not registered', what)
    require(c.errors <= 3, '%s: %d errors reported, reading should stop at the third', what, c.errors)
    if want is not None: require((r[0] == 'error') == want, '%s: is %s', what, 'rejected: %s' % c.msgs if r[0] == 'error' else 'accepted')
@check('C18', 3)
def random_programs(rng, size):
    text = c11.rand_program(rng)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
        k = rng.randrange(len(text) + 1); op = rng.randrange(3)
        text = text[:k] + (rng.choice(['$', '.', '(', ')', ';', '}', '{', '"', ' not ', '+', ':-', '<-', ' 1 ', ' true ', '|', '\\', ' X ', ' p ', '%', ' true + 1 ', '!', '@', '[']) if op == 0 else '') + text[k + (op == 1):] if op < 2 else text[:k]
    text = text.replace('!g', '!h' if False else '!g')
    c, r, names = build(text, n=rng.choice([1, 1, 1, 3])); judge(text, c, r, names, 'program %r' % text)
    return text
GOOD = ['p(1).', 'q("s", [1|[2]]).', 'r :- p(X) & X > 0.', '+!g <- +p(2).', '+!g(X) : p(X) & not q(X, _) <- .print(X); if (p(1)) { +r } else { -r }.', '-p(X) <- true.', '+?t(X) <- X = 1 + 2.', '@lab[x] +!k <- while (p(1)) { -p(1) }.', '~s(a)[source(b)].', '{ begin d(1) } p(3). { end }', '+!m <- for (p(X)) { !!g(X) }; ?p(1); -+p(4).']
BAD = ['$', 'p(1) q(2).', 'p :- 3.', 'p :- q + 1.', '+!g <- 1 + 2.', '!g(.', '+!g : p + 1 <- true.', '{ include("nofile.asl") }', '{ foo }', '{ end }', 'p(1 + true).', '+!g <- X = 1 + (2 < 3).', '+!X <- true.', 'X :- p.', 'p(X).', '+!g <- if (true) { p.', '@ +!g.', 'p(1, ).', '+!g <- p(2 ** true).', 'h :- not 3.', '+!g <- while (7) { p }.', '+!g <- ; .', '+!g <- p & & q.', '+!g <- [1, 2].', 'p(1', '"text".', '7.', '{ begin d(1) ', '{ include(foo) }', '+!g <- X = 2 * (not true).', '+!g : true & 5 <- true.', '+ p.q :- r.', 'p(_).', '+!g <- a < .', 'p :- X = (1.', 'p("\\x1").', '+!g <- .print("a\\u12").']
@check('C18', 4)
def an_error_anywhere_is_reported(rng, size):
    parts = [rng.choice(GOOD) for _ in range(rng.randrange(6))]; nbad = rng.choice([0, 1, 1, 1, 2, 5])
    for _ in range(nbad): parts.insert(rng.randrange(len(parts) + 1), rng.choice(BAD))
    text = rng.choice([' ', '\n', '\n\n', ' /* c */ ']).join(parts)
    c, r, names = build(text, n=rng.choice([1, 1, 1, 2])); judge(text, c, r, names, 'program %r' % text, nbad > 0)
    return text
@check('C18', 1)
def log_counts(rng, size):
    limit = rng.choice([None, None, 1, 2, 3, 5]); log = agentspeak.Log(agentspeak.get_logger('agentspeak'), limit); ne = nw = 0; ops = []
    with counting() as c:
        for _ in range(rng.randrange(1, 9)):
            op = rng.choice(['error', 'error', 'warning', 'info', 'throw', 'exception']); ops.append(op); what = 'limit %s: %s' % (limit, ops); raised = got = None
            try: got = getattr(log, op)(*(() if op == 'throw' else ('m %s', 1)), **({} if op == 'throw' else rng.choice([{}, {'loc': None}, {'loc': agentspeak.SourceLocation('f', 1, 0, 1, 'x'), 'extra_locs': [None]}])))
            except agentspeak.AggregatedError as e: raised = e
            if op in ('error', 'exception'): ne += 1
            if op == 'warning': nw += 1
            must = op in ('error', 'exception') and limit is not None and ne >= limit or op == 'throw' and ne > 0
            require((raised is not None) == must, '%s: %s', what, 'raises' if raised else 'goes on'); require(op not in ('error', 'exception') or raised is not None or isinstance(got, agentspeak.AggregatedError), '%s: returns %r', what, got)
            require((log.num_errors, log.num_warnings) == (ne, nw), '%s: counted %d errors, %d warnings', what, log.num_errors, log.num_warnings); require((c.errors, c.warnings) == (ne, nw), '%s: logged %d errors, %d warnings', what, c.errors, c.warnings)
            e = raised or got
            if isinstance(e, agentspeak.AggregatedError): require([int(x) for x in re.findall(r'\d+', str(e))] == [ne, nw], '%s: %s', what, e)
    return '%s %s' % (limit, ops)
@check('C18', 2)
def includes(rng, size):
    d = tempfile.mkdtemp(prefix='c18-')
    try:
        n = rng.randrange(1, 5); files = {}; acyclic = rng.random() < 0.5; sub = [rng.choice(['', 'a', 'a/b', 'c']) for _ in range(n)]
        for s in ('a/b', 'c'): os.makedirs(os.path.join(d, s), exist_ok=True)
        os.symlink(os.path.join(d, 'a'), os.path.join(d, 'link'))
        path = [os.path.join(d, sub[i], 'f%d.asl' % i) for i in range(n)]
        for i in range(n):
            parts = []
            for j in range(rng.randrange(0, 4)):
                if rng.random() < 0.55:
                    t = rng.choice(range(i + 1, n)) if acyclic and i + 1 < n else None if acyclic else rng.randrange(n)
                    if t is None: continue
                    missing = rng.random() < 0.06; parts.append((t, missing))
                else: parts.append('fact(%d, %d).' % (i, j))
            files[i] = parts
        def spelling(i, t):
            """one of the names of file t as seen from file i"""
            here, there = os.path.dirname(path[i]), path[t]; k = rng.randrange(5); rel = os.path.relpath(there, here)
            if k == 0: return there
            if k == 1: return './' + rel
            if k == 2: return os.path.join(os.path.relpath(d, here), 'c', '..', os.path.relpath(there, d))
            if k == 3 and sub[t].startswith('a'): return os.path.join(os.path.relpath(d, here), 'link', os.path.relpath(there, os.path.join(d, 'a')))
            return rel
        for i in range(n):
            with open(path[i], 'w') as f:
                for p in files[i]: f.write(p + '\n' if isinstance(p, str) else '{ include("%s") }\n' % (spelling(i, p[0]) + ('x' if p[1] else '')))
        class Stop(Exception): pass
        state = {'errors': 0, 'steps': 0}
        def read(i, open_):
            out = []
            for p in files[i]:
                state['steps'] += 1
                if state['steps'] > 400: raise Skip()
                if isinstance(p, str): out.append(p[:-1])
                elif p[1] or p[0] in open_:
                    state['errors'] += 1
                    if state['errors'] >= 3: raise Stop()
                else: out += read(p[0], open_ | {p[0]})
            return out
        try: want = read(0, {0})
        except Stop: want = None
        cwd = os.getcwd(); rel = rng.random() < 0.3
        try:
            if rel: os.chdir(rng.choice([d, os.path.join(d, 'c'), os.path.dirname(path[0])]))
            name = os.path.relpath(path[0]) if rel else path[0]
            env = RT.Environment()
            with counting() as c, open(name) as f:
                try: r = ('ok', env.build_agent(f, SL.actions))
                except agentspeak.AggregatedError as e: r = ('error', e)
                except RecursionError: r = ('recursion', None)
        finally: os.chdir(cwd)
        what = 'files %s' % files
        require(r[0] != 'recursion', '%s: endless recursion', what)
        require((r[0] == 'error') == (state['errors'] > 0) and c.errors == state['errors'], '%s: %s with %d errors %s, expected %d', what, r[0], c.errors, c.msgs, state['errors'])
        require((len(env.agents) == 0) == (r[0] == 'error'), '%s: registered %s', what, list(env.agents))
        if r[0] == 'ok':
            got = sorted('fact(%d, %d)' % tuple(int(x) for x in b.args) for bs in r[1].beliefs.values() for b in bs); require(got == sorted(set(want)), '%s: facts %s instead of %s', what, got, sorted(set(want)))
        return what
    finally: shutil.rmtree(d, ignore_errors=True)
