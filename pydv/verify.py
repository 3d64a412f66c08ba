"""Verification of one function against its contract, and the per-property driver."""
import multiprocessing, multiprocessing.connection, os, functools, json, traceback, resource
from pydv.exec import *
import pydv.smt as S

def self_spec(eng, fn):
    """type of `self` for a method target: the classes that inherit this definition"""
    parts = fn.qual.split('.')
    if len(parts) < 2 or '<locals>' in parts: return None
    o = module(fn.modname).mod
    for p in parts[:-1]: o = getattr(o, p, None)
    if not isinstance(o, type): return None
    cls = o; meth = parts[-1]
    import agentspeak
    terms = {agentspeak.Literal: 'lit', agentspeak.Var: 'var', agentspeak.Wildcard: 'wild', agentspeak.LinkedList: 'link',
             agentspeak.UnaryExpr: 'una', agentspeak.BinaryExpr: 'bino'}
    own = inspect.getattr_static(cls, meth, None)
    tags = [t for k, t in terms.items() if issubclass(k, cls) and inspect.getattr_static(k, meth, None) is own]
    if tags: return ('tags', tags)
    return ('obj', cls)

class Verifier(Calls):
    def verify(self, con, target):
        """verify one target of a contract; obligations are appended to self.obls"""
        fn = find_fn(target)
        if fn is None: raise Unsupported('function %s not found in the source' % target)
        self.topnode = fn.node; self.fnname = target; self.topkey = target.split('#')[0]; self.contract = con; self.fuels = con.fuels
        St.STABLE = frozenset(self.view.stable)
        self.frag = (ast.get_source_segment(module(fn.modname).src, fn.node) or '')
        st = St()
        canon, real = self.con_names(con, fn)
        vals = []
        for nm in canon: vals.append(self.toV(lift(con.fixed[nm])) if nm in con.fixed else fresh('p_' + nm, V))
        frees = {}
        for nm, sp in (con.free or {}).items(): frees[nm] = fresh('p_' + nm, V)
        st.alloc = fresh('alloc', Int); st.assume(st.alloc > 0)
        ss = self_spec(self, fn) if not con.selfcls else con.selfcls
        for i, (nm, v) in enumerate(zip(canon, vals)):
            sp = con.types.get(nm)
            if i == 0 and ss is not None and real and real[0] == 'self':
                if ss[0] == 'tags': 
                    st.assume(Or(*[tag(v, t) for t in ss[1]]))
                    if len(ss[1]) == 1: self.hint(st, v, {'lit': 'lit'}.get(ss[1][0]))
                else: self.typed(st, v, ss)
                if sp and callable(sp): st.assume(*sp(v))
                continue
            if sp: self.typed(st, v, sp)
            st.assume(Implies(V.is_obj(v), V.oi(v) < st.alloc))
            st.assume(Implies(V.is_var(v), V.vi(v) < st.alloc), Implies(V.is_wild(v), V.wi(v) < st.alloc))
        for nm, v in frees.items():
            sp = con.free[nm]
            if sp and sp != 'any': self.typed(st, v, sp)
        if con.free:   # self-contained closure environment
            self.fid += 1; st.envs[self.fid] = {'__parent__': None, **{k: self.norm(v) for k, v in frees.items()}}
            fn.fid = self.fid
        entry = st.copy()
        names_all = list(canon) + list(frees); vals_all = vals + list(frees.values())
        c0 = Ctx(names_all, vals_all, HV(entry, self), eng=self); c0.fn = fn
        for nm, f in named(con.requires(c0) if con.requires else [], 'requires'): st.assume(f); entry.assume(f)
        if con.assumes:
            for nm, f in named(con.assumes(c0), 'assumes'): st.assume(f); entry.assume(f)
        self.cctx = c0
        r, _ = check_sat(list(st.pc) + saturate(list(st.pc), 2, st.qf), 5000)
        if r == 'unsat': raise Unsupported('contract precondition of %s is contradictory' % target)
        mods = con.modifies(c0)
        self.perm = (st.alloc, mods)
        if con.ghost: st.ghost.update(con.ghost(c0))
        env = dict(zip(real, [self.norm(v) for v in vals]))
        if fn.node.args.vararg is not None: self.typed(st, env[fn.node.args.vararg.arg], 'tup')
        if fn.node.args.kwarg is not None: self.typed(st, env[fn.node.args.kwarg.arg], ('dict', None))
        if con.trace is not None: st.ghost['rest'] = con.trace(c0)
        self.reach = 0
        def finish(s):
            c = Ctx(names_all, vals_all, HV(entry, self), HV(s, self), eng=self); c.fn = fn
            return c
        def check_raise(s, r):
            e = r.exc
            for x in con.noraise:
                if issubclass(e.cls, x) or (getattr(e, 'open', False) and issubclass(x, e.cls) and not any(issubclass(x, y) for y in getattr(e, 'excl', ()))):
                    self.oblige(s, False, '%s never escapes' % x.__name__, r.line)
            for ec, ef in con.raises:
                if issubclass(e.cls, ec) or (ec is Exception and issubclass(e.cls, Exception)):
                    fs = ef(finish(s)) if ef else []
                    if fs is None: continue
                    for nm, f in named(fs, 'r'): self.oblige(s, f, 'on %s: %s' % (ec.__name__, nm), r.line)
                    self.reach += 1
                    return
            for ec in con.exc_ok:
                if issubclass(e.cls, ec): return
            self.oblige(s, False, 'no unexpected %s' % e.cls.__name__, r.line)
        if not con.gen:
            for out, s in self.run_fn(st, fn, env, None, None, top=True):
                self.paths += 1
                if out[0] in ('ret', 'n'):
                    res = out[1] if out[0] == 'ret' else lift(None)
                    c = finish(s); c.res = self.toV(res); c.resE = res
                    self.reach += 1
                    for nm, f in named(con.ensures(c) if con.ensures else [], 'ensures'):
                        self.oblige(s, f, 'postcondition %s' % nm)
                elif out[0] == 'exc': check_raise(s, out[1])
                else: raise Unsupported('outcome')
            return
        # generator contract
        st.ghost['@yi'] = IntVal(0)
        def on_yield(s, v):
            self.reach += 1
            c = Ctx(names_all, vals_all, HV(entry, self), HV(s, self), eng=self, y=self.toV(v)); c.fn = fn
            c.idx = s.ghost['@yi']
            s = s.copy()
            if con.trace is not None:
                rest = s.ghost['rest']
                self.oblige(s, con.tracecons(rest), 'the solution yielded is expected')
                c.item = con.tracehead(rest); s.ghost['rest'] = con.tracetail(rest)
            c.now = HV(s, self)
            for nm, f in named(con.yields(c) if con.yields else [], 'yields'): self.oblige(s, f, 'at yield: %s' % nm)
            s.ghost['@yi'] = simp(s.ghost['@yi'] + 1)
            before = s.copy()
            rm = con.relymods(c) if con.relymods else con.modifies(c)
            p, self.perm = self.perm, None
            try: self.havoc_mods(s, rm, True)
            finally: self.perm = p
            c2 = Ctx(names_all, vals_all, HV(before, self), HV(s, self), eng=self); c2.fn = fn
            for nm, f in named(con.rely(c2) if con.rely else [], 'rely'): s.assume(f)
            yield 'resume', s
        h = YH(on_yield, [])
        def finished(s):
            c = finish(s); self.reach += 1
            if con.trace is not None: self.oblige(s, con.tracenil(s.ghost['rest']), 'no solution is missed')
            for nm, f in named(con.exits(c) if con.exits else [], 'exit'): self.oblige(s, f, 'when exhausted: %s' % nm)
        if is_gen(fn.node):
            for out, s in self.run_fn(st, fn, env, None, h, top=True):
                self.paths += 1
                if out[0] in ('n', 'ret'): finished(s)
                elif out[0] == 'exc': check_raise(s, out[1])
            return
        # a function that returns a generator
        for out, s in self.run_fn(st, fn, env, None, None, top=True):
            self.paths += 1
            if out[0] == 'exc': check_raise(s, out[1]); continue
            if out[0] != 'ret': raise Unsupported('generator expected')
            fr = self.newframe(s, fn, fn.modname, h, 0, None, (target,))
            def body(s1, x):
                for s2, r in self.do_yield(s1, fr, x): yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
            for o2, s2 in self.consume(s, fr, out[1], body, [], yields=h):
                if o2[0] == 'n': finished(s2)
                elif o2[0] == 'exc': check_raise(s2, o2[1])

# ------------------------------------------------------------------ driver
def _limit():
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass

def verify_one(args):
    view, con, target, budget = args
    t = time.time()
    S.STATS.__init__()
    eng = Verifier(view, budget=budget)
    r = {'target': target, 'contract': con.name, 'status': 'ok', 'reason': None}
    sys.setrecursionlimit(20000)
    try: eng.verify(con, target)
    except Unsupported as e: r['status'] = 'unsupported'; r['reason'] = '%s (line %s)' % (e, eng.line)
    except Budget as e: r['status'] = 'budget'; r['reason'] = str(e)
    except (MemoryError, RecursionError, z3.Z3Exception) as e: r['status'] = 'engine'; r['reason'] = '%s: %s' % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-2700:]
    except Exception as e:
        r['status'] = 'engine'; r['reason'] = traceback.format_exc()[-1500:]
    r['dead'] = []
    if r['status'] == 'ok':
        for n in ast.walk(eng.topnode):
            if isinstance(n, ast.stmt) and n is not eng.topnode and id(n) not in eng.seen and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): r['dead'].append(n.lineno)
    r.update(obls=[o.asdict() for o in eng.obls], paths=eng.paths, reach=eng.reach, inlined=sorted(eng.inlined), used=sorted(eng.used),
             assumed=sorted(eng.assumed), wall=time.time() - t, queries=S.STATS.queries, solver=S.STATS.time, by=dict(S.STATS.by), unknown=S.STATS.unknown)
    return r

def _child(job, conn):
    _limit()
    try: r = job()
    except BaseException as e: r = e
    try: conn.send(r)
    except Exception as e: conn.send(RuntimeError(str(e)[:300]))
    conn.close()
def run_jobs(jobs, procs, timeout):
    """run the jobs in processes of their own; a job that dies or hangs gives None"""
    ctx = multiprocessing.get_context('fork'); out = [None] * len(jobs); live = {}; todo = list(range(len(jobs)))
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(jobs[i], b)); p.start(); b.close(); live[i] = (p, a, time.time())
        multiprocessing.connection.wait([a for p, a, t in live.values()], 1.0)
        for i, (p, a, t) in list(live.items()):
            done = False
            if a.poll():
                try: out[i] = a.recv()
                except (EOFError, OSError): pass
                done = True
            elif not p.is_alive(): done = True
            elif time.time() - t > timeout: p.kill(); done = True
            if done:
                a.close(); p.join(5)
                if p.is_alive(): p.kill(); p.join()
                del live[i]
    return out
def run_view(view, budget=400, procs=8, only=None):
    """verify every target of a view in parallel: returns list of results"""
    ts = [(view, c, t, budget) for c in view.list if c.verify and not c.trusted for t in c.targets if (only is None or only in t)]
    rs = run_jobs([functools.partial(verify_one, a) for a in ts], procs, budget * 1.5 + 60)
    return [r if isinstance(r, dict) else {'target': a[2], 'contract': a[1].name, 'status': 'engine', 'reason': 'the verifier process ended early: %r' % (r,), 'obls': [], 'paths': 0, 'reach': 0,
            'inlined': [], 'used': [], 'assumed': [], 'wall': 0, 'queries': 0, 'solver': 0, 'by': {}, 'unknown': 0} for a, r in zip(ts, rs)]
def _lemma(i):
    l = S.Lemma.ALL[i]; t = time.time()
    try: return (l.name, l.check(), time.time() - t)
    except Exception as e: return (l.name, [('error', 'failed', traceback.format_exc()[-500:])], time.time() - t)
def run_lemmas(names=None, procs=8):
    ids = [i for i, l in enumerate(S.Lemma.ALL) if names is None or l.name in names]
    rs = run_jobs([functools.partial(_lemma, i) for i in ids], procs, 300)
    return [r if isinstance(r, tuple) else (S.Lemma.ALL[i].name, [('ended early', 'unknown', '-')], 0) for i, r in zip(ids, rs)]
