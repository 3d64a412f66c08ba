from pydv.engine import *
from collections import Counter
import pydv.engine as E, os

DEBUG = os.environ.get('PYDV_DEBUG')
class Escape(Raise):
    def __init__(self, out): self.exc = None; self.out = out; self.line = None

class YH(object):
    """yield handler: called with (state, value); yields ('resume'|Raise, state)"""
    def __init__(self, f, assigned): self.f = f; self.assigned = assigned
    def __call__(self, st, v): return self.f(st, v)

class LC(object):
    """loop context given to invariants"""
    pass

def stored_names(nodes):
    out = set(); stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name); continue
        if isinstance(n, ast.Lambda): continue
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)): 
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out

PRIV = {}
PRIV_METHODS = {'append', 'extend', 'insert', 'pop', 'clear', 'sort', 'reverse', 'count', 'index', 'add', 'discard', 'get', 'copy'}
def private_names(node):
    """local names whose list/dict/set never leaves the function: bound only to fresh containers, used only through them"""
    if node in PRIV: return PRIV[node]
    good = {}; bad = set()
    fresh_ = lambda v: isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set'))
    def walk(n, nested):
        for ch_ in ast.iter_child_nodes(n):
            ok = None
            if isinstance(ch_, ast.Name):
                if nested: bad.add(ch_.id)
                elif isinstance(n, ast.Assign) and ch_ in n.targets and len(n.targets) == 1 and fresh_(n.value): good[ch_.id] = 1
                elif isinstance(ch_.ctx, ast.Load) and (isinstance(n, ast.Attribute) and n.attr in PRIV_METHODS or isinstance(n, (ast.For, ast.comprehension)) and n.iter is ch_ or isinstance(n, ast.Subscript) and n.value is ch_
                     or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'bool', 'reversed', 'enumerate') and ch_ in n.args or isinstance(n, (ast.If, ast.While)) and n.test is ch_ or isinstance(n, ast.UnaryOp)): pass
                else: bad.add(ch_.id)
            elif isinstance(ch_, ast.Attribute) and isinstance(ch_.value, ast.Name) and not (isinstance(n, ast.Call) and n.func is ch_): bad.add(ch_.value.id)
            walk(ch_, nested or isinstance(ch_, (ast.FunctionDef, ast.Lambda, ast.ClassDef)))
    if isinstance(node, ast.FunctionDef):
        for b in node.body: walk(ast.Module(body=[b], type_ignores=[]), False)
        for a in ast.walk(node):
            if isinstance(a, ast.arg): bad.add(a.arg)
            elif isinstance(a, (ast.Global, ast.Nonlocal)): bad.update(a.names)
    PRIV[node] = frozenset(k for k in good if k not in bad)
    return PRIV[node]

class Exec(Engine):
    def privates(self, s, skip=()):
        """the objects no one else can reach"""
        out = []
        for fid, env in s.envs.items():
            node = self.fnodes.get(fid)
            for nm in (private_names(node) if node is not None else ()):
                v = env.get(nm)
                if v is not None and is_expr(v) and (fid, nm) not in skip:
                    out.append(self.oid(v))
        return out
    def kept_privates(self, s, before, ids):
        """a havoc leaves them alone"""
        for c in ('seq', 'map', 'set'):
            a, b = s.comp(c), before.comp(c)
            if a.eq(b): continue
            for i in ids: a = Store(a, i, simp(Select(b, i)))
            s.heap[c] = a
    # ---------------------------------------------------------------- writes
    perm = None
    def note_write(self, st, c, i):
        st.wl = (st.wl, c, i)
        if self.perm is None or c.startswith('f:@'): return
        alloc0, allowed = self.perm
        if allowed == '*': return
        alts = []
        for a in allowed:
            if a[0] == c:
                if isinstance(a[1], str): return
                j = self.oid(a[1])
                if j.eq(i): return
                alts.append(i == j)
        b, k = self.split_id(i)
        if b is not None and z3.is_const(b) and b.decl().name().startswith('alloc!') and const_num(b.decl().name()) >= const_num(alloc0.decl().name()) and k >= 0: return
        alts.append(i >= alloc0)
        self.oblige(st, Or(*alts), 'frame: writes only what the contract allows (%s)' % c)
    def note_all(self, st):
        st.wl = (st.wl, '*', None)
        if self.perm is not None and self.perm[1] != '*': self.oblige(st, False, 'frame: callee may modify anything')

    # ---------------------------------------------------------------- statements
    def block(self, st, fr, stmts):
        if not stmts: yield ('n',), st; return
        for out, s in self.stmt(st, fr, stmts[0]):
            if out[0] == 'n': yield from self.block(s, fr, stmts[1:])
            else: yield out, s
    def stmt(self, st, fr, n):
        self.line = n.lineno; self.tick(); self.seen.add(id(n))
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s at line %d' % (type(n).__name__, n.lineno))
        return m(st, fr, n)
    def st_Expr(self, st, fr, n):
        if isinstance(n.value, ast.Constant): yield ('n',), st; return
        for s, v in self.ev(st, fr, n.value):
            yield (('exc', v) if isinstance(v, Raise) else ('n',)), s
    def st_Pass(self, st, fr, n): yield ('n',), st
    def st_Global(self, st, fr, n): raise Unsupported('global')
    def st_Nonlocal(self, st, fr, n):
        for nm in n.names: st.envs[fr.fid].setdefault('__nonlocal__', set()).add(nm)
        yield ('n',), st
    def st_Import(self, st, fr, n):
        import importlib
        st = st.copy()
        for a in n.names:
            importlib.import_module(a.name)
            nm = a.asname or a.name.split('.')[0]
            st.envs[fr.fid][nm] = Live(sys.modules[a.name if a.asname else nm])
        yield ('n',), st
    def st_ImportFrom(self, st, fr, n):
        import importlib
        m = importlib.import_module(n.module); st = st.copy()
        for a in n.names: st.envs[fr.fid][a.asname or a.name] = lift(getattr(m, a.name))
        yield ('n',), st
    def st_FunctionDef(self, st, fr, n):
        if n.decorator_list: raise Unsupported('decorated local function')
        st = st.copy()
        q = (fr.fn.qual if fr.fn else '') + '.<locals>.' + n.name
        st.envs[fr.fid][n.name] = Closure(n, fr.fid, fr.modname, q, self.defaults_of(n, st, fr))
        yield ('n',), st
    def st_Return(self, st, fr, n):
        if n.value is None: yield ('ret', lift(None)), st; return
        for s, v in self.ev(st, fr, n.value):
            yield (('exc', v) if isinstance(v, Raise) else ('ret', v)), s
    def st_Break(self, st, fr, n): yield ('brk',), st
    def st_Continue(self, st, fr, n): yield ('cont',), st
    def st_If(self, st, fr, n):
        for s, t in self.cond(st, fr, n.test):
            if isinstance(t, Raise): yield ('exc', t), s
            else: yield from self.block(s, fr, n.body if t else n.orelse)
    def st_Assert(self, st, fr, n):
        for s, t in self.cond(st, fr, n.test):
            if isinstance(t, Raise): yield ('exc', t), s
            elif t: yield ('n',), s
            else: yield ('exc', mkraise(AssertionError, n.lineno)), s
    def st_Raise(self, st, fr, n):
        if n.exc is None:
            e = st.envs[fr.fid].get('__exc__')
            if e is None: raise Unsupported('bare raise')
            yield ('exc', Raise(e, n.lineno)), st; return
        for s, v in self.ev(st, fr, n.exc):
            if isinstance(v, Raise): yield ('exc', v), s; continue
            v = self.norm(v)
            if isinstance(v, Live) and isinstance(v.obj, type): v = ExcV(v.obj)
            if isinstance(v, ExcV): yield ('exc', Raise(v, n.lineno)), s
            elif is_expr(v) and self.tag_of(s, v) == 'none': yield ('exc', mkraise(TypeError, n.lineno)), s
            else: raise Unsupported('raise of %r' % v)
    def st_Assign(self, st, fr, n):
        for s, v in self.ev(st, fr, n.value):
            if isinstance(v, Raise): yield ('exc', v), s; continue
            yield from self.assign_all(s, fr, n.targets, v)
    def st_AnnAssign(self, st, fr, n):
        if n.value is None: yield ('n',), st; return
        for s, v in self.ev(st, fr, n.value):
            if isinstance(v, Raise): yield ('exc', v), s; continue
            yield from self.assign_all(s, fr, [n.target], v)
    def assign_all(self, st, fr, targets, v):
        if not targets: yield ('n',), st; return
        for out, s in self.assign(st, fr, targets[0], v):
            if out[0] == 'n': yield from self.assign_all(s, fr, targets[1:], v)
            else: yield out, s
    def setlocal(self, st, fr, name, v):
        env = st.envs[fr.fid]
        if name in env.get('__nonlocal__', ()):
            f = env['__parent__']
            while f is not None:
                if name in st.envs[f]: st.envs[f][name] = v; return
                f = st.envs[f].get('__parent__')
        env[name] = v
    def assign(self, st, fr, t, v):
        if isinstance(t, ast.Name):
            s = st.copy(); self.setlocal(s, fr, t.id, v); yield ('n',), s
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(st, fr, t.value):
                if isinstance(o, Raise): yield ('exc', o), s; continue
                s = s.copy()
                for s2, r in self.setattr_(s, o, t.attr, v):
                    yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
        elif isinstance(t, ast.Subscript):
            for s, vs in self.evs(st, fr, [t.value, t.slice]):
                if isinstance(vs, Raise): yield ('exc', vs), s; continue
                s = s.copy()
                for s2, r in self.setitem(s, vs[0], vs[1], v):
                    yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
        elif isinstance(t, (ast.Tuple, ast.List)):
            for s, items in self.unpack(st, v, len(t.elts)):
                if isinstance(items, Raise): yield ('exc', items), s; continue
                def go(s, i):
                    if i == len(t.elts): yield ('n',), s; return
                    for out, s2 in self.assign(s, fr, t.elts[i], items[i]):
                        if out[0] == 'n': yield from go(s2, i + 1)
                        else: yield out, s2
                yield from go(s, 0)
        else: raise Unsupported('assignment target')
    def unpack(self, st, v, k):
        v = self.norm(v)
        if isinstance(v, TupE):
            if len(v.items) != k: yield st, mkraise(ValueError, self.line)
            else: yield st, list(v.items)
            return
        t = self.tag_of(st, v) if not isinstance(v, EV) else None
        if t == 'tup' or (t == 'obj' and kind_of(self.cls_of(st, v)) == 'seq'):
            l = self.L_(v) if t == 'tup' else self.read(st, 'seq', v)
            items = []; c = l; conds = []
            for i in range(k):
                conds.append(L.is_cons(c)); items.append(simp(L.hd(c))); c = simp(L.tl(c))
            conds.append(c == NIL)
            for s, ok in self.split(st, And(*conds)):
                if ok: yield s, [self.elem(s, v, x) for x in items]
                else: yield s, mkraise(ValueError, self.line)
            return
        raise Unsupported('unpacking of unknown value at line %d' % self.line)
    def setitem(self, st, o, i, v):
        o = self.norm(o)
        if isinstance(o, EV): raise Unsupported('item store on %r' % o)
        k = self.cls_of(st, o) if self.tag_of(st, o) == 'obj' else None
        if kind_of(k) == 'map':
            self.write(st, 'map', o, Store(self.read(st, 'map', o), self.toV(i), Opt.present(self.toV(v)))); yield st, None
        else: raise Unsupported('item store at line %d' % self.line)
    def st_AugAssign(self, st, fr, n):
        op = self.BINOPS.get(type(n.op))
        load = copy.copy(n.target); load.ctx = ast.Load()
        for s, vs in self.evs(st, fr, [load, n.value]):
            if isinstance(vs, Raise): yield ('exc', vs), s; continue
            a = self.norm(vs[0])
            if op == 'add' and is_expr(a) and self.tag_of(s, a) == 'obj' and kind_of(self.cls_of(s, a)) == 'seq':
                for s2, r in self.call(s.copy(), Bound(BMeth('seq', 'extend'), a), [vs[1]], {}, fr):
                    yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
                continue
            if op in ('or_', 'sub', 'and_') and is_expr(a) and self.tag_of(s, a) == 'obj': raise Unsupported('set augmented assignment')
            for s2, r in self.binop(s, op, vs[0], vs[1]):
                if isinstance(r, Raise): yield ('exc', r), s2
                else: yield from self.assign(s2, fr, n.target, r)
    def st_Delete(self, st, fr, n):
        if len(n.targets) != 1: raise Unsupported('del')
        t = n.targets[0]
        if isinstance(t, ast.Name):
            st = st.copy(); st.envs[fr.fid].pop(t.id, None); yield ('n',), st; return
        if isinstance(t, ast.Subscript):
            for s, vs in self.evs(st, fr, [t.value, t.slice]):
                if isinstance(vs, Raise): yield ('exc', vs), s; continue
                o = self.norm(vs[0])
                if is_expr(o) and self.tag_of(s, o) == 'obj' and kind_of(self.cls_of(s, o)) == 'map':
                    K = self.toV(vs[1]); m = self.read(s, 'map', o)
                    for s2, ok in self.split(s, Opt.is_present(Select(m, K))):
                        if ok: s2 = s2.copy(); self.write(s2, 'map', o, Store(m, K, Opt.absent)); yield ('n',), s2
                        else: yield ('exc', mkraise(KeyError, self.line)), s2
                    continue
                if is_expr(o) and self.tag_of(s, o) == 'obj' and kind_of(self.cls_of(s, o)) == 'seq' and self.constint(vs[1]) in (0, -1):
                    nm = 'popleft' if self.constint(vs[1]) == 0 else 'pop'
                    for s2, r in self.bmeth(s.copy(), 'seq', nm, o, [], {}, fr):
                        yield (('exc', r) if isinstance(r, Raise) else ('n',)), s2
                    continue
                raise Unsupported('del item')
            return
        raise Unsupported('del')
    def exc_matches(self, exc, types_):
        """'yes'/'no'/'maybe'"""
        r = 'no'
        for t in types_:
            if issubclass(exc.cls, t): return 'yes'
            if issubclass(t, exc.cls) and getattr(exc, 'open', False) and not any(issubclass(t, x) for x in getattr(exc, 'excl', ())): r = 'maybe'
        return r
    def handler_types(self, st, fr, h):
        if h.type is None: return [BaseException]
        r = list(self.ev(st, fr, h.type))
        if len(r) != 1 or isinstance(r[0][1], Raise): raise Unsupported('except clause')
        v = r[0][1]
        vs = v.items if isinstance(v, TupE) else [v]
        out = []
        for x in vs:
            if not (isinstance(x, Live) and isinstance(x.obj, type)): raise Unsupported('except clause')
            out.append(x.obj)
        return out
    def st_Try(self, st, fr, n):
        if n.finalbody and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)): raise Unsupported('yield inside try/finally')
        def fin(out, s):
            if not n.finalbody: yield out, s; return
            for o2, s2 in self.block(s, fr, n.finalbody):
                yield (out if o2[0] == 'n' else o2), s2
        for out, s in self.block(st, fr, n.body):
            if out[0] == 'n' and n.orelse:
                for o2, s2 in self.block(s, fr, n.orelse): yield from fin(o2, s2)
                continue
            if out[0] != 'exc' or isinstance(out[1], Escape): yield from fin(out, s); continue
            exc = out[1].exc; handled = False
            for h in n.handlers:
                m = self.exc_matches(exc, self.handler_types(s, fr, h))
                if m == 'no': continue
                s2 = s.copy()
                ex = exc
                if m == 'maybe':
                    ex = ExcV(self.handler_types(s, fr, h)[0]); ex.open = True
                if h.name: s2.envs[fr.fid][h.name] = ex
                old = s2.envs[fr.fid].get('__exc__'); s2.envs[fr.fid]['__exc__'] = ex
                for o2, s3 in self.block(s2, fr, h.body):
                    s3 = s3.copy(); s3.envs[fr.fid]['__exc__'] = old
                    yield from fin(o2, s3)
                if m == 'yes': handled = True; break
            if not handled: yield from fin(out, s)
    def st_With(self, st, fr, n): raise Unsupported('with')
    def st_For(self, st, fr, n):
        assigned = [(fr.fid, x) for x in stored_names([n.target] + n.body)]
        if fr.on_yield is not None: assigned += fr.on_yield.assigned
        def body(s, v):
            for out, s2 in self.assign(s, fr, n.target, v):
                if out[0] != 'n': yield out, s2
                else: yield from self.block(s2, fr, n.body)
        for s, it in self.ev(st, fr, n.iter):
            if isinstance(it, Raise): yield ('exc', it), s; continue
            it = self.temporary(st, s, n.iter, it)
            for out, s2 in self.consume(s, fr, it, body, assigned, line=n.lineno):
                if out[0] == 'n': yield from self.block(s2, fr, n.orelse)
                elif out[0] == 'brk': yield ('n',), s2
                else: yield out, s2
    def temporary(self, st, s, node, it):
        """a list that only this loop refers to cannot change while it is walked"""
        it = self.norm(it)
        if isinstance(node, (ast.Call, ast.ListComp)) and is_expr(it) and ctor(it) == 'obj' and kind_of(self.cls_of(s, it)) == 'seq':
            if isinstance(node, ast.Call) and not (isinstance(node.func, ast.Name) and node.func.id in ('list', 'sorted')): return it
            if self.valid(s, self.oid(it) >= st.alloc): return self.listit(s, self.read(s, 'seq', it), it)
        return it
    def st_While(self, st, fr, n):
        assigned = [(fr.fid, x) for x in stored_names([n.test] + n.body)]
        if fr.on_yield is not None: assigned += fr.on_yield.assigned
        def body(s, v): return self.block(s, fr, n.body)
        src = ('while', lambda s: self.cond(s, fr, n.test))
        for out, s2 in self.run_loop(st, fr, src, body, assigned, [], n.lineno):
            if out[0] == 'n': yield from self.block(s2, fr, n.orelse)
            elif out[0] == 'brk': yield ('n',), s2
            else: yield out, s2

    # ---------------------------------------------------------------- iteration
    def consume(self, st, fr, it, body, assigned, accs=(), line=None, yields=None):
        it = self.norm(it); line = line or self.line
        if yields is not None: assigned = list(assigned) + yields.assigned
        if isinstance(it, TupE):
            yield from self.unroll(st, list(it.items), body); return
        if isinstance(it, GenE):
            yield from self.consume_gene(st, it, it.node.elt, body, assigned, accs, line); return
        if isinstance(it, GenCall):
            if it.contract is not None:
                yield from self.run_loop(st, fr, ('gen', it), body, assigned, accs, line)
            else: yield from self.drive(st, fr, it, body, list(assigned) + [a for a in accs])
            return
        if isinstance(it, RawL): it = V.tup(it.l)
        if not isinstance(it, It):
            for s, i in self.iterof(st, fr, it):
                if isinstance(i, Raise): yield ('exc', i), s
                elif isinstance(i, It): yield from self.consume(s, fr, i, body, assigned, accs, line)
                else: yield from self.consume(s, fr, i, body, assigned, accs, line)
            return
        # concrete?
        n = simp(it.length)
        if z3.is_int_value(n) and n.as_long() <= 8 and all(self.concrete(l) for l in it.ls):
            vals = [it.elem(st, IntVal(i)) for i in range(n.as_long())]
            yield from self.unroll(st, vals, body); return
        yield from self.run_loop(st, fr, ('seq', it), body, assigned, accs, line)
    def concrete(self, l):
        while ctorL(l) == 'cons': l = l.arg(1)
        return ctorL(l) == 'nil'
    def unroll(self, st, vals, body):
        if not vals: yield ('n',), st; return
        for out, s in body(st, vals[0]):
            if out[0] in ('n', 'cont'): yield from self.unroll(s, vals[1:], body)
            else: yield out, s
    def listit(self, st, l, owner=None, guard=None):
        def elem(s, i):
            k = simp(i)
            if z3.is_int_value(k):
                t = l
                for _ in range(k.as_long()):
                    if ctorL(t) != 'cons': t = None; break
                    t = t.arg(1)
                if t is not None and ctorL(t) == 'cons': x = t.arg(0)
                else: x = nth(l, i)
            else: x = nth(l, i)
            x = self.norm(x)
            if owner is not None: return self.elem(s, owner, x)
            if not isinstance(x, EV): s.assume(Implies(V.is_obj(x), V.oi(x) < s.alloc))
            return x
        return It([l], elem, simp(llen_(l)), guard)
    def iterof(self, st, fr, v):
        """yield (state, It | iterable EV | Raise)"""
        v = self.norm(v)
        if isinstance(v, (It, TupE, GenE, GenCall)): yield st, v; return
        if isinstance(v, RawL): yield st, self.listit(st, v.l); return
        if isinstance(v, Live):
            try: iv = self.view.iters.get(v.obj)
            except TypeError: iv = None
            if iv is not None:
                l, sp = iv
                yield st, It([l], lambda s, i: self.typed(s, nth(l, i), sp), llen_(l), None); return
            if isinstance(v.obj, (list, tuple, frozenset)): yield st, TupE([lift(x) for x in v.obj]); return
            if isinstance(v.obj, enum.EnumMeta): yield st, TupE([lift(x) for x in v.obj]); return
            raise Unsupported('iteration over %r' % v)
        t = self.tag_of(st, v)
        if t == 'tup': yield st, self.listit(st, self.L_(v), v); return
        if t == 'fset': yield st, self.listit(st, V.fs(v) if ctor(v) != 'fset' else v.arg(0), v); return
        if t == 'obj':
            k = self.cls_of(st, v); kd = kind_of(k)
            if kd == 'seq':
                l = self.read(st, 'seq', v)
                yield st, self.listit(st, l, v, guard=('seq', v, k)); return
            if kd == 'set':
                yield st, self.listit(st, elems(self.read(st, 'set', v)), v, guard=('set', v, k)); return
            if kd == 'map':
                m = self.read(st, 'map', v)
                i = self.listit(st, mkeys(m), None, guard=('map', v, k))
                yield st, i; return
            if k is not None:
                l = self.cls_lookup(k, '__iter__')
                if l and l[0] == 'method':
                    yield from self.call(st, Live(l[1]), [v], {}, fr); return
        if t in ('link', 'lit', 'var'):
            f = inspect.getattr_static(self.term_class(t), '__iter__', None)
            if isinstance(f, types.FunctionType): yield from self.call(st, Live(f), [v], {}, fr); return
            yield st, mkraise(TypeError, self.line); return
        if t is None:
            for s, ok in self.split(st, V.is_tup(v)):
                if ok: self.hint(s, v, 'tup'); yield from self.iterof(s, fr, v)
                else:
                    h = self.hintof(s, v)
                    if isinstance(h, tuple) and h[0] == 'opt':
                        for s2, nn in self.split(s, v == V.none):
                            if nn: yield s2, mkraise(TypeError, self.line)
                            else: self.hint(s2, v, h[1]); yield from self.iterof(s2, fr, v)
                    else:
                        for s2, ok2 in self.split(s, V.is_fset(v)):
                            if ok2: yield s2, self.listit(s2, V.fs(v), v)
                            else:
                                for s3, ok3 in self.split(s2, V.is_link(v)):
                                    if ok3:
                                        f = inspect.getattr_static(self.term_class('link'), '__iter__', None)
                                        if isinstance(f, types.FunctionType): yield from self.call(s3, Live(f), [v], {}, fr)
                                        else: yield s3, mkraise(TypeError, self.line)
                                    else:
                                        for s4, ok4 in self.split(s3, V.is_str(v)):
                                            if ok4: yield s4, self.listit(s4, strchars(V.s(v)))
                                            else:
                                                if self.feasible(s4, V.is_obj(v)):
                                                    self.assumed.add('a term never contains a Python list, set or dict'); s4.assume(Not(V.is_obj(v)))
                                                yield s4, mkraise(TypeError, self.line)
            return
        if t == 'str': yield st, self.listit(st, strchars(V.s(v))); return
        if t in ('none', 'int', 'bool', 'flt', 'wild', 'una', 'bino'): yield st, mkraise(TypeError, self.line); return
        raise Unsupported('iteration over value of kind %s at line %d' % (t, self.line))
    def consume_gene(self, st, g, elt, body, assigned=(), accs=(), line=None):
        """consume a generator expression / comprehension"""
        n = g.node; fr0 = g.fr; line = line or n.lineno
        assigned = list(assigned)
        def level(s, fr, i):
            gen = n.generators[i]
            names = [(fr.fid, x) for x in stored_names([gen.target])]
            def inner(s1, v):
                for out, s2 in self.assign(s1, fr, gen.target, v):
                    if out[0] != 'n': yield out, s2; continue
                    yield from ifs(s2, list(gen.ifs))
            def ifs(s1, conds):
                if conds:
                    for s2, t in self.cond(s1, fr, conds[0]):
                        if isinstance(t, Raise): yield ('exc', t), s2
                        elif t: yield from ifs(s2, conds[1:])
                        else: yield ('n',), s2
                    return
                if i + 1 < len(n.generators): yield from level(s1, fr, i + 1); return
                for s2, v in self.ev(s1, fr, elt):
                    if isinstance(v, Raise): yield ('exc', v), s2
                    else: yield from body(s2, v)
            if i == 0 and g.first is not None:
                yield from self.consume(s, fr, g.first, inner, assigned + names, accs, line)
            else:
                for s1, it in self.ev(s, fr if i else fr0, gen.iter):
                    if isinstance(it, Raise): yield ('exc', it), s1
                    else: yield from self.consume(s1, fr, it, inner, assigned + names, accs, line)
        st = st.copy()
        fr = self.newframe(st, fr0.fn, fr0.modname, fr0.on_yield, fr0.depth, fr0.fid, fr0.chain)
        yield from level(st, fr, 0)
    def drive(self, st, fr, g, body, assigned):
        """run an uncontracted generator inline, with `body` as its consumer"""
        def handler(s, v):
            for out, s2 in body(s, v):
                if out[0] in ('n', 'cont'): yield 'resume', s2
                else: yield Escape(out), s2
        for out, s in self.run_fn(st, g.fn, g.args, fr, YH(handler, list(assigned))):
            if out[0] == 'exc':
                if isinstance(out[1], Escape): yield out[1].out, s
                elif out[1].exc.cls is StopIteration: yield ('exc', Raise(ExcV(RuntimeError), self.line)), s
                else: yield out, s
            else: yield ('n',), s

    # ---------------------------------------------------------------- loops
    def lctx(self, entry, s, idx, src, accs, fr, loop):
        lc = LC(); lc.eng = self
        lc.e = HV(entry, self); lc.n = HV(s, self); lc.idx = idx
        lc.ls = src[1].ls if src[0] == 'seq' else []
        lc.kind = src[0]; lc.fr = fr
        lc.accs = [s.envs[f][k].l for f, k in accs if isinstance(s.envs.get(f, {}).get(k), RawL)]
        lc.accs0 = [entry.envs[f][k].l for f, k in accs if isinstance(entry.envs.get(f, {}).get(k), RawL)]
        # local containers allocated in this function
        lc.lists = []; lc.dicts = []; lc.sets = []; lc.iters = []
        seen = set()
        for fid, env in s.envs.items():
            for k, v in env.items():
                if is_expr(v) and v.sort() == V and self.tag_of(s, v) == 'obj' and ctor(v) == 'obj' and v.get_id() not in seen:
                    kd = kind_of(self.cls_of(s, v)); seen.add(v.get_id())
                    if self.cls_of(s, v) is LISTITER: lc.iters.append((self.read(entry, 'seq', v), self.read(s, 'seq', v)))
                    if kd == 'seq': lc.lists.append((self.read(entry, 'seq', v), self.read(s, 'seq', v)))
                    if kd == 'map': lc.dicts.append((self.read(entry, 'map', v), self.read(s, 'map', v)))
                    if kd == 'set': lc.sets.append((self.read(entry, 'set', v), self.read(s, 'set', v)))
        lc.rest = s.ghost.get(('rest', loop)); lc.ghost = s.ghost; lc.eghost = entry.ghost; lc.erest = entry.ghost.get(('rest', loop))
        lc.c = self.cctx
        lc.st = s; lc.est = entry
        def local(name):
            v = s.envs[fr.fid].get(name)
            if v is None: raise KeyError(name)
            return self.toV(v)
        lc.local = local
        def vals():
            out = []
            for nm, v in s.envs[fr.fid].items():
                if isinstance(nm, str) and is_expr(v) and v.sort() == V: out.append((nm, v, entry.envs.get(fr.fid, {}).get(nm)))
            return out
        lc.vals = vals
        return lc
    def candidates(self, entry, s, idx, src, assigned, accs, mods, fr, loop):
        """list of (name, formula, hintfn)"""
        out = []
        for fid, nm in assigned:
            if nm not in entry.envs.get(fid, {}) or nm not in s.envs.get(fid, {}): continue
            a, b = entry.envs[fid][nm], s.envs[fid][nm]
            if isinstance(a, EV) or isinstance(b, EV):
                continue
            out.append(('same:%s' % nm, a == b, None))
            h = self.hintof(entry, a); t = ctor(a)
            if t and t != 'obj': out.append(('tag:%s' % nm, tag(b, t), (b, {'int': 'int', 'bool': 'bool', 'str': 'str', 'tup': 'tup'}.get(t))))
            if t == 'obj': 
                k = self.cls_of(entry, a)
                out.append(('tag:%s' % nm, And(*type_facts(b, ('obj', k), s.alloc)), (b, self.hintof(entry, a) or ('obj', k))))
            elif h is not None:
                out.append(('type:%s' % nm, And(*type_facts(b, h, s.alloc)), (b, h)))
            if t == 'int' or h == 'int': out.append(('cnt:%s' % nm, b == V.int(V.i(a) + idx), (b, 'int')))
        for (c, i) in mods:
            if i is None: continue
            out.append(('heap:%s:%d' % (c, i.get_id()), self.sel(s.comp(c), i) == self.sel(entry.comp(c), i), None))
        lc = self.lctx(entry, s, idx, src, accs, fr, loop)
        if self.contract is not None and self.contract.loop is not None:
            try: cs = self.contract.loop(lc) or []
            except (KeyError, IndexError, AttributeError) as x:
                cs = []
                if DEBUG: import traceback; print('LOOPFN', repr(x), traceback.format_exc()[-400:])
            for nm, f in named(cs, 'inv'): out.append(('user:' + nm, f, None))
        return out
    def loop_head(self, entry, src, assigned, accs, mods, allmod, ghostmods, privw={}):
        s = entry.copy(); whole = allmod or any(i is None for c, i in mods)
        for fid, nm in assigned:
            v = s.envs.get(fid, {}).get(nm)
            if v is None or isinstance(v, EV): continue
            s.envs[fid][nm] = fresh('l_%s' % nm, V)
        for fid, k in accs:
            s.envs[fid][k] = RawL(fresh('acc', L))
        if allmod: s.havoc_all()
        for c in sorted(set(c for c, i in mods)):
            if any(i is None for c2, i in mods if c2 == c):
                s.heap[c] = fresh('H_' + c, z3.ArraySort(Int, comp_sort(c)))
            else:
                for c2, i in mods:
                    if c2 == c: s.heap[c] = Store(s.comp(c), i, fresh('h_' + c, comp_sort(c)))
        if whole:
            pr = [i for i in self.privates(entry, assigned) if i.get_id() not in privw]
            if pr: self.kept_privates(s, entry, pr)
            for c, i in privw.values(): s.wl = (s.wl, c, i)
        for c, i in mods: s.wl = (s.wl, c, i)
        if allmod: s.wl = (s.wl, '*', None)
        for g in ghostmods:
            s.ghost[g] = fresh('gh', s.ghost[g].sort())
        s.alloc = fresh('alloc', Int); s.assume(s.alloc >= entry.alloc)
        return s
    def step_src(self, st, entry, src, idx, fr, loop):
        """yield ('item', st, value) / ('done', st, None) / ('exc', st, Raise)"""
        if src[0] == 'seq':
            it = src[1]
            s = st.copy(); s.assume(idx < it.length)
            if self.feasible(s): 
                v = it.elem(s, idx)
                yield 'item', s, v
            s = st.copy(); s.assume(idx == it.length)
            for l in it.ls: s.assume(drop(l, idx) == NIL, take(l, idx) == l) if len(it.ls) == 1 else None
            yield 'done', s, None
        elif src[0] == 'while':
            for s, t in src[1](st):
                if isinstance(t, Raise): yield 'exc', s, t
                elif t: yield 'item', s, None
                else: yield 'done', s, None
        else:
            yield from self.gen_step(st, entry, src[1], idx, loop)
    def gen_step(self, st, entry, g, idx, loop):
        con = g.contract; names, vals = self.con_args(con, g)
        c0 = Ctx(names, vals, HV(entry, self), eng=self)
        tr = ('rest', loop)
        def after(s):
            s = s.copy()
            self.havoc_mods(s, con.modifies(Ctx(names, vals, HV(entry, self), HV(s, self), eng=self)), con.alloc)
            return s
        # yields
        s = after(st)
        item = fresh('yv', V)
        c = Ctx(names, vals, HV(entry, self), HV(s, self), eng=self, y=item); c.idx = idx; c.prev = HV(st, self)
        if con.trace is not None:
            x = con.tracehead(s.ghost[tr]); s.ghost = dict(s.ghost)
            s.assume(con.tracecons(s.ghost[tr])); s.ghost[tr] = con.tracetail(st.ghost[tr]); c.item = x
        for nm, f in named(con.yields(c) if con.yields else [], 'y'): s.assume(f)
        if self.feasible(s): yield 'item', s, item
        # exhausted
        s = after(st)
        c = Ctx(names, vals, HV(entry, self), HV(s, self), eng=self); c.idx = idx
        if con.trace is not None: s.assume(con.tracenil(s.ghost[tr]))
        for nm, f in named(con.exits(c) if con.exits else [], 'x'): s.assume(f)
        yield 'done', s, None
        for ec, ef in con.raises:
            s = after(st)
            c = Ctx(names, vals, HV(entry, self), HV(s, self), eng=self)
            for nm, f in named(ef(c) if ef else [], 'r'): s.assume(f)
            if self.feasible(s):
                e = ExcV(ec); e.open = True; e.excl = tuple(con.noraise or ()) + (StopIteration,)     # PEP 479
                yield 'exc', s, Raise(e, self.line)
    def run_loop(self, st, fr, src, body, assigned, accs, line):
        assigned = list(dict.fromkeys((a for a in assigned if isinstance(a[1], str))))
        accs = list(accs) + [a for a in [] ]
        loop = 'L%d_%d' % (line, self.nid())
        parent = self.act; nth = parent['n'].get(line, 0); parent['n'][line] = nth + 1      # an earlier analysis of the same loop is a starting point
        past = parent['past'].get((line, nth)); act = {'n': {}, 'past': {}} if past is None else past[0]
        entry = st.copy()
        genc = None
        if src[0] == 'gen':
            g = src[1]; genc = g.contract
            names, vals = self.con_args(genc, g)
            c0 = Ctx(names, vals, HV(entry, self), eng=self)
            for nm, f in named(genc.requires(c0) if genc.requires else [], 'requires'):
                self.oblige(entry, f, 'precondition %s of %s' % (nm, genc.name))
            self.used.add(genc.name)
            if genc.trace is not None: entry.ghost[('rest', loop)] = genc.trace(c0)
            gm = genc.modifies(Ctx(names, vals, HV(entry, self), HV(entry, self), eng=self))
            for m in (gm if gm != '*' else []): 
                self.note_whole(entry, m[0]) if isinstance(m[1], str) else self.note_write(entry, m[0], self.oid(m[1]))
        N0 = curfresh()
        mods = {}; allmod = False; ghostmods = set(); dead = set(); privw = {}; act['n0'] = N0
        if past is not None:
            privw.update({k: v for k, v in past[5].items() if maxnum(v[1]) <= min(N0, parent.get('n0', N0))})
            dead |= past[1]; allmod = past[3]; ghostmods |= past[4] & set(entry.ghost)
            mods.update({k: v for k, v in past[2].items() if v[1] is None or maxnum(v[1]) <= min(N0, parent.get('n0', N0))})      # objects of an earlier attempt are not those of this one
        if genc is not None and genc.trace is not None: ghostmods.add(('rest', loop))
        outer = self.mode
        idx0 = IntVal(0)
        first = True
        for attempt in range(60):
            self.tick()
            s = self.loop_head(entry, src, assigned, accs, list(mods.values()), allmod, ghostmods, privw)
            idx = fresh('idx', Int); s.assume(idx >= 0)
            if src[0] == 'seq':
                s.assume(idx <= src[1].length)
            # initial
            self.mode = 'probe'
            cands0 = self.candidates(entry, entry, idx0, src, assigned, accs, mods.values(), fr, loop); at0 = Counter(nm for nm, f, h in cands0)
            for nm, f, h in cands0:
                if nm in dead: continue
                if not self.valid(entry, f, 3000):
                    dead.add(nm)
                    if DEBUG:
                        print('DEAD entry', line, attempt, nm)
                        if DEBUG in nm: print(simp(f)); print('  path', [str(x)[:300] for x in entry.pc])
            live = []; cands = self.candidates(entry, s, idx, src, assigned, accs, mods.values(), fr, loop); stated = Counter(nm for nm, f, h in cands)
            for nm in stated:             # stated inside the loop, but not (or not as often) on entry
                if stated[nm] != at0[nm] and nm not in dead:
                    if DEBUG: print('LOST entry', line, attempt, nm)
                    dead.add(nm)
            for nm, f, h in cands:
                if nm in dead: continue
                s.assume(f); live.append(nm)
                if h and h[1]: self.hint(s, h[0], h[1])
            locs = {}; wall = False
            head = s.copy(); changed = False; newdead = set(); ghostchg = set(); evchg = []; outs = []; act['n'] = {}
            try:
                for kind, s1, v in self.within(act, self.step_src(s.copy(), entry, src, idx, fr, loop)):
                    if kind != 'item': outs.append((('n',) if kind == 'done' else ('exc', v), s1)); continue
                    for out, s2 in self.within(act, body(s1, v)):
                        if out[0] not in ('n', 'cont'): outs.append((out, s2)); continue
                        if outer != 'final' and src[0] == 'seq' and src[1].guard is not None: outs += list(self.check_guard(s2.copy(), entry, src[1].guard, line))
                        w = s2.wl          # what this way through the body wrote
                        while w is not head.wl:
                            if w[1] == '*': wall = True
                            else: locs[(w[1], w[2].get_id() if w[2] is not None else None)] = w[1:]
                            w = w[0]
                        for gk, gv in s2.ghost.items():
                            if gk in head.ghost and is_expr(gv) and not gv.eq(head.ghost[gk]) and gk not in ghostmods: ghostchg.add(gk)
                        for fid, nm in assigned:
                            a = head.envs.get(fid, {}).get(nm); b = s2.envs.get(fid, {}).get(nm)
                            if isinstance(a, EV) and b is not a and not self.same_ev(a, b): evchg.append((fid, nm))
                        cands = self.candidates(entry, s2, idx + 1, src, assigned, accs, mods.values(), fr, loop)
                        now = Counter(nm for nm, f, h in cands); lost = {nm for nm in live if nm not in newdead and now[nm] != stated[nm]}      # not even stated after this way through the body
                        if lost and not self.valid(s2, BoolVal(False), 2000):
                            if DEBUG: print('LOST step', line, attempt, lost)
                            newdead |= lost
                        for nm, f, h in cands:
                            if nm in live and nm not in newdead:
                                if not self.valid(s2, f, 6000 if nm.startswith('user:') else 2000):
                                    newdead.add(nm)
                                    if DEBUG:
                                        print('DEAD step', line, attempt, nm)
                                        if DEBUG in nm + str(attempt): print(simp(f)); print('  path', '\n'.join(str(simp(x))[:900] for x in s2.pc[-60:]))
            finally:
                self.mode = outer
            if evchg:
                for fid, nm in evchg:
                    try: entry.envs[fid][nm] = self.toV(entry.envs[fid][nm])
                    except Unsupported: raise Unsupported('loop variable %s changes engine value at line %d' % (nm, line))
                changed = True
            if ghostchg: ghostmods |= ghostchg; changed = True
            if wall and not allmod: allmod = True; changed = True
            pids = {i.get_id() for i in self.privates(entry, assigned)}
            for (c, i) in locs.values():
                if i is not None and i.get_id() in pids and i.get_id() not in privw: privw[i.get_id()] = (c, i); changed = True
                if i is None: key, val = (c, None), (c, None)
                else:
                    b, k = self.split_id(i)
                    if b is not None and z3.is_const(b) and b.decl().name().startswith('alloc!') and const_num(b.decl().name()) > N0: continue
                    if maxnum(i) > N0:
                        key, val = (c, None), (c, None)
                    else: key, val = (c, i.get_id()), (c, i)
                if key not in mods and (c, None) not in mods: mods[key] = val; changed = True
            if changed: continue
            if newdead: dead |= newdead; continue
            break
        else: raise Unsupported('loop invariants do not stabilise at line %d' % line)
        parent['past'][(line, nth)] = (act, dead, mods, allmod, {g for g in ghostmods if not (isinstance(g, tuple) and g[0] == 'rest')}, privw)
        # final pass
        if outer == 'final':
            for nm, f, h in self.candidates(entry, entry, idx0, src, assigned, accs, mods.values(), fr, loop):
                if nm in live: self.oblige(entry, f, 'invariant %s holds initially' % self.cname(nm), line)
        self.line = line
        if outer != 'final':          # the last attempt has already been through the body
            for x in outs: yield x
            return
        s = head.copy(); act['n'] = {}
        for kind, s1, v in self.within(act, self.step_src(s, entry, src, idx, fr, loop)):
            if kind == 'done': 
                yield ('n',), s1
            elif kind == 'exc': yield ('exc', v), s1
            else:
                pre = s1.copy()
                for out, s2 in self.within(act, body(s1, v)):
                    if out[0] in ('n', 'cont'):
                        if src[0] == 'seq' and src[1].guard is not None:
                            for r in self.check_guard(s2, entry, src[1].guard, line): yield r
                        if genc is not None:
                            cc = Ctx(names, vals, HV(pre, self), HV(s2, self), eng=self)
                            for nm, f in named(genc.rely(cc) if genc.rely else [], 'rely'):
                                self.oblige(s2, f, 'consumer keeps %s of %s' % (nm, genc.name), line)
                        if outer == 'final':
                            cands = self.candidates(entry, s2, idx + 1, src, assigned, accs, mods.values(), fr, loop)
                            for nm, f, h in cands:
                                if nm in live: self.oblige(s2, f, 'invariant %s is preserved' % self.cname(nm), line)
                            now = Counter(nm for nm, f, h in cands)
                            for nm in sorted({nm for nm in live if now[nm] != stated[nm]}): self.oblige(s2, BoolVal(False), 'invariant %s is stated after the body' % self.cname(nm), line)
                    else: yield out, s2
    def within(self, act, gen):
        while True:
            saved = self.act; self.act = act
            try: x = next(gen)
            except StopIteration: return
            finally: self.act = saved
            yield x
    def cname(self, nm): return nm.split(':')[1] if nm.startswith('heap:') else nm
    def same_ev(self, a, b):
        if isinstance(a, Live) and isinstance(b, Live): return a.obj is b.obj
        return False
    def check_guard(self, s2, entry, guard, line):
        """container modified while iterating over it"""
        c, v, k = guard
        same = self.read(s2, c, v) == self.read(entry, c, v)
        if self.valid(s2, same): return
        sp = self.elem_spec(entry, v)
        if k is list and isinstance(sp, tuple) and sp[-1] in self.view.fixedlists:
            self.assumed.add(self.view.fixedlists[sp[-1]]); s2.assume(same); return
        if k is list: raise Unsupported('list modified during iteration at line %d' % line)
        s3 = s2.copy(); s3.assume(Not(same))
        self.assumed.add('a set/dict/deque changed during iteration raises RuntimeError')
        if self.feasible(s3): yield ('exc', Raise(ExcV(RuntimeError), line)), s3
        s2.assume(same)
    def note_whole(self, st, c):
        st.wl = (st.wl, c, None)
        if self.perm is not None and self.perm[1] != '*' and not any(a[0] == c and isinstance(a[1], str) for a in self.perm[1]):
            self.oblige(st, False, 'frame: callee may write all of %s' % c)
    def havoc_mods(self, s, mods, alloc=True):
        if mods == '*' or any(isinstance(v, str) for c, v in mods):
            pr = self.privates(s); before = s.copy() if pr else None
            self.havoc_mods_(s, mods, alloc)
            if pr: self.kept_privates(s, before, pr)
        else: self.havoc_mods_(s, mods, alloc)
    def havoc_mods_(self, s, mods, alloc):
        if mods == '*':
            s.havoc_all(); self.note_all(s)
        else:
            for c, v in mods:
                if isinstance(v, str):
                    s.heap[c] = fresh('H_' + c, z3.ArraySort(Int, comp_sort(c))); self.note_whole(s, c)
                else: self.write(s, c, v, fresh('m_' + c, comp_sort(c)))
        if alloc:
            a = fresh('alloc', Int); s.assume(a >= s.alloc); s.alloc = a
def llen_(l):
    k = 0; t = l
    while ctorL(t) == 'cons': k += 1; t = t.arg(1)
    if ctorL(t) == 'nil': return IntVal(k)
    return llen(l)

NOOPS = ('info', 'debug', 'warning', 'error', 'exception', 'critical', 'setLevel')
class Calls(Exec):
    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw, fr=None):
        f = self.norm(f)
        if isinstance(f, Live): yield from self.call_live(st, f.obj, args, kw, fr); return
        if isinstance(f, Bound):
            if isinstance(f.fn, BMeth): yield from self.bmeth(st, f.fn.kind, f.fn.name, f.self_, args, kw, fr)
            else: yield from self.call(st, f.fn, [f.self_] + list(args), kw, fr)
            return
        if isinstance(f, Closure):
            yield from self.call_fn(st, Fn(f.node, f.modname if hasattr(f, 'modname') else f.module, f.qual, None, f.fid, f.defaults), args, kw, fr); return
        if isinstance(f, IFn):
            st = st.copy(); vals = self.bind_args(st, f.fn.node, args, kw, None, None)
            if vals is None: yield st, mkraise(TypeError, self.line); return
            self.used.add(f.contract.name)
            if f.contract.gen: yield st, GenCall(f.fn, vals, f.contract)
            else: yield from self.apply(st, f.contract, f.fn, vals)
            return
        if isinstance(f, PartialE):
            k2 = dict(f.kw); k2.update(kw)
            yield from self.call(st, f.fn, list(f.args) + list(args), k2, fr); return
        if is_expr(f):
            h = self.hintof(st, f)
            if isinstance(h, tuple) and h[0] == 'iface' and (h[1], '__call__') in self.view.iface:
                yield from self.call(st, self.view.iface[(h[1], '__call__')], [f] + list(args), kw, fr); return
            if self.view.symcall is not None:
                r = self.view.symcall(self, st, f, args, kw, fr)
                if r is not None: yield from r; return
            raise Unsupported('call of a symbolic value at line %d' % self.line)
        raise Unsupported('call of %r' % (f,))
    def call_live(self, st, o, args, kw, fr):
        for key in (o,):
            try: nat = self.view.natives.get(o)
            except TypeError: nat = None
            if nat is not None: yield from nat(self, st, args, kw, fr); return
        if isinstance(o, types.FunctionType):
            fn = fn_of_live(o)
            if fn is not None:
                yield from self.call_fn(st, fn, args, kw, fr); return
        if isinstance(o, functools.partial):
            yield from self.call(st, Live(o.func), [lift(a) for a in o.args] + list(args), {**{k: lift(v) for k, v in o.keywords.items()}, **kw}, fr); return
        if isinstance(o, types.MethodType):
            yield from self.call(st, Live(o.__func__), [lift(o.__self__)] + list(args), kw, fr)
            return
        if isinstance(o, type): yield from self.construct(st, o, args, kw, fr); return
        nm = getattr(o, '__name__', None); mod = getattr(o, '__module__', None)
        if isinstance(getattr(o, '__self__', None), __import__('logging').Logger) and nm in NOOPS: yield st, lift(None); return
        m = getattr(self, 'bi_' + str(nm), None)
        if m is not None and mod in ('builtins', 'copy', 'functools', '_functools', 'operator', '_operator', 'time', 'collections', 'math', 'random', 'sys', 'os.path', 'posixpath', 'ntpath', '_heapq', 'heapq', 'genericpath'):
            yield from m(st, args, kw, fr); return
        raise Unsupported('call of %s.%s at line %d' % (mod, nm, self.line))
    def bind_args(self, st, node, args, kw, defaults, live):
        a = node.args; args = list(args)
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kw = dict(kw); star = kw.pop('*', None)
        vals = {}
        if star is not None:
            star = self.toV(star)
            if a.vararg is None or len(args) < len(names) or self.tag_of(st, star) != 'tup': raise Unsupported('star call')
            vals[a.vararg.arg] = V.tup(app(mklist([self.toV(x) for x in args[len(names):]]), self.L_(star))); args = args[:len(names)]
        elif len(args) > len(names):
            if a.vararg is None: return None
            vals[a.vararg.arg] = TupE(args[len(names):]); args = args[:len(names)]
        elif a.vararg is not None: vals[a.vararg.arg] = TupE([])
        for n, v in zip(names, args): vals[n] = v
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in vals: return None
            if k in names or k in konly: vals[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: return None
        if a.kwarg is not None:
            m = EMPTYMAP
            for k, v in extra.items(): m = Store(m, V.str(z3.StringVal(k)), Opt.present(self.toV(v)))
            vals[a.kwarg.arg] = self.newmap(st, dict, m)
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0: return None
                if defaults is not None: vals[n] = defaults[j]
                elif live is not None and live.__defaults__: vals[n] = lift(live.__defaults__[j])
                else:
                    r = list(self.ev(st, Frame(None, None, '?', None, 0, ()), a.defaults[j]))
                    vals[n] = r[0][1]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is None: return None
                if live is not None and live.__kwdefaults__: vals[x.arg] = lift(live.__kwdefaults__[x.arg])
                else: raise Unsupported('kw default')
        return vals
    def call_fn(self, st, fn, args, kw, fr):
        if fn.node.args.kwarg is not None: st = st.copy()
        vals = self.bind_args(st, fn.node, args, kw, fn.defaults, fn.live)
        if vals is None: yield st, mkraise(TypeError, self.line); return
        con = self.view.contracts.get(fn.key)
        if con is not None:
            self.used.add(con.name)
            if con.gen: yield st, GenCall(fn, vals, con)
            else: yield from self.apply(st, con, fn, vals)
            return
        if fn.key in self.view.trusted:
            yield from self.view.trusted[fn.key](self, st, vals, fr); return
        if is_gen(fn.node): yield st, GenCall(fn, vals); return
        for out, s in self.run_fn(st, fn, vals, fr, None):
            if out[0] == 'ret': yield s, out[1]
            elif out[0] == 'n': yield s, lift(None)
            elif out[0] == 'exc': yield s, out[1]
            else: raise Unsupported('outcome %s' % out[0])
    def run_fn(self, st, fn, vals, fr, on_yield, top=False):
        chain = fr.chain if fr is not None else ()
        if not top:
            self.inlined.add(fn.key)
            if len(chain) > self.view.maxdepth: raise Unsupported('inlining too deep at %s' % fn.key)
            if chain.count(fn.key) > 0 or (fn.key == self.topkey):
                raise Unsupported('recursive function %s has no contract' % fn.key)
        st = st.copy()
        f2 = self.newframe(st, fn, fn.modname, on_yield, 0, fn.fid, chain + (fn.key,))
        env = st.envs[f2.fid]
        env.update(vals)
        a = fn.node.args.args
        if a and a[0].arg in vals: env['__self__'] = vals[a[0].arg]
        line = self.line
        if isinstance(fn.node, ast.Lambda):
            for s, v in self.ev(st, f2, fn.node.body):
                self.line = line
                yield (('exc', v) if isinstance(v, Raise) else ('ret', v)), s
            return
        for out, s in self.block(st, f2, fn.node.body):
            self.line = line
            if out[0] == 'exc' and on_yield is None and out[1].exc is None: raise Unsupported('escape')
            if out[0] != 'exc': self.gc(s, f2, out)
            yield out, s
    def gc(self, s, f2, out): pass

    # ---------------------------------------------------------------- contract application
    def params_of(self, con, fn):
        a = fn.node.args
        names = [x.arg for x in a.args]
        if a.vararg: names.append(a.vararg.arg)
        names += [x.arg for x in a.kwonlyargs]
        if a.kwarg: names.append(a.kwarg.arg)
        return names
    def con_names(self, con, fn):
        real = self.params_of(con, fn)
        canon = list(con.params) if con.params else list(real)
        if len(canon) < len(real): canon += real[len(canon):]
        return canon[:len(real)], real
    def con_args(self, con, g):
        canon, real = self.con_names(con, g.fn)
        return canon, [self.toV(g.args[r]) if not isinstance(g.args[r], (Proto,)) else g.args[r] for r in real]
    def apply(self, st, con, fn, vals):
        line = self.line
        canon, real = self.con_names(con, fn)
        V_ = [self.toV(vals[r]) for r in real]
        pre = st.copy()
        c = Ctx(canon, V_, HV(pre, self), eng=self); c.fn = fn
        for nm, v in zip(canon, V_):
            sp = con.types.get(nm)
            if sp and not isinstance(self.norm(v), EV):
                fs = type_facts(v, sp, st.alloc)
                if fs and not self.known_type(st, v, sp): self.oblige(st, And(*fs), 'type of argument %s of %s' % (nm, con.name), line)
        for nm, f in named(con.requires(c) if con.requires else [], 'requires'):
            self.oblige(st, f, 'precondition %s of %s' % (nm, con.name), line)
        self.line = line
        # exceptional outcomes
        for ec, ef in con.raises:
            s = st.copy()
            mods = con.modifies(Ctx(canon, V_, HV(pre, self), HV(s, self), eng=self))
            self.havoc_mods(s, mods, con.alloc)
            c2 = Ctx(canon, V_, HV(pre, self), HV(s, self), eng=self); c2.fn = fn
            if con.effects is not None: c2.exc = True; s.ghost = {**s.ghost, **con.effects(c2)}; c2.now = HV(s, self)
            fs = ef(c2) if ef else []
            if fs is None: continue
            for nm, f in named(fs, 'r'): s.assume(f)
            if self.feasible(s):
                e = ExcV(ec); e.open = ec in (Exception, BaseException); e.excl = con.noraise
                yield s, Raise(e, line)
        s = st.copy()
        c1 = Ctx(canon, V_, HV(pre, self), HV(pre, self), eng=self); c1.fn = fn
        if con.resfn is not None: res = con.resfn(c1)
        elif con.result == 'none': res = V.none
        elif isinstance(con.result, tuple) and con.result[0] == 'exc': res = self.toV(ExcV(con.result[1]))
        elif con.result == 'bool': res = V.bool(fresh('rb', Bool))
        elif con.result == 'int': res = V.int(fresh('ri', Int))
        elif con.result == 'str': res = V.str(fresh('rs', Str))
        else: res = fresh('res', V)
        mods = con.modifies(Ctx(canon, V_, HV(pre, self), HV(s, self), eng=self))
        self.havoc_mods(s, mods, con.alloc)
        if con.result not in (None, 'none', 'bool', 'int', 'str') and con.result[0] != 'exc': self.typed(s, res, con.result)
        elif con.result is None and is_expr(res) and ctor(res) is None: s.assume(Implies(V.is_obj(res), V.oi(res) < s.alloc))
        c2 = Ctx(canon, V_, HV(pre, self), HV(s, self), res, eng=self); c2.fn = fn
        if con.effects is not None: c2.exc = False; s.ghost = {**s.ghost, **con.effects(c2)}; c2.now = HV(s, self)
        for nm, f in named(con.ensures(c2) if con.ensures else [], 'e'): s.assume(f)
        yield s, self.norm(res)
    def known_type(self, st, v, sp):
        h = self.hintof(st, v)
        if h is not None and h == sp: return True
        k = self.cls_of(st, v)
        if k is not None and not callable(sp) and isinstance(sp, tuple) and spec_cls(sp) is k: return True
        return False

    # ---------------------------------------------------------------- construction
    def construct(self, st, cls, args, kw, fr):
        import agentspeak
        if isinstance(cls, type) and issubclass(cls, BaseException): yield st, ExcV(cls, tuple(args)); return
        if cls in (agentspeak.Var, agentspeak.Wildcard):
            if '__init__' in cls.__dict__ or '__new__' in cls.__dict__: raise Unsupported('Var has a constructor')
            st = st.copy(); i = st.alloc; st.alloc = simp(st.alloc + 1)
            v = V.var(i) if cls is agentspeak.Var else V.wild(i)
            if cls is agentspeak.Var: self.notkey(st, v)
            yield st, v; return
        terms = {agentspeak.Literal: 'lit', agentspeak.LinkedList: 'link', agentspeak.UnaryExpr: 'una', agentspeak.BinaryExpr: 'bino'}
        if cls in terms:
            st = st.copy(); p = Proto(self.nid(), cls); st.protos[p.pid] = {}
            init = cls.__dict__.get('__init__')
            for s, r in self.call(st, Live(init), [p] + list(args), kw, fr):
                if isinstance(r, Raise): yield s, r; continue
                d = s.protos[p.pid]; t = terms[cls]
                if set(d) != set(TERM_FIELDS[t]): raise Unsupported('fields of %s are %s' % (cls.__name__, sorted(d)))
                if t == 'lit':
                    A = self.toV(d['args']); N = self.toV(d['annots'])
                    s.assume(*[]) 
                    if self.tag_of(s, A) != 'tup' or self.tag_of(s, N) != 'fset': raise Unsupported('Literal fields')
                    yield s, V.lit(self.toV(d['functor']), self.L_(A), N.arg(0) if ctor(N) == 'fset' else V.fs(N))
                elif t == 'link': yield s, V.link(self.toV(d['head']), self.toV(d['tail']))
                elif t == 'una': yield s, V.una(self.toV(d['unary_op']), self.toV(d['operand']))
                else: yield s, V.bino(self.toV(d['binary_op']), self.toV(d['left']), self.toV(d['right']))
            return
        if (cls.__module__ or '').startswith('agentspeak'):
            if issubclass(cls, tuple) or issubclass(cls, enum.Enum): raise Unsupported('construct %s' % cls.__name__)
            st = st.copy(); o = self.newobj(st, cls)
            init = None
            for k in cls.__mro__:
                if '__init__' in k.__dict__ and isinstance(k.__dict__['__init__'], types.FunctionType): init = k.__dict__['__init__']; break
            if init is None: yield st, o; return
            for s, r in self.call(st, Live(init), [o] + list(args), kw, fr):
                yield s, (r if isinstance(r, Raise) else o)
            return
        nm = cls.__name__
        m = getattr(self, 'new_' + nm, None)
        if m is None: raise Unsupported('construction of %s' % nm)
        yield from m(st.copy(), args, kw, fr)
    def collect(self, st, it, fr):
        """all elements of an iterable as an L: yields (st, L|Raise)"""
        it = self.norm(it)
        if isinstance(it, TupE): yield st, mklist([self.toV(x) for x in it.items]); return
        if isinstance(it, RawL): yield st, it.l; return
        if is_expr(it):
            t = self.tag_of(st, it)
            if t == 'tup': yield st, self.L_(it); return
            if t == 'fset': yield st, (it.arg(0) if ctor(it) == 'fset' else V.fs(it)); return
            if t == 'obj':
                kd = kind_of(self.cls_of(st, it))
                if kd == 'seq': yield st, self.read(st, 'seq', it); return
                if kd == 'set': yield st, elems(self.read(st, 'set', it)); return
                if kd == 'map': yield st, mkeys(self.read(st, 'map', it)); return
        key = ('acc', self.nid())
        if fr is None: raise Unsupported('collect without frame')
        st = st.copy(); st.envs[fr.fid][key] = RawL(NIL)
        def body(s, v):
            s.envs[fr.fid][key] = RawL(self.snocs(s.envs[fr.fid][key].l, self.toV(v)))
            yield ('n',), s
        # body must copy the state
        def body2(s, v): return body(s.copy(), v)
        for out, s in self.consume(st, fr, it, body2, [(fr.fid, key)] if False else [], accs=[(fr.fid, key)]):
            if out[0] == 'n':
                l = s.envs[fr.fid].pop(key).l
                yield s, l
            elif out[0] == 'exc': yield s, out[1]
            else: raise Unsupported('collect outcome')
    def new_tuple(self, st, args, kw, fr):
        if not args: yield st, TupE([]); return
        a = self.norm(args[0])
        if isinstance(a, TupE): yield st, a; return
        for s, l in self.collect(st, a, fr): yield s, (l if isinstance(l, Raise) else V.tup(l))
    def new_list(self, st, args, kw, fr):
        if not args: yield st, self.newseq(st, list, NIL); return
        for s, l in self.collect(st, args[0], fr):
            if isinstance(l, Raise): yield s, l; continue
            v = self.newseq(s, list, l)
            if is_expr(args[0]):
                sp = self.elem_spec(s, args[0])
                if sp: self.hint(s, v, ('list', sp))
            yield s, v
    def new_deque(self, st, args, kw, fr):
        if not args: yield st, self.newseq(st, collections.deque, NIL); return
        for s, l in self.collect(st, args[0], fr): yield s, (l if isinstance(l, Raise) else self.newseq(s, collections.deque, l))
    def new_set(self, st, args, kw, fr):
        if not args: yield st, self.newset(st, EMPTYSET); return
        a = self.norm(args[0])
        if is_expr(a) and self.tag_of(st, a) == 'obj' and self.cls_of(st, a) is set: yield st, self.newset(st, self.read(st, 'set', a)); return
        for s, l in self.collect(st, a, fr): yield s, (l if isinstance(l, Raise) else self.newset(s, self.lset(l)))
    def new_frozenset(self, st, args, kw, fr):
        if not args: yield st, V.fset(NIL); return
        a = self.norm(args[0])
        if is_expr(a) and self.tag_of(st, a) == 'fset': yield st, a; return
        for s, l in self.collect(st, a, fr):
            if isinstance(l, Raise): yield s, l
            else: yield s, V.fset(NIL if ctorL(l) == 'nil' else fsl(l))
    def new_dict(self, st, args, kw, fr):
        if not args and not kw: yield st, self.newmap(st, dict, EMPTYMAP); return
        a = self.norm(args[0])
        if is_expr(a) and self.tag_of(st, a) == 'obj' and kind_of(self.cls_of(st, a)) == 'map' and not kw:
            v = self.newmap(st, dict, self.read(st, 'map', a)); h = self.hintof(st, a)
            if h: self.hint(st, v, ('dict', h[-1]))
            yield st, v; return
        raise Unsupported('dict(...)')
    def new_defaultdict(self, st, args, kw, fr):
        if len(args) == 2:
            a = self.norm(args[1])
            if is_expr(a) and self.tag_of(st, a) == 'obj' and kind_of(self.cls_of(st, a)) == 'map':
                m = self.read(st, 'map', a)
                v = self.newmap(st, collections.defaultdict, m, args[0]); h = self.hintof(st, a)
                if h and h[-1]: self.hint(st, v, ('ddict', args[0], h[-1]))
                yield st, v; return
            raise Unsupported('defaultdict(f, x)')
        yield st, self.newmap(st, collections.defaultdict, EMPTYMAP, args[0] if args else None)
    def new_object(self, st, args, kw, fr): yield st, self.newobj(st, object)
    def new_str(self, st, args, kw, fr):
        if args and is_expr(self.norm(args[0])) and self.tag_of(st, args[0]) == 'str': yield st, args[0]; return
        yield st, V.str(fresh('str', Str))
    def new_bool(self, st, args, kw, fr): yield st, V.bool(simp(self.truth(st, args[0])) if args else BoolVal(False))
    def new_int(self, st, args, kw, fr):
        v = self.toV(args[0])
        for s, k in self.numkind(st, v):
            if k in ('int', 'bool'): yield s, V.int(self.intval(v, k))
            elif k == 'flt': yield s, V.int(fresh('trunc', Int))
            else:
                s2 = s.copy(); yield s2, V.int(fresh('int', Int))
                yield s.copy(), mkraise(TypeError, self.line)
                yield s.copy(), mkraise(ValueError, self.line)
    def new_float(self, st, args, kw, fr):
        v = self.toV(args[0])
        for s, k in self.numkind(st, v):
            if k in ('int', 'bool'): yield s, V.flt(z3.ToReal(self.intval(v, k)))
            elif k == 'flt': yield s, v
            else:
                s2 = s.copy(); yield s2, V.flt(fresh('flt', Real))
                yield s.copy(), mkraise(TypeError, self.line)
                yield s.copy(), mkraise(ValueError, self.line)
    def new_type(self, st, args, kw, fr):
        v = self.norm(args[0])
        if isinstance(v, Live): yield st, Live(type(v.obj)); return
        if is_expr(v):
            t = self.tag_of(st, v)
            if t and t != 'obj': yield st, Live(self.pyclass(t)); return
            k = self.cls_of(st, v) if t == 'obj' else None
            if k: yield st, Live(k); return
            yield st, fresh('type', V); return
        raise Unsupported('type()')
    def new_range(self, st, args, kw, fr):
        vs = [self.toV(a) for a in args]
        for v in vs:
            if self.tag_of(st, v) != 'int':
                for s, ok in self.split(st, V.is_int(v)):
                    if not ok: yield s, mkraise(TypeError, self.line)
                    else: self.hint(s, v, 'int'); yield from self.new_range(s, args, kw, fr)
                return
        xs = [self.intval(v, 'int') for v in vs]
        lo, hi = (IntVal(0), xs[0]) if len(xs) == 1 else (xs[0], xs[1])
        if len(xs) == 3: raise Unsupported('range step')
        ln = simp(If(hi > lo, hi - lo, 0))
        yield st, It([], lambda s, i: V.int(simp(lo + i)), ln)
    def new_zip(self, st, args, kw, fr):
        its = []
        def go(s, i, acc):
            if i == len(args): yield s, acc; return
            a = self.norm(args[i])
            if isinstance(a, TupE): a = It([mklist([self.toV(x) for x in a.items])], lambda s, k, a=a: a.items[k.as_long()] if z3.is_int_value(k) else nth(mklist([self.toV(x) for x in a.items]), k), IntVal(len(a.items)))
            if isinstance(a, (GenE, GenCall)):
                for s2, l in self.collect(s, a, fr):
                    if isinstance(l, Raise): yield s2, l
                    else: yield from go(s2, i + 1, acc + [self.listit(s2, l)])
                return
            if isinstance(a, It): yield from go(s, i + 1, acc + [a]); return
            for s2, it in self.iterof(s, fr, a):
                if isinstance(it, Raise): yield s2, it; continue
                if not isinstance(it, It): raise Unsupported('zip of %r' % it)
                yield from go(s2, i + 1, acc + [it])
        for s, its in go(st, 0, []):
            if isinstance(its, Raise): yield s, its; continue
            ln = its[0].length
            for i in its[1:]: ln = ln if ln.eq(i.length) else If(ln <= i.length, ln, i.length)
            ls = [l for i in its for l in i.ls]
            g = [i.guard for i in its if i.guard]
            yield s, It(ls, lambda s, k, its=its: TupE([i.elem(s, k) for i in its]), simp(ln), g[0] if g else None)
    def new_enumerate(self, st, args, kw, fr):
        start = self.intval(self.toV(args[1]), 'int') if len(args) > 1 else (self.intval(self.toV(kw['start']), 'int') if 'start' in kw else IntVal(0))
        for s, it in self.iterof(st, fr, args[0]):
            if isinstance(it, Raise): yield s, it; continue
            if isinstance(it, TupE): yield s, TupE([TupE([V.int(simp(start + i)), x]) for i, x in enumerate(it.items)]); continue
            if not isinstance(it, It): raise Unsupported('enumerate of %r' % it)
            yield s, It(it.ls, lambda s, k, it=it: TupE([V.int(simp(start + k)), it.elem(s, k)]), it.length, it.guard)
    def new_reversed(self, st, args, kw, fr):
        a = self.norm(args[0])
        if isinstance(a, TupE): yield st, TupE(a.items[::-1]); return
        for s, l in self.collect(st, a, fr):
            if isinstance(l, Raise): yield s, l; continue
            yield s, self.listit(s, lreverse(l))
    def new_map(self, st, args, kw, fr):
        f = args[0]
        lam = ast.parse('(__f(__x) for __x in __l)', mode='eval').body
        for x in ast.walk(lam):
            if hasattr(x, 'lineno'): x.lineno = self.line
        s = st.copy(); f2 = self.newframe(s, fr.fn, fr.modname, None, 0, fr.fid, fr.chain)
        s.envs[f2.fid]['__f'] = f; s.envs[f2.fid]['__l'] = args[1]
        g = GenE(lam, f2, s); g.first = args[1]
        yield s, g
    def new_partial(self, st, args, kw, fr): yield st, PartialE(args[0], args[1:], kw)

    # ---------------------------------------------------------------- builtin functions
    def bi_hasattr(self, st, args, kw, fr):
        n = self.toV(args[1])
        if ctor(n) != 'str' or not z3.is_string_value(n.arg(0)): raise Unsupported('hasattr name')
        yield st, V.bool(simp(self.hasattr_f(st, args[0], n.arg(0).as_string())))
    def bi_getattr(self, st, args, kw, fr):
        n = self.toV(args[1])
        if ctor(n) != 'str' or not z3.is_string_value(n.arg(0)): raise Unsupported('getattr name')
        for s, v in self.attr(st, args[0], n.arg(0).as_string()):
            if isinstance(v, Raise) and len(args) > 2 and v.exc is not None and v.exc.cls is AttributeError: yield s, args[2]
            else: yield s, v
    def bi_isinstance(self, st, args, kw, fr):
        c = args[1]
        def cl(c):
            c = self.norm(c)
            if isinstance(c, TupE): return tuple(cl(x) for x in c.items)
            if isinstance(c, Live) and isinstance(c.obj, type): return c.obj
            if isinstance(c, Live) and isinstance(c.obj, tuple): return c.obj
            raise Unsupported('isinstance class %r' % (c,))
        yield st, V.bool(simp(self.isinst(st, args[0], cl(c))))
    def bi_callable(self, st, args, kw, fr): yield st, V.bool(fresh('callable', Bool))
    def bi_len(self, st, args, kw, fr):
        v = self.norm(args[0])
        if isinstance(v, TupE): yield st, V.int(IntVal(len(v.items))); return
        if isinstance(v, Live): yield st, lift(len(v.obj)); return
        if isinstance(v, RawL): yield st, V.int(llen_(v.l)); return
        t = self.tag_of(st, v)
        if t == 'tup': yield st, V.int(llen_(self.L_(v))); return
        if t == 'fset': yield st, V.int(llen(V.fs(v))); return
        if t == 'str': yield st, V.int(self.strlen(st, v)); return
        if t == 'obj':
            kd = kind_of(self.cls_of(st, v))
            if kd == 'seq': yield st, V.int(llen_(self.read(st, 'seq', v))); return
            if kd == 'set':
                s_ = self.read(st, 'set', v); st.assume((llen(elems(s_)) == 0) == (s_ == EMPTYSET)); yield st, V.int(llen(elems(s_))); return
            if kd == 'map': yield st, V.int(llen(mkeys(self.read(st, 'map', v)))); return
        if t in ('lit', 'link'):
            f = inspect.getattr_static(self.term_class(t), '__len__', None)
            if isinstance(f, types.FunctionType): yield from self.call(st, Live(f), [v], {}, fr); return
        if t is None:
            rest = st
            for tg in ('tup', 'str'):
                nxt = None
                for s, ok in self.split(rest, tag(v, tg)):
                    if ok: self.hint(s, v, tg); yield from self.bi_len(s, [v], kw, fr)
                    else: nxt = s
                if nxt is None: return
                rest = nxt
            for tg in ('lit', 'link'):
                nxt = None
                for s, ok in self.split(rest, tag(v, tg)):
                    if ok:
                        f = inspect.getattr_static(self.term_class(tg), '__len__', None)
                        if isinstance(f, types.FunctionType): yield from self.call(s, Live(f), [v], {}, fr)
                        else: yield s, mkraise(TypeError, self.line)
                    else: nxt = s
                if nxt is None: return
                rest = nxt
            if self.feasible(rest, Or(V.is_obj(v), V.is_fset(v))): raise Unsupported('len of unknown value at line %d' % self.line)
            yield rest, mkraise(TypeError, self.line); return
        yield st, mkraise(TypeError, self.line)
    def quant(self, st, args, fr, isall):
        def body(s, v):
            for s2, t in self.split(s, self.truth(s, v)):
                yield (('n',) if t == isall else ('brk',)), s2
        for out, s in self.consume(st, fr, args[0], body, []):
            if out[0] == 'n': yield s, lift(isall)
            elif out[0] == 'brk': yield s, lift(not isall)
            elif out[0] == 'exc': yield s, out[1]
            else: raise Unsupported('all/any')
    def bi_all(self, st, args, kw, fr): yield from self.quant(st, args, fr, True)
    def bi_any(self, st, args, kw, fr): yield from self.quant(st, args, fr, False)
    def bi_next(self, st, args, kw, fr):
        g = self.norm(args[0])
        if isinstance(g, (GenCall, GenE)):
            def body(s, v):
                s = s.copy(); s.ghost['@nextval'] = v
                yield ('brk',), s
            for out, s in self.consume(st, fr, g, body, []):
                if out[0] == 'brk': yield s, s.ghost.get('@nextval')
                elif out[0] == 'n':
                    if len(args) > 1: yield s, args[1]
                    else: yield s, mkraise(StopIteration, self.line)
                elif out[0] == 'exc': yield s, out[1]
            return
        if is_expr(g) and self.view.symcall is not None:
            r = self.view.symcall(self, st, g, args, {'next': True}, fr)
            if r is not None: yield from r; return
        if is_expr(g) and self.cls_of(st, g) is LISTITER:
            l = self.read(st, 'seq', g)
            for s, ok in self.split(st, l != NIL):
                if ok:
                    s = s.copy(); x = self.norm(simp(L.hd(l)))
                    self.write(s, 'seq', g, simp(L.tl(l)))
                    if not isinstance(x, EV): s.assume(Implies(V.is_obj(x), V.oi(x) < s.alloc))
                    yield s, x
                elif len(args) > 1: yield s, args[1]
                else: yield s, mkraise(StopIteration, self.line)
            return
        raise Unsupported('next() of %r' % (g,))
    def bi_iter(self, st, args, kw, fr):
        a = self.norm(args[0])
        if isinstance(a, (GenCall, GenE)): yield st, a; return
        if is_expr(a) and self.cls_of(st, a) is LISTITER: yield st, a; return
        for s, l in self.collect(st, a, fr):
            if isinstance(l, Raise): yield s, l; continue
            s = s.copy(); yield s, self.newseq(s, LISTITER, l)
    def bi_id(self, st, args, kw, fr): yield st, V.int(fresh('id', Int))
    def bi_repr(self, st, args, kw, fr): yield st, V.str(fresh('repr', Str))
    def bi_print(self, st, args, kw, fr): yield st, lift(None)
    def bi_hash(self, st, args, kw, fr): yield st, V.int(pyhash(self.toV(args[0])))
    def bi_deepcopy(self, st, args, kw, fr): raise Unsupported('deepcopy')
    def bi_copy(self, st, args, kw, fr):
        v = self.norm(args[0])
        if is_expr(v) and self.tag_of(st, v) == 'obj':
            k = self.cls_of(st, v); kd = kind_of(k); st = st.copy()
            if kd:
                n = self.newobj(st, k); st.heap[kd] = Store(st.comp(kd), self.oid(n), self.read(st, kd, v))
                h = self.hintof(st, v)
                if h: self.hint(st, n, h)
                yield st, n; return
        raise Unsupported('copy.copy')
    def bi_min(self, st, args, kw, fr): yield from self.minmax(st, args, kw, fr, 'min')
    def bi_max(self, st, args, kw, fr): yield from self.minmax(st, args, kw, fr, 'max')
    def minmax(self, st, args, kw, fr, nm):
        if kw: raise Unsupported('min/max key')
        if len(args) > 1:
            r = args[0]
            def go(s, r, i):
                if i == len(args): yield s, r; return
                for s2, c in self.order(s, 'lt' if nm == 'min' else 'gt', args[i], r):
                    if isinstance(c, Raise): yield s2, c; continue
                    for s3, t in self.split(s2, self.truth(s2, c)): yield from go(s3, args[i] if t else r, i + 1)
            yield from go(st, r, 1); return
        for s, l in self.collect(st, args[0], fr):
            if isinstance(l, Raise): yield s, l; continue
            for s2, ok in self.split(s, l != NIL):
                if not ok: yield s2, mkraise(ValueError, self.line)
                else:
                    r = (lmin if nm == 'min' else lmax)(l)
                    s2.assume(mem(r, l)); yield s2, r
    def bi_sum(self, st, args, kw, fr):
        for s, l in self.collect(st, args[0], fr):
            yield s, (l if isinstance(l, Raise) else lsum(l))
    def bi_sorted(self, st, args, kw, fr):
        if kw: raise Unsupported('sorted key')
        for s, l in self.collect(st, args[0], fr):
            if isinstance(l, Raise): yield s, l; continue
            s3 = s.copy(); s3.assume(z3.Function('pyx_sort', L, Bool)(l)); yield s3, mkraise(TypeError, self.line)
            s = s.copy(); s.assume(Not(z3.Function('pyx_sort', L, Bool)(l))); yield s, self.newseq(s, list, lsorted(l))
    def bi_abs(self, st, args, kw, fr):
        v = self.toV(args[0])
        for s, k in self.numkind(st, v):
            if k is None: yield s, mkraise(TypeError, self.line)
            elif k == 'flt': yield s, V.flt(If(V.r(v) < 0, -V.r(v), V.r(v)))
            else: x = self.intval(v, k); yield s, V.int(If(x < 0, -x, x))
    def bi_sleep(self, st, args, kw, fr):
        v = self.toV(args[0])
        for s, neg in self.split(st, numval(v) < 0):
            if neg: yield s, mkraise(ValueError, self.line)
            else:
                s = s.copy(); yield s, lift(None)
    def bi_time(self, st, args, kw, fr): yield st, V.flt(fresh('now', Real))
    def bi_exit(self, st, args, kw, fr): yield st, mkraise(SystemExit, self.line)
    def _op(self, nm):
        pass
    def bi_not_(self, st, args, kw, fr): yield st, V.bool(simp(Not(self.truth(st, args[0]))))
    def bi_neg(self, st, args, kw, fr): yield from self.unop(st, 'neg', args[0])
    def bi_pos(self, st, args, kw, fr): yield from self.unop(st, 'pos', args[0])
    def bi_eq(self, st, args, kw, fr): yield from self.compare(st, ast.Eq(), *args)
    def bi_ne(self, st, args, kw, fr): yield from self.compare(st, ast.NotEq(), *args)
    def bi_lt(self, st, args, kw, fr): yield from self.order(st, 'lt', *args)
    def bi_le(self, st, args, kw, fr): yield from self.order(st, 'le', *args)
    def bi_gt(self, st, args, kw, fr): yield from self.order(st, 'gt', *args)
    def bi_ge(self, st, args, kw, fr): yield from self.order(st, 'ge', *args)
    for _o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        exec('def bi_%s(self, st, args, kw, fr): yield from self.binop(st, %r, *args)' % (_o, _o))
    def bi_and_(self, st, args, kw, fr):
        a, b = self.toV(args[0]), self.toV(args[1])
        yield st, V.bool(And(V.b(a), V.b(b)))
    def bi_or_(self, st, args, kw, fr):
        a, b = self.toV(args[0]), self.toV(args[1])
        yield st, V.bool(Or(V.b(a), V.b(b)))

    # ---------------------------------------------------------------- builtin methods
    def bmeth(self, st, kind, name, o, args, kw, fr):
        m = getattr(self, 'bm_%s_%s' % (kind, name), None)
        if m is None: raise Unsupported('method %s of builtin %s at line %d' % (name, kind, self.line))
        yield from m(st.copy(), self.norm(o), args, kw, fr)
    def bm_object___init__(self, st, o, args, kw, fr): yield st, lift(None)
    # dicts
    def mread(self, st, o): return self.read(st, 'map', o)
    def bm_map_get(self, st, o, args, kw, fr):
        K = self.toV(args[0]); sl = Select(self.mread(st, o), K); d = args[1] if len(args) > 1 else lift(None)
        for s, ok in self.split(st, Opt.is_present(sl)):
            yield s, (self.elem(s, o, simp(Opt.pv(sl))) if ok else d)
    def bm_map_pop(self, st, o, args, kw, fr):
        K = self.toV(args[0]); m = self.mread(st, o); sl = Select(m, K)
        if len(args) > 1 and is_expr(args[1]) and ctor(args[1]) == 'none':
            self.write(st, 'map', o, Store(m, K, Opt.absent))
            r = If(Opt.is_present(sl), Opt.pv(sl), V.none)
            yield st, simp(r); return
        for s, ok in self.split(st, Opt.is_present(sl)):
            s = s.copy()
            if ok:
                self.write(s, 'map', o, Store(m, K, Opt.absent)); yield s, self.elem(s, o, simp(Opt.pv(sl)))
            elif len(args) > 1: yield s, args[1]
            else: yield s, mkraise(KeyError, self.line)
    def bm_map_setdefault(self, st, o, args, kw, fr):
        K = self.toV(args[0]); m = self.mread(st, o); sl = Select(m, K); d = args[1] if len(args) > 1 else lift(None)
        for s, ok in self.split(st, Opt.is_present(sl)):
            s = s.copy()
            if ok: yield s, self.elem(s, o, simp(Opt.pv(sl)))
            else: self.write(s, 'map', o, Store(m, K, Opt.present(self.toV(d)))); yield s, d
    def bm_map_copy(self, st, o, args, kw, fr):
        yield from self.bi_copy(st, [o], {}, fr)
    def bm_map_clear(self, st, o, args, kw, fr): self.write(st, 'map', o, EMPTYMAP); yield st, lift(None)
    def bm_map_keys(self, st, o, args, kw, fr): yield st, self.listit(st, mkeys(self.mread(st, o)), None, guard=('map', o, self.cls_of(st, o)))
    def bm_map_values(self, st, o, args, kw, fr):
        m = self.mread(st, o); ks = mkeys(m)
        def el(s, i):
            k = nth(ks, i); s.assume(Opt.is_present(Select(m, k)))
            return self.elem(s, o, simp(Opt.pv(Select(m, k))))
        yield st, It([ks], el, llen(ks), ('map', o, self.cls_of(st, o)))
    def bm_map_items(self, st, o, args, kw, fr):
        m = self.mread(st, o); ks = mkeys(m)
        def el(s, i):
            k = nth(ks, i); s.assume(Opt.is_present(Select(m, k)))
            return TupE([self.norm(k), self.elem(s, o, simp(Opt.pv(Select(m, k))))])
        yield st, It([ks], el, llen(ks), ('map', o, self.cls_of(st, o)))
    # lists and deques
    def sread(self, st, o): return self.read(st, 'seq', o)
    def bm_seq_append(self, st, o, args, kw, fr): self.write(st, 'seq', o, self.snocs(self.sread(st, o), self.toV(args[0]))); yield st, lift(None)
    def bm_seq_appendleft(self, st, o, args, kw, fr): self.write(st, 'seq', o, cons(self.toV(args[0]), self.sread(st, o))); yield st, lift(None)
    def bm_seq_pop(self, st, o, args, kw, fr):
        l = self.sread(st, o)
        k = self.constint(args[0]) if args else -1
        if k not in (0, -1): raise Unsupported('pop index')
        for s, ok in self.split(st, l != NIL):
            if not ok: yield s, mkraise(IndexError, self.line); continue
            s = s.copy()
            if k == 0: x, r = simp(L.hd(l)), simp(L.tl(l))
            else: x, r = self.llast(l), self.linit(l)
            self.write(s, 'seq', o, r); yield s, self.elem(s, o, x)
    def bm_seq_popleft(self, st, o, args, kw, fr):
        l = self.sread(st, o)
        for s, ok in self.split(st, l != NIL):
            if not ok: yield s, mkraise(IndexError, self.line); continue
            s = s.copy(); self.write(s, 'seq', o, simp(L.tl(l))); yield s, self.elem(s, o, simp(L.hd(l)))
    def bm_seq_extend(self, st, o, args, kw, fr):
        for s, l in self.collect(st, args[0], fr):
            if isinstance(l, Raise): yield s, l; continue
            s = s.copy(); self.write(s, 'seq', o, app(self.sread(s, o), l)); yield s, lift(None)
    def bm_seq_remove(self, st, o, args, kw, fr):
        X = self.toV(args[0]); l = self.sread(st, o)
        if kind_of(self.cls_of(st, X)) is not None:          # containers are compared by content
            if kind_of(self.cls_of(st, X)) != 'seq': raise Unsupported('remove of a set or dict')
            H = st.comp('seq')
            for s, ok in self.split(st, memq(X, l, H)):
                s = s.copy()
                if ok: self.write(s, 'seq', o, removeq(l, X, H)); yield s, lift(None)
                else: yield s, mkraise(ValueError, self.line)
            return
        for s, ok in self.split(st, mem(X, l)):
            s = s.copy()
            if ok: self.write(s, 'seq', o, remove1(l, X)); yield s, lift(None)
            else: yield s, mkraise(ValueError, self.line)
    def bm_seq_clear(self, st, o, args, kw, fr): self.write(st, 'seq', o, NIL); yield st, lift(None)
    def bm_seq_copy(self, st, o, args, kw, fr): yield from self.bi_copy(st, [o], {}, fr)
    def bm_seq_reverse(self, st, o, args, kw, fr): self.write(st, 'seq', o, lreverse(self.sread(st, o))); yield st, lift(None)
    def bm_seq_sort(self, st, o, args, kw, fr):
        if kw or args: raise Unsupported('sort key')
        l = self.sread(st, o)
        s3 = st.copy(); s3.assume(z3.Function('pyx_sort', L, Bool)(l)); yield s3, mkraise(TypeError, self.line)
        st.assume(Not(z3.Function('pyx_sort', L, Bool)(l))); self.write(st, 'seq', o, lsorted(l)); yield st, lift(None)
    def bm_seq_index(self, st, o, args, kw, fr): raise Unsupported('list.index')
    # sets
    def bm_set_add(self, st, o, args, kw, fr): self.write(st, 'set', o, Store(self.read(st, 'set', o), self.toV(args[0]), BoolVal(True))); yield st, lift(None)
    def bm_set_discard(self, st, o, args, kw, fr): self.write(st, 'set', o, Store(self.read(st, 'set', o), self.toV(args[0]), BoolVal(False))); yield st, lift(None)
    def bm_set_remove(self, st, o, args, kw, fr):
        X = self.toV(args[0]); s_ = self.read(st, 'set', o)
        for s, ok in self.split(st, Select(s_, X)):
            s = s.copy()
            if ok: self.write(s, 'set', o, Store(s_, X, BoolVal(False))); yield s, lift(None)
            else: yield s, mkraise(KeyError, self.line)
    def bm_set_clear(self, st, o, args, kw, fr): self.write(st, 'set', o, EMPTYSET); yield st, lift(None)
    def bm_set_copy(self, st, o, args, kw, fr): yield from self.bi_copy(st, [o], {}, fr)
    # strings
    def bm_str_join(self, st, o, args, kw, fr):
        for s, l in self.collect(st, args[0], fr): yield s, (l if isinstance(l, Raise) else V.str(strjoin(self.toV(o), l)))
    def _strm(self, st, o, args, kw, fr): yield st, V.str(fresh('strm', Str))
    bm_str_format = bm_str_lower = bm_str_upper = bm_str_strip = bm_str_lstrip = bm_str_rstrip = bm_str_replace = bm_str_expandtabs = _strm
    def bm_str_find(self, st, o, args, kw, fr):
        if kw or not 1 <= len(args) <= 2 or not self.view.strfns or len(self.view.strfns) < 3: raise Unsupported('find')
        a = self.toV(args[0])
        if self.tag_of(st, a) != 'str' or len(args) == 2 and self.tag_of(st, self.toV(args[1])) != 'int': raise Unsupported('arguments of find')
        r = self.view.strfns[2](V.s(o), V.s(a), V.i(self.toV(args[1])) if len(args) == 2 else IntVal(0)); st = st.copy(); st.assume(r >= -1); yield st, V.int(simp(r))
    def bm_str_startswith(self, st, o, args, kw, fr): yield st, V.bool(z3.PrefixOf(V.s(self.toV(args[0])), V.s(o)))
    def bm_str_endswith(self, st, o, args, kw, fr): yield st, V.bool(z3.SuffixOf(V.s(self.toV(args[0])), V.s(o)))
    def bm_flt_is_integer(self, st, o, args, kw, fr): yield st, V.bool(z3.IsInt(V.r(o)))
    # tuples
    def bm_gen_close(self, st, o, args, kw, fr): yield st, lift(None)

LISTITER = type(iter([])); E.COMPSORT  # list iterators keep the rest of the list in 'seq'
cid(LISTITER)
_old_kind = E.kind_of
strchars = spec('strchars', Str, L)
SeqArr = z3.ArraySort(Int, L)
memq = spec('memq', V, L, SeqArr, Bool); removeq = spec('removeq', L, V, SeqArr, L)
@unfolds(memq)
def _(x, l, h): return [memq(x, l, h) == And(l != NIL, Or(Select(h, V.oi(L.hd(l))) == Select(h, V.oi(x)), memq(x, L.tl(l), h))), Implies(mem(x, l), memq(x, l, h))]      # second: induction on l
@unfolds(removeq)
def _(l, x, h): return [removeq(l, x, h) == If(l == NIL, NIL, If(Select(h, V.oi(L.hd(l))) == Select(h, V.oi(x)), L.tl(l), cons(L.hd(l), removeq(L.tl(l), x, h))))]
lmin = spec('lmin', L, V); lmax = spec('lmax', L, V); lsum = spec('lsum', L, V); lsorted = spec('lsorted', L, L)
pyhash = spec('pyhash', V, Int); strjoin = spec('strjoin', V, L, Str)
def _fold_lm(f, lt):
    """min and max keep the first extreme element met (numbers)"""
    @handler(f.name())
    def _(t, ix):
        l = ch(t)[0]
        if info(l)[2] != 'snoc': return []
        a, x = ch(l); num = lambda v: Or(V.is_int(v), V.is_flt(v))
        return [Implies(a == NIL, t == x), Implies(And(a != NIL, num(x), num(f(a))), t == If(lt(numval(x), numval(f(a))), x, f(a)))]
_fold_lm(lmin, lambda a, b: a < b); _fold_lm(lmax, lambda a, b: a > b)
