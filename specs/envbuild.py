"""Building agents: parse, build, register (shared by C15 and C18)."""
from specs.rt_heap import *
import agentspeak.parser as P, agentspeak.lexer as LX, os, os.path
LOG, ENV, AG = agentspeak.Log, RT.Environment, RT.Agent
class AstI(object): "a node of the syntax tree"
class SourceI(object): "a source file"
F = heap_fields()
node = ('iface', AstI)
F.update({(P.AstAgent, 'rules'): ('list', ('obj', P.AstRule)), (P.AstAgent, 'plans'): ('list', ('obj', P.AstPlan)), (P.AstAgent, 'beliefs'): ('list', node), (P.AstAgent, 'goals'): ('list', ('obj', P.AstGoal)),
          (P.AstRule, 'head'): node, (P.AstRule, 'consequence'): node, (P.AstPlan, 'event'): ('obj', P.AstEvent), (P.AstPlan, 'context'): ('opt', node), (P.AstPlan, 'body'): ('opt', node), (P.AstPlan, 'annotation'): 'any',
          (P.AstEvent, 'head'): node, (P.AstEvent, 'trigger'): 'any', (P.AstEvent, 'goal_type'): 'any', (P.AstGoal, 'atom'): node, (RT.Rule, 'query'): 'any', (RT.Plan, 'context'): 'any', (AstI, 'terms'): ('list', node), (AstI, 'annotations'): ('list', node),
          (SourceI, 'name'): 'str', (ENV, 'agents'): ('dict', ('obj', AG)), (AG, 'name'): 'str', (LOG, 'num_errors'): 'int', (LOG, 'num_warnings'): 'int', (LOG, 'max_errors'): 'any', (LOG, 'logger'): 'any'})
nerr = lambda h, l: V.i(h.f('num_errors', l))
reported = lambda c, l: {'errors': c.old.ghost['errors'] + nerr(c.now, l) - nerr(c.old, l)}      # errors reported while this agent is built
haslog = lambda c: c.eng.cls_of(c.old.st, c.visitor) in (RT.BuildQueryVisitor, RT.BuildInstructionsVisitor)
vlog = lambda c: c.old.f('log', c.visitor)
built = spec('built', V, V, Bool)                # the term is what this node of the syntax tree denotes
def acc_post(c): return (grows(c, vlog(c)) if haslog(c) else []) + ([('the term of the node', built(c.self, c.res))] if c.eng.cls_of(c.old.st, c.visitor) is RT.BuildTermVisitor else [])
def acc_mods(c):
    m = [('map', c.old.f('variables', c.visitor))]
    if haslog(c): m += [('f:num_errors', vlog(c)), ('f:num_warnings', vlog(c))]
    if c.eng.cls_of(c.old.st, c.visitor) is RT.BuildInstructionsVisitor: m += [('f:success', '*'), ('f:failure', '*'), ('f:tail', c.visitor)]
    return m
def grows(c, l): return [('errors are counted', And(nerr(c.now, l) >= nerr(c.old, l), V.is_int(c.now.f('num_errors', l))))]
accept = Contract('iface:accept', params=['self', 'visitor'], modifies=acc_mods, ensures=acc_post, effects=lambda c: reported(c, vlog(c)) if haslog(c) else {}, raises=[(agentspeak.AggregatedError, lambda c: grows(c, vlog(c)) if haslog(c) else []), (Exception, None)], verify=False, name='a visitor')
parse = Contract('agentspeak.parser:parse', params=['filename', 'tokens', 'log', 'included_files', 'directive'], modifies=lambda c: [('f:num_errors', c.log), ('f:num_warnings', c.log)], result=('obj', P.AstAgent), ensures=lambda c: grows(c, c.log) + [And(*type_facts(c.now.f(k, c.res), ('list', None), c.now.alloc)) for k in ASTLISTS], effects=lambda c: reported(c, c.log), raises=[(agentspeak.AggregatedError, lambda c: grows(c, c.log)), (Exception, None)], verify=False, name='parse')
stream = Contract('agentspeak.lexer:TokenStream.__init__', params=['self', 'file', 'log', 'line', 'col', 'span'], modifies=lambda c: [], verify=False, name='TokenStream')
init = Contract('agentspeak:Log.__init__', params=['self', 'logger', 'max_errors'], modifies=lambda c: [('f:' + f, c.self) for f in ('logger', 'max_errors', 'num_errors', 'num_warnings')], ensures=lambda c: [c.now.f('num_errors', c.self) == V.int(0)], verify=False, name='Log (C18)')
throw = Contract('agentspeak:Log.throw', params=['self'], ensures=lambda c: [('no error was reported', nerr(c.old, c.self) == 0)], raises=[(agentspeak.AggregatedError, lambda c: [('an error was reported', nerr(c.old, c.self) != 0)])], verify=False, name='Log.throw (C18)')
names = lambda h, c: h.map(h.f('agents', c.self))
absent = lambda m, k: Not(Opt.is_present(Select(m, k)))
make_name = Contract('agentspeak.runtime:Environment._make_name', params=['self', 'path'], types={'path': 'str'}, result='str', modifies=lambda c: [], ensures=lambda c: [('a name no agent has', And(V.is_str(c.res), absent(names(c.old, c), c.res)))], name='Environment._make_name')
def nat(spec_): return lambda eng, st, args, kw, fr: iter([(st, spec_())])
_str = lambda: V.str(fresh('str', Str))
NAT = {os.path.basename: nat(_str), os.path.splitext: nat(lambda: TupE([_str(), _str()])), agentspeak.sanitize_functor: nat(_str)}
REGD = z3.Const('any_name', V)
def kept(c): return [('no agent is registered', names(c.now, c) == names(c.old, c))]
def registered(c, agent):
    nm = c.now.f('name', agent); return [('registered under its own new name, all others stay', And(names(c.now, c) == Store(names(c.old, c), nm, Opt.present(agent)), absent(names(c.old, c), nm))), ('a new agent of this environment', And(V.is_obj(agent), V.oi(agent) >= c.old.alloc, V.oc(agent) == cid(AG), c.now.f('env', agent) == c.self))]
IFACE = {(AstI, 'accept'): IFn('accept', ['self', 'visitor'], accept)}
STB = [x for x in STABLE] + ["f:atom", "f:goals"] + ['f:%s' % k for k in ('logger', 'max_errors', 'agents', 'beliefs', 'rules', 'plans', 'intentions', 'env', 'name')]
CLS = CLASSES + [LOG, RT.BuildTermVisitor, RT.BuildQueryVisitor, RT.BuildInstructionsVisitor, P.AstAgent]

GRP = z3.Const('any_group', V)
DICTS = ('beliefs', 'rules', 'plans')
def part(h, a, k):          # the container an agent keeps for the group, in one of its dicts
    return Select(h.map(h.f(k, a)), GRP)
def call_post(c):
    o, n = c.old, c.now; out = []
    for k in ('beliefs', 'plans'):
        x, y = part(o, c.self, k), part(n, c.self, k)
        out.append(('%s: groups stay, new ones are new containers' % k, Or(y == x, And(Not(Opt.is_present(x)), Opt.is_present(y), V.is_obj(Opt.pv(y)), V.oi(Opt.pv(y)) >= o.alloc, V.oi(Opt.pv(y)) < n.alloc))))
    y = part(n, c.self, 'plans'); out.append(('plans: a new group is empty', Implies(And(y != part(o, c.self, 'plans')), n.seq(Opt.pv(y)) == NIL)))
    return out
call = Contract('agentspeak.runtime:Agent.call', params=['self', 'trigger', 'goal_type', 'term', 'calling_intention', 'delayed'], modifies=lambda c: [('map', c.old.f('beliefs', c.self)), ('map', c.old.f('plans', c.self)), ('set', '*'), ('seq', c.old.f('intentions', c.self)), ('f:waiter', '*')],
    ensures=call_post, raises=[(Exception, None)], effects=lambda c: {'called': Store(c.old.ghost['called'], c.self, snoc(Select(c.old.ghost['called'], c.self), V.tup(mklist([c.trigger, c.goal_type, c.term]))))}, verify=False, name='Agent.call (C05, C06)')

# what an agent is told when it is built: its beliefs, then its initial goals
CalledA = z3.ArraySort(V, L); NOCALLS = z3.K(V, NIL)
AT = z3.Int('any_position'); LV = lambda o: OBJ(type(o), IntVal(REG.lid(o)))
TB = (LV(agentspeak.Trigger.addition), LV(agentspeak.GoalType.belief)); TG = (LV(agentspeak.Trigger.addition), LV(agentspeak.GoalType.achievement))
def call_ok(x, kind, nd): t = V.t(x); return And(V.is_tup(x), L.hd(t) == kind[0], L.hd(L.tl(t)) == kind[1], built(nd, L.hd(L.tl(L.tl(t)))))
def told(cs, h, ast, nb=None, ng=None):
    """the first nb beliefs and ng goals have been told"""
    cs = simp(cs); b, g = h.seq(h.f('beliefs', ast)), h.seq(h.f('goals', ast)); nb = llen(b) if nb is None else nb; ng = llen(g) if ng is None else ng
    return And(llen(cs) == nb + ng, Implies(And(AT >= 0, AT < nb), call_ok(nth(cs, AT), TB, nth(b, AT))), Implies(And(AT >= nb, AT < nb + ng), call_ok(nth(cs, AT), TG, h.f('atom', nth(g, AT - nb)))))
def locals_of(lc, cls): return [v for nm, v, v0 in lc.vals() if v0 is not None and lc.eng.cls_of(lc.st, v) is cls]
def newagent(lc):
    """the agent being built"""
    p = lc.ghost.get('proto'); a = [v for v in locals_of(lc, AG) if p is None or not v.eq(p)]
    return a[0] if a else None
def told_inv(lc, ast, h=None):
    """in a loop over the beliefs or goals of the source"""
    out = []; h = h or lc.c.old; A = newagent(lc)
    if A is None: return out
    cs = Select(lc.ghost['called'], A); b = h.seq(h.f('beliefs', ast))
    if lc.kind == 'seq' and len(lc.ls) == 1: out += [('beliefs told so far', told(cs, h, ast, lc.idx, IntVal(0))), ('goals told so far', told(cs, h, ast, llen(b), lc.idx)), ('this list is walked', Or(lc.ls[0] == b, lc.ls[0] == h.seq(h.f('goals', ast))))]
    return out + [('nothing told yet', cs == NIL), ('only this agent is told', Store(lc.ghost['called'], A, NIL) == Store(lc.eghost['called'], A, NIL))]
allge = spec('allge', Map, Int, Bool)            # the containers kept in a dict are this new
def allge_use(e, s): m, lo = ch(e); m2, k = ch(s); return Implies(And(e, m == m2, Opt.is_present(s)), V.oi(Opt.pv(s)) >= lo)
@handler('allge')
def _(e, ix):
    m, lo = ch(e); out = [Implies(m == EMPTYMAP, e)]
    if info(m)[3] == z3.Z3_OP_STORE: a, k, v = ch(m); out.append(Implies(And(allge(a, lo), Or(Not(Opt.is_present(v)), V.oi(Opt.pv(v)) >= lo)), e))
    return out + [allge_use(e, s) for s in ix.by.get('select', ()) if s.sort() == Opt]
def _sel(s, ix): return [allge_use(e, s) for e in ix.by.get('allge', ())] if s.sort() == Opt else []
SELECT_HANDLERS.append(_sel)
ASTLISTS = ('rules', 'plans', 'beliefs', 'goals')
def tree_req(ast): return lambda c: [('the lists of the syntax tree exist', And(*[And(*type_facts(c.old.f(k, getattr(c, ast)), ('list', None), c.old.alloc)) for k in ASTLISTS]))]
def own_inv(lc, ast):
    out = []; n, o = lc.n, lc.c.old
    for k in ASTLISTS: x = o.f(k, ast); out.append(('the %s of the source stay' % k, n.seq(x) == o.seq(x)))
    A = newagent(lc)
    if A is not None:
        out += [('new %s' % k, allge(n.map(n.f(k, A)), V.oi(A))) for k in DICTS]
    return out
T1 = lambda r: L.hd(L.tl(V.t(r)))
def owns(h, a):
    """the containers of an agent are its own: created after it and before now"""
    out = []
    for k in DICTS + ('intentions',): x = h.f(k, a); out.append(And(V.is_obj(x), V.oi(x) > V.oi(a), V.oi(x) < h.alloc))
    for k in DICTS: e = part(h, a, k); out.append(Implies(Opt.is_present(e), And(V.is_obj(Opt.pv(e)), V.oi(Opt.pv(e)) > V.oi(h.f('intentions', a)), V.oi(Opt.pv(e)) < h.alloc)))
    i, k = [V.oi(h.f(x, a)) for x in ('rules', 'plans')]; b = V.oi(h.f('beliefs', a)); out.append(And(i != k, b != k, b != i))
    return And(*out)
def content(h, a, k): e = part(h, a, k); return If(Opt.is_present(e), h.seq(Opt.pv(e)), NIL)
def before(h, a, b):
    """everything of a is older than b"""
    out = [V.oi(a) < V.oi(b)]
    for k in DICTS + ('intentions',): out.append(V.oi(h.f(k, a)) < V.oi(b))
    for k in DICTS: e = part(h, a, k); out.append(Implies(Opt.is_present(e), V.oi(Opt.pv(e)) < V.oi(b)))
    return And(*out)
def bffa_post(c):
    a = T1(c.res); return registered(c, a) + [('no error was reported', c.now.ghost['errors'] == 0), ('the program it was given', L.hd(V.t(c.res)) == c.ast_agent), ('it is told its beliefs and goals, in order, once', told(Select(c.now.ghost['called'], a), c.old, c.ast_agent)),
        ('no other agent is told anything', Store(c.now.ghost['called'], a, NIL) == NOCALLS), ('its containers are its own', owns(c.now, a)), ('the source stays as it is', And(*[c.now.seq(c.old.f(k, c.ast_agent)) == c.old.seq(c.old.f(k, c.ast_agent)) for k in ASTLISTS]))]
BP = dict(params=['self', 'source', 'ast_agent', 'actions', 'agent_cls', 'name'], types={'source': ('iface', SourceI), 'ast_agent': ('obj', P.AstAgent), 'name': ('opt', 'str')}, modifies=lambda c: '*', ensures=bffa_post, raises=[(Exception, kept)])
def fresh_told(c): return {'called': fresh('called', CalledA)} if c.exc else {'called': fresh('called', CalledA), 'errors': IntVal(0)}
def start(c): return tree_req('ast_agent')(c) + [('nobody is told anything yet', c.old.ghost['called'] == NOCALLS), ('no error so far', c.old.ghost['errors'] == 0)]
two = lambda a, b: V.tup(mklist([a, b]))
bffa_use = Contract('agentspeak.runtime:Environment.build_agent_from_ast', resfn=lambda c: two(c.ast_agent, OBJ(AG, fresh('agent', Int))), requires=start, effects=fresh_told, verify=False, name='build_agent_from_ast (C18)', **BP)
def one_post(c):
    ast, a = L.hd(V.t(c.res)), T1(c.res)
    return registered(c, a) + [('the source had no error', c.now.ghost['errors'] == 0), ('it is told its beliefs and goals, in order, once', told(Select(c.now.ghost['called'], a), c.now, ast)), ('no other agent is told anything', Store(c.now.ghost['called'], a, NIL) == NOCALLS), ('its containers are its own', owns(c.now, a)),
        ('the syntax tree', And(V.is_obj(ast), V.oc(ast) == cid(P.AstAgent), V.oi(ast) < c.now.alloc, *[And(*type_facts(c.now.f(k, ast), ('list', None), V.oi(a))) for k in ASTLISTS]))]
OP = dict(params=['self', 'source', 'actions', 'agent_cls', 'name'], types={'source': ('iface', SourceI), 'name': ('opt', 'str')}, modifies=lambda c: '*', ensures=one_post, raises=[(Exception, kept)])
begin = lambda c: [('nobody is told anything yet', c.old.ghost['called'] == NOCALLS), ('no error so far', c.old.ghost['errors'] == 0)]
one_use = Contract('agentspeak.runtime:Environment._build_agent', resfn=lambda c: two(OBJ(P.AstAgent, fresh('ast', Int)), OBJ(AG, fresh('agent', Int))), requires=begin, effects=fresh_told, verify=False, name='_build_agent (C18)', **OP)
