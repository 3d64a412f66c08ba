"""The recorded, unrepaired defects, reproduced on the real code: PROBES[property] = [(id, probe)];
a probe returns a sentence when the defect shows, else None.  known-findings.txt lists the accepted ids."""
from lib import *
T, GT = Trigger, GoalType
def unachieve_belief_event():
    env = TestEnv(); a = RT.Agent(env, 'me'); body = RT.Instruction(RT.noop)
    a.add_plan(RT.Plan(T.addition, GT.belief, Literal('p', (Var(),)), RT.TrueQuery(), body, None, None))
    a.call(T.addition, GT.belief, Literal('p', (1,)), RT.Intention()); a.call(T.removal, GT.achievement, Literal('p', (1,)), RT.Intention())
    return 'withdrawing the goal p(1) also drops the plan running for the belief event +p(1)' if not any(st for st in a.intentions) else None
def true_is_one_fact():
    env = TestEnv(); a = RT.Agent(env, 'me')
    for v in (True, 1): a.call(T.addition, GT.belief, Literal('p', (v,)), RT.Intention())
    return 'adding the beliefs p(true) and p(1) leaves only the first of them' if len(a.beliefs[('p', 1)]) == 1 else None
def true_is_one_eq():
    x, y = Literal('p', (True,)), Literal('p', (1,))
    return 'p(true) and p(1) are equal terms, although true does not unify with 1' if x == y and not agentspeak.unifies(x, y) else None
def infinity():
    return 'an infinite number (1e999) is printed as inf, which reads back as an atom' if agentspeak.asl_repr(float('inf')) == 'inf' else None
PROBES = {'C09': [('unachieve-belief-event', unachieve_belief_event)], 'C05': [('true-is-one', true_is_one_fact)], 'C16': [('true-is-one', true_is_one_eq)], 'C17': [('infinity', infinity)]}
def known(prop):
    out = []
    for i, f in PROBES.get(prop, []):
        t = f()
        if t: out.append([i, t])
    return out
