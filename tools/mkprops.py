#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; X = "agentspeak/ext_stdlib.py"
P = "agentspeak/parser.py"; K = "agentspeak/lexer.py"; O = "agentspeak/optimizer.py"
props = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Unification is exact (sound, complete, most general)",
  "Unifying two terms under existing variable bindings succeeds exactly when some assignment of the variables that respects those bindings makes the two terms equal (annotations aside; a list is the same list in either notation; truth values never equal numbers). On success the bindings added are exactly the most general ones: every assignment that makes the terms equal still respects the new bindings, and every assignment that respects the new bindings makes the terms equal. A wildcard unifies with anything and binds nothing.",
  ["inputs"], "all pairs of terms (numbers, strings, booleans, structures, tuples, linked lists, variables) of any size and any prior bindings",
  "The unit tests unify about twenty fixed pairs under empty bindings; the guarantee ranges over all term pairs, all depths and all prior binding states.",
  [I], [("unify and the unify methods of the term classes", I), ("dereferencing and evaluation", I)],
  [("scope", "variable -> term bindings", I), ("stack", "trail of bound variables and choice points", I)], ["agentspeak.unify", "agentspeak.unifies"])

p("C02", "Backtracking restores bindings exactly",
  "Evaluating a query, a negation or a built-in action only ever adds variable bindings while it offers a solution; bindings that were already in force are never lost or changed. When it fails or offers no further solution, and when a choice point is undone, the variable bindings are exactly those in force before it started.",
  ["inputs", "histories"], "every query and built-in action, every term argument, every prior binding state, and every way a consumer may extend the bindings between two solutions",
  "The .asl tests run a few programs with one backtracking pattern each; whether the trail is exact depends on all interleavings of binding and undoing.",
  [I, R, S, X], [("reroll and choice points", I), ("query execute methods", R), ("built-in actions", S), ("extended built-in actions", X)],
  [("intention.scope", "current bindings", R), ("intention.stack", "trail", R)], ["scope and stack after a generator is exhausted"])

p("C03", "Queries enumerate exactly the logical solutions",
  "A conjunction offers, for each solution of its left side in order, every solution of its right side under it; a disjunction offers all solutions of the left side, then all of the right; a negation succeeds once, binding nothing, exactly when its operand has no solution. A literal is answered by every matching belief exactly once and then, in order of declaration, by every solution of every rule whose head unifies with it, with rule variables renamed apart.",
  ["inputs", "programs"], "all queries over all belief bases and rule sets, with any prior bindings",
  "Tests sample single small rule sets; the enumeration law is over all combinations of operands with zero, one or many solutions.",
  [R], [("query classes' execute methods", R), ("rule evaluation in literal queries", R)], [("agent.beliefs / agent.rules", "facts and rules by functor and arity", R)], ["sequence of solutions offered by a query"])

p("C04", "Copied terms are faithful and independent",
  "The copy of a term made for a message, event, query result or action argument denotes the same term under the current bindings, contains no variable of the original (distinct unbound variables stay distinct, equal ones stay equal), and copying changes no bindings. Grounding a term succeeds exactly when the groundness test says it is ground, and then yields the same, variable-free term; otherwise it reports an error.",
  ["inputs"], "all terms and binding states, copied together or one after the other",
  "No test copies a term with shared or partially bound variables; the guarantee is over every term shape and binding state.",
  [I, S], [("freeze / grounded / is_ground", I), (".findall result collection", S)], [("memo", "original variable -> copied variable", I)], ["agentspeak.freeze", "agentspeak.grounded", "agentspeak.is_ground"])

p("C05", "The belief base is an exact set of ground facts",
  "Adding a belief makes exactly that ground fact present, once, and leaves every other fact alone; a belief that is not ground is rejected with nothing changed. Removing a belief removes exactly one matching fact (or, for abolish, exactly the matching ones) and leaves all others; when nothing matches, facts and bindings are unchanged and no removal event happens.",
  ["inputs", "histories"], "every sequence of additions, removals and abolitions with any arguments, including while a query over the same facts is being iterated",
  "Tests add and remove a handful of constants; set semantics must hold after every history of updates.",
  [R, S], [("add_belief / remove_belief / test_belief", R), (".abolish", S), ("belief part of event dispatch", R)], [("agent.beliefs", "(functor, arity) -> set of ground literals", R)], ["agent.beliefs"])

p("C06", "Events start exactly the first applicable plan",
  "When an event or goal is posted, the plan started is the first in plan order whose trigger, kind, name and arity match, whose head unifies with the event including annotations, and whose context has a solution; it runs with the bindings of that head match and first context solution, and exactly one new intention is created. It is stacked on the caller's own intention for a synchronous call and becomes a separate new intention for a deferred one; a goal with no applicable plan is an error, a belief event without one is ignored, and a test goal without one is answered from the beliefs.",
  ["inputs", "programs", "histories"], "all plan libraries, belief bases, events, and sets of intentions",
  "Tests exercise one or two plans per event; first-match selection and intention placement are over all plan libraries and all intention states.",
  [R], [("Agent.call", R), ("add_plan", R)], [("agent.plans", "plans by trigger, kind, functor, arity", R), ("agent.intentions", "stacks of running plans", R)], ["agent.intentions after Agent.call"])

p("C07", "Each step advances one ready intention and nothing else",
  "A step of an agent runs one instruction of the first intention that is not waiting and leaves every other intention untouched; it reports no work only if no intention can run. When a called plan ends, its caller gets exactly the bindings the plan computed for the call's arguments and continues; a finished intention disappears. A failing instruction without a failure branch, or any error inside an instruction, surfaces as the interpreter's aggregated error and is never silently dropped.",
  ["histories", "programs"], "all intention states reachable by any program, including waiting and emptied intentions",
  "Tests run single programs to completion; the step law is about all intermediate intention states.",
  [R], [("Agent.step", R), ("run / run_agent loops", R)], [("agent.intentions", "stacks of running plans", R), ("intention.instr", "next instruction", R)], ["agent.intentions before and after step"])

p("C08", "Waiting intentions wake exactly on their event or deadline",
  "A waiting intention stays suspended until a matching event is posted to its agent or its deadline has passed, and then becomes runnable; events that do not match its trigger, kind and pattern do not wake it and waking it leaves other waiting intentions alone. The next deadline reported is the earliest of the pending ones, and the run loops sleep towards it without ever failing, whatever the clock does in between.",
  ["schedules", "histories"], "all sets of waiting intentions, events and clock readings",
  "wait.asl runs one schedule on the real clock; the law is over all clocks and event orders.",
  [R, S], [("Waiter.poll, wake-up in Agent.call, shortest_deadline, run loops", R), (".wait", S)], [("intention.waiter", "event pattern and deadline", R)], ["intention.waiter"])

p("C09", "Withdrawing a goal removes exactly that goal",
  "When an agent is told to drop an achievement goal, every running intention whose current goal matches it is dropped from its own stack, no other intention is changed, and the agent keeps working afterwards: later goals are dispatched and stepped as if the dropped goal had never been there.",
  ["histories"], "all intention states at the time of the withdrawal and all events afterwards",
  "No test withdraws a goal; the interesting states (several stacks, emptied stacks, suspended callers) are histories.",
  [R, S], [("_unachieve and the dispatch in Agent.call", R), (".send unachieve", S)], [("agent.intentions", "stacks of running plans", R)], ["agent.intentions"])

p("C10", "Loops and conditionals run as written",
  "A conditional runs exactly the branch its condition selects, keeping the condition's bindings in the taken branch; a while loop re-evaluates its condition with fresh bindings before every round and stops at the first failure; a for loop runs its body once per solution of its generator, each round seeing that solution's bindings only. All of them nest, leave the query and choice-point stacks as they found them, and continue with the next statement.",
  ["programs"], "all plan bodies built from nested conditionals and loops over all conditions",
  "Tests have half a dozen fixed nestings; the claim is over all compositions.",
  [R], [("BuildInstructionsVisitor", R), ("query and choice-point instructions", R)], [("instruction graph", "success/failure links", R), ("query_stack / choicepoint_stack", "active queries and choice points", R)], ["executed instruction sequence"])

p("C11", "Expressions parse with the documented precedence",
  "Parsing an expression yields the tree dictated by precedence and associativity (or, and, not, comparison chains, additive, multiplicative, unary, power) and parentheses, consuming exactly the expression's tokens. Printing a parsed expression or plan and parsing it again yields the same tree.",
  ["inputs", "programs"], "all expressions and plans of any size and nesting",
  "Tests parse a few programs and check only that they run; tree shape is over all token sequences.",
  [P], [("recursive descent expression parser", P), ("AST printing", P)], (), ["AST returned by the parser"])

p("C12", "Constant folding never changes what a program means",
  "Replacing constant sub-expressions at parse time gives every expression the same value, the same truth and the same type errors it would have had if evaluated at run time; expressions that are not constant keep their structure, and an expression that cannot be evaluated is reported as a diagnostic of the program, never as an internal failure.",
  ["inputs", "programs"], "all expression trees in every syntactic position",
  "arithmetic.asl checks a few constants; equivalence is over all expression trees.",
  [P, I], [("fold visitors", P), ("run-time expression evaluation", I)], (), ["AST after validation", "run-time value"])

p("C13", "Messages reach exactly the addressees, intact and tagged",
  "A message is delivered once to every addressed agent and to no other (a broadcast: to everyone but the sender), as the event its illocutionary force denotes, with the content as bound at sending time and the sender's source annotation added to the annotations it already had. If an addressee or the force is unknown nobody receives anything.",
  ["inputs", "configurations"], "all sets of agents, addressee lists, forces and contents",
  "No test sends a message; delivery is over all agent populations and contents.",
  [S, I], [(".send and .broadcast", S), ("with_annotation", I)], [("env.agents", "name -> agent", R)], ["calls received by each agent"])

p("C14", "Action calls resolve and pass arguments exactly",
  "Looking up an action finds the one registered for exactly that name and arity, else the variadic one of that name in the same registry, else what the parent registry finds, else it is an error; registering never replaces an existing entry of the same registry. Registered functions get the agent or environment where declared and all other arguments in order, as copies of the call's arguments under the current bindings, and a function's result is unified with the last argument.",
  ["inputs", "configurations"], "all registries and registration orders, all argument specifications and argument terms",
  "Tests use the built-in registry only; resolution is over all registries, names, arities and specifications.",
  [I], [("Actions.add/lookup/add_function/add_predicate/add_procedure", I), ("_zip_specs / _count_specs", I)], [("actions, variadic_actions, parent", "registry", I)], ["Actions.lookup", "arguments received"])

p("C15", "Agents are separate and uniquely named",
  "Every agent built in an environment gets a name no other agent there has and never displaces another; building many agents from one program gives each of them its own beliefs, rules, plans and intentions, so that nothing one agent later adds or removes shows in another. An agent whose program has errors is never registered.",
  ["configurations", "histories"], "all environments, file names, numbers of agents and later updates",
  "No test builds two agents; separation is about every later history of updates.",
  [R, I], [("_make_name, build_agents, build_agent_from_ast", R), ("sanitize_functor", I)], [("env.agents", "name -> agent", R)], ["env.agents", "agent.beliefs, agent.plans"])

p("C16", "Equality, hashing and ordering of terms are coherent",
  "Equal terms hash equal and may be used interchangeably as facts, a list equals and hashes the same in either notation, and equality is symmetric and consistent with inequality. The ordering of comparable literals and of lists is consistent: exactly one of less, equal arguments, greater holds, less-or-equal and greater-or-equal agree with them, and incomparable literals are reported rather than ordered.",
  ["inputs"], "all pairs and triples of terms",
  "ordering-literals.asl compares a few atoms; the laws are over all pairs of terms.",
  [I], [("comparison and hash methods of literals and linked lists", I)], (), ["==, !=, <, <=, >, >=, hash"])

p("C17", "Source text is tokenized completely and faithfully",
  "Every character of a source that is not white space or comment ends up in exactly one token, in order and with its text and position, or is reported as an illegal character; comments never swallow program text after their end, and keywords are recognised only as whole words. String literals denote exactly the characters written, and printing a value and reading it back gives the same value.",
  ["inputs"], "all source texts",
  "Tests lex a few programs; the guarantee is over every text.",
  [K, I], [("tokenize and the token table", K), ("parse_string / asl_repr", I)], (), ["token stream"])

p("C18", "Erroneous programs are reported, never run or looped on",
  "Every error reported while a program is read prevents the program from being built or run, and is counted; building fails with the aggregated error whenever at least one error was reported, and only then. Reading stops with that error once the error limit is reached. Including files terminates: a file that directly or indirectly includes itself, under any spelling of its path, is reported as an error.",
  ["inputs", "configurations"], "all programs, error positions and include graphs",
  "Tests feed four erroneous programs; the law is over all error combinations and include graphs.",
  [P, I, R], [("Log", I), ("parse_agent include handling", P), ("build", R)], [("log.num_errors", "errors so far", I)], ["AggregatedError"])

p("C19", "Annotated matching finds a match whenever one exists",
  "A literal matches another with annotations exactly when they unify and every annotation of the first can be matched, recursively, with a different annotation of the second under the same bindings; the outcome does not depend on the order in which annotations happen to be stored. (Terms held by variables are compared without their annotations.) At most one solution is offered, and extra annotations of the second literal never matter.",
  ["inputs"], "all pairs of annotated literals, binding states and storage orders",
  "test_unifies_annotated has nine fixed pairs; storage order varies with hash seeds and is not controlled by tests.",
  [I], [("unify_annotated", I)], (), ["agentspeak.unify_annotated"])

p("C20", "Optimised programs behave like the originals",
  "Running an agent through the optimiser never changes what the agent does: the same beliefs, events and printed output result, for every program, apart from the deviations the optimiser documents.",
  ["programs"], "all programs",
  "No stable test runs the optimiser.",
  [O], [("dataflow inference and rewriting", O)], (), ["behaviour of the optimised agent"])

p("C21", "Plan exchange preserves plans",
  "A plan told to an agent as text is added with the meaning of its text; a plan asked for is sent so that the asker ends up with every matching plan, equivalent to the original in trigger, arguments, context and body, however often it is asked for; forgetting a labelled plan removes exactly the plans with that label.",
  ["programs", "histories"], "all plans and all sequences of tell, ask and forget",
  "No stable test exchanges plans.",
  [R, S], [("_tell_how, _ask_how, _untell_how, plan_to_str", R)], [("agent.plans", "plan library", R)], ["agent.plans of both agents"])

p("C22", "Collecting and list built-ins compute what they promise",
  "Collecting, counting and summing visit every solution of their query exactly once and leave no bindings of the query behind; the list and string built-ins (length, nth, min, max, sort, concat, tail, member, substring, range) return exactly the mathematical result for every argument, in either list notation, and unify it with their last argument.",
  ["inputs"], "all argument lists, strings and queries",
  "Tests check a few constant calls each.",
  [S, X], [("built-in actions", S), ("extended built-ins", X)], (), ["solutions of the action"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
