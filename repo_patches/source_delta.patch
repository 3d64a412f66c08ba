From f623a77bac7e67140b303d6194fd6ce17f7a6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 01/23] fix: undo only own bindings when an annotated literal
 meets a variable

The choicepoint was never pushed, so backtracking unwound the whole trail.
---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..e19d1a4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -631,6 +631,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From 140bb85278e6f2ca9caa8ed2c66de663abb21161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 02/23] fix: undo the bindings of functions and deterministic
 actions on backtracking

Their result stayed bound when a later goal failed or the unification
failed half way, so the next alternative ran with stale bindings.
---
 agentspeak/__init__.py |  5 +++++
 agentspeak/stdlib.py   | 29 +++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e19d1a4..ccf952f 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -1033,9 +1033,14 @@ class Actions(object):
             def wrapper(agent, term, intention):
                 result = f(*_zip_specs(arg_specs, agent, term.args, intention.scope))
 
+                choicepoint = object()
+                intention.stack.append(choicepoint)
+
                 if unify(term.args[-1], result, intention.scope, intention.stack):
                     yield
 
+                reroll(intention.scope, intention.stack, choicepoint)
+
             return self.add(functor, _count_specs(arg_specs) + 1, wrapper)
 
         # Marker for the optimizer
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..87d9e6d 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -187,9 +187,14 @@ def _fail(agent, term, intention):
 @actions.add(".my_name", 1)
 @agentspeak.optimizer.function_like
 def _my_name(agent, term, intention):
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if agentspeak.unify(term.args[0], Literal(agent.name), intention.scope, intention.stack):
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 @actions.add(".concat")
 @agentspeak.optimizer.function_like
@@ -201,9 +206,14 @@ def _concat(agent, term, intention):
     else:
         result = "".join(str(arg) for arg in args)
 
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 actions.add_function(".random", (), random.random)
 
@@ -282,9 +292,14 @@ def _findall(agent, term, intention):
     for _ in query.execute(agent, intention):
         result.append(agentspeak.freeze(pattern, intention.scope, memo))
 
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 @actions.add(".count", 2)
 @agentspeak.optimizer.function_like
@@ -298,9 +313,13 @@ def _count(agent, term, intention):
         count += 1
     agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    intention.stack.append(choicepoint)
+
     if agentspeak.unify(count, term.args[1], intention.scope, intention.stack):
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 @actions.add(".abolish", 1)
 # TODO: Inform optimizer.
@@ -324,12 +343,17 @@ def _abolish(agent, term, intention):
 def _date(agent, term, intention):
     date = datetime.datetime.now()
 
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if (agentspeak.unify(term.args[0], date.year, intention.scope, intention.stack) and
         agentspeak.unify(term.args[1], date.month, intention.scope, intention.stack) and
         agentspeak.unify(term.args[2], date.day, intention.scope, intention.stack)):
 
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 @actions.add(".time", 3)
 @agentspeak.optimizer.side_effect(
@@ -339,12 +363,17 @@ def _date(agent, term, intention):
 def _time(agent, term, intention):
     time = datetime.datetime.now()
 
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if (agentspeak.unify(term.args[0], time.hour, intention.scope, intention.stack) and
         agentspeak.unify(term.args[1], time.minute, intention.scope, intention.stack) and
         agentspeak.unify(term.args[2], time.second, intention.scope, intention.stack)):
 
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 @actions.add(".wait", 1)
 @actions.add(".wait", 2)
-- 
2.43.0


From 8df774c1f324cc627334b0a3b76d210fe54b6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 03/23] fix: .findall copies every solution with its own
 renaming

A variable left unbound by one solution was renamed once and then reused
for all later solutions, even where those bind it.
---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 87d9e6d..9cccd53 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -288,9 +288,8 @@ def _findall(agent, term, intention):
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-    memo = {}
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, memo))
+        result.append(agentspeak.freeze(pattern, intention.scope, {}))
 
     choicepoint = object()
     intention.stack.append(choicepoint)
-- 
2.43.0


From 533685e2e2c2efe0e74990015922fdb706ed5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 04/23] fix: answer a query from the beliefs held when it
 starts

Changing beliefs of the group that a for loop iterates over failed with
"Set changed size during iteration".
---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..d647c67 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -206,7 +206,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From c523475c7ed7d2f5faa800aece19687831c774e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 05/23] fix: undo the bindings of .sum on backtracking

---
 agentspeak/ext_stdlib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..d466de3 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -41,9 +41,14 @@ def _sum(agent, term, intention):
     for _ in query.execute(agent, intention):
         total += agentspeak.grounded(pattern, intention.scope)
 
+    choicepoint = object()
+    intention.stack.append(choicepoint)
+
     if agentspeak.unify(total, term.args[2], intention.scope, intention.stack):
         yield
 
+    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 @actions.add(".csv")
 @agentspeak.optimizer.no_scope_effects
 def _csv(agent, term, intention, _files={}):
-- 
2.43.0


From 229f85365d8607381e2906cc8eac9f5ef1f1ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 06/23] fix: agents built together no longer share beliefs,
 rules and plans

The copies shared the sets and lists of the first agent, missed the events
of their initial beliefs, and the first agent ignored the requested name.
---
 agentspeak/runtime.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d647c67..23a7b96 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -843,17 +843,26 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls, name=name)
 
         # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
+        # callstacks, beliefs and rule and plan lists. This is more efficient
+        # than making complete deep copies.
         agents = [prototype_agent]
 
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
+            agent = agent_cls(self, self._make_name(name or source.name))
+
+            for group, rules in prototype_agent.rules.items():
+                agent.rules[group] = list(rules)
+
+            for group, plans in prototype_agent.plans.items():
+                agent.plans[group] = list(plans)
+
+            for ast_belief in ast_agent.beliefs:
+                belief = ast_belief.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
 
             for ast_goal in ast_agent.goals:
                 term = ast_goal.atom.accept(BuildTermVisitor({}))
-- 
2.43.0


From 2545950d0fd750bd16da064e660b83962d2ad460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 07/23] fix: keep dispatching after a goal was unachieved

An emptied intention stack made the next synchronous goal fail with an
IndexError; intentions without an event (prompt) broke unachieve.
---
 agentspeak/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 23a7b96..2c93ab2 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -467,7 +467,7 @@ class Agent:
 
                     if not delayed and self.intentions:
                         for intention_stack in self.intentions:
-                            if intention_stack[-1] == calling_intention:
+                            if intention_stack and intention_stack[-1] == calling_intention:
                                 intention_stack.append(intention)
                                 return True
 
@@ -498,6 +498,9 @@ class Agent:
 
             intention = intention_stack[-1]
 
+            if intention.head_term is None:
+                continue
+
             if intention.head_term.functor == term.functor:
                 if agentspeak.unifies(term.args, intention.head_term.args):
                     intention_stack.remove(intention)
-- 
2.43.0


From 08d582aa16c6825a7089f79b67920e922598d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 08/23] fix: never sleep for a negative time

A deadline that passes between the step and the sleep raised ValueError.
---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 2c93ab2..c7cb366 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -888,8 +888,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
     def run(self):
@@ -904,7 +904,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(0, min(deadlines) - self.time()))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From f9239f3e48d643f2375eb218981009967cb74155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 09/23] fix: keep non-ASCII characters of string literals
 intact

---
 agentspeak/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index ccf952f..a528cfe 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -28,6 +28,7 @@ __version__ = "0.2.2"
 import enum
 import collections
 import logging
+import re
 import sys
 import colorama
 import operator
@@ -315,10 +316,15 @@ def sanitize_functor(s):
     return functor
 
 
+RE_ESCAPE = re.compile(
+    r"\\(?:x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[a-zA-Z0-9 -]+\}|[0-7]{1,3}|[\x00-\x7f])"
+)
+
+
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return RE_ESCAPE.sub(lambda m: m.group(0).encode("ascii").decode("unicode_escape"), s[1:-1])
 
 
 def asl_str(term):
-- 
2.43.0


From fcbcac87bc8799ae50856ead9e08a88cda1f2ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 10/23] fix: detect recursive includes under every spelling of
 the path

Also report illegal characters of included files to the log.
---
 agentspeak/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..b7fe058 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -936,7 +936,7 @@ def parse_plan(tok, tokens, log):
 
 
 def parse_agent(filename, tokens, log, included_files, directive=None):
-    included_files = included_files | frozenset([os.path.normpath(filename)])
+    included_files = included_files | frozenset([os.path.realpath(filename)])
     agent = AstAgent()
     last_plan = None
 
@@ -971,7 +971,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.realpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
@@ -982,7 +982,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From fc01d376330ff4fec93d858feeaf3c9d5cf3aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 11/23] fix: report ill-typed constant expressions instead of
 failing on them

Lists with a tail inside expressions, expressions with variables in beliefs
and numeric overflow raised internal errors.
---
 agentspeak/parser.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index b7fe058..824cb9a 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1067,16 +1067,23 @@ class FindVariablesVisitor(object):
     def visit_variable(self, ast_variable):
         yield ast_variable
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
@@ -1130,7 +1137,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except (ZeroDivisionError, OverflowError) as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
@@ -1180,6 +1187,10 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in numeric context", loc=ast_linked_list.loc)
+        return ast_linked_list
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1260,6 +1271,11 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in boolean context", loc=ast_linked_list.loc)
+        return ast_linked_list
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 4c1e0a151bc17450e1623c27b4a29fbd3d16ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 12/23] fix: report arithmetic used as a query instead of
 failing on it

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index c7cb366..2b662ba 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -144,7 +144,7 @@ class BuildQueryVisitor:
             return NotQuery(ast_unary_op.operand.accept(self))
         else:
             raise self.log.error("non-boolean unary operator in query context: '%s'",
-                                 ast_unary_op.operator.lexeme, ast_unary_op.loc)
+                                 ast_unary_op.operator.value.lexeme, loc=ast_unary_op.loc)
 
     def visit_variable(self, ast_variable):
         return TermQuery(ast_variable.accept(BuildTermVisitor(self.variables)))
-- 
2.43.0


From 7cff7cb2d1c30ee700a37e580d28042e6a984568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 13/23] fix: try every way to match annotations

Annotations were matched greedily, so whether a literal matched depended on
the order in which its annotations happened to be stored.
---
 agentspeak/__init__.py | 61 +++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index a528cfe..1961414 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -634,37 +634,24 @@ class Literal(object):
         return all(unify(l, r, scope, stack) for l, r in zip(self.args, right.args))
 
     def unify_annotated(self, right, scope, stack):
+        choicepoint = object()
+        stack.append(choicepoint)
+        for _ in self.match_annotated(right, scope, stack):
+            # One way to match the annotations is enough.
+            yield
+            break
+        reroll(scope, stack, choicepoint)
+
+    def match_annotated(self, right, scope, stack):
         right = evaluate(right, scope)
+        choicepoint = object()
+        stack.append(choicepoint)
         if isinstance(right, Var):
-            choicepoint = object()
-            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
-            reroll(scope, stack, choicepoint)
-            return
-
-        choicepoint = object()
-        stack.append(choicepoint)
-        if self.unify(right, scope, stack):
-            closed_right_annots = set()
-            for left_annot in self.annots:
-                found_right = False
-
-                for right_annot in right.annots:
-                    if right_annot in closed_right_annots:
-                        continue
-                    for _ in unify_annotated(left_annot, right_annot, scope, stack):
-                        found_right = True
-                        closed_right_annots.add(right_annot)
-                        break
-
-                    if found_right:
-                        break
-
-                if not found_right:
-                    reroll(scope, stack, choicepoint)
-                    return
-            yield
+        elif self.unify(right, scope, stack):
+            for _ in match_annots(tuple(self.annots), tuple(right.annots), scope, stack):
+                yield
         reroll(scope, stack, choicepoint)
 
     def is_atom(self):
@@ -920,6 +907,26 @@ def unify_annotated(left, right, scope, stack):
         reroll(scope, stack, choicepoint)
 
 
+def match_annots(left, right, scope, stack):
+    """
+    Finds all ways to match every annotation in *left* with a different
+    annotation in *right*.
+    """
+    if not left:
+        yield
+        return
+
+    for i, right_annot in enumerate(right):
+        if hasattr(left[0], "match_annotated"):
+            matches = left[0].match_annotated(right_annot, scope, stack)
+        else:
+            matches = unify_annotated(left[0], right_annot, scope, stack)
+
+        for _ in matches:
+            for _ in match_annots(left[1:], right[:i] + right[i + 1:], scope, stack):
+                yield
+
+
 def unifies_annotated(left, right, scope=None, stack=None):
     if scope is None:
         scope = {}
-- 
2.43.0


From ec1226c306dbe30fa32e19b062a3ef04e10af56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:03 +0000
Subject: [PATCH 14/23] fix: compare lists with an open tail instead of failing
 on them

---
 agentspeak/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 1961414..54810ba 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -827,7 +827,17 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        if not is_list(other):
+            return True
+        try:
+            return tuple(self) != tuple(other)
+        except TypeError:
+            # Not a proper list (for example, the tail is a variable).
+            return (
+                not isinstance(other, LinkedList)
+                or self.head != other.head
+                or self.tail != other.tail
+            )
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From 6a524441c72c2899c597317030bfe06a2468a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:55 +0000
Subject: [PATCH 15/23] fix: .abolish removes annotated beliefs that match the
 pattern

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 9cccd53..198e7c7 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -328,7 +328,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From eaff5bbdb83f7502806418b49e83391a3a24bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:46 +0000
Subject: [PATCH 16/23] fix: for loops undo the bindings of their body

---
 agentspeak/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 2b662ba..2977845 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1032,8 +1032,10 @@ class BuildInstructionsVisitor:
         self.add_instr(functools.partial(push_query, query))
 
         for_head = self.add_instr(next_or_fail)
+        self.add_instr(push_choicepoint)
 
-        last_in_loop = ast_for.body.accept(self)
+        ast_for.body.accept(self)
+        last_in_loop = self.add_instr(pop_choicepoint)
         last_in_loop.success = for_head
 
         self.tail = Instruction(pop_query)
-- 
2.43.0


From 6bbd9fa34fe239dda7f898e1a4a8232fb450857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 17/23] fix: print negative constants below a power in
 parentheses

---
 agentspeak/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 824cb9a..f02c776 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,11 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        left = str(self.left)
+        if self.operator == BinaryOp.op_pow and left.startswith("-"):
+            # A negative constant. Unary minus binds weaker than power.
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From 5fd74bf4e3739e5a960eb363772d24880590944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 18/23] fix: report errors from folding complex numbers as
 diagnostics

---
 agentspeak/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index f02c776..08c1966 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1141,7 +1141,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except (ZeroDivisionError, OverflowError) as err:
+                except (ZeroDivisionError, OverflowError, TypeError) as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
@@ -1220,8 +1220,12 @@ class BooleanFoldVisitor(object):
                 const = AstConst()
                 const.loc = ast_binary_op.loc
                 if agentspeak.is_number(left.value) and agentspeak.is_number(right.value):
-                    const.value = ast_binary_op.operator.value.func(left.value, right.value)
-                    return const
+                    try:
+                        const.value = ast_binary_op.operator.value.func(left.value, right.value)
+                        return const
+                    except TypeError as err:
+                        # For example ordering complex numbers.
+                        self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
                 elif isinstance(left.value, bool) and isinstance(right.value, bool):
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-- 
2.43.0


From 94c5d9717b33bbf1c9598cc299f45c8097a2a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 19/23] fix: .concat joins lists in either notation

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 198e7c7..1b3569f 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -201,7 +201,7 @@ def _my_name(agent, term, intention):
 def _concat(agent, term, intention):
     args = [agentspeak.grounded(arg, intention.scope) for arg in term.args[:-1]]
 
-    if all(isinstance(arg, (tuple, list)) for arg in args):
+    if all(agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
         result = "".join(str(arg) for arg in args)
-- 
2.43.0


From 80b7d40544487f4c6cf0aa4472ac8ac4a6a5bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 20/23] fix: keep tabs in string literals

---
 agentspeak/__init__.py | 2 +-
 agentspeak/lexer.py    | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 54810ba..af6c002 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -109,7 +109,7 @@ class LogFormatter(logging.Formatter):
             b.append(loc.line.rstrip())
             b.append("\n")
 
-            under_line = [" " for _ in loc.line]
+            under_line = ["\t" if char == "\t" else " " for char in loc.line]
 
             # Extra locations underlined with ~~~.
             for extra_loc in record.__dict__.get("extra_locs", ()):
diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..912e447 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -155,7 +155,6 @@ def tokenize(sourcefile, log, firstline=1):
     in_comment = False
 
     for lineno, line in enumerate(sourcefile):
-        line = line.replace("\t", "    ")
         startcol = 0
 
         while startcol < len(line):
-- 
2.43.0


From 7d0aa955ab9051783ac8057684bee6d7e0b0a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 21/23] fix: a string is not the tail of a proper list

---
 agentspeak/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index af6c002..d0de0f3 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -820,6 +820,8 @@ class LinkedList(object):
 
     def __iter__(self):
         yield self.head
+        if not is_list(self.tail):
+            raise TypeError("not a proper list: tail is %r" % (self.tail,))
         for item in self.tail:
             yield item
 
-- 
2.43.0


From bc419dac69db1dcbeef010e357a4c6b5bda1918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 22/23] fix: report invalid escape sequences as diagnostics

---
 agentspeak/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 08c1966..9856189 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -428,6 +428,13 @@ class AstAgent(AstNode):
         return "".join(builder)
 
 
+def parse_string(tok, log):
+    try:
+        return agentspeak.parse_string(tok.lexeme)
+    except UnicodeDecodeError:
+        raise log.error("invalid escape sequence in string %s", tok.lexeme, loc=tok.loc)
+
+
 def parse_literal(tok, tokens, log):
 
     if not tok.token.functor:
@@ -552,7 +559,7 @@ def parse_atom(tok, tokens, log):
         return next(tokens), const
     elif tok.token.string:
         const = AstConst()
-        const.value = agentspeak.parse_string(tok.lexeme)
+        const.value = parse_string(tok, log)
         const.loc = tok.loc
         return next(tokens), const
     else:
@@ -963,7 +970,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 tok = next(tokens)
                 if not tok.token.string:
                     raise log.error("expected filename to include, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-                include = agentspeak.parse_string(tok.lexeme)
+                include = parse_string(tok, log)
                 tok = next(tokens)
                 if tok.lexeme != ")":
                     raise log.error("expected ')' after include filename, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-- 
2.43.0


From 9c759ea5e54fb245acfa49de375cf8c656abc47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 23/23] fix: .member enumerates lists whose tail is a bound
 variable

---
 agentspeak/stdlib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 1b3569f..3b2845e 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -257,7 +257,14 @@ def _substring(agent, term, intention):
 def _member(agent, term, intention):
     choicepoint = object()
 
-    for member in agentspeak.evaluate(term.args[1], intention.scope):
+    members = []
+    rest = agentspeak.evaluate(term.args[1], intention.scope)
+    while isinstance(rest, agentspeak.LinkedList):
+        members.append(rest.head)
+        rest = agentspeak.evaluate(rest.tail, intention.scope)
+    members.extend(rest)
+
+    for member in members:
         intention.stack.append(choicepoint)
 
         if agentspeak.unify(term.args[0], member, intention.scope, intention.stack):
-- 
2.43.0

