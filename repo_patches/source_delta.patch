From 624fd7db37a552b1f081362beec7a1722db64407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 01/62] fix: integer expressions with a compound right operand

a + (b + c), 1 + (a + b) and -a crashed the compiler, a - (b + c) and
a += b + 1 were rejected as invalid operands.
---
 acaciamc/objects/integer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..b63d674 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,12 +353,10 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        meth = getattr(IntOpGroup.from_intexpr(self), STR2METHOD[operator])
+        value = meth(other, compiler)
         ## Export
-        tmp = IntVar.new(compiler, tmp=True)
-        res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
-        return res
+        return value.export(self, compiler)
 
     iadd = partialmethod(_iadd_sub, '+')
     isub = partialmethod(_iadd_sub, '-')
@@ -527,7 +525,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
@@ -558,10 +556,10 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 653e7de1692d5878b55ef1ce45db3d799fa541a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 02/62] fix: re-run calls in a while condition before every
 iteration

The commands of a function call in the condition were only written once
before the loop, so the loop kept testing the first result.
---
 acaciamc/mccmdgen/generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..7779a79 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -422,7 +422,11 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # Commands written when visiting the condition (e.g. function
+        # calls) need to run every time the condition is evaluated.
+        cond_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(cond_file):
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -436,6 +440,7 @@ class Generator(ASTVisitor):
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
             if condition.value is False:
+                self.current_file.extend(cond_file.commands)
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
@@ -449,9 +454,13 @@ class Generator(ASTVisitor):
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
         # triggering the function
-        if body_file.has_content():
+        if body_file.has_content() or cond_file.has_content():
+            if not body_file.has_content():
+                # The condition itself may have side effects
+                self.compiler.add_file(body_file)
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
+                file.extend(cond_file.commands)
                 file.extend(dep)
                 file.write(cmds.Execute(
                     subcmds, runs=cmds.InvokeFunction(body_file)
-- 
2.43.0


From e8bc747e5aa6b1b474e38c08eeec5ad652eae931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 03/62] fix: evaluate the middle operand of a chained
 comparison once

1 < math.randint(1, 10) < 5 compared two different random numbers.
---
 acaciamc/mccmdgen/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7779a79..1e782e7 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1123,8 +1123,16 @@ class Generator(ASTVisitor):
         left, right = None, self.visit(node.left)
         # split `e0 o1 e1 o2 e2 ... o(n) e(n)` into
         # `e0 o1 e1 and ... and e(n-1) o(n) e(n)`
-        for operand, operator in zip(node.operands, node.operators):
+        last = len(node.operands) - 1
+        for i, (operand, operator) in enumerate(
+            zip(node.operands, node.operators)
+        ):
             left, right = right, self.visit(operand)
+            if i != last and isinstance(right, IntOpGroup):
+                # This is compared twice but it should only be evaluated
+                # once (it may be a random value).
+                dep, right = to_IntVar(right, self.compiler, tmp=False)
+                self.current_file.extend(dep)
             try:
                 res = left.compare(operator, right, self.compiler)
             except InvalidOpError:
-- 
2.43.0


From d0f60f7f56c32f3e4bd23d0d6c9a84a5028c8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 04/62] fix: schedule.register_loop with a compound interval

Every command that computed the interval was guarded by the timer it was
writing to, so only the first of them ran (n + 1 became n).
---
 acaciamc/modules/schedule.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..bb231a1 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -217,13 +217,16 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
-    tick_commands.extend(interval.export(timer, compiler))
-    compiler.file_tick.extend(
-        cmds.execute(
-            [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-        )
-        for cmd in tick_commands
-    )
+    # These must be in a separate file, since the commands may modify
+    # the timer (and then the condition) themselves.
+    loop_file = cmds.MCFunctionFile()
+    compiler.add_file(loop_file)
+    loop_file.extend(tick_commands)
+    loop_file.extend(interval.export(timer, compiler))
+    compiler.file_tick.write(cmds.Execute(
+        [cmds.ExecuteScoreMatch(timer.slot, "..0")],
+        runs=cmds.InvokeFunction(loop_file)
+    ))
     ## Decrease the timer by 1
     compiler.file_tick.write(cmds.ScbRemoveConst(timer.slot, 1))
     # Result
-- 
2.43.0


From ba44c6cef2b0a7178be61f9810803a3c5e1658f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 05/62] fix: schedule.Task requests sent or queried by the
 task's own target

The timer stayed at 0 while the target ran and was decremented right
after: after(0) from the target was lost, and has_schedule() was true
there although the request was already served.
---
 acaciamc/modules/schedule.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index bb231a1..de87867 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -173,12 +173,25 @@ class Task(ConstExprCombined):
                 ),
             ])
         self.attribute_table.set("_timer", self.timer)
+        # The request is over when the target starts, so that the target
+        # sees no request and is able to send a new one. A new request
+        # with no delay needs to survive the decrement below.
+        fire_file = cmds.MCFunctionFile()
+        compiler.add_file(fire_file)
+        fire_file.extend(self.timer_reset())
+        fire_file.write(
+            cmds.InvokeFunction(self.target_file),
+            cmds.Execute(
+                [cmds.ExecuteScoreMatch(self.timer.slot, "0")],
+                runs=cmds.ScbSetConst(self.timer.slot, 1)
+            )
+        )
         # Write tick.mcfunction
         compiler.file_tick.write_debug("# schedule.Task")
         compiler.file_tick.write(
             cmds.Execute(
                 [cmds.ExecuteScoreMatch(self.timer.slot, "0")],
-                runs=cmds.InvokeFunction(self.target_file)
+                runs=cmds.InvokeFunction(fire_file)
             ),
             # Decrease the timer by 1
             cmds.Execute(
-- 
2.43.0


From b473d5e0f9aed2a7370b0f54c89ff290d48c170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 06/62] fix: keep the commands of the right operand when adding
 fstrings

The expressions formatted in it were never calculated.
---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..dc407a4 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -167,6 +167,7 @@ class FString(ConstExprCombined):
         if isinstance(other, String):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
+            res.dependencies.extend(other.dependencies)
             res.rawtext.extend(other.rawtext)
         else:
             raise InvalidOpError
-- 
2.43.0


From 7dd04608e8f501be14606e59f37e55b37324cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 07/62] fix: scores of formatted expressions are not temporary

A constant fstring is used by later statements, which reused the scores
that hold its values: two fstrings could show the same (wrong) number.
---
 acaciamc/objects/boolean.py | 4 +++-
 acaciamc/objects/integer.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..adc603c 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -99,7 +99,9 @@ def _export_bool(subcmds: List["_ExecuteSubcmd"], var: "BoolVar",
 
 def _bool_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for bool."""
-    dependencies, var = to_BoolVar(self, compiler)
+    # The result can be stored as a constant and outlives the current
+    # statement, so temporary scores can't be used.
+    dependencies, var = to_BoolVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class BoolDataType(DefaultDataType, Storable, SupportsEntityField):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index b63d674..42b9b1e 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -104,7 +104,9 @@ STR2PYINTOP: Dict[str, Callable[[int, int], int]] = {
 
 def _int_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for int."""
-    dependencies, var = to_IntVar(self, compiler)
+    # The result can be stored as a constant and outlives the current
+    # statement, so temporary scores can't be used.
+    dependencies, var = to_IntVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class IntDataType(DefaultDataType, Storable, SupportsEntityField):
-- 
2.43.0


From 6f5a232063e2e23e3b189e93b3bb5a65b730b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 08/62] fix: contradictory ranges when joining an and
 expression

(x > 1 and x < 9) and x > 20 was written as the invalid range 21..8.
---
 acaciamc/objects/boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index adc603c..e12414c 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -442,6 +442,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From 1255898f9feea33d5c609ad18ff49a32d7cad018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 09/62] fix: comparing with > int.MAX and < int.MIN

These were written as ranges that are out of the limits of integers.
---
 acaciamc/objects/boolean.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index e12414c..8c499f5 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -290,6 +290,18 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        # There is no integer beyond the limits so the range can't be
+        # written out. Use the (always true) inverted comparison.
+        if self.operator is Operator.greater and self.literal == INT_MAX:
+            res.append(cmds.ExecuteScoreMatch(
+                self.slot, '..%d' % INT_MAX, invert=True
+            ))
+            return self.dependencies.copy(), res
+        if self.operator is Operator.less and self.literal == INT_MIN:
+            res.append(cmds.ExecuteScoreMatch(
+                self.slot, '%d..' % INT_MIN, invert=True
+            ))
+            return self.dependencies.copy(), res
         match_range = {
             Operator.greater: '%d..' % (self.literal + 1),
             Operator.greater_equal: '%d..' % self.literal,
-- 
2.43.0


From 63ee6194463d83ae8f082fce6cc18f3871464dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 10/62] fix: comparing a bool with a negated and expression

It was rejected as an invalid operand.
---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 8c499f5..8b5939c 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From 23deb1a91c934feb3710dc7f3b465221ee6e9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 11/62] fix: make the order of optimized files reproducible

It was the iteration order of a set of objects hashed by address, which
decides the scores allocated by the inliner: two compilations of one
program could differ.
---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..68b3cea 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,8 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        # Keep the order, so that the output is reproducible.
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From f1b6748e79796a569200c09dfa1ce3683444648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 12/62] fix: module lookup does not depend on the directory
 order

With both mod.aca and mod.py in a folder, the one that the file system
happened to list first was imported.
---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..0c715b2 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -332,7 +332,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From fa479dfa27983e561ab1bb6dcf9cbd51a99974ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 13/62] fix: else branch runs after the if branch changed the
 condition variable

---
 acaciamc/mccmdgen/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 1e782e7..8f048bb 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -408,6 +408,11 @@ class Generator(ASTVisitor):
             return
         # Fallback
         dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
+        if has_then and has_else and condition_var is condition:
+            # The first branch may modify the variable, which must not
+            # influence the second branch.
+            condition_var = BoolVar.new(self.compiler)
+            dep = condition.export(condition_var, self.compiler)
         self.current_file.extend(dep)
         if has_then:
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From 965fab3772fab5789d22eb15ae4b7b543bf77946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 14/62] fix: int(bool) result is not overwritten by later calls
 in the same expression

---
 acaciamc/objects/integer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 42b9b1e..2e6fbf0 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -141,7 +141,10 @@ class IntType(Type):
             # Fallback: convert `b` to `BoolVar`,
             # Since 0 is used to store False, 1 is for True, just
             # "cast" it to `IntVar`.
-            dependencies, bool_var = to_BoolVar(b, compiler)
+            # The score outlives the returned dependencies, which run
+            # before other calls in the same expression, so it can't be
+            # a temporary one.
+            dependencies, bool_var = to_BoolVar(b, compiler, tmp=False)
             res = IntVar(bool_var.slot)
             res.is_temporary = True
             return res, dependencies
-- 
2.43.0


From 9f53fb356d80b2a7aa77a7b7977f1688014e63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 15/62] fix: math.mod with a large divisor

---
 acaciamc/modules/_math.aca | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..a10ddee 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,11 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    # Do not add `y` unless the signs differ, so that nothing overflows
+    res := x % y
+    if res != 0 and (res < 0) != (y < 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From cf6a8a896b2f8bff60305044a82eb1b20a593b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 16/62] fix: evaluate the middle boolean of a chained
 comparison once

---
 acaciamc/mccmdgen/generator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 8f048bb..6afab97 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1133,11 +1133,16 @@ class Generator(ASTVisitor):
             zip(node.operands, node.operators)
         ):
             left, right = right, self.visit(operand)
+            # The middle operands are compared twice but they should only
+            # be evaluated once (they may depend on a random value).
             if i != last and isinstance(right, IntOpGroup):
-                # This is compared twice but it should only be evaluated
-                # once (it may be a random value).
                 dep, right = to_IntVar(right, self.compiler, tmp=False)
                 self.current_file.extend(dep)
+            elif (i != last
+                  and isinstance(right.data_type, BoolDataType)
+                  and not isinstance(right, (BoolLiteral, NotBoolVar))):
+                dep, right = to_BoolVar(right, self.compiler, tmp=False)
+                self.current_file.extend(dep)
             try:
                 res = left.compare(operator, right, self.compiler)
             except InvalidOpError:
-- 
2.43.0


From ea6f6e442b460db63350c1c02a453963154000d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 17/62] fix: struct constructor assigned to a variable it reads

'a = S(x=a.y, y=a.x)' wrote the fields one by one, so later arguments
read the already overwritten fields.
---
 acaciamc/mccmdgen/generator.py      |  3 +++
 acaciamc/objects/struct_template.py | 27 ++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 6afab97..1670563 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -286,6 +286,9 @@ class Generator(ASTVisitor):
         if value is not None:
             commands = value.export(target, self.compiler)
         else:
+            if isinstance(func, StructTemplate):
+                # Arguments may refer to the old value of the target.
+                ctor_kwds["fresh"] = False
             commands = func.initialize(target, self.compiler, **ctor_kwds)
         # write commands
         self.current_file.extend(commands)
diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..7d85230 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -54,8 +54,11 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
 
     def initialize(
         self, instance: "Struct", compiler,
-        args: "ARGS_T", keywords: "KEYWORDS_T"
+        args: "ARGS_T", keywords: "KEYWORDS_T", fresh: bool = True
     ):
+        """`fresh`: whether `instance` is known to be a new variable. If
+        not, the arguments may depend on its current value.
+        """
         @axe.chop
         @axe.star
         @apply_decorators([
@@ -64,10 +67,24 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
-            for name, value in fields.items():
-                if value is None:
-                    continue
-                commands.extend(value.export(instance.vars[name], compiler))
+            exports = [
+                (value, instance.vars[name])
+                for name, value in fields.items() if value is not None
+            ]
+            if not fresh:
+                # Read all the old values before writing any field:
+                # all variable arguments but the last one are stored to
+                # temporary variables, and literals are written finally.
+                consts = [x for x in exports if isinstance(x[0], ConstExpr)]
+                rest = [x for x in exports if not isinstance(x[0], ConstExpr)]
+                exports = rest[-1:]
+                for value, var in rest[:-1]:
+                    tmp = var.data_type.new_var(compiler)
+                    commands.extend(value.export(tmp, compiler))
+                    exports.append((tmp, var))
+                exports.extend(consts)
+            for value, var in exports:
+                commands.extend(value.export(var, compiler))
             return resultlib.commands(commands)
         _, c = BinaryFunction(_call_me).call(args, keywords, compiler)
         return c
-- 
2.43.0


From 972f2e8a56205efe1bb4939efb8afc1fdb0c1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 18/62] fix: small and large coordinates are not written in
 scientific notation

Positions, rotations and spread ranges such as 0.00001 were written as
'1e-05', which commands do not accept.
---
 acaciamc/mccmdgen/cmds.py           | 6 ++++++
 acaciamc/modules/world.py           | 2 +-
 acaciamc/objects/position_offset.py | 3 ++-
 acaciamc/objects/rotation.py        | 6 ++++--
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..14d1ad0 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -1,6 +1,7 @@
 """Abstraction of Minecraft commands."""
 
 from abc import ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
@@ -20,6 +21,11 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(value: float) -> str:
+    """Commands do not accept scientific notation."""
+    res = str(value)
+    return format(Decimal(res), "f") if "e" in res else res
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..6f972e0 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+import acaciamc.mccmdgen.cmds as cmds
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + cmds.mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..e81e631 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", " ".join(map(
+                        cmds.mc_float, (vertical, horizontal)
+                    ))
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -104,7 +106,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From e8243f7227a1c20fb2b6dac7df0026acc331d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 19/62] fix: optimizer expects user-written commands to change
 scores

---
 acaciamc/mccmdgen/cmds.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 14d1ad0..d48d313 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -84,10 +84,17 @@ class Cmd(Command):
                 raise ValueError(
                     "/%s command need to be invoked by special class" % name
                 )
+        self.unchecked = suppress_special_cmd
 
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # Commands that user wrote may change any score.
+        return self.unchecked and self.value.lstrip().startswith(
+            ("scoreboard", "execute", "function")
+        )
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
-- 
2.43.0


From 5290388feeae09872a8801de5bf14161ffd26648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 20/62] fix: methods inherited through several parents

---
 acaciamc/objects/entity_template.py | 55 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..501066f 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -103,16 +103,29 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
-                templates.append(template)
-                for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
-                break
-        else:
+    def _find_impl(self, template: "EntityTemplate"):
+        """Find the implementation used by `template` according to MRO."""
+        best = None
+        mro = template.mro_
+        for impl, (templates, get_self_var) in self.impls.items():
+            # templates[0] is the one who defined this implementation
+            try:
+                i = mro.index(templates[0])
+            except ValueError:
+                pass
+            else:
+                if best is None or i < best[0]:
+                    best = i, impl, get_self_var
+        if best is None:
             unreachable("Base not found")
+        _, impl, get_self_var = best
+        return impl, get_self_var
+
+    def register_inherit(self, template: "EntityTemplate"):
+        impl, get_self = self._find_impl(template)
+        self.impls[impl][0].append(template)
+        for bound in self.bound:
+            bound.add_implementation(template, impl, get_self)
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -125,17 +138,7 @@ class _MethodDispatcher:
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
-        best = None
-        mro = entity.cast_template.mro_
-        for impl, (templates, get_self_var) in self.impls.items():
-            try:
-                i = mro.index(templates[0])
-            except ValueError:
-                pass
-            else:
-                if best is None or i < best[0]:
-                    best = i, impl, get_self_var
-        _, impl, get_self_var = best
+        impl, get_self_var = self._find_impl(entity.cast_template)
         return BoundMethod(entity, self.method_name, impl, get_self_var)
 
 class _SimpleMethod:
@@ -254,6 +257,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         self.method_dispatchers: Dict[str, _MethodDispatcher] = {}
         self.simple_methods: Dict[str, _SimpleMethod] = {}
         self.static_methods: Dict[str, AcaciaCallable] = {}
+        # Names of methods that are defined in this very template
+        self.own_methods = frozenset(methods)
         self.mro_: List[EntityTemplate] = [self]  # Method Resolution Order
         # Runtime identification number
         # Mark which template an entity is using at runtime.
@@ -322,10 +327,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method in parent.own_methods:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -340,7 +347,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -373,7 +380,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From cbd0a1b5fccea23e1b07867fc87e47171657b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 21/62] fix: self in inline implementations of virtual methods

---
 acaciamc/objects/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..043305d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -551,7 +551,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -561,7 +561,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 8b7e3259b573a358ccc4e26da660b032ad2ad9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 22/62] fix: result of a virtual method is not overwritten by
 later calls

---
 acaciamc/objects/functions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 043305d..67094d8 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -513,12 +513,19 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        commands = [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
             )
         ]
+        # Make a copy of `result_var`
+        result_type = self.result_var.data_type
+        assert isinstance(result_type, Storable)
+        result = result_type.new_var(compiler)
+        commands.extend(self.result_var.export(result, compiler))
+        result.is_temporary = True
+        return result, commands
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
-- 
2.43.0


From a8c27b94ce635ebb5d14138787ae530d4a08e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 23/62] fix: virtual method call keeps self of implementations
 not chosen

---
 acaciamc/objects/functions.py | 36 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 67094d8..06379cd 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -574,29 +574,23 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 f = cmds.MCFunctionFile()
                 compiler.add_file(f)
                 f.write_debug("## Helper for virtual method dispatcher")
-                f.extend(commands)
-                if get_self_var is None:
-                    file.write(cmds.Execute(
-                        [
-                            cmds.ExecuteCond("entity", sel_s, invert=True),
-                            # Make sure @s is alive:
-                            cmds.ExecuteCond("entity", "@s")
-                        ],
-                        runs=cmds.InvokeFunction(f)
-                    ))
-                else:
+                if get_self_var is not None:
+                    # This must be done only when this implementation
+                    # is chosen, since other implementations might be
+                    # running (they might have called this method).
                     self_var = get_self_var()
+                    f.extend(self_var.clear())
                     # XXX direct access to TaggedEntity.tag
-                    self_tag = self_var.tag
-                    file.extend(self_var.clear())
-                    file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", sel_s, invert=True)],
-                        runs="tag @s add %s" % self_tag
-                    ))
-                    file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)],
-                        runs=cmds.InvokeFunction(f)
-                    ))
+                    f.write("tag @s add %s" % self_var.tag)
+                f.extend(commands)
+                file.write(cmds.Execute(
+                    [
+                        cmds.ExecuteCond("entity", sel_s, invert=True),
+                        # Make sure @s is alive:
+                        cmds.ExecuteCond("entity", "@s")
+                    ],
+                    runs=cmds.InvokeFunction(f)
+                ))
 
 class ConstructorFunction(AcaciaCallable):
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From e31ea23d6a1fc4da245b85f8db01d2e571cb3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 24/62] fix: arguments of virtual methods are evaluated by the
 caller

---
 acaciamc/objects/functions.py | 39 ++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 06379cd..774e0b1 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -492,8 +492,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 _BoundMethod, List["EntityTemplate"],
                 Optional[Callable[[], "TaggedEntity"]]
             ]] = {}
-        self.files: \
-            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
+        self.files: List[Tuple[
+            ARGS_T, KEYWORDS_T, cmds.MCFunctionFile, "Generator"
+        ]] = []
         self.result_var = result_var
         self.func_repr = self.name
         compiler.before_finish(self._generate)
@@ -510,15 +511,29 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
+        commands = []
+        def _evaluate(value: AcaciaExpr) -> AcaciaExpr:
+            # The dispatcher is generated later, so values that are not
+            # stored in a permanent place must be evaluated now.
+            dt = value.data_type
+            if (
+                isinstance(value, ConstExpr) or value.is_assignable()
+                or not isinstance(dt, Storable)
+            ):
+                return value
+            tmp = dt.new_var(compiler)
+            commands.extend(value.export(tmp, compiler))
+            tmp.is_temporary = True
+            return tmp
+        args = [_evaluate(arg) for arg in args]
+        keywords = {name: _evaluate(arg) for name, arg in keywords.items()}
         file = cmds.MCFunctionFile()
-        self.files.append((args, keywords, file))
+        self.files.append((args, keywords, file, compiler.current_generator))
         compiler.add_file(file)
-        commands = [
-            cmds.Execute(
-                [cmds.ExecuteEnv("as", self.object.to_str())],
-                cmds.InvokeFunction(file)
-            )
-        ]
+        commands.append(cmds.Execute(
+            [cmds.ExecuteEnv("as", self.object.to_str())],
+            cmds.InvokeFunction(file)
+        ))
         # Make a copy of `result_var`
         result_type = self.result_var.data_type
         assert isinstance(result_type, Storable)
@@ -543,7 +558,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        old_generator = compiler.current_generator
+        for args, keywords, file, generator in self.files:
+            # Temporary scores are allocated through the generator
+            compiler.current_generator = generator
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
@@ -591,6 +609,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     ],
                     runs=cmds.InvokeFunction(f)
                 ))
+        compiler.current_generator = old_generator
 
 class ConstructorFunction(AcaciaCallable):
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From ad24d9f1ec2a928229ba0c756b12429664bdcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 25/62] fix: virtual method called by an inline implementation
 of another one

---
 acaciamc/objects/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 774e0b1..9e5d660 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -497,7 +497,6 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         ]] = []
         self.result_var = result_var
         self.func_repr = self.name
-        compiler.before_finish(self._generate)
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
@@ -528,6 +527,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         args = [_evaluate(arg) for arg in args]
         keywords = {name: _evaluate(arg) for name, arg in keywords.items()}
         file = cmds.MCFunctionFile()
+        if not self.files:
+            # NOTE this method may also be called while generating
+            # other dispatchers, even after our last `_generate`.
+            compiler.before_finish(self._generate)
         self.files.append((args, keywords, file, compiler.current_generator))
         compiler.add_file(file)
         commands.append(cmds.Execute(
@@ -609,6 +612,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     ],
                     runs=cmds.InvokeFunction(f)
                 ))
+        self.files.clear()
         compiler.current_generator = old_generator
 
 class ConstructorFunction(AcaciaCallable):
-- 
2.43.0


From dda3c84a16ba4ef89be77f89369d7af4f85cd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 26/62] fix: entity constructor assigned to a variable it reads

---
 acaciamc/mccmdgen/generator.py      | 2 +-
 acaciamc/objects/entity_template.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 1670563..fabc810 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -286,7 +286,7 @@ class Generator(ASTVisitor):
         if value is not None:
             commands = value.export(target, self.compiler)
         else:
-            if isinstance(func, StructTemplate):
+            if isinstance(func, (StructTemplate, EntityTemplate)):
                 # Arguments may refer to the old value of the target.
                 ctor_kwds["fresh"] = False
             commands = func.initialize(target, self.compiler, **ctor_kwds)
diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 501066f..c912af7 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -474,11 +474,17 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             entity.attribute_table.set(name, impl)
 
     def initialize(self, instance: "TaggedEntity", compiler: "Compiler",
-                   args, keywords):
+                   args, keywords, fresh: bool = True):
         """
         Calling an entity template summons a new entity, the arguments
         are passed to the constructor.
+        `fresh`: whether `instance` is known to be a new variable. If
+        not, the constructor may depend on its current value.
         """
+        if not fresh:
+            tmp, commands = self.call(args, keywords, compiler)
+            commands.extend(tmp.export(instance, compiler))
+            return commands
         return [
             *instance.clear(),
             *self.method_new(
-- 
2.43.0


From 201d40a9e91711c7e7c212ea7cf87cf20a1dc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 27/62] fix: entity filter conditions that follow random or
 nearest_from

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..8e746fd 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -398,7 +398,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.next_use_new_data or self.data[-1].selector.is_var_set():
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
@@ -407,7 +407,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.next_use_new_data or self.context_occupied:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 84de14d84de3fc55b5845a04224f6a6cec8ae8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 28/62] fix: Enfilter.random without a type that is known

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 8e746fd..a13230c 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From a6c30c8d77ba499484871400fe3242aeed351f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 29/62] fix: negated integer ranges in entity filters

---
 acaciamc/objects/entity_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a13230c..45b45c2 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -47,8 +47,10 @@ class IntRange(axe.AnyOf):
             return str(origin_py)
         assert isinstance(origin_py, str)
         origin_py = origin_py.lstrip()
+        negate = ""
         if origin_py.startswith("!"):
             origin_py = origin_py[1:]
+            negate = "!"
         if ".." in origin_py:
             min_, max_ = origin_py.split("..")
             min_ = min_.strip()
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (negate, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return negate + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From 7f1e3919b3ce2a384ccf0934d0df11a9b24a0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 30/62] fix: several is_game_mode conditions in an entity
 filter

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 45b45c2..c8e48ad 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -321,7 +321,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From 6882132646246f9efb66cd30db66e11e198d86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 31/62] fix: self in inline implementations of virtual methods
 has their template

---
 acaciamc/objects/entity_template.py | 12 +++++++++---
 acaciamc/objects/functions.py       | 23 ++++++++++++++++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index c912af7..12b7db9 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -101,7 +101,9 @@ class _MethodDispatcher:
                 return _sv
         self.impls[implementation] = ([template], get_self_var)
         for bound in self.bound:
-            bound.add_implementation(template, implementation, get_self_var)
+            bound.add_implementation(
+                template, implementation, get_self_var, template
+            )
 
     def _find_impl(self, template: "EntityTemplate"):
         """Find the implementation used by `template` according to MRO."""
@@ -125,7 +127,9 @@ class _MethodDispatcher:
         impl, get_self = self._find_impl(template)
         self.impls[impl][0].append(template)
         for bound in self.bound:
-            bound.add_implementation(template, impl, get_self)
+            bound.add_implementation(
+                template, impl, get_self, self.impls[impl][0][0]
+            )
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -134,7 +138,9 @@ class _MethodDispatcher:
         self.bound.append(res)
         for impl, (templates, get_self_var) in self.impls.items():
             for template in templates:
-                res.add_implementation(template, impl, get_self_var)
+                res.add_implementation(
+                    template, impl, get_self_var, templates[0]
+                )
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 9e5d660..f9ce73b 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,10 +428,14 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
+        # self_template: template of `self` in inline implementations;
+        # if omitted, it is same as that of the object.
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
+        self.self_template = self_template or object_.template
         self.definition = definition
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
@@ -443,8 +447,9 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            self.definition.context.self_value = EntityReference(
+                self.object.get_selector(), self.self_template
+            )
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -500,13 +505,21 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
-        get_self_var: Optional[Callable[[], "TaggedEntity"]]
+        get_self_var: Optional[Callable[[], "TaggedEntity"]],
+        definer: "EntityTemplate"
     ):
         if definition in self.impls:
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            self_template = self.object.template
+            if not self_template.is_subtemplate_of(definer):
+                # An override: the entity is at least a `definer` when
+                # this implementation is chosen.
+                self_template = definer
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, self_template
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From 6e14d955a1375eae5b0233c14335139c1e5f628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 32/62] fix: scores selected by different selectors may be the
 same score

---
 acaciamc/mccmdgen/cmds.py   | 40 +++++++++++++++++++++++++++----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  4 ++++
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index d48d313..01ea29e 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -48,6 +48,17 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """Whether the slots may refer to a same score."""
+        if self.objective != other.objective:
+            return False
+        # A selector or wildcard may match anything.
+        return (
+            self.target == other.target
+            or self.target.startswith(("@", "*"))
+            or other.target.startswith(("@", "*"))
+        )
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -106,7 +117,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +130,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -132,7 +143,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -160,15 +171,21 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (
+                slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2)
+            )
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (
+                slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2)
+            )
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -183,7 +200,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -390,7 +407,10 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return (
+            slot.may_alias(self.operand1)
+            or slot.may_alias(self.operand2)
+        )
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -408,7 +428,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 8b5939c..c14979d 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -237,6 +237,10 @@ class NotBoolVar(AcaciaExpr):
                 cmds.Execute([cmds.ExecuteScoreMatch(var.slot, "2")],
                              cmds.ScbSetConst(var.slot, 0))
             ]
+        elif var.slot.may_alias(self.slot):
+            return _export_bool(
+                [cmds.ExecuteScoreMatch(self.slot, "0")], var, compiler
+            )
         else:
             return [
                 cmds.ScbSetConst(var.slot, 0),
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 2e6fbf0..a085cc1 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -428,7 +428,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 0bf0ff4edf5ddcd90ffeb39cd4edd57d6ced8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 33/62] fix: optimizer expects commands to change entities
 selected in a condition

---
 acaciamc/mccmdgen/cmds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 01ea29e..f0139ea 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -101,6 +101,9 @@ class Cmd(Command):
         return self.value
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # The command may change which entity a selector selects.
+        if slot.target.startswith("@"):
+            return True
         # Commands that user wrote may change any score.
         return self.unchecked and self.value.lstrip().startswith(
             ("scoreboard", "execute", "function")
-- 
2.43.0


From 7a6793f3c36e5d53ff9fffc467e9aa32f933e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 34/62] fix: failure to create the output directory is reported
 like other errors

---
 acaciamc/cli.py          | 6 +++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..564b7da 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -194,7 +194,11 @@ def run(args):
         out_up = os.path.dirname(out_path)
         if not os.path.exists(out_up):
             fatal(localize("cli.run.outputnotfound") % out_up)
-        os.mkdir(out_path)
+        try:
+            os.mkdir(out_path)
+        except OSError as e:
+            fatal(localize("cli.run.mkdirfailure")
+                  .format(path=out_path, message=e.strerror))
 
     try:
         compiler = Compiler(args.file, cfg)
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..7d06caa 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -98,6 +98,7 @@ cli.tryrmtree.failure = failed to remove {path}: {message}
 cli.run.filenotfound = file not found: %s
 cli.run.notafile = not a file: %s
 cli.run.outputnotfound = output directory not found: %s
+cli.run.mkdirfailure = failed to create output directory {path}: {message}
 cli.run.aboveunexpectederror = the above unexpected error occurred when compiling
 cli.run.unexpectederror = unexpected error when compiling: %s
 
-- 
2.43.0


From 680b05bce3b5359fcfec4f77813d2588bf2355b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 35/62] fix: -u reported success while the old output could not
 be examined

---
 acaciamc/cli.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index 564b7da..9fb5c33 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -169,12 +169,18 @@ def try_rmtree(path: str):
     Delete `path` if this path exists.
     Report any error as `fatal`.
     """
-    if os.path.exists(path):
-        try:
-            shutil.rmtree(path)
-        except OSError as e:
-            fatal(localize("cli.tryrmtree.failure")
-                  .format(path=path, message=e.strerror))
+    try:
+        os.lstat(path)
+    except FileNotFoundError:
+        return
+    except OSError:
+        # We don't know, so let `rmtree` try to delete it
+        pass
+    try:
+        shutil.rmtree(path)
+    except OSError as e:
+        fatal(localize("cli.tryrmtree.failure")
+              .format(path=path, message=e.strerror))
 
 def run(args):
     if not os.path.exists(args.file):
-- 
2.43.0


From 2737c7dd64ad00ac7c8d88be7dd1ed3ba9ec8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 36/62] fix: undecodable or unreadable sources gave an internal
 error

---
 acaciamc/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 0c715b2..90b1244 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -10,6 +10,7 @@ from typing import (
 )
 import os
 from contextlib import contextmanager
+from io import StringIO
 
 from acaciamc.ast import ModuleMeta
 from acaciamc.error import *
@@ -428,7 +429,7 @@ class Compiler:
         for p in self._loading_files:
             if os.path.samefile(p, path):
                 self.raise_error(Error(ErrorType.CIRCULAR_PARSE, file_=path))
-        src_file = self._open_file(path)
+        src_file = StringIO(self._read_file(path))
         oldf = self._current_file
         oldg = self.current_generator
         self._current_file = path
@@ -439,8 +440,6 @@ class Compiler:
             if not err.location.file_set():
                 err.location.file = path
             raise
-        finally:
-            src_file.close()
         self.current_generator = Generator(
             node=node, main_file=mcfunc,
             file_name=path, compiler=self
@@ -465,7 +464,9 @@ class Compiler:
             with x:
                 s = x.read()
         except Exception as err:
-            self.raise_error(Error(ErrorType.IO, message=str(err)))
+            self.raise_error(
+                Error(ErrorType.IO, message="%s: %s" % (path, err))
+            )
         else:
             return s
 
-- 
2.43.0


From c691912501001596cf0a24df7f3592479499e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 37/62] fix: builtin modules were read in the encoding of the
 user's files

---
 acaciamc/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 90b1244..ec0423a 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -452,8 +452,11 @@ class Compiler:
     # --- I/O Util (Internal use) ---
 
     def _open_file(self, path: str):
+        encoding = self.cfg.encoding
+        if os.path.dirname(path) == self.path[0]:
+            encoding = "utf-8"  # builtin modules
         try:
-            return open(path, 'r', encoding=self.cfg.encoding)
+            return open(path, 'r', encoding=encoding)
         except Exception as err:
             self.raise_error(Error(ErrorType.IO, message=str(err)))
 
-- 
2.43.0


From 8974e96a2326854b8e1dd386ab344eed5fd1a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 38/62] fix: debug comments contained the machine's paths of
 modules

---
 acaciamc/compiler.py           |  2 +-
 acaciamc/mccmdgen/generator.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ec0423a..ab04d38 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -375,7 +375,7 @@ class Compiler:
                 loaded_var = self.allocate()
                 self.add_file(mod_main)
                 mod_main.commands[:0] = [
-                    cmds.Comment(f"## Main file of module {path}"),
+                    cmds.Comment(f"## Main file of module {meta}"),
                     cmds.ScbSetConst(loaded_var, 1)
                 ]
                 finalcm = CachedModule(path, mod, mod_main, loaded_var)
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index fabc810..5beda17 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -712,14 +712,14 @@ class Generator(ASTVisitor):
         return res
 
     def visit_Import(self, node: Import):
-        module, path = self.module_traced(node.meta, node.lineno, node.col)
-        self.write_debug("Got module from %s" % path)
+        module, _ = self.module_traced(node.meta, node.lineno, node.col)
+        self.write_debug("Got module %s" % node.meta)
         self.register_symbol(node.name, module)
         self.ctx.scope.no_export.add(node.name)
 
     def visit_FromImport(self, node: FromImport):
-        module, path = self.module_traced(node.meta, node.lineno, node.col)
-        self.write_debug("Import from %s" % path)
+        module, _ = self.module_traced(node.meta, node.lineno, node.col)
+        self.write_debug("Import from %s" % node.meta)
         for name, alias in node.id2name.items():
             value = self.attribute_of(module, name)
             if value is None:
@@ -729,8 +729,8 @@ class Generator(ASTVisitor):
         self.ctx.scope.no_export.update(node.id2name.values())
 
     def visit_FromImportAll(self, node: FromImportAll):
-        module, path = self.module_traced(node.meta, node.lineno, node.col)
-        self.write_debug("Import everything from %s" % path)
+        module, _ = self.module_traced(node.meta, node.lineno, node.col)
+        self.write_debug("Import everything from %s" % node.meta)
         for name in module.attribute_table.all_names():
             self.register_symbol(name, self.attribute_of(module, name))
             self.ctx.scope.no_export.add(name)
-- 
2.43.0


From ab6ea553d2cb48d47c113eabc7f0a8d10975073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 39/62] fix: map.update in const functions crashed the compiler

---
 acaciamc/objects/map_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
-- 
2.43.0


From c235e6440e6ab92a2b581682360c0a28f6afd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 40/62] fix: very long integer literals gave an internal error

---
 acaciamc/tokenizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..65aa9d7 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -579,7 +579,11 @@ class Tokenizer:
         else:  # integer
             if not res:
                 self.error(ErrorType.INTEGER_REQUIRED, base=base)
-            value = int(''.join(res), base=base)
+            try:
+                value = int(''.join(res), base=base)
+            except ValueError:
+                # Python refuses to convert extremely long numbers
+                self.error(ErrorType.INT_OVERFLOW, lineno=ln, col=col)
             return Token(TokenType.integer, value=value, lineno=ln, col=col)
 
     def handle_name(self):
-- 
2.43.0


From 00b95f00f743f5b8cef1554132155995a97a863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 41/62] fix: result outside of functions gave an internal error

---
 acaciamc/mccmdgen/generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 5beda17..90d4031 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -949,6 +949,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -1000,9 +1002,6 @@ class Generator(ASTVisitor):
                 if not isinstance(value, ConstExpr):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
-        else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From 14ec223cd5b898900068daf20e041f3baffb661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 42/62] fix: surrogate escapes were accepted but could never be
 written

---
 acaciamc/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 65aa9d7..8057142 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -668,7 +668,7 @@ class Tokenizer:
                 code.append(self.current_char)
                 self.forward()
             unicode = int(''.join(code), base=16)
-            if unicode >= 0x110000:
+            if unicode >= 0x110000 or 0xd800 <= unicode < 0xe000:
                 _err()
             return chr(unicode)
         # when escape can't be recognized, just return "\\"
-- 
2.43.0


From 4c8e628061bdc549631fdffabf0a02f393be5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 43/62] fix: math.randint with an empty range wrote an invalid
 command

---
 acaciamc/lang/en_US.lang | 4 ++++
 acaciamc/modules/math.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 7d06caa..77e96dc 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -326,6 +326,10 @@ modules.builtins.swap.differenttype = must have the same type as the other varia
 
 ### modules/math.py ###
 
+## randint ##
+
+modules.math.randint.empty = must not be less than `min`
+
 ##　pow ##
 
 modules.math.pow.negative = must be a non-negative integer
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 71dbf71..2465eaa 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -28,6 +28,8 @@ def _randint(compiler, min_: int, max_: int):
     randint(const min: int, const max: int) -> int
     Get a random integer between `min` and `max` (inclusive).
     """
+    if min_ > max_:
+        raise axe.ArgumentError("max", localize("modules.math.randint.empty"))
     return IntOpGroup(init=IntRandom(min_, max_))
 
 class IntXOpSelf(IntOp):
-- 
2.43.0


From 7ffb1ac6d1fa6258a25a15f75462ad3e7d00b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 44/62] fix: wrong arguments of virtual methods were reported
 without a place

---
 acaciamc/objects/functions.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f9ce73b..ae364ea 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -498,7 +498,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 Optional[Callable[[], "TaggedEntity"]]
             ]] = {}
         self.files: List[Tuple[
-            ARGS_T, KEYWORDS_T, cmds.MCFunctionFile, "Generator"
+            ARGS_T, KEYWORDS_T, cmds.MCFunctionFile, "Generator",
+            SourceLocation
         ]] = []
         self.result_var = result_var
         self.func_repr = self.name
@@ -544,7 +545,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             # NOTE this method may also be called while generating
             # other dispatchers, even after our last `_generate`.
             compiler.before_finish(self._generate)
-        self.files.append((args, keywords, file, compiler.current_generator))
+        generator = compiler.current_generator
+        location = generator.node_location(generator.processing_node)
+        self.files.append((args, keywords, file, generator, location))
         compiler.add_file(file)
         commands.append(cmds.Execute(
             [cmds.ExecuteEnv("as", self.object.to_str())],
@@ -560,12 +563,18 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
-                     bm: _BoundMethod) -> CMDLIST_T:
-            result, commands = bm.call_withframe(
-                args, keywords, compiler,
-                location=
-                    localize("objects.function.bvm.dispatcher") % self.name
-            )
+                     bm: _BoundMethod, location: SourceLocation
+                     ) -> CMDLIST_T:
+            try:
+                result, commands = bm.call_withframe(
+                    args, keywords, compiler,
+                    location=
+                        localize("objects.function.bvm.dispatcher") % self.name
+                )
+            except Error as err:
+                if not err.location.file_set():
+                    err.location = location
+                raise
             commands.extend(result.export(self.result_var, compiler))
             return commands
 
@@ -575,7 +584,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         else:
             only_bm = only_selfvar = None
         old_generator = compiler.current_generator
-        for args, keywords, file, generator in self.files:
+        for args, keywords, file, generator, location in self.files:
             # Temporary scores are allocated through the generator
             compiler.current_generator = generator
             file.write_debug(
@@ -589,7 +598,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     file.extend(only_selfvar.clear())
                     # XXX direct access to TaggedEntity.tag
                     file.write("tag @s add %s" % only_selfvar.tag)
-                file.extend(_call_bm(args, keywords, only_bm))
+                file.extend(_call_bm(args, keywords, only_bm, location))
                 continue
             # Fallback
             for bm, templates, get_self_var in self.impls.values():
@@ -602,7 +611,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, bm)
+                commands = _call_bm(args, keywords, bm, location)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From bcb5c8636d344f4f8aa55a9813264a51e4b81f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 45/62] fix: deeply nested or endlessly recursive sources gave
 an internal error

---
 acaciamc/error.py               | 2 ++
 acaciamc/lang/en_US.lang        | 1 +
 acaciamc/mccmdgen/ctexecuter.py | 5 ++++-
 acaciamc/mccmdgen/generator.py  | 5 ++++-
 acaciamc/parser.py              | 6 +++++-
 5 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..bda82df 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -57,6 +57,8 @@ class ErrorType(LocalizedEnum):
     INVALID_VARDEF_STMT = "error.errortype.invalidvardefstmt"
     NONSTATIC_CONST_METHOD = "error.errortype.nonstaticconstmethod"
     # Command Generator
+    # TOO_COMPLEX is used by both Generator and Parser
+    TOO_COMPLEX = "error.errortype.toocomplex"
     NAME_NOT_DEFINED = "error.errortype.namenotdefined"
     HAS_NO_ATTRIBUTE = "error.errortype.hasnoattribute"
     MODULE_NO_ATTRIBUTE = "error.errortype.modulenoattribute"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 77e96dc..1f68079 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -132,6 +132,7 @@ error.errortype.nondefaultargafterdefault = Non-default argument after default a
 error.errortype.invalidfuncport = This type of function cant use qualifier "{port}"
 error.errortype.invalidvardefstmt = Invalid variable definition target
 error.errortype.nonstaticconstmethod = "Non-static method cant be compile time function"
+error.errortype.toocomplex = Code is nested too deeply or calls itself endlessly at compile time
 error.errortype.namenotdefined = Name "{name}" is not defined
 error.errortype.hasnoattribute = "{value_type}" objects have no attribute "{attr}"
 error.errortype.modulenoattribute = Module "{module}" does not have attribute "{attr}"
diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..9daf1c5 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -45,7 +45,10 @@ class CTExecuter(ASTVisitor):
     def visit(self, node: AST, **kwds):
         oldnode = self.curnode
         self.curnode = node
-        res = super().visit(node, **kwds)
+        try:
+            res = super().visit(node, **kwds)
+        except RecursionError:
+            self.error_node(node, ErrorType.TOO_COMPLEX)
         self.curnode = oldnode
         return res
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 90d4031..2273269 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -209,7 +209,10 @@ class Generator(ASTVisitor):
         if node.show_debug:
             self.write_debug(type(node).__name__)
         # visit the node
-        res = super().visit(node, **kwargs)
+        try:
+            res = super().visit(node, **kwargs)
+        except RecursionError:
+            self.error_node(node, ErrorType.TOO_COMPLEX)
         # set back node info
         self.processing_node = old_node
         self.node_depth -= 1
diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..c8ae242 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -911,7 +911,11 @@ class Parser:
         pos = self.current_pos
         stmts = []
         while self.current_token.type != TokenType.end_marker:
-            stmts.append(self.statement())
+            try:
+                stmt = self.statement()
+            except RecursionError:
+                self.error(ErrorType.TOO_COMPLEX)
+            stmts.append(stmt)
         return Module(stmts, **pos)
 
     def argument_table(self, allowed_ports: Tuple[FuncPortType],
-- 
2.43.0


From 3c68f6e4f8f356a4fb6eb23b53fb619195a2ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 46/62] fix: augmented assignments to unsupported types gave an
 internal error

---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..88d2d10 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From 8753ec4247305c31d976c99bd6545e3629b764c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 47/62] fix: "%{}" in format strings gave an internal error

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index dc407a4..8fec645 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 2e91aa8d1181603d103178e2c5a4e73d1efd493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 48/62] fix: overflowing floats were written to commands as inf

---
 acaciamc/objects/float_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..b67226b 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -3,6 +3,7 @@
 __all__ = ["FloatDataType", "Float", "FloatType"]
 
 from functools import partialmethod
+from math import isfinite
 
 from acaciamc.error import Error, ErrorType
 from acaciamc.tools import axe, cmethod_of
@@ -38,6 +39,8 @@ class Float(ConstExprCombined):
 
     def __init__(self, value: float):
         super().__init__(FloatDataType())
+        if not isfinite(value):
+            raise Error(ErrorType.CONST_ARITHMETIC, message="float overflows")
         self.value = value
 
     def cstringify(self) -> str:
-- 
2.43.0


From 0d41cb9b53fa496f1ffe8a2f9109755cda55d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 49/62] fix: comparing True or False with another type gave an
 internal error

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c14979d..49b6332 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -164,6 +164,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From f9d2bf3780645e3abc0fa95a64ea9cd1dd1a9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 50/62] fix: non-constant arguments of compile-time functions
 gave an internal error

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From 5e79fc047bd2d7b7257f6207864c9bc1b362f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 51/62] fix: errors of inline calls were located at the start
 of the function's module

---
 acaciamc/mccmdgen/generator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 2273269..7edccba 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1229,25 +1229,27 @@ class Generator(ASTVisitor):
             self.ctx.current_function = func
             self.ctx.function_state = FUNC_INLINE
             # Register args into scope
+            # The errors raised here are located by the caller, since
+            # it may be in another module.
             arg2value = func.arg_handler.match(args, keywords)
             for arg, value in arg2value.items():
                 port = func.arg_ports[arg]
                 if port is FuncPortType.by_reference:
                     if not value.is_assignable():
-                        self.error_c(ErrorType.CANT_REF_ARG, arg=arg)
+                        raise Error(ErrorType.CANT_REF_ARG, arg=arg)
                     self.register_symbol(arg, value)
                 elif port is FuncPortType.by_value:
                     dt = value.data_type
                     if not isinstance(dt, Storable):
-                        self.error_c(ErrorType.UNSUPPORTED_ARG_TYPE,
-                                     arg=arg, arg_type=str(dt))
+                        raise Error(ErrorType.UNSUPPORTED_ARG_TYPE,
+                                    arg=arg, arg_type=str(dt))
                     tmp = dt.new_var(self.compiler)
                     self.register_symbol(arg, tmp)
                     self.current_file.extend(value.export(tmp, self.compiler))
                 else:
                     assert port is FuncPortType.const
                     if not isinstance(value, ConstExpr):
-                        self.error_c(ErrorType.ARG_NOT_CONST, arg=arg)
+                        raise Error(ErrorType.ARG_NOT_CONST, arg=arg)
                     self.register_symbol(arg, value)
             # Visit body
             file.write_debug("## Start of inline function")
@@ -1261,12 +1263,12 @@ class Generator(ASTVisitor):
                 if rt is None or rt.matches_cls(NoneDataType):
                     result = NoneLiteral()
                 else:
-                    self.error_c(ErrorType.NEVER_RESULT)
+                    raise Error(ErrorType.NEVER_RESULT)
             else:
                 got = result.data_type
                 if (rt is not None) and (not rt.matches(got)):
-                    self.error_c(ErrorType.WRONG_RESULT_TYPE,
-                                 expect=str(rt), got=str(got))
+                    raise Error(ErrorType.WRONG_RESULT_TYPE,
+                                expect=str(rt), got=str(got))
         return result, file.commands
 
     def ccall_const_func(self, func: AcaciaCTFunction,
-- 
2.43.0


From eabc44203b1b2023c243a828580e3bd4b0a0fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 52/62] fix: keys 1, True and 1.0 of maps collided at compile
 time

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 49b6332..323df8f 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -154,7 +154,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # NOTE True == 1 in Python
+        return (BoolLiteral, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index b67226b..80fd491 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -47,7 +47,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # NOTE 1.0 == 1 in Python
+        return (Float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From 4a765a83511dc28e5adcb76dcf31acf7b9077aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 53/62] fix: assigning an argument of a const function changed
 the caller's variable

---
 acaciamc/mccmdgen/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7edccba..4ea0c8c 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1276,9 +1276,9 @@ class Generator(ASTVisitor):
         with self.set_ctx(func.context):
             ctexec = CTExecuter(self.ctx.scope, self, self.file_name)
             for arg, value in arg2value.items():
-                if isinstance(value, CTObj):
-                    value = CTObjPtr(value)
-                ctexec.current_scope.set(arg, value)
+                # Arguments are passed by value: assigning to them must
+                # not change the variables of the caller.
+                ctexec.current_scope.set(arg, CTObjPtr(abs(value)))
             for stmt in func.node.body:
                 ctexec.visittop(stmt)
             result = ctexec.result
-- 
2.43.0


From 80c259ad3c17fd5554fb08965dd97b1b7b6e1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 54/62] fix: calls of const functions modified the default
 values of arguments

---
 acaciamc/mccmdgen/ctexpr.py   | 4 ++++
 acaciamc/objects/functions.py | 8 ++++++++
 acaciamc/objects/list_.py     | 3 +++
 acaciamc/objects/map_.py      | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/acaciamc/mccmdgen/ctexpr.py b/acaciamc/mccmdgen/ctexpr.py
index e2f5624..dbd76de 100644
--- a/acaciamc/mccmdgen/ctexpr.py
+++ b/acaciamc/mccmdgen/ctexpr.py
@@ -92,6 +92,10 @@ class CTObj:
     def chash(self) -> Hashable:
         raise InvalidOpError
 
+    def ccopy(self) -> "CTObj":
+        """Return a value that does not change when this is modified."""
+        return self
+
 class CTObjPtr:
     def __init__(self, value: CTObj):
         self.set(value)
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index ae364ea..263fc93 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -323,6 +323,14 @@ class CTArgHandler(ArgumentHandler[
             value = value.to_ctexpr()
         return value
 
+    def match(self, args, keywords):
+        res = super().match(args, keywords)
+        for arg, value in res.items():
+            if value is self.arg_defaults.get(arg):
+                # Calls must not modify the default value.
+                res[arg] = abs(value).ccopy()
+        return res
+
     def type_check(self, arg: str, value: CTExpr, dt: "CTDataType"):
         v = abs(value)
         if not dt.is_typeof(v):
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..74dd9a1 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -231,6 +231,9 @@ class CTConstList(CTObj):
     def chash(self):
         return tuple(abs(x).chash() for x in self.ptrs)
 
+    def ccopy(self):
+        return type(self)([abs(x).ccopy() for x in self.ptrs])
+
     def to_rt(self):
         return AcaciaList([abs(x).to_rt() for x in self.ptrs])
 
diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index 859d377..c7856f1 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -215,6 +215,10 @@ class CTConstMap(CTObj):
             return ptr
         return None
 
+    def ccopy(self):
+        return type(self)(self.citerate(),
+                          [abs(v).ccopy() for v in self.values()])
+
     def to_rt(self):
         return Map((k.to_rt() for k in self.citerate()),
                    (abs(v).to_rt() for v in self.values()))
-- 
2.43.0


From 45f6120687d4cb9901149fd3146f36275ef19df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 55/62] fix: variables defined in while loops of const
 functions were refused from the second round on

---
 acaciamc/mccmdgen/ctexecuter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 9daf1c5..102db0c 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -328,8 +328,9 @@ class CTExecuter(ASTVisitor):
                 )
             return condition.value
         while _while_cond():
-            for stmt in node.body:
-                self.visit(stmt)
+            with self.new_scope():
+                for stmt in node.body:
+                    self.visit(stmt)
 
     def visit_For(self, node: For):
         iterable: CTObj = abs(self.visit(node.expr))
-- 
2.43.0


From 733097dd06307f47416e4837c53862d3971e3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 56/62] fix: zero steps of lists gave an internal error

---
 acaciamc/lang/en_US.lang  | 4 ++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 1f68079..2182710 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -448,3 +448,7 @@ objects.function.unknown = <unknown>
 
 generator.visit.newcall.tracemsg = Calling new on %s
 generator.visit.newcall.tracenote = Callee defined at %s
+
+### objects/list_.py ###
+
+objects.list.zerostep = must not be zero
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 74dd9a1..cdc99c2 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -16,6 +16,7 @@ from itertools import repeat
 from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
+from acaciamc.localization import localize
 from acaciamc.error import *
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def _validate_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From 1ac44360eac07d31fee2c7f8c7b164d2ed072d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 57/62] fix: extending a list by itself never ended

---
 acaciamc/objects/list_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index cdc99c2..7f7bf44 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -263,7 +263,8 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            # NOTE `values` may be our own elements.
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 24a378aa9c8bf5439d31d61cd54546d3a486e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 58/62] fix: constructing a struct into a variable of its base
 template gave an internal error

---
 acaciamc/objects/struct_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 7d85230..bebe5de 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -69,7 +69,10 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
             commands = []
             exports = [
                 (value, instance.vars[name])
-                for name, value in fields.items() if value is not None
+                for name, value in fields.items()
+                # `instance` may be of a base template that doesn't have
+                # some fields.
+                if value is not None and name in instance.vars
             ]
             if not fresh:
                 # Read all the old values before writing any field:
-- 
2.43.0


From 58eff07e5f53536bc9df9fa98ccb06776c3976c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 59/62] fix: list.repeat of a compile-time container in a const
 function

---
 acaciamc/objects/list_.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 7f7bf44..8d75556 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -73,7 +73,10 @@ class ListType(Type):
         @axe.chop
         @axe.arg("object", axe.AnyValue(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
-        def _repeat(compiler, obj: AcaciaExpr, times: int):
+        def _repeat(compiler, obj: Union[AcaciaExpr, CTObj], times: int):
+            if not isinstance(obj, AcaciaExpr):
+                # Compile-time only values in const functions
+                return CTList(repeat(obj, times))
             return AcaciaList(repeat(obj, times))
         @cmethod_of(self, "geometric")
         @axe.chop
-- 
2.43.0


From ece53da768a02d5691befbd7508135533bcb2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 60/62] fix: music handles all messages of a track at their
 time

---
 acaciamc/modules/music.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 24d6143..86656cd 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -396,12 +396,7 @@ class Music(ConstExprCombined):
 
     def main_loop(self):
         # Read messages
-        for i, track in enumerate(self.tracks):
-            if not track:
-                continue
-            message = track[0]
-            if message.time > self.mt - self.last_msg_mt[i]:
-                continue
+        for message in self.due_messages():
             # Handle message
             mtype = message.type
             if mtype == "note_on":
@@ -414,9 +409,6 @@ class Music(ConstExprCombined):
                     self.channel_volume[message.channel] = message.value
             elif mtype == "program_change":
                 self.channel_instrument[message.channel] = message.program
-            # Reset timer
-            self.last_msg_mt[i] = self.mt
-            track.pop(0)
         # Time increment
         self.mt += 1
         # bpm * mt_per_beat is MT per minute. Divide it by 1200 to get MT
@@ -430,6 +422,16 @@ class Music(ConstExprCombined):
             if self.cur_chunk_size >= self.chunk_size:
                 self.new_file()
 
+    def due_messages(self):
+        """Messages to handle at current MT. NOTE a track may have several
+        messages at the same time.
+        """
+        for i, track in enumerate(self.tracks):
+            while track and track[0].time <= self.mt - self.last_msg_mt[i]:
+                # Reset timer
+                self.last_msg_mt[i] = self.mt
+                yield track.pop(0)
+
     def new_file(self):
         self.cur_file = cmds.MCFunctionFile()
         self.files.append(self.cur_file)
-- 
2.43.0


From 3d5088cd9f37b347cd7ee5014dde1ccac29e1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 61/62] fix: with_font around a text that begins or ends with a
 font leaves that part alone

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 8fec645..6a64980 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -285,8 +285,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From 9250161b14655c77c658df390655f61ed0f72c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 62/62] fix: augmented assignments in const functions try the
 reflected operator

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 102db0c..2a6b42c 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -285,11 +285,14 @@ class CTExecuter(ASTVisitor):
         try:
             res = getattr(abs(target), BINOPS[node.operator])(value)
         except InvalidOpError:
-            t1 = abs(target).cdata_type.name
-            t2 = value.cdata_type.name
-            self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
-                            operand=f'"{t1}", "{t2}"')
+            try:
+                res = getattr(value, RBINOPS[node.operator])(abs(target))
+            except InvalidOpError:
+                t1 = abs(target).cdata_type.name
+                t2 = value.cdata_type.name
+                self.error_node(node, ErrorType.INVALID_OPERAND,
+                                operator=f'{node.operator.value}=',
+                                operand=f'"{t1}", "{t2}"')
         target.set(res)
 
     def visit_ReferenceDef(self, node: ReferenceDef):
-- 
2.43.0

