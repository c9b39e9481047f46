From 2c89cbf0699d41b4143936211dd43b87cbf891dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:37 +0000
Subject: [PATCH 01/62] fix: keep a lone jump in the block of a negated
 if/elseif

The headers of a negated block jump over the block, so they must not be
pointed at the target of the jump inside it.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..6e6fbc3 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -171,6 +171,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
 
         if (
             len(self._header_jump_blueprints) > 0
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
-- 
2.43.0


From 3c34a46bd79efe557bdbc88e15a6e0a6cfef0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:58 +0000
Subject: [PATCH 02/62] fix: do not drop a jump over a conditional op that
 targets the next op

A branch, case or call to the label right after it is not removed, so a
jump in front of it still has to jump over it.
---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..e8312a1 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -74,8 +74,9 @@ class LabelFinalizer:
                 if isinstance(r[cursor], SsbLabelJump):
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
+                    # Only regular jumps are removed, branches, cases and calls stay.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From 08b018f73a0cec2c7091ea46cf1195f977605ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:47 +0000
Subject: [PATCH 03/62] fix: keep the lone jump of a case that is reached by
 fall-through

The header of a case that only contains a jump is pointed at the target of
that jump, but the jump must stay if the previous case runs into it.
---
 .../compiler/compile_handlers/abstract.py     |  9 ++++++--
 .../blocks/switches/case_block.py             |  4 ++--
 .../blocks/switches/switch_block.py           | 22 +++++++++++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 6e6fbc3..88e4d63 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -144,13 +144,16 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self.start_label = None
         self.end_label = None
 
-    def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
+    def _process_block(
+        self, insert_the_jump_if_needed: bool = True, keep_lone_jump: bool = False
+    ) -> list[SsbOperation]:
         """
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
             - If the sub-block only has one single label jump, it's removed and the target
-              of the headers is changed to the target of that jump
+              of the headers is changed to the target of that jump. With keep_lone_jump the jump also
+              stays in the block, because it can be reached without one of the headers.
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -181,6 +184,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
                 assert ops[0].label is not None
                 self.processed_header_jumps.append(hjb.build_for(ops[0].label))
             self.start_label = ops[0].label
+            if keep_lone_jump:
+                return [ops[0], self.end_label]
             return [self.end_label]  # in this case we don't actually have any operations to write
 
         if insert_the_jump_if_needed and (
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
index 238bf32..3390f4d 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
@@ -64,12 +64,12 @@ class CaseBlockCompileHandler(
             self._header_jump_blueprints = [self._case_header_handler.collect()]
         return self._header_jump_blueprints[0]
 
-    def collect(self) -> list[SsbOperation]:
+    def collect(self, reached_by_fallthrough: bool = False) -> list[SsbOperation]:
         if self.is_message_case:
             raise SsbCompilerError(_("Invalid message switch case call."))
         # get_header_jump_template must be called first.
         self.compiler_ctx.add_switch_case(self)
-        retval = self._process_block(False)
+        retval = self._process_block(False, keep_lone_jump=reached_by_fallthrough)
         self.compiler_ctx.remove_switch_case()
         return retval
 
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..2045934 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,11 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import (
+    CompilerCtx,
+    SsbLabelJumpBlueprint,
+    does_op_end_control_flow,
+)
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,13 +109,17 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
                 cases_waiting_for_a_block.append(h)
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
-                ops = h.collect()
+                if isinstance(h, CaseBlockCompileHandler):
+                    ops = h.collect(falls_through)
+                else:
+                    ops = h.collect()
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
@@ -127,6 +135,7 @@ class SwitchBlockCompileHandler(
                         )
                 cases_waiting_for_a_block = []
                 case_ops += ops
+                falls_through = self._falls_through(ops)
         # 3c. Edge case: We expected a next case with ops, but got end of switch instead. Invalid!
         if len(cases_waiting_for_a_block) > 0:
             raise SsbCompilerError(f(_("Unexpected switch end (line {self.ctx.start.line})")))
@@ -136,6 +145,15 @@ class SwitchBlockCompileHandler(
             header_ops += h.get_processed_header_jumps()
         return header_ops + [default_start_label] + default_ops + case_ops + [end_label]
 
+    @staticmethod
+    def _falls_through(ops: list[SsbOperation]) -> bool:
+        """Whether the end of the given case block can be reached. The last op is always it's own end label."""
+        if len(ops) < 2:
+            return False
+        if isinstance(ops[-2], SsbLabel):
+            return True
+        return not does_op_end_control_flow(ops[-2], ops[-3] if len(ops) > 2 else None)
+
     def add(self, obj: _SupportedHandlers) -> None:
         if isinstance(obj, CaseBlockCompileHandler):
             self._case_handlers.append(obj)
-- 
2.43.0


From 7dc6d320f743b2734c87c23c731b8d62e7dff5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 04/62] fix: give labels at the end of a routine an op to point
 to

Branches, cases, calls and jumps from other routines to a label at the end
of a routine were turned into an unconditional Return, pointed at the next
routine or rejected; jumps reached through a label were removed; a routine
which only consists of a label crashed the compiler.
---
 .../compiler/compile_handlers/abstract.py     | 16 +++++++-
 .../compile_handlers/functions/coro_def.py    |  2 +-
 .../functions/for_target_def.py               |  2 +-
 .../compile_handlers/functions/simple_def.py  |  2 +-
 .../ssb_converting/compiler/utils.py          | 38 +++++++++++++++----
 5 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 88e4d63..dfcc6f4 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -33,9 +33,14 @@ else:
 
 from antlr4 import ParserRuleContext
 
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
+from explorerscript.ssb_converting.compiler.utils import (
+    CompilerCtx,
+    SsbLabelJumpBlueprint,
+    does_op_end_control_flow,
+    end_labels_need_op,
+)
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_DUMMY_END, OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
@@ -267,6 +272,13 @@ class AbstractFuncdefCompileHandler(AbstractCompileHandler[CTX, AbstractCompileH
             ops += ops_of_h
         return ops
 
+    def collect_routine_ops(self) -> list[SsbOperation]:
+        """Collects all operations in a routine and makes sure that labels at it's end have an op to point to."""
+        ops = self.collect_ops()
+        if end_labels_need_op(ops):
+            ops.append(self._generate_operation(OP_DUMMY_END, []))
+        return ops
+
     @abstractmethod
     def get_new_routine_id(self, old_id: int) -> int:
         pass
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
index 60a6641..680b405 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRout
 class CoroDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Coro_defContext]):
     def collect(self) -> Any:
         """Collects name of the coroutine, routine info and operations."""
-        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_ops()
+        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return old_id + 1
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..42a5366 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -67,7 +67,7 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         else:
             raise SsbCompilerError("A targeted routine must be 'for' an 'actor', 'object' or 'performer'.")
 
-        return routine_info, self.collect_ops()
+        return routine_info, self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
index adc1168..a0d1ac5 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
@@ -33,7 +33,7 @@ from explorerscript.util import exps_int
 class SimpleDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Simple_defContext]):
     def collect(self) -> Any:
         """Collects routine info and operations."""
-        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_ops()
+        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..a25b5d7 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -38,6 +38,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
     OP_DUMMY_END,
+    OP_JUMP,
     OPS_CTX,
 )
 from explorerscript.util import f, _
@@ -256,17 +257,20 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
     """
     Checks if the last opcode of a routine is a label, and if so
     removes it. if there are jumps to it, they are removed and replaced with an OP_DUMMY_END.
+    Labels at the end of a routine must only be targets of regular jumps in it (see end_labels_need_op).
     """
     logger.debug("Stripping last label...")
     returned_routine_ops = []
+    # Labels can also be jumped to from other routines.
+    jump_counts: dict[int, int] = {}
     for routine in routine_ops:
-        if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
 
-            while isinstance(routine[-1], SsbLabel):
+    for routine in routine_ops:
+        if len(routine) > 0:
+            while len(routine) > 0 and isinstance(routine[-1], SsbLabel):
                 indices_to_remove = set()
                 label = routine[-1]
                 # Remove the label
@@ -284,7 +288,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                     else:
                         if isinstance(op, SsbLabel):
                             # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
+                            if jump_counts.get(op.id, 0) > 0:
                                 op_before_ends_control_flow = False
                         else:
                             op_before_ends_control_flow = does_op_end_control_flow(
@@ -297,6 +301,26 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
     return returned_routine_ops
 
 
+def end_labels_need_op(ops: list[SsbOperation]) -> bool:
+    """
+    Returns whether the labels at the end of a routine need an op to point to. This is the case if they are targets of
+    ops which can not be replaced by an OP_DUMMY_END or if they may be targets of jumps in other routines.
+    """
+    end_label_ids: set[int] = set()
+    for op in reversed(ops):
+        if not isinstance(op, SsbLabel):
+            break
+        if op.original_name is not None:
+            return True
+        end_label_ids.add(op.id)
+
+    for i, op in enumerate(ops):
+        if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id in end_label_ids:
+            if op.root.op_code.name != OP_JUMP or (i > 0 and ops[i - 1].op_code.name in OPS_CTX):
+                return True
+    return False
+
+
 def does_op_end_control_flow(op: SsbOperation, previous_op: SsbOperation | None) -> bool:
     if previous_op is not None and previous_op.op_code.name in OPS_CTX:
         return False
-- 
2.43.0


From 3f6aef931504348238d44b9372ba7bb92b4af9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:52 +0000
Subject: [PATCH 05/62] fix: keep a jump in a with-block even if its target
 follows

Without the jump the context op would apply to the op after the block.
---
 .../ssb_converting/compiler/label_finalizer.py   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index e8312a1..3411dda 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -25,7 +25,7 @@ from __future__ import annotations
 import logging
 
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OPS_CTX
 
 logger = logging.getLogger(__name__)
 
@@ -51,10 +51,10 @@ class LabelFinalizer:
                     new_r.append(op)
                 else:
                     op_was_removed = False
-                    if isinstance(op, SsbLabelJump) and op.root.op_code.name == OP_JUMP:
+                    if self._is_removable_jump(r, op_i):
                         # Remove any regular jumps that just jump to a label right after
                         for label in self._labels_after(r, op_i):
-                            if op.label == label:
+                            if op.label == label:  # type: ignore
                                 op_was_removed = True
 
                     if not op_was_removed:
@@ -64,6 +64,14 @@ class LabelFinalizer:
                             self.label_offsets[label.id] = label.offset
                         labels_waiting = []
 
+    @staticmethod
+    def _is_removable_jump(r: list[SsbOperation], op_i: int) -> bool:
+        op = r[op_i]
+        if not isinstance(op, SsbLabelJump) or op.root.op_code.name != OP_JUMP:
+            return False
+        # The op of a with-block must stay, the context would apply to the next op otherwise.
+        return op_i == 0 or r[op_i - 1].op_code.name not in OPS_CTX
+
     @classmethod
     def _labels_after(cls, r: list[SsbOperation], op_i: int, skip_redundant_label_jumps: bool = True) -> list[SsbLabel]:
         """Returns all labels in r after the opcode with index op_i (until the next non-label)."""
@@ -76,7 +84,7 @@ class LabelFinalizer:
                     # we only do this once because of performance concerns.
                     # Only regular jumps are removed, branches, cases and calls stay.
                     have_match = False
-                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
+                    if skip_redundant_label_jumps and cls._is_removable_jump(r, cursor):
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From 1bbfed4d8f03cffce198e22490cbfa11a5f47a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 06/62] fix: reject jump ops that are written without a jump
 target

Writing e.g. Branch(1, 2); or Jump(); as a plain operation silently gave an
op without a jump target.
---
 .../ssb_converting/compiler/label_jump_to_remover.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 84eebff..5f63ba6 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -31,7 +31,7 @@ import logging
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET, SsbLabelJump, SsbLabel
 from explorerscript.util import f, _
 
 logger = logging.getLogger(__name__)
@@ -64,4 +64,8 @@ class OpsLabelJumpToRemover:
                     # Remove
                     pass
                 else:
+                    if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                        raise SsbCompilerError(
+                            f(_("The operation {op.op_code.name} can not be used without a label to jump to."))
+                        )
                     new_rtn_ops.append(op)
-- 
2.43.0


From b649785770ec5eb9f39f9e92424cd9e29e2dff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 07/62] fix: order macros topologically before compiling them

The breadth-first order did not put a macro after all macros it calls when
the calls have different depths, so valid programs were rejected depending on
the order of the macro definitions. The cycle check took exponential time.
---
 .../macro_resolution_order.py                 | 27 ++++---------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..d42a2be 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -22,7 +22,7 @@
 #
 from __future__ import annotations
 
-from igraph import Graph, Vertex
+from igraph import Graph
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
@@ -51,16 +51,7 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
@@ -89,17 +80,9 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
             self._dependency_graph.add_vertex(name, label=name)
 
     def _check_cycles(self) -> None:
-        for v in self._dependency_graph.vs:
-            if any(self._has_path(out_e.target, v) for out_e in v.out_edges()):
+        for component in self._dependency_graph.connected_components(mode="strong"):
+            v = self._dependency_graph.vs[component[0]]
+            if len(component) > 1 or self._dependency_graph.are_adjacent(v, v):
                 raise SsbCompilerError(
                     f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
                 )
-            # Check direct cycles
-            if any(v.index == e.target for e in v.out_edges()):
-                raise SsbCompilerError(
-                    f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
-                )
-
-    def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
-- 
2.43.0


From 1f3dcefc50fb281f22a0d58c19893fd16732df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 08/62] fix: give every macro its own source map

All macros of a file shared one source map, so expanding a macro replayed the
position marks of all of them - and never returned when a macro with a position
mark was called from another macro of the same file (the list was appended to
while being iterated).
---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..90cd92c 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -75,6 +75,8 @@ class MacroVisitor(ExplorerScriptVisitor):
 
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
+        # Each macro has its own source map: it is replayed for every op and position mark when the macro is called.
+        self.source_map_builder = self.compiler_ctx.source_map_builder = SourceMapBuilder()
         self._root_handler = macrodef_handler
         self.visitChildren(macrodef_handler.ctx)
 
-- 
2.43.0


From a250584cf09632141c683299041ab1e4647bac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 09/62] fix: pass the performance progress list to macros

An indexed test or assignment of a macro variable compiled to the ops for
ordinary variables even when the call passed the performance progress list.
---
 explorerscript/macro.py                       | 36 +++++++++++++++++--
 .../compiler_visitor/macro_visitor.py         |  8 ++++-
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..cc86ccc 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -29,7 +29,16 @@ from typing import MutableSequence
 from explorerscript.source_map import SourceMap, SourceMapBuilder
 from explorerscript.ssb_converting.compiler.utils import Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpParamConstant, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_RETURN, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
+    SsbLabelJump,
+    OP_BRANCH_BIT,
+    OP_BRANCH_PERFORMANCE,
+    OP_JUMP,
+    OP_RETURN,
+    OPS_FLAG__CALC_BIT,
+    OPS_FLAG__SET_PERFORMANCE,
+)
 from explorerscript.util import f, _
 
 
@@ -74,7 +83,14 @@ class ExplorerScriptMacro:
     # This is useful for source maps, to know where the macro file lies relative to the original compiled file.
     included__relative_path: str | None
 
-    def __init__(self, name: str, variables: list[str], blueprints: list[SsbOperation], source_map: SourceMap):
+    def __init__(
+        self,
+        name: str,
+        variables: list[str],
+        blueprints: list[SsbOperation],
+        source_map: SourceMap,
+        performance_progress_list_var_name: str | None = None,
+    ):
         """
         A model for a ExplorerScript macro. Contains the processed (= all sub-macros are already fully processed)
         opcodes by the MacroVisitor and some metadata.
@@ -85,6 +101,7 @@ class ExplorerScriptMacro:
         self.included__absolute_path = None
         self.source_map: SourceMap = source_map
         self.included__relative_path = None
+        self.performance_progress_list_var_name = performance_progress_list_var_name
 
     def build(
         self,
@@ -205,7 +222,20 @@ class ExplorerScriptMacro:
             mapping = self.source_map.get_op_line_and_col__direct(blueprint_op.offset)
             assert mapping is not None
             smb.add_macro_opcode(new_op_idx, self.included__relative_path, self.name, mapping.line, mapping.column)
-        return SsbOperation(new_op_idx, blueprint_op.op_code, self._process_parameters(blueprint_op.params, params))
+        op_code = blueprint_op.op_code
+        new_params = self._process_parameters(blueprint_op.params, params)
+        if new_params and new_params[0] is not blueprint_op.params[0]:
+            # If a macro variable that is used with an index turns out to be the performance progress list,
+            # the op has to be the one for the performance progress list.
+            if (
+                isinstance(new_params[0], SsbOpParamConstant)
+                and new_params[0].name == self.performance_progress_list_var_name
+            ):
+                if op_code.name == OP_BRANCH_BIT:
+                    op_code, new_params = SsbOpCode(-1, OP_BRANCH_PERFORMANCE), [*new_params[1:], 1]
+                elif op_code.name == OPS_FLAG__CALC_BIT:
+                    op_code, new_params = SsbOpCode(-1, OPS_FLAG__SET_PERFORMANCE), new_params[1:]
+        return SsbOperation(new_op_idx, op_code, new_params)
 
     def _process_parameters(
         self, original_params: MutableSequence[SsbOpParam], macro_params: dict[str, SsbOpParam]
diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 90cd92c..b052fd5 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -84,7 +84,13 @@ class MacroVisitor(ExplorerScriptVisitor):
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
-        return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
+        return ExplorerScriptMacro(
+            name,
+            variables,
+            blueprints,
+            self.source_map_builder.build(),
+            self.compiler_ctx.performance_progress_list_var_name,
+        )
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
-- 
2.43.0


From 98635119348adab9d36bcccf44aad18808c2cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 10/62] fix: compare source map entries by value, restore call
 sites as tuples

A deserialized source map never compared equal to the original and its macro
call sites came back as lists. A return address of 0 was not rewritten.
---
 explorerscript/source_map.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..565d6f8 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, SourceMapping):
+            return False
+        return type(self) is type(other) and self.serialize() == other.serialize()
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
@@ -206,8 +211,9 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = tuple(data_list[4]) if data_list[4] is not None else None
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0], data_list[1], data_list[2], data_list[3], called_in, data_list[5], data_list[6]
         )
 
 
@@ -346,7 +352,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From 790dd38db0e31efcf87980f6fdff3b926b17ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 11/62] fix: split multi line strings at line breaks only,
 dedent tabs, keep trailing empty lines

---
 explorerscript/ssb_converting/compiler/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index a25b5d7..146dc42 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -204,13 +204,11 @@ def singleline_string_literal(string: str) -> str:
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    all_lines = string.replace("\r\n", "\n").split("\n")
     lines: list[str] = []
     last_line = ""
 
-    if len(all_lines) == 0:
-        first_line = ""
-    elif len(all_lines) == 1:
+    if len(all_lines) == 1:
         first_line = all_lines[0]
     elif len(all_lines) == 2:
         first_line = all_lines[0]
@@ -218,12 +216,12 @@ def multiline_string_literal(string: str) -> str:
     else:
         [first_line, *lines, last_line] = all_lines
 
-    last_line_stripped = last_line.lstrip(" ")
+    last_line_stripped = last_line.lstrip(" \t")
     if len(last_line_stripped) != 0:
         # The last line contains characters, treat it as normal.
         lines.append(last_line)
 
-    whitespace_counts: list[int] = [_count_iter_items(itertools.takewhile(lambda c: c == " ", line)) for line in lines]
+    whitespace_counts: list[int] = [_count_iter_items(itertools.takewhile(lambda c: c in " \t", line)) for line in lines]
     min_whitespace_count = min(whitespace_counts, default=0)
 
     transformed_lines = [line[min_whitespace_count:] for line in lines]
-- 
2.43.0


From d3056c65def61364b8fbb2ee23a8826fd54ae0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 12/62] fix: accept only .5 and .0 as decimal places of
 position marks, allow -.5

---
 explorerscript/common_syntax.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..409c6ab 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -39,18 +39,16 @@ def parse_position_marker_arg(
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
         if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
+            dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From 17d79c40e3f7c512ff7a78401c4374dfd22e8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 13/62] fix: print strings and position mark names so that they
 read back unchanged

---
 .../ssb_converting/ssb_data_types.py          | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..76912dc 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,6 +24,7 @@
 #
 from __future__ import annotations
 
+import re
 import string
 from enum import Enum
 from typing import Union, MutableSequence
@@ -51,13 +52,32 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
 
     if "\n" not in string:
         # Single line string
+        if _SINGLE_LINE_UNSUPPORTED.search(string):
+            # Triple quoted strings are not unescaped.
+            for delimiter in (preferred_multiline_quote, secondary_multiline_quote):
+                if delimiter not in string and not string.endswith(delimiter[0]):
+                    return f"{delimiter}{string}{delimiter}"
+                if _can_be_multiline_string(string, delimiter):
+                    return _repr_multiline_string(string, indent, delimiter)
         return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
+    for delimiter in (preferred_multiline_quote, secondary_multiline_quote):
+        if _can_be_multiline_string(string, delimiter):
+            return _repr_multiline_string(string, indent, delimiter)
+    # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
+    return repr_escaped_string(string, preferred_quote)
+
+
+def repr_escaped_string(string: str, quote: str) -> str:
+    return f"{quote}{escape_newlines(escape_quotes(string, which_quotes=quote))}{quote}"
+
+
+# Backslashes that would escape the next character or the closing quote, and characters that may not be in the literal
+_SINGLE_LINE_UNSUPPORTED = re.compile(r"""\\(?:['"n]|\Z)|[\r\f]""")
+
+
+def _can_be_multiline_string(string: str, delimiter: str) -> bool:
+    # If all lines are indented, the indentation would be lost.
+    return delimiter not in string and any(line[:1] not in (" ", "\t") for line in string.split("\n"))
 
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
@@ -306,7 +326,8 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        name = repr_escaped_string(self.name, "'")
+        return f"Position<{name}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 825dc3a28b524fd486aebfeadb377958af9d22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 14/62] fix: keep leading and trailing newlines in the Pygments
 lexer

---
 explorerscript/pygments/expslexer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..3f9a1ad 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -90,6 +90,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options):  # type: ignore
+        # By default Pygments removes leading and trailing newlines from the input.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From 3dc398c9dc0fa99e3d9e2497a3da9cfc35290c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 15/62] fix: strings with line breaks that end with a carriage
 return

---
 explorerscript/ssb_converting/ssb_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 76912dc..e327a77 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -84,7 +84,9 @@ def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
     lines = string.split("\n")
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
-    return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
+    # "\r\n" would be read as one line break.
+    closing_line = "" if string.endswith("\r") else f"\n{indentprefix}"
+    return f"{delimiter}\n{output}{closing_line}{delimiter}"
 
 
 class SsbRoutineType(Enum):
-- 
2.43.0


From effaeec5104f2fc92abb5f571599baaf6dd69b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 16/62] fix: print dungeon modes other than 0 to 3 as they are

---
 explorerscript/ssb_converting/ssb_data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index e327a77..836aaca 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -442,14 +442,16 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From da119f6e78fc6191a06979c5a66ac57ce1bacd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 17/62] fix: stop writing cycles that have no label instead of
 writing them forever

---
 .../decompiler/write_handlers/block.py            | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index cfea333..a31bbe2 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -92,6 +92,7 @@ class BlockWriteHandler(AbstractWriteHandler):
 
         self.vertex_that_started_block = vertex_that_started_block
         self.last_vertex = None
+        self._written_vertices: set[int] = set()
 
     def write_content(self) -> Vertex | None:
         from explorerscript.ssb_converting.decompiler.write_handlers.simple_op import SimpleOperationWriteHandler
@@ -99,6 +100,11 @@ class BlockWriteHandler(AbstractWriteHandler):
         previous_vertex = None
         is_first_vertex = True
         while self._next_vertex is not None:
+            if not isinstance(self._next_vertex["op"], (SsbLabel, SsbForeignLabel)):
+                # Writing a cycle that has no label to jump to would never end.
+                assert not self._is_being_written(self._next_vertex), "Found a cycle without labels."
+                self._written_vertices.add(self._next_vertex.index)
+
             # Write
             self.last_handler_in_block = WriteHandlerManager.get_for(
                 self._next_vertex, self.decompiler, self, self.vertex_that_started_block, is_first_vertex
@@ -153,3 +159,12 @@ class BlockWriteHandler(AbstractWriteHandler):
 
         self.last_vertex = previous_vertex
         return self._next_vertex
+
+    def _is_being_written(self, vertex: Vertex) -> bool:
+        """Whether this block or one of the blocks it is nested in already contains the vertex."""
+        handler: AbstractWriteHandler | None = self
+        while handler is not None:
+            if isinstance(handler, BlockWriteHandler) and vertex.index in handler._written_vertices:
+                return True
+            handler = handler.parent
+        return False
-- 
2.43.0


From b097ae257c0395b95fad083a0d51f074c225064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 18/62] fix: fall back to SsbScript whatever the reason the
 decompiler failed for

---
 explorerscript/ssb_converting/ssb_decompiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..a74e2d9 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -152,11 +152,11 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If an assertion (or anything else) failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
-            logger.warning("Failed to decompile. Falling back to SsbScript...")
+            logger.warning("Failed to decompile. Falling back to SsbScript...", exc_info=True)
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
             prefix += "// Failed to normally decompile this script. This is either because of a bug\n"
-- 
2.43.0


From 88f8023e47a4ef999ed122f8a6230f56989dde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 19/62] fix: find the routine of jump targets at the last op of
 an earlier routine

---
 .../ssb_converting/decompiler/label_jump_to_resolver.py         | 2 +-
 explorerscript/ssb_converting/ssb_special_ops.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
index 732e081..7dc353d 100644
--- a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
+++ b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
@@ -75,7 +75,7 @@ class OpsLabelJumpToResolver:
 
     def _build_end_offsets(self, routines: Sequence[Sequence[SsbOperation]]) -> list[int]:
         offsets = []
-        prev_offset = 0
+        prev_offset = -1
         for routine in routines:
             if len(routine) > 0:
                 last_op = routine[-1]
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..3e0fedf 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From a43ad2e4a02a35e6b1cf313bf3846ed70efbeb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 20/62] fix: keep the first op of a routine and code that only
 other routines jump to when decompiling

---
 .../decompiler/graph_building/graph_minimizer.py   | 14 ++++++++++++--
 .../decompiler/write_handlers/routine.py           |  9 +++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..97e87ed 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -112,7 +112,7 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
+                        if isinstance(iv["op"], SsbLabel) and not self._is_entry_point(iv):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -695,6 +695,7 @@ class SsbGraphMinimizer:
                     and v["op"].maybe_root is not None
                     and v["op"].root.op_code.name == OP_JUMP
                     and v["op"].get_marker() is None
+                    and not self._is_entry_point(v)
                 ):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
@@ -726,7 +727,7 @@ class SsbGraphMinimizer:
             vs_to_delete = set()
             # Then delete all redundant labels (only one in edge)
             for v in g.vs:
-                if isinstance(v["op"], SsbLabel):
+                if isinstance(v["op"], SsbLabel) and not self._is_entry_point(v):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
@@ -761,6 +762,10 @@ class SsbGraphMinimizer:
         """
         already_visited: set[int] = set()
         self._get_edges__add_edge(g, rtn, rtn_id, label_indices, 0, already_visited)
+        # Other routines may jump to ops which are not reachable from the start of this routine.
+        for i, op in enumerate(rtn):
+            if isinstance(op, SsbLabel) and op.referenced_from_other_routine:
+                self._get_edges__add_edge(g, rtn, rtn_id, label_indices, i, already_visited)
         return
         # TODO: below is for debugging.
 
@@ -888,6 +893,11 @@ class SsbGraphMinimizer:
 
         return next_ops
 
+    @staticmethod
+    def _is_entry_point(v: Vertex) -> bool:
+        """Whether control flow enters the routine here, even if no edge leads to the vertex."""
+        return v["name"] == "v0" or (isinstance(v["op"], SsbLabel) and v["op"].referenced_from_other_routine)
+
     @classmethod
     def _reconnect(
         cls,
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index a5d028e..5abeb61 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -30,6 +30,7 @@ from igraph import Graph
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel
 from explorerscript.ssb_converting.util import Blk
 
 if TYPE_CHECKING:
@@ -57,6 +58,14 @@ class RoutineWriteHandler(AbstractWriteHandler):
                 self.decompiler.write_stmnt("alias previous;")
             else:
                 BlockWriteHandler(self.start_vertex, self.decompiler, self.parent, None).write_content()
+                # Other routines may jump to labels which are not reachable from the start of this routine.
+                for v in self.r_graph.vs:
+                    if (
+                        isinstance(v["op"], SsbLabel)
+                        and v["op"].referenced_from_other_routine
+                        and v["op"].id not in self.decompiler.labels_already_printed
+                    ):
+                        BlockWriteHandler(v, self.decompiler, self.parent, None).write_content()
         self.decompiler.write_line()
 
     def _write_routine_header(self) -> None:
-- 
2.43.0


From 1499a0afea0786f3502fc849220e5bdb4463d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 21/62] fix: write the targets of calls when decompiling and
 continue after the call

---
 .../decompiler/graph_building/graph_minimizer.py     | 12 ++++++------
 .../decompiler/write_handlers/label_jumps/call.py    |  2 +-
 .../decompiler/write_handlers/routine.py             |  4 ++--
 explorerscript/ssb_converting/ssb_decompiler.py      |  8 +-------
 explorerscript/ssb_converting/ssb_special_ops.py     |  9 +++++++++
 5 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 97e87ed..a65144c 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -66,6 +66,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbForeignLabel,
     CallJump,
     OPS_THAT_WILL_JUMP_GUARANTEED,
+    OP_CALL,
 )
 
 logger = logging.getLogger(__name__)
@@ -741,7 +742,6 @@ class SsbGraphMinimizer:
                                 isinstance(v["op"], SsbLabel)
                                 and (
                                     v["op"].force_write
-                                    or v["op"].referenced_from_other_routine
                                     or len(v["op"].markers) > 0
                                 )
                             )
@@ -762,9 +762,9 @@ class SsbGraphMinimizer:
         """
         already_visited: set[int] = set()
         self._get_edges__add_edge(g, rtn, rtn_id, label_indices, 0, already_visited)
-        # Other routines may jump to ops which are not reachable from the start of this routine.
+        # Calls and other routines may jump to ops which are not reachable from the start of this routine.
         for i, op in enumerate(rtn):
-            if isinstance(op, SsbLabel) and op.referenced_from_other_routine:
+            if isinstance(op, SsbLabel) and op.is_entry_point:
                 self._get_edges__add_edge(g, rtn, rtn_id, label_indices, i, already_visited)
         return
         # TODO: below is for debugging.
@@ -870,8 +870,8 @@ class SsbGraphMinimizer:
             and (flow_can_not_end or real_op.op_code.name not in OPS_THAT_END_CONTROL_FLOW)
         ):
             next_ops.append((flow_level, op_i + 1))
-        # If this is a label jump, we can also continue at the label
-        if is_label_jump:
+        # If this is a label jump, we can also continue at the label. Calls continue at the next op.
+        if is_label_jump and real_op.op_code.name != OP_CALL:
             if TYPE_CHECKING:
                 assert isinstance(op, SsbLabelJump)
             assert op.label is not None
@@ -896,7 +896,7 @@ class SsbGraphMinimizer:
     @staticmethod
     def _is_entry_point(v: Vertex) -> bool:
         """Whether control flow enters the routine here, even if no edge leads to the vertex."""
-        return v["name"] == "v0" or (isinstance(v["op"], SsbLabel) and v["op"].referenced_from_other_routine)
+        return v["name"] == "v0" or (isinstance(v["op"], SsbLabel) and v["op"].is_entry_point)
 
     @classmethod
     def _reconnect(
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..b279c5b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -51,5 +51,5 @@ class CallWriteHandler(AbstractWriteHandler):
         assert op.label is not None
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
-        assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
+        assert len(exits) == 1, f"A call must have exactly one point to continue at, has {len(exits)}."
         return exits[0].target_vertex
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index 5abeb61..7a594c7 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -58,11 +58,11 @@ class RoutineWriteHandler(AbstractWriteHandler):
                 self.decompiler.write_stmnt("alias previous;")
             else:
                 BlockWriteHandler(self.start_vertex, self.decompiler, self.parent, None).write_content()
-                # Other routines may jump to labels which are not reachable from the start of this routine.
+                # Calls and other routines may jump to labels which are not reachable from the start of this routine.
                 for v in self.r_graph.vs:
                     if (
                         isinstance(v["op"], SsbLabel)
-                        and v["op"].referenced_from_other_routine
+                        and v["op"].is_entry_point
                         and v["op"].id not in self.decompiler.labels_already_printed
                     ):
                         BlockWriteHandler(v, self.decompiler, self.parent, None).write_content()
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a74e2d9..54e9471 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -41,7 +41,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 )
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
-    CallJump,
     ForeverBreak,
     ForeverContinue,
 )
@@ -113,16 +112,11 @@ class ExplorerScriptSsbDecompiler:
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
         self._routine_ops = list(resolver)
-        has_any_calls = any(
-            any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
-        )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
-            # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(self._routine_ops)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 3e0fedf..7436010 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -335,6 +335,8 @@ class SsbLabel(SsbOperation):
     routine_id: int
     # Whether or not this label is referenced from another routine
     referenced_from_other_routine: bool
+    # Whether or not this label is the target of a call
+    referenced_from_call: bool
     # Markers for this label (type of label)
     markers: list[LabelMarker]
     debugging_note: str | None
@@ -348,6 +350,7 @@ class SsbLabel(SsbOperation):
         self.id = id
         self.routine_id = routine_id
         self.referenced_from_other_routine = False
+        self.referenced_from_call = False
         self.markers: list[LabelMarker] = []
         self.debugging_note = debugging_note
         self.original_name = original_name
@@ -356,6 +359,11 @@ class SsbLabel(SsbOperation):
     def add_marker(self, m: LabelMarker) -> None:
         self.markers.append(m)
 
+    @property
+    def is_entry_point(self) -> bool:
+        """Whether control flow may continue at this label without an edge in the graph of the routine leading to it."""
+        return self.referenced_from_other_routine or self.referenced_from_call
+
     def needs_to_be_printed(self, my_vertex_index: int, number_in_vs: int, graph: Graph) -> bool:
         """If the number of incoming vertices is bigger than max_in_vs, then we need to print this label"""
         # TODO: There are still issues with this logic, we just output all for now (except switch fallthroughs!)
@@ -529,5 +537,6 @@ def process_op_for_jump(
         jmp = SsbLabelJump(SsbOperation(op.offset, op.op_code, new_params), label)
         if op.op_code.name == OP_CALL:
             jmp.markers.append(CallJump())
+            label.referenced_from_call = True
         return jmp
     return op
-- 
2.43.0


From 7d9921de2326884f3462d20f676f622a423204a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 22/62] fix: do not write ops as a jump that are none

---
 .../decompiler/write_handlers/label_jumps/jump.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..17f9687 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -48,6 +48,8 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
+        # Other ops, such as a case outside of a switch, can not be written as a jump.
+        assert op.get_marker() is not None or op.root.op_code.name == OP_JUMP, f"Can not write {op} as a jump."
         # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
         self.decompiler.source_map_add_opcode(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
-- 
2.43.0


From 80e6a03cf74972b1d5ce28b75310f4184d5245a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 23/62] fix: do not write message switches into with-blocks

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index a31bbe2..0ac14ca 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -123,7 +123,10 @@ class BlockWriteHandler(AbstractWriteHandler):
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
                 # (last_handler_in_block must be SimpleOperationWriteHandler in this case)
                 assert isinstance(self.last_handler_in_block, SimpleOperationWriteHandler)
-                if self.last_handler_in_block.get_real_handler().__name__ == "CtxSimpleOpWriteHandler":
+                if self.last_handler_in_block.get_real_handler().__name__ in (
+                    "CtxSimpleOpWriteHandler",
+                    "MesageSwitchSimpleOpWriteHandler",
+                ):
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
 
             previous_vertex = self._next_vertex
-- 
2.43.0


From 5428f16309667ccdd2162538791c3ee0313c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 24/62] fix: consider all parallel edges of a loop as part of
 it

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..decc2d3 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -23,7 +23,6 @@
 from __future__ import annotations
 
 import functools
-import itertools
 import logging
 import operator
 from collections import Counter
@@ -480,9 +479,8 @@ def get_out_edges_of_subgraph(
     if len(vertices) == 0:
         # All paths have been filtered out
         return None
-    edges = {g.get_eid(v1, v2, error=False, directed=False) for v1, v2 in itertools.combinations(vertices, 2)}
-    if -1 in edges:
-        edges.remove(-1)
+    # There may be more than one edge between two vertices.
+    edges = {e.index for v in vertices for e in g.vs[v].out_edges() if e.target in vertices}
     # Add all out vertices of the vertices above
     for v in vertices.copy():
         for e in g.vs[v].out_edges():
-- 
2.43.0


From 7e222fe026a71cac1fd0aa02656d04317be12537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 25/62] fix: only mark jumps as continue or break of a loop

---
 .../decompiler/graph_building/graph_minimizer.py  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index a65144c..a227600 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -562,7 +562,7 @@ class SsbGraphMinimizer:
                             for loop_edge in break_points:
                                 break_point = loop_edge.source_vertex
                                 break_target = loop_edge.target_vertex
-                                if not isinstance(break_point["op"], SsbLabelJump) or break_point["op"].get_marker():
+                                if not self._is_unmarked_jump(break_point):
                                     # Already has a marker, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_break_point = g.add_vertex(
@@ -592,10 +592,7 @@ class SsbGraphMinimizer:
                                     self._update_vertex_style(break_point)
                             for loop_edge in continue_points:
                                 continue_point = loop_edge.source_vertex
-                                if (
-                                    not isinstance(continue_point["op"], SsbLabelJump)
-                                    or continue_point["op"].get_marker()
-                                ):
+                                if not self._is_unmarked_jump(continue_point):
                                     # Already has a marker or is not a jump, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_continue_point = g.add_vertex(
@@ -893,6 +890,14 @@ class SsbGraphMinimizer:
 
         return next_ops
 
+    @staticmethod
+    def _is_unmarked_jump(v: Vertex) -> bool:
+        return (
+            isinstance(v["op"], SsbLabelJump)
+            and v["op"].get_marker() is None
+            and v["op"].root.op_code.name == OP_JUMP
+        )
+
     @staticmethod
     def _is_entry_point(v: Vertex) -> bool:
         """Whether control flow enters the routine here, even if no edge leads to the vertex."""
-- 
2.43.0


From ad639e4e65b279faff41b40a86e60939f67e7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 26/62] fix: print branches and flag ops generically if their
 syntax can not express the parameters

---
 .../write_handlers/label_jumps/if_start.py    | 23 +++++++++++++++++++
 .../write_handlers/simple_ops/flag.py         | 17 +++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..54bd662 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -133,6 +133,8 @@ class IfWriteHandler(AbstractWriteHandler):
 
     def _if_header_for(self, op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
+        if not self._has_special_syntax(op):
+            return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
         if op.op_code.name == "BranchBit":
@@ -175,6 +177,27 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
+    def _has_special_syntax(self, op: SsbOperation) -> bool:
+        """Whether the special syntax for the branch operation can express the values of its parameters."""
+        if op.op_code.name == "BranchBit":
+            # The bits of the performance progress list are those of BranchPerformance.
+            return (
+                isinstance(op.params[1], int) and str(op.params[0]) != self.decompiler.performance_progress_list_var_name
+            )
+        if op.op_code.name in ["BranchDebug", "BranchEdit", "BranchVariation"]:
+            return op.params[0] in (0, 1)
+        if op.op_code.name == "BranchPerformance":
+            return isinstance(op.params[0], int) and op.params[1] in (0, 1)
+        if op.op_code.name in [
+            "BranchScenarioNow",
+            "BranchScenarioNowAfter",
+            "BranchScenarioNowBefore",
+            "BranchScenarioAfter",
+            "BranchScenarioBefore",
+        ]:
+            return isinstance(op.params[1], int) and isinstance(op.params[2], int)
+        return True
+
     def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
         """Starting from the in_edge try to build as many elseif constructs as possible."""
         op: SsbOperation = in_edge.target_vertex["op"]
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index badc60f..b31bedb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -58,7 +58,9 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
-        if op.op_code.name == OPS_FLAG__CALC_BIT:
+        if not self._has_special_syntax(op):
+            self.decompiler.write_stmnt(f'{op.op_code.name}({", ".join([str(x) for x in op.params])});')
+        elif op.op_code.name == OPS_FLAG__CALC_BIT:
             self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
         elif op.op_code.name == OPS_FLAG__CALC_VALUE:
             self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
@@ -98,3 +100,16 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
         else:
             raise ValueError("After a simple opcode there must be exactly 0 or 1 immediate opcode.")
         return next_vertex
+
+    def _has_special_syntax(self, op: SsbOperation) -> bool:
+        """Whether the special syntax for the operation can express the values of its parameters."""
+        if op.op_code.name == OPS_FLAG__CALC_BIT:
+            # The bits of the performance progress list are set with flag_SetPerformance.
+            return (
+                isinstance(op.params[1], int) and str(op.params[0]) != self.decompiler.performance_progress_list_var_name
+            )
+        if op.op_code.name == OPS_FLAG__SET_PERFORMANCE:
+            return isinstance(op.params[0], int)
+        if op.op_code.name == OPS_FLAG__SET_SCENARIO:
+            return isinstance(op.params[1], int) and isinstance(op.params[2], int)
+        return True
-- 
2.43.0


From b5ed6d8e0f5d88019ae3f4c8c97307be2ed40808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 27/62] fix: do not write a dummy end into with-blocks and
 message switches

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index 0ac14ca..e7bcf44 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -134,9 +134,10 @@ class BlockWriteHandler(AbstractWriteHandler):
             assert self._next_vertex is None or isinstance(self._next_vertex, Vertex)
 
         # Perform basic end-of-branch check (to see if we need an end, return or hold).
-        # we don't need to do that on jumps or fallthrough
+        # we don't need to do that on jumps or fallthrough, and with-blocks and message switches have no room for it;
+        # the block they are in writes it.
         assert self.last_handler_in_block is not None
-        if self._next_vertex is None and not self.last_handler_in_block.ended_on_jump:
+        if self._next_vertex is None and not self.last_handler_in_block.ended_on_jump and not self._disallow_nested:
             if previous_vertex is None:
                 # ???
                 raise ValueError("Found end of branch, but no previous op...?")
-- 
2.43.0


From e9c043ec7eef164f7938698f9bb2d6203b38e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 28/62] fix: reject routines in imported files

---
 explorerscript/ssb_converting/ssb_compiler.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..3cd772a 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -25,6 +25,7 @@ from __future__ import annotations
 import logging
 import os
 from pathlib import PurePosixPath, PurePath
+from typing import NoReturn
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.explorerscript_reader import ExplorerScriptReader
@@ -157,6 +158,8 @@ class ExplorerScriptSsbCompiler:
                 # Parse as SsbScript instead
                 subcompiler = SsbScriptSsbCompiler()
                 subcompiler.compile(explorerscript_src)
+                if macros_only and subcompiler.routine_infos:
+                    self._raise_has_routines(file_name)
                 self.routine_infos = subcompiler.routine_infos
                 self.routine_ops = subcompiler.routine_ops
                 self.named_coroutines = subcompiler.named_coroutines
@@ -165,7 +168,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,10 +217,8 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
-                # noinspection PyUnusedLocal
-                fn = os.path.basename(file_name)  # noqa
-                raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
+            if HasRoutinesVisitor().visit(tree):
+                self._raise_has_routines(file_name)
             return self
 
         # Start Compiling
@@ -249,6 +249,12 @@ class ExplorerScriptSsbCompiler:
         # Done!
         return self
 
+    @staticmethod
+    def _raise_has_routines(file_name: str) -> NoReturn:
+        # noinspection PyUnusedLocal
+        fn = os.path.basename(file_name)  # noqa
+        raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
+
     def _resolve_imported_file(self, dir_name: str) -> list[str]:
         """
         Returns the full paths to all imports specified in self.imports.
-- 
2.43.0


From bfc5079b788803e6e6ad423162d41d038b4aee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 29/62] fix: report imports of directories as missing files

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 3cd772a..38a4540 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -265,7 +265,7 @@ class ExplorerScriptSsbCompiler:
             if import_file.startswith(".") or import_file.startswith("/"):
                 # Relative or absolute import
                 abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))
-                if not os.path.exists(abs_path):
+                if not os.path.isfile(abs_path):
                     raise SsbCompilerError(f(_("The file to import ('{import_file}') was not found.")))
             else:
                 # Relative to one of the lookup paths
@@ -284,7 +284,7 @@ class ExplorerScriptSsbCompiler:
                     abs_path_c = os.path.realpath(
                         str(PurePath(dir_name).joinpath(PurePosixPath(lp).joinpath(import_file)))
                     )
-                    if os.path.exists(abs_path_c):
+                    if os.path.isfile(abs_path_c):
                         abs_path = abs_path_c
                         break
                 if abs_path is None:
-- 
2.43.0


From 358a20ee45b864c61e134dfc709ed8565dfa9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 30/62] fix: accept files that only consist of meta attributes

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 49951203f8ad04030b7666a9d93def49b72fde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 31/62] fix: process SsbScript sources only after they parsed
 without errors

---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..43bd4c2 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Only sources without errors can be processed
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker().walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From c5ab5833be258e6656796e2e03538c74d7b06d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 32/62] fix: reject routines that target a decimal

---
 .../compile_handlers/functions/for_target_def.py   | 14 ++++++++------
 .../ssb_converting/compiler/compiler_listener.py   |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index 42a5366..84424f7 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam, SsbOpParamConstant
+from explorerscript.util import exps_int, _
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -50,10 +50,12 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
-        try:
-            linked_to = exps_int(integer_like)  # type: ignore
-        except ValueError:
-            linked_to_name = integer_like.name  # type: ignore
+        if isinstance(integer_like, int):
+            linked_to = integer_like
+        elif isinstance(integer_like, SsbOpParamConstant):
+            linked_to_name = integer_like.name
+        else:
+            raise SsbCompilerError(_("A routine can only target a constant or an integer."))
 
         target: ExplorerScriptParser.For_target_def_targetContext = self.ctx.for_target_def_target()
         legacy_deprecated_target = target.FOR_TARGET()
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..d4bc6eb 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -112,6 +112,8 @@ class SsbScriptCompilerListener(SsbScriptListener):
         linked_to = -1
         linked_to_name = None
         integer_like = str(ctx.integer_like().children[0])
+        if ctx.integer_like().DECIMAL():
+            raise SsbCompilerError(_("A routine can only target a constant or an integer."))
         try:
             linked_to = exps_int(integer_like)
         except ValueError:
-- 
2.43.0


From 30f457dafd1c0b26b4766aa457b9f50beb752f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 33/62] fix: reject routine ids that are out of order, negative
 or used twice

---
 .../compiler/compiler_visitor/routine_visitor.py    | 12 +++++-------
 explorerscript/ssb_converting/compiler/utils.py     | 13 +++++++++++++
 .../ssb_converting/compiler/compiler_listener.py    | 12 +++++-------
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..8941226 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.coro_def
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_target_def import ForTargetDefCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter, check_routine_id
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
 
 
@@ -122,9 +122,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        check_routine_id(self._active_routine_id, len(self.routine_infos))
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 146dc42..4e38a46 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -251,6 +251,19 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
+def check_routine_id(routine_id: int, number_of_routines: int) -> None:
+    """Raises an error if this is not the id of the next routine: They start at 0, without gaps or duplicates."""
+    if routine_id != number_of_routines:
+        raise SsbCompilerError(
+            f(
+                _(
+                    "The ids of routines must start at 0 and increment by one: "
+                    "Expected {number_of_routines}, but got {routine_id}."
+                )
+            )
+        )
+
+
 def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index d4bc6eb..2dc02dc 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -29,7 +29,7 @@ from explorerscript.antlr.SsbScriptParser import SsbScriptParser
 from explorerscript.common_syntax import parse_position_marker_arg
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark
-from explorerscript.ssb_converting.compiler.utils import singleline_string_literal, string_literal
+from explorerscript.ssb_converting.compiler.utils import check_routine_id, singleline_string_literal, string_literal
 from explorerscript.ssb_converting.ssb_data_types import (
     SsbRoutineInfo,
     SsbOperation,
@@ -315,9 +315,7 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        check_routine_id(self._active_routine_id, len(self.routine_infos))
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
-- 
2.43.0


From 78a5df6415c73f94c732541698adc4db531e98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 34/62] fix: report failing assertions and too deep nesting as
 compile errors, keep the caller's exceptions out of it

---
 explorerscript/ssb_converting/ssb_compiler.py | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 38a4540..064b65b 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import logging
 import os
+import sys
 from pathlib import PurePosixPath, PurePath
 from typing import NoReturn
 
@@ -134,6 +135,16 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except RecursionError as e:
+            raise SsbCompilerError(_("The source code is nested too deeply.")) from e
+        except AssertionError as e:
+            raise ValueError(str(e)) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
@@ -222,19 +233,22 @@ class ExplorerScriptSsbCompiler:
             return self
 
         # Start Compiling
+        already_handled = sys.exc_info()[1]
         try:
-            try:
-                logger.debug("<%d> Compiling routines...", id(self))
-                compiler_visitor = RoutineVisitor(self.performance_progress_list_var_name, self.macros)
-                compiler_visitor.visit(tree)
-            except Exception as ex:
-                # due to the stack nature of the decompile visitor, we get many stack exceptions after raising
-                # the first. Raise the last exception in the context chain.
-                while ex.__context__ is not None:
-                    ex = ex.__context__  # type: ignore
-                raise ex
-        except AssertionError as e:
-            raise ValueError(str(e)) from e
+            logger.debug("<%d> Compiling routines...", id(self))
+            compiler_visitor = RoutineVisitor(self.performance_progress_list_var_name, self.macros)
+            compiler_visitor.visit(tree)
+        except Exception as ex:
+            # due to the stack nature of the decompile visitor, we get many stack exceptions after raising
+            # the first. Raise the last exception in the context chain, that is not the cause of an expected one
+            # and not an exception our caller was already handling.
+            while (
+                ex.__context__ is not None
+                and ex.__context__ is not already_handled
+                and not (ex.__cause__ is not None and isinstance(ex, (SsbCompilerError, ValueError)))
+            ):
+                ex = ex.__context__  # type: ignore
+            raise ex
 
         assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
 
-- 
2.43.0


From caee471030e34755932500620897654078e7f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 35/62] fix: escape both kinds of quotes in printed names and
 strings if only that reads back

---
 .../ssb_converting/ssb_data_types.py           | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 836aaca..29ee53c 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -59,7 +59,7 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
                     return f"{delimiter}{string}{delimiter}"
                 if _can_be_multiline_string(string, delimiter):
                     return _repr_multiline_string(string, indent, delimiter)
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
+        return repr_escaped_string(string, preferred_quote)
     for delimiter in (preferred_multiline_quote, secondary_multiline_quote):
         if _can_be_multiline_string(string, delimiter):
             return _repr_multiline_string(string, indent, delimiter)
@@ -68,11 +68,25 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
 
 
 def repr_escaped_string(string: str, quote: str) -> str:
-    return f"{quote}{escape_newlines(escape_quotes(string, which_quotes=quote))}{quote}"
+    escaped = f"{quote}{escape_newlines(escape_quotes(string, which_quotes=quote))}{quote}"
+    if _SINGLE_LINE_UNSUPPORTED.search(string):
+        # Escaping the other kind of quotes as well or using it for the literal may help.
+        for literal_quote in (quote, "'" if quote == '"' else '"'):
+            for which_quotes in (literal_quote, None):
+                literal = f"{literal_quote}{escape_newlines(escape_quotes(string, which_quotes))}{literal_quote}"
+                if _is_single_line_string_of(literal, string):
+                    return literal
+    return escaped
+
+
+def _is_single_line_string_of(literal: str, string: str) -> bool:
+    unescaped = literal[1:-1].replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n")
+    return _SINGLE_LINE_LITERAL.fullmatch(literal) is not None and unescaped == string
 
 
 # Backslashes that would escape the next character or the closing quote, and characters that may not be in the literal
 _SINGLE_LINE_UNSUPPORTED = re.compile(r"""\\(?:['"n]|\Z)|[\r\f]""")
+_SINGLE_LINE_LITERAL = re.compile(r"""'(?:\\.|[^\\\r\n\f'])*'|"(?:\\.|[^\\\r\n\f"])*\"""", re.DOTALL)
 
 
 def _can_be_multiline_string(string: str, delimiter: str) -> bool:
-- 
2.43.0


From 29f25f16e310789c651e210a3eed455546aac6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 36/62] fix: reject jumps to undefined labels in macros that
 are not called

---
 .../compiler/compiler_visitor/macro_visitor.py    |  7 +++++++
 .../compiler/label_jump_to_remover.py             | 15 +++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index b052fd5..d6f92b6 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -32,7 +32,9 @@ from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
+from explorerscript.ssb_converting.compiler.label_jump_to_remover import raise_label_does_not_exist
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
 from explorerscript.util import _
 
 
@@ -81,6 +83,11 @@ class MacroVisitor(ExplorerScriptVisitor):
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        # The labels of the jumps may also be missing if nothing calls the macro.
+        labels = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in labels:
+                raise_label_does_not_exist(op.label)
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 5f63ba6..25b9792 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -28,6 +28,7 @@ and replaces jumps by regular opcodes arguments.
 from __future__ import annotations
 
 import logging
+from typing import NoReturn
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
@@ -37,6 +38,13 @@ from explorerscript.util import f, _
 logger = logging.getLogger(__name__)
 
 
+def raise_label_does_not_exist(label: SsbLabel) -> NoReturn:
+    label_id = label.original_name
+    if label_id is None:
+        label_id = f"<internal:{label.id}>"
+    raise SsbCompilerError(f(_("Label {label_id} does not exist, but a jump to it does (remove it).")))
+
+
 class OpsLabelJumpToRemover:
     def __init__(self, routines: list[list[SsbOperation]], label_offsets: dict[int, int]):
         logger.debug("Removing labels - replacing them with opcode jumps...")
@@ -52,12 +60,7 @@ class OpsLabelJumpToRemover:
                     new_op = op.root
                     assert op.label is not None
                     if op.label.id not in label_offsets:
-                        label_id = op.label.original_name
-                        if label_id is None:
-                            label_id = f"<internal:{op.label.id}>"
-                        raise SsbCompilerError(
-                            f(_("Label {label_id} does not exist, but a jump to it does (remove it)."))
-                        )
+                        raise_label_does_not_exist(op.label)
                     new_op.params.append(label_offsets[op.label.id])
                     new_rtn_ops.append(new_op)
                 elif isinstance(op, SsbLabel):
-- 
2.43.0


From cb87965c2641cfd52e0faac482aee36d14c0d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 37/62] fix: continue after an if with the code of its empty
 else if the other branches jump away

---
 .../write_handlers/label_jumps/if_start.py    | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 54bd662..3ca35bc 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -49,6 +49,8 @@ class IfWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.ended_on_jump = True
+        # The vertex that all branches which don't end on a jump continue at.
+        self._vertex_after_if: Vertex | None = None
 
     def write_content(self) -> Vertex | None:
         op: SsbLabelJump = self.start_vertex["op"]
@@ -74,19 +76,19 @@ class IfWriteHandler(AbstractWriteHandler):
                     self.start_vertex,
                     check_end_block=self.check_end_block,
                 )
-                v_after_if_branch = if_branch_handler.write_content()
-            else_ends_on_common_vtx = True
-            v_after_else_branch = None
-            if not (
+                self._set_vertex_after(if_branch_handler.write_content())
+            if (
                 isinstance(else_edge.target_vertex["op"], SsbLabel)
                 and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
             ):
+                # There is no else-branch to write, what follows is what the else continues at.
+                self._set_vertex_after(else_edge.target_vertex)
+            else:
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
                 else_edge = self._build_else_if_chain(else_edge)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
-                    else_ends_on_common_vtx = False
                     self.decompiler.write_stmnt(" else", False)
                     with Blk(self.decompiler):
                         # Handle else-branch
@@ -97,21 +99,15 @@ class IfWriteHandler(AbstractWriteHandler):
                             self.start_vertex,
                             check_end_block=self.check_end_block,
                         )
-                        v_after_else_branch = else_branch_handler.write_content()
+                        self._set_vertex_after(else_branch_handler.write_content())
 
-            # Those must be the same, either None or a common vertex
-            # ... or either of them must end on a jump, then it's also okay if one of them is None but the other not.
-            assert (
-                not else_edge
-                or else_ends_on_common_vtx
-                or if_branch_handler.last_handler_in_block.ended_on_jump  # type: ignore
-                or else_branch_handler.last_handler_in_block.ended_on_jump  # type: ignore
-                or v_after_if_branch == v_after_else_branch
-            ), f"Invalid if-structure for if {m.if_id}"
+            return self._vertex_after_if
 
-            if v_after_if_branch is None:
-                return v_after_else_branch
-            return v_after_if_branch
+    def _set_vertex_after(self, v: Vertex | None) -> None:
+        """The vertices that the branches continue at must be the same. It's None for branches that don't continue."""
+        if v is not None:
+            assert self._vertex_after_if is None or self._vertex_after_if == v, "Invalid if-structure."
+            self._vertex_after_if = v
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -212,7 +208,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 logger.debug("<%d> Empty else-if-block (%s).", id(self.start_vertex), op)
                 with Blk(self.decompiler):
                     pass
-                return None
+                return self._else_edge_to_write(else_edge)
             else:
                 # If they are the same, we also need to print the else with a jump to it, so we need to make sure,
                 # the label is wirrten!
@@ -222,13 +218,14 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    elseif_branch_handler = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
-                    ).write_content()
+                    )
+                    self._set_vertex_after(elseif_branch_handler.write_content())
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
                     isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
@@ -237,18 +234,22 @@ class IfWriteHandler(AbstractWriteHandler):
                     assert in_edge != else_edge  # ???
                     in_edge = else_edge
                     op = in_edge.target_vertex["op"]
-                elif next_vertex_ends:
-                    # VERY IMPORTANT: If we already wrote this somewhere else, we NEED to write an else regardless,
-                    # because we WON'T be printing it's opcodes next otherwise!
-                    eop = else_edge.target_vertex["op"]
-                    if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
-                        return else_edge
-                    else:
-                        return None
                 else:
-                    return None
+                    return self._else_edge_to_write(else_edge)
         return in_edge
 
+    def _else_edge_to_write(self, else_edge: Edge) -> Edge | None:
+        """Returns the edge if an else-branch must be written for it. It's not, if it's what follows after the if."""
+        # VERY IMPORTANT: If we already wrote this somewhere else, we NEED to write an else regardless,
+        # because we WON'T be printing it's opcodes next otherwise!
+        eop = else_edge.target_vertex["op"]
+        if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
+            return else_edge
+        if self._vertex_after_if is not None and self._vertex_after_if != else_edge.target_vertex:
+            return else_edge
+        self._set_vertex_after(else_edge.target_vertex)
+        return None
+
     def _write_if_header(
         self, header_str: str, op: SsbLabelJump, v: Vertex, include_newline_in_header: bool = True
     ) -> tuple[Edge, Edge]:
-- 
2.43.0


From d8cc7bbac09467030be113b501aa3140e2876e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 38/62] fix: break cases that end on the end of their switch
 after a jump

---
 .../decompiler/write_handlers/label_jumps/switch_start.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..cfe39bb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -113,8 +113,11 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 self.start_vertex,
                                 check_end_block=self.check_end_block,
                             )
-                            handler.write_content()
-                            if (
+                            v_after_case = handler.write_content()
+                            if v_after_case is not None:
+                                # Ended on the end of the switch.
+                                self.decompiler.write_stmnt("break;")
+                            elif (
                                 not isinstance(handler.last_handler_in_block, LabelWriteHandler)
                                 or not handler.last_handler_in_block.switch_fell_through
                             ):
-- 
2.43.0


From fad1de4157bc897b9451a3c3c3bb8d2cfa5035a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 39/62] fix: only write continue and break_loop for the loop
 they belong to

---
 .../decompiler/graph_building/graph_minimizer.py          | 6 +++++-
 .../decompiler/graph_building/graph_utils.py              | 4 +++-
 .../write_handlers/label_jumps/forever_break.py           | 8 ++++----
 .../write_handlers/label_jumps/forever_continue.py        | 4 ++--
 .../decompiler/write_handlers/labels/forever_start.py     | 3 ++-
 explorerscript/ssb_converting/ssb_decompiler.py           | 7 +++++++
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index a227600..faa2360 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -542,8 +542,12 @@ class SsbGraphMinimizer:
                         # the continue and break points from outside the loop
                         if can_build:
                             assert break_points is not None and continue_points is not None
+                            entry_points = [entry.index for entry in g.vs if self._is_entry_point(entry)]
                             for loop_edge in break_points + continue_points:
-                                if is_reachable_when_removing(g, loop_edge.source, 0, v.index):
+                                if any(
+                                    is_reachable_when_removing(g, loop_edge.source, entry, v.index)
+                                    for entry in entry_points
+                                ):
                                     # We can't build this loop, the break point would be
                                     # reachable from outside the loop!
                                     can_build = False
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index decc2d3..dca3fa1 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -574,12 +574,14 @@ def has_unclosed_blocks(paths: list[list[int]], g: Graph) -> bool:
 
 def is_reachable_when_removing(g: Graph, check_id: int, start_id: int, remove_id: int) -> bool:
     """Checks if check is still reachable from start if remove is removed"""
+    if start_id == remove_id or check_id == remove_id:
+        return False
     g_copy: Graph = g.copy()
 
     if check_id > remove_id:
         check_id -= 1
     if start_id > remove_id:
-        remove_id -= 1
+        start_id -= 1
 
     # Simulate the removal on the copy
     g_copy.delete_vertices(remove_id)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..ba4d207 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,16 +46,16 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-        self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
-            if len(self.decompiler.forever_start_handler_stack) < 1:
-                # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
+            if not self.decompiler.is_in_loop(self.start_vertex["op"].get_marker().loop_id):
+                # We REALLY shouldn't land here, if we are outside of the loop, but sometimes loop detection still
                 # raises some "false positives" and builds loops that have break statements reachable from outside
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..75cbb6c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -46,8 +46,8 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a continue (if not implicit) and end"""
         logger.debug("Handling a continue; (%s)...", self.start_vertex["op"])
-        if len(self.decompiler.forever_start_handler_stack) < 1:
-            # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
+        if not self.decompiler.is_in_loop(self.start_vertex["op"].get_marker().loop_id):
+            # We REALLY shouldn't land here, if we are outside of the loop, but sometimes loop detection still
             # raises some "false positives" and builds loops that have break statements reachable from outside
             # the loop
             logger.warning("While decompiling, tried to generate continue; outside loop!")
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
index ad8be2d..4009983 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
@@ -64,9 +64,10 @@ class ForeverWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt("forever")
         with Blk(self.decompiler):
             self.decompiler.forever_start_handler_stack.append(self)
-            BlockWriteHandler(
+            v_after_block = BlockWriteHandler(
                 exits[0].target_vertex, self.decompiler, self, self.start_vertex, check_end_block=self.check_end_block
             ).write_content()
+            assert v_after_block is None, f"Loop {m.loop_id} ended without a break."
             self.decompiler.forever_start_handler_stack.pop()
             return self._vertex_after_forever
 
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 54e9471..50192b9 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -212,6 +212,13 @@ class ExplorerScriptSsbDecompiler:
             # Jump as part of a control structure
             self.write_stmnt(f"jump @label_{label_id};")
 
+    def is_in_loop(self, loop_id: int) -> bool:
+        """Whether a continue or break_loop that is written now is one for the loop with that id."""
+        if len(self.forever_start_handler_stack) < 1:
+            return False
+        m = self.forever_start_handler_stack[-1].m
+        return m is not None and m.loop_id == loop_id
+
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
         assert self.smb is not None
-- 
2.43.0


From 11a1619bd02f4aa36675b31910c4a1c2207b1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 40/62] fix: search for the first common vertex beyond the
 vertices the edges lead to

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index dca3fa1..848a13a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -172,10 +172,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 631d41e7f60796c9770234ae0d6cf926123ddcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 41/62] fix: decompile switches with all headers and cases the
 language has

---
 .../ssb_converting/ssb_special_ops.py         | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 7436010..e12dc90 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -82,22 +82,29 @@ OP_SWITCH_SCENARIO = "SwitchScenario"
 OP_SWITCH_RANDOM = "SwitchRandom"
 OP_SWITCH_SCENARIO_LEVEL = "SwitchScenarioLevel"
 OP_SWITCH_DUNGEON_MODE = "SwitchDungeonMode"
-OPS_REGULAR_CASES = [OP_CASE, OP_CASE_VALUE, OP_CASE_VARIABLE, OP_CASE_SCENARIO]
+OPS_CASES = [OP_CASE, OP_CASE_VALUE, OP_CASE_VARIABLE, OP_CASE_SCENARIO, OP_CASE_MENU, OP_CASE_MENU2]
 OPS_SWITCH_CASE_MAP = {
-    "message_SwitchMenu": [OP_CASE_MENU, OP_CASE_MENU2],
-    "message_SwitchMenu2": [OP_CASE_MENU, OP_CASE_MENU2],
-    OP_SWITCH: OPS_REGULAR_CASES,
-    OP_SWITCH_SECTOR: OPS_REGULAR_CASES,
-    "ProcessSpecial": OPS_REGULAR_CASES,
-    "message_Menu": OPS_REGULAR_CASES,
-    OP_SWITCH_SCENARIO: OPS_REGULAR_CASES,
-    OP_SWITCH_RANDOM: OPS_REGULAR_CASES,
-    OP_SWITCH_SCENARIO_LEVEL: OPS_REGULAR_CASES,
-    OP_SWITCH_DUNGEON_MODE: OPS_REGULAR_CASES,
-    "main_EnterAdventure": OPS_REGULAR_CASES,
-    "main_EnterRescueUser": OPS_REGULAR_CASES,
-    "main_EnterTraining": OPS_REGULAR_CASES,
-    "main_EnterTraining2": OPS_REGULAR_CASES,
+    "message_SwitchMenu": OPS_CASES,
+    "message_SwitchMenu2": OPS_CASES,
+    OP_SWITCH: OPS_CASES,
+    OP_SWITCH_SECTOR: OPS_CASES,
+    "ProcessSpecial": OPS_CASES,
+    "message_Menu": OPS_CASES,
+    OP_SWITCH_SCENARIO: OPS_CASES,
+    OP_SWITCH_RANDOM: OPS_CASES,
+    OP_SWITCH_SCENARIO_LEVEL: OPS_CASES,
+    OP_SWITCH_DUNGEON_MODE: OPS_CASES,
+    "SwitchDirection": OPS_CASES,
+    "SwitchDirectionLives": OPS_CASES,
+    "SwitchDirectionLives2": OPS_CASES,
+    "SwitchDirectionMark": OPS_CASES,
+    "SwitchLives": OPS_CASES,
+    "SwitchValue": OPS_CASES,
+    "SwitchVariable": OPS_CASES,
+    "main_EnterAdventure": OPS_CASES,
+    "main_EnterRescueUser": OPS_CASES,
+    "main_EnterTraining": OPS_CASES,
+    "main_EnterTraining2": OPS_CASES,
 }
 
 OP_MESSAGE_SWITCH_TALK = "message_SwitchTalk"
-- 
2.43.0


From 5bc6183ea191dfd7dc6d937edc347571a2393a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 42/62] fix: do not reuse the results of common vertex searches
 for other graphs

---
 .../graph_building/graph_minimizer.py         |  8 -----
 .../decompiler/graph_building/graph_utils.py  | 32 +++++++------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index faa2360..fc9397a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -171,7 +170,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -408,7 +406,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -422,7 +419,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
 
@@ -457,8 +453,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -524,7 +518,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -688,7 +681,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 848a13a..fcf9ca0 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -26,7 +26,6 @@ import functools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -54,15 +53,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -70,6 +60,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -93,21 +84,21 @@ def find_first_common_next_vertex_in_edges(
         Those edges are not visited, aborting the branch.
 
     If no common vertex is found, returns None.
+
+    The cache contains the results that were already found during this search. It's only valid for this search, since
+    they depend on the arguments and on the current state of the graph.
     """
     # TODO: Performance with (not allow_open_branches).
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    if cache is None:
+        cache = {}
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], cache, allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -115,6 +106,7 @@ def _find_first_common_next_vertex_in_edges__impl(
     g: Graph,
     es: list[set[Edge | None]],
     map_of_visited: list[dict[int, int]],
+    cache: dict[str, list[Edge] | None],
     allow_open_branches: bool,
     allow_loops: bool,
     vs_to_not_visit: list[int] | None = None,
@@ -189,7 +181,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch, cache=cache
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 185070409155758308c25f0d0693c632b01d8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 43/62] fix: write the default of a switch together with the
 case it leads to

---
 .../decompiler/graph_building/graph_minimizer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index fc9397a..3f7887e 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -372,6 +372,22 @@ class SsbGraphMinimizer:
                         vs_to_delete.add(next_vertex)
                         next_vertex = else_edge_target_vertex
                     # Else edge:
+                    if next_vertex is not None and self._is_unmarked_jump(next_vertex):
+                        # If a case leads to where the else jumps to, they are written together, without the jump.
+                        jump_out_edges = next_vertex.out_edges()
+                        if (
+                            len(next_vertex.in_edges()) == 0
+                            and len(jump_out_edges) == 1
+                            and not jump_out_edges[0]["loop"]
+                            and any(
+                                e["switch_ops"] is not None and e.target == jump_out_edges[0].target
+                                for e in v.out_edges()
+                            )
+                        ):
+                            jump_target = jump_out_edges[0].target_vertex
+                            g.delete_edges(jump_out_edges)
+                            vs_to_delete.add(next_vertex)
+                            next_vertex = jump_target
                     if next_vertex is not None:
                         v_else_edge = next(e for e in v.out_edges() if e["switch_ops"] is None)
                         if not v_else_edge.target_vertex == next_vertex:
-- 
2.43.0


From 01b23aecaa8f5d550b20c3b90d0c96a2d1f83e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 44/62] fix: break all cases that lead to the end of the switch

---
 .../write_handlers/label_jumps/switch_start.py      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index cfe39bb..7f9e14e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -37,7 +37,9 @@ from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelW
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_data_types import SsbOperator
 from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
     SsbLabelJump,
+    SwitchEnd,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
     OP_SWITCH_DUNGEON_MODE,
@@ -81,7 +83,8 @@ class SwitchWriteHandler(AbstractWriteHandler):
             list_of_switch_cases = list(iterate_switch_edges_using_edges_and_op(exits, op))
             # Build a list of all edges that will be visited multiple times, make sure to generate a label for them
             for e, _, __ in list_of_switch_cases:
-                if e in already_printed_edges:
+                # (cases that lead to the end of the switch just break, however many there are)
+                if e in already_printed_edges and not self._is_switch_end(e.target_vertex):
                     edges_that_will_be_visited_multiple_times.add(e)
                 already_printed_edges.add(e)
             already_printed_edges = set()  # reuse
@@ -100,7 +103,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
-                        if e in already_printed_edges:
+                        if e in already_printed_edges and not self._is_switch_end(e.target_vertex):
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
                         else:
@@ -154,6 +157,12 @@ class SwitchWriteHandler(AbstractWriteHandler):
             #    raise ValueError("An invalid if or loop was ended while waiting for a switch end.")
         return True
 
+    def _is_switch_end(self, v: Vertex) -> bool:
+        switch_id = self.start_vertex["op"].get_marker().switch_id
+        return isinstance(v["op"], SsbLabel) and any(
+            isinstance(m, SwitchEnd) and m.switch_id == switch_id for m in v["op"].markers
+        )
+
     @staticmethod
     def _switch_header_for(op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
-- 
2.43.0


From 39e88f63802a7fe880495c26964dc4950e485ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 45/62] fix: source map positions of the cases of message
 switches

---
 .../compile_handlers/blocks/switches/message_switch.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..1c87047 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,15 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(header_handler._generate_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(
+                self._default_handler._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()])
+            )
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From a93248955693f3f48acae3ee438b78204842d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 46/62] fix: decompiler source map entries for jumps and elseif
 conditions

---
 .../graph_building/graph_minimizer.py         |  5 +-
 .../label_jumps/forever_break.py              |  5 +-
 .../label_jumps/forever_continue.py           |  5 +-
 .../write_handlers/label_jumps/if_start.py    |  2 +-
 .../write_handlers/label_jumps/jump.py        |  7 ++-
 .../ssb_converting/ssb_decompiler.py          | 59 ++++++++++++++++---
 .../ssb_converting/ssb_special_ops.py         | 10 +++-
 7 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 3f7887e..8a4800b 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -585,7 +585,7 @@ class SsbGraphMinimizer:
                                         shape="ellipse",
                                     )
                                     actual_break_point["op"].remove_marker()
-                                    actual_break_point["op"].add_marker(ForeverBreak(loop_id))
+                                    actual_break_point["op"].add_marker(ForeverBreak(loop_id, is_added=True))
                                     es_to_delete.add(loop_edge)
                                     e = self._reconnect(g, break_point, loop_edge, actual_break_point, True)
                                     e = g.add_edge(
@@ -615,7 +615,7 @@ class SsbGraphMinimizer:
                                         shape="ellipse",
                                     )
                                     actual_continue_point["op"].remove_marker()
-                                    actual_continue_point["op"].add_marker(ForeverContinue(loop_id))
+                                    actual_continue_point["op"].add_marker(ForeverContinue(loop_id, is_added=True))
                                     es_to_delete.add(loop_edge)
                                     e = self._reconnect(g, continue_point, loop_edge, actual_continue_point, True)
                                     e["loop"] = False
@@ -721,6 +721,7 @@ class SsbGraphMinimizer:
                             continue
                         if (
                             isinstance(v_after["op"], SsbForeignLabel)
+                            or self._is_entry_point(v_after)
                             or v_after["op"].id == 0
                             or out_edges[0]["loop"]
                             or (isinstance(v_after["op"], SsbLabel) and len(v_after["op"].markers) > 0)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index ba4d207..587f43f 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -54,8 +54,9 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-            self.decompiler.write_stmnt("break_loop;")
+            if not self.start_vertex["op"].get_marker().is_added:
+                self.decompiler.set_next_jump_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_jump_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 75cbb6c..af892b5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -53,8 +53,9 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-            self.decompiler.write_stmnt("continue;  // may be redundant")
+            if not self.start_vertex["op"].get_marker().is_added:
+                self.decompiler.set_next_jump_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_jump_stmnt("continue;  // may be redundant")
         return None
 
     def _continue_is_implicit(self) -> bool:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 3ca35bc..0c4a296 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -262,7 +262,7 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_opcode(op.offset, include_newline_in_header)
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index 17f9687..2e982c2 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, ForeverBreak, ForeverContinue, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -50,10 +50,11 @@ class JumpWriteHandler(AbstractWriteHandler):
         op: SsbLabelJump = self.start_vertex["op"]
         # Other ops, such as a case outside of a switch, can not be written as a jump.
         assert op.get_marker() is not None or op.root.op_code.name == OP_JUMP, f"Can not write {op} as a jump."
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
+        marker = op.get_marker()
+        if not isinstance(marker, (ForeverBreak, ForeverContinue)) or not marker.is_added:
+            self.decompiler.set_next_jump_opcode(op.offset)
         exits = self.start_vertex.out_edges()
         assert len(exits) == 1, "A jump must have exactly one point to jump to"
         return exits[0].target_vertex
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 50192b9..1875900 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -40,6 +40,8 @@ from explorerscript.ssb_converting.ssb_data_types import (
     DungeonModeConstants,
 )
 from explorerscript.ssb_converting.ssb_special_ops import (
+    OP_JUMP,
+    OPS_WITH_JUMP_TO_MEM_OFFSET,
     SsbLabelJump,
     ForeverBreak,
     ForeverContinue,
@@ -64,6 +66,12 @@ class ExplorerScriptSsbDecompiler:
     _output: str
     indent: int
     _line_number: int
+    # Offset of the jump op that is written, if the next statement is a jump.
+    _next_jump_op_offset: int | None
+    # Offset of the op that is written with the next statement.
+    _next_op_offset: int | None
+    # Offsets of the jump ops that are only reached from the op in front of them: {offset of that op: offset of jump}
+    _jumps_after_ops: dict[int, int]
     labels_already_printed: list[int] = []
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
@@ -93,6 +101,9 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self._line_number = 1
+        self._next_jump_op_offset = None
+        self._next_op_offset = None
+        self._jumps_after_ops = {}
         self.labels_already_printed = []
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
@@ -105,12 +116,22 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self.labels_already_printed = []
         self._line_number = 1
+        self._next_jump_op_offset = None
+        self._next_op_offset = None
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
+        self._jumps_after_ops = {
+            op.offset: next_op.offset
+            for rtn in raw_routine_backup_ops
+            for op, next_op in zip(rtn, rtn[1:])
+            if next_op.op_code.name == OP_JUMP
+            and next_op.offset not in resolver.labels
+            and op.op_code.name not in OPS_WITH_JUMP_TO_MEM_OFFSET
+        }
         self._routine_ops = list(resolver)
 
         # Step 2: Build and optimize execution graph
@@ -175,6 +196,11 @@ class ExplorerScriptSsbDecompiler:
 
     def write_stmnt(self, stmnt: str, line: bool = True) -> None:
         """Write a simple single line statement"""
+        self._next_jump_op_offset = None
+        if self._next_op_offset is not None:
+            # The jump after that op might not be an op anymore, if it's part of a control structure.
+            self._next_jump_op_offset = self._jumps_after_ops.get(self._next_op_offset)
+            self._next_op_offset = None
         if line:
             self.write_line()
         self._line_number += stmnt.count("\n")
@@ -198,10 +224,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -210,7 +236,17 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
+
+    def write_jump_stmnt(self, stmnt: str) -> None:
+        """Write a statement that a jump op may be written as, with its entry in the source map if there is such an op."""
+        if self._next_jump_op_offset is not None:
+            self.source_map_add_opcode(self._next_jump_op_offset)
+        self.write_stmnt(stmnt)
+
+    def set_next_jump_opcode(self, op_offset: int) -> None:
+        """The jump op has an entry in the source map, if the next thing that's written is a jump statement."""
+        self._next_jump_op_offset = op_offset
 
     def is_in_loop(self, loop_id: int) -> bool:
         """Whether a continue or break_loop that is written now is one for the loop with that id."""
@@ -219,12 +255,19 @@ class ExplorerScriptSsbDecompiler:
         m = self.forever_start_handler_stack[-1].m
         return m is not None and m.loop_id == loop_id
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, in_new_line: bool = True) -> None:
+        """
+        Has to be called BEFORE writing the opcode.
+
+        If in_new_line is False, the opcode is written after a space in the current line.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        self._next_op_offset = op_offset
+        if in_new_line:
+            self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        else:
+            current_line_length = len(self._output) - (self._output.rfind("\n") + 1)
+            self.smb.add_opcode(op_offset, self._line_number - 1, current_line_length + 1)
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index e12dc90..b929a00 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -271,9 +271,12 @@ class SwitchStart(LabelJumpMarker):
 
 class ForeverContinue(LabelJumpMarker):
     loop_id: int
+    # Whether this was added after an op that already does something else, instead of being an op of the script.
+    is_added: bool
 
-    def __init__(self, loop_id: int):
+    def __init__(self, loop_id: int, is_added: bool = False):
         self.loop_id = loop_id
+        self.is_added = is_added
 
     def __str__(self) -> str:
         return f"LOOP_CONTINUE({self.loop_id})"
@@ -281,9 +284,12 @@ class ForeverContinue(LabelJumpMarker):
 
 class ForeverBreak(LabelJumpMarker):
     loop_id: int
+    # Whether this was added after an op that already does something else, instead of being an op of the script.
+    is_added: bool
 
-    def __init__(self, loop_id: int):
+    def __init__(self, loop_id: int, is_added: bool = False):
         self.loop_id = loop_id
+        self.is_added = is_added
 
     def __str__(self) -> str:
         return f"LOOP_BREAK({self.loop_id})"
-- 
2.43.0


From b8b63e10a0b1e94ecbb1cac6719602bd644e9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 47/62] fix: routines that only call macros without ops must
 not be empty

---
 explorerscript/ssb_converting/compiler/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 4e38a46..ba363a3 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -315,8 +315,12 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
 def end_labels_need_op(ops: list[SsbOperation]) -> bool:
     """
     Returns whether the labels at the end of a routine need an op to point to. This is the case if they are targets of
-    ops which can not be replaced by an OP_DUMMY_END or if they may be targets of jumps in other routines.
+    ops which can not be replaced by an OP_DUMMY_END, if they may be targets of jumps in other routines or if there is
+    nothing else in the routine.
     """
+    if len(ops) > 0 and all(isinstance(op, SsbLabel) for op in ops):
+        return True
+
     end_label_ids: set[int] = set()
     for op in reversed(ops):
         if not isinstance(op, SsbLabel):
-- 
2.43.0


From 5951fa65f11eba0a706887b251395978869099b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 48/62] fix: macro entries of the source map: nested imports,
 ops that were removed, position marks of nested macros

---
 explorerscript/macro.py                       | 27 +++++++----
 explorerscript/source_map.py                  | 47 +++++++++++++++++--
 explorerscript/ssb_converting/ssb_compiler.py | 13 +++--
 3 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index cc86ccc..947a2bd 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -49,11 +49,13 @@ class MacroStartSsbLabel(SsbLabel):
         routine_id: int,
         length_of_macro: int,
         parameter_mapping: dict[str, str],
+        called_in: tuple[str | None, int, int] | None,
         debugging_note: str | None = None,
     ):
         super().__init__(id, routine_id, debugging_note)
         self.length_of_macro = length_of_macro
         self.parameter_mapping = parameter_mapping
+        self.called_in = called_in
 
 
 class MacroEndSsbLabel(SsbLabel):
@@ -134,6 +136,7 @@ class ExplorerScriptMacro:
                 -1,
                 len_real_ops_in_blueprints,
                 parameter_mapping,
+                smb.macro_context__called_in(),
                 f"Macro call {self.name} start label.",
             )
         ]
@@ -147,6 +150,8 @@ class ExplorerScriptMacro:
         for blueprint_op in self.blueprints:
             # If this a start / end of a macro, update the macro callstack
             if isinstance(blueprint_op, MacroStartSsbLabel):
+                if blueprint_op.called_in is not None:
+                    smb.next_macro_opcode_called_in(*self._process_called_in(blueprint_op.called_in))
                 smb.macro_context__push(
                     op_idx_counter.count + blueprint_op.length_of_macro,
                     self._replace_in_param_mapping(blueprint_op.parameter_mapping, parameters),
@@ -181,8 +186,11 @@ class ExplorerScriptMacro:
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
-        for m in self.source_map.get_position_marks__macros():
-            smb.add_macro_position_mark(*m)
+        for file_path, macro_name, pos_mark in self.source_map.get_position_marks__macros():
+            # If the file path is None, then it's OUR file.
+            if file_path is None:
+                file_path = self.included__relative_path
+            smb.add_macro_position_mark(file_path, macro_name, pos_mark)
 
         out_ops.append(end_label)
 
@@ -202,14 +210,6 @@ class ExplorerScriptMacro:
             file_path = potential_macro_sm_entry.relpath_included_file
             if file_path is None:
                 file_path = self.included__relative_path
-            # If the macro has a called_in field, add this to the current map with the correct data as well.
-            if potential_macro_sm_entry.called_in:
-                # Either our file called this...
-                called_in_filename = self.included__relative_path
-                if potential_macro_sm_entry.called_in[0] is not None:
-                    # ... or the field was already set by another macro, we can just take it
-                    called_in_filename = potential_macro_sm_entry.called_in[0]
-                smb.next_macro_opcode_called_in(called_in_filename, *potential_macro_sm_entry.called_in[1:])
             smb.add_macro_opcode(
                 new_op_idx,
                 file_path,
@@ -272,6 +272,12 @@ class ExplorerScriptMacro:
                 new_dict[p_name] = p_value
         return new_dict
 
+    def _process_called_in(self, called_in: tuple[str | None, int, int]) -> tuple[str | None, int, int]:
+        """Returns where a macro was called. If the file path is None, then it's called in OUR file."""
+        if called_in[0] is None:
+            return self.included__relative_path, called_in[1], called_in[2]
+        return called_in
+
     def _copy_blueprint_label(self, lbl_idx_counter: Counter, blueprint_op: SsbLabel) -> SsbLabel:
         if isinstance(blueprint_op, MacroStartSsbLabel):
             return MacroStartSsbLabel(
@@ -279,6 +285,7 @@ class ExplorerScriptMacro:
                 -1,
                 blueprint_op.length_of_macro,
                 blueprint_op.parameter_mapping,
+                None if blueprint_op.called_in is None else self._process_called_in(blueprint_op.called_in),
                 blueprint_op.debugging_note,
             )
         elif isinstance(blueprint_op, MacroEndSsbLabel):
diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 565d6f8..5227e51 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -364,13 +364,29 @@ class SourceMap:
                     m.return_addr = new_mapping[addr]
 
 
+class _MacroContext:
+    """A macro call, the ops of which are being added."""
+
+    def __init__(
+        self,
+        return_addr: int,
+        parameter_mapping: Mapping[str, int | str],
+        called_in: tuple[str | None, int, int] | None,
+    ):
+        self.return_addr = return_addr
+        self.parameter_mapping = parameter_mapping
+        self.called_in = called_in
+        self.op_offsets: list[int] = []
+
+
 class SourceMapBuilder:
     _mappings: dict[int, SourceMapping]
     _pos_marks: list[SourceMapPositionMark]
     _mappings_macros: dict[int, MacroSourceMapping]
     _pos_marks_macros: list[tuple[str | None, str, SourceMapPositionMark]]
     _next_macro_called_in: tuple[str | None, int, int] | None
-    _macro_context__stack: list[tuple[int, Mapping[str, int | str]]]
+    _macro_context__stack: list[_MacroContext]
+    _macro_contexts: list[_MacroContext]
 
     def __init__(self) -> None:
         self._mappings = {}
@@ -379,6 +395,7 @@ class SourceMapBuilder:
         self._pos_marks_macros = []
         self._next_macro_called_in = None
         self._macro_context__stack = []
+        self._macro_contexts = []
         # logger.debug("<%d>: Init.", id(self))
 
     def add_opcode(self, op_offset: int, line_number: int, column: int) -> SourceMapBuilder:
@@ -397,8 +414,12 @@ class SourceMapBuilder:
         """
         Push a new macro return address and parameter mapping to the stack, all added macro ops will
         use what's on the top of the stack.
+        If it was marked where the next macro opcode is called in, this is where the pushed macro is called.
         """
-        self._macro_context__stack.append((opcode_to_jump_to, parameter_mapping))
+        context = _MacroContext(opcode_to_jump_to, parameter_mapping, self._next_macro_called_in)
+        self._next_macro_called_in = None
+        self._macro_context__stack.append(context)
+        self._macro_contexts.append(context)
         # logger.debug("<%d>: -- PUSH MACRO CTX --> [%d, %s]", id(self), opcode_to_jump_to, parameter_mapping)
         return self
 
@@ -410,6 +431,10 @@ class SourceMapBuilder:
         # logger.debug("<%d>: <-- POP MACRO CTX", id(self))
         return self
 
+    def macro_context__called_in(self) -> tuple[str | None, int, int] | None:
+        """Returns where the macro that was pushed last is called."""
+        return self._macro_context__stack[-1].called_in
+
     def next_macro_opcode_called_in(
         self, if_incl_rel_path: str | None, line_number: int, column: int
     ) -> SourceMapBuilder:
@@ -435,7 +460,10 @@ class SourceMapBuilder:
         if self._next_macro_called_in is not None:
             called_in = self._next_macro_called_in
             self._next_macro_called_in = None
-        return_addr, parameter_mapping = self._macro_context__stack[-1]
+        for context in self._macro_context__stack:
+            context.op_offsets.append(op_offset)
+        return_addr = self._macro_context__stack[-1].return_addr
+        parameter_mapping = self._macro_context__stack[-1].parameter_mapping
         # logger.debug("<%d>: Adding macro opcode: %s:%s:%d -> %d, %d", id(self), if_incl_rel_path, macro_name, op_offset, line_number, column)
         self._mappings_macros[op_offset] = MacroSourceMapping(
             if_incl_rel_path, macro_name, line_number, column, called_in, return_addr, parameter_mapping
@@ -450,5 +478,18 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Adding Macro PositionMark: %s:%s - %s", id(self), if_incl_rel_path, macro_name, position_mark)
         return self
 
+    def remove_missing_opcodes(self, op_offsets: Iterable[int]) -> SourceMapBuilder:
+        """Removes the entries of all opcodes that are not in op_offsets."""
+        kept = set(op_offsets)
+        self._mappings = {k: v for k, v in self._mappings.items() if k in kept}
+        self._mappings_macros = {k: v for k, v in self._mappings_macros.items() if k in kept}
+        for context in self._macro_contexts:
+            context.op_offsets = [x for x in context.op_offsets if x in kept]
+        return self
+
     def build(self) -> SourceMap:
+        # Contexts of nested macro calls come after those of the macro they are in: the innermost call is the one noted.
+        for context in self._macro_contexts:
+            if context.called_in is not None and len(context.op_offsets) > 0:
+                self._mappings_macros[context.op_offsets[0]].called_in = context.called_in
         return SourceMap(self._mappings, self._pos_marks, self._mappings_macros, self._pos_marks_macros)
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 064b65b..b6067a4 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -258,7 +258,10 @@ class ExplorerScriptSsbCompiler:
         self.routine_ops = OpsLabelJumpToRemover(label_finalizer.routines, label_finalizer.label_offsets).routines
         self.routine_infos = compiler_visitor.routine_infos
         self.named_coroutines = compiler_visitor.named_coroutines
-        self.source_map = compiler_visitor.source_map_builder.build()
+        # Ops may have been removed along with the labels.
+        self.source_map = compiler_visitor.source_map_builder.remove_missing_opcodes(
+            op.offset for rtn in self.routine_ops for op in rtn
+        ).build()
 
         # Done!
         return self
@@ -313,7 +316,11 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
+            if macro.included__absolute_path is None:
+                # Otherwise the subfile itself included the macro from another file.
+                macro.included__absolute_path = subfile_path
             if basefile_path is not None:
-                macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
+                macro.included__relative_path = os.path.relpath(
+                    macro.included__absolute_path, os.path.dirname(basefile_path)
+                )
         return macros
-- 
2.43.0


From 6f5a773b42ae55f9a0708ca46f542ab001b79695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 49/62] fix: number the ops from 1 for every routine set the
 decompile CLI reads

---
 explorerscript/cli/decompile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..e0a2731 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,8 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
 
 class OpDict(TypedDict):
     params: list[ParamDict]
@@ -90,7 +88,7 @@ def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -135,6 +133,7 @@ def read_routines(
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
+    counter = Counter()
     for r in routines:
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
@@ -145,11 +144,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(-1, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -161,7 +160,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -173,7 +172,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -185,7 +184,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From 1559ce2ace2e12946068dbb486562c51c11ed7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 50/62] fix: a decompiler can convert its routine set more than
 once

---
 explorerscript/ssb_converting/ssb_decompiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 1875900..e1e3258 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -115,6 +115,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.forever_start_handler_stack = []
         self._line_number = 1
         self._next_jump_op_offset = None
         self._next_op_offset = None
@@ -132,12 +133,12 @@ class ExplorerScriptSsbDecompiler:
             and next_op.offset not in resolver.labels
             and op.op_code.name not in OPS_WITH_JUMP_TO_MEM_OFFSET
         }
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
-            grapher = SsbGraphMinimizer(self._routine_ops)
+            grapher = SsbGraphMinimizer(routine_ops)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -170,7 +171,6 @@ class ExplorerScriptSsbDecompiler:
         except Exception:
             # If an assertion (or anything else) failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...", exc_info=True)
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
@@ -186,7 +186,7 @@ class ExplorerScriptSsbDecompiler:
 
             ssb_script_decompiler = SsbScriptSsbDecompiler(
                 self._routine_infos,
-                self._routine_ops,
+                raw_routine_backup_ops,
                 self._raw_named_coroutines,
             )
 
-- 
2.43.0


From 0b480d9dc705cca2c64810b76fd642f5ceda7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 51/62] fix: the decompile CLI knows the names of coroutines

---
 explorerscript/cli/decompile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index e0a2731..e5f8823 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -134,7 +134,7 @@ def read_routines(
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
     counter = Counter()
-    for r in routines:
+    for routine_id, r in enumerate(routines):
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
         if "type" not in r:
@@ -142,11 +142,11 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(routine_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(routine_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
@@ -158,7 +158,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(routine_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
@@ -170,7 +170,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(routine_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
@@ -182,7 +182,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(routine_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         else:
-- 
2.43.0


From 1c04929a3a050df54a303d88129798428d3d3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 52/62] fix: the decompile CLI accepts integer coordinates of
 position marks, as documented

---
 explorerscript/cli/decompile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index e5f8823..886d7dd 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -79,7 +79,8 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg: str | int) -> tuple[int, int]:
+    arg_str = str(arg)
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From d00dba45e7109abac6222700cfd37944d641b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 53/62] fix: the compile CLI prints jump targets as positions
 of the ops

---
 explorerscript/cli/compile.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..ca9bd36 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +66,21 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_op_positions(routine_ops: list[list[SsbOperation]]) -> dict[int, int]:
+    """Maps the offsets of the ops to their positions, starting at 1 and counted across all routines."""
+    return {op.offset: i for i, op in enumerate((op for ops in routine_ops for op in ops), 1)}
+
+
+def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpDict]:
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
-            if isinstance(param, int):
+        jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET.get(op.op_code.name)
+        for i, param in enumerate(op.params):
+            if i == jump_param_idx:
+                assert isinstance(param, int)
+                out_op["params"].append(op_positions[param])
+            elif isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -94,29 +104,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    op_positions = build_op_positions(routine_ops)
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
-- 
2.43.0


From 22a6e75c878b3a9ee8599ef1178c01d4930e38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 54/62] fix: the --lookup option of the compile CLI can be
 given several times, as documented

---
 explorerscript/cli/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index ca9bd36..7e04ae8 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -145,7 +145,9 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument(
+        "--lookup", dest="lookup_paths", nargs="*", action="extend", metavar="PATH", help="Lookup paths."
+    )
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From db393e9c3ce46b77ac5280d3df6a97faa80982ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 55/62] fix: the compile CLI translates the jump target of ops
 with an unusual number of parameters

---
 explorerscript/cli/compile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 7e04ae8..6ce6397 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -75,7 +75,8 @@ def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpD
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET.get(op.op_code.name)
+        # The compiler always adds the jump target as the last parameter.
+        jump_param_idx = len(op.params) - 1 if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET else None
         for i, param in enumerate(op.params):
             if i == jump_param_idx:
                 assert isinstance(param, int)
-- 
2.43.0


From f227d50a77b1b4c52a6975ab5f07d6184f4588cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 56/62] fix: the compile CLI prints the target -1 of a routine

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 6ce6397..e7e9c4a 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -115,19 +115,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         else:
-- 
2.43.0


From 0ea7b1a337da6e32b58f830d8d14f3315e0cb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 57/62] fix: find the routine of a jump target if the routines
 are not in the order of their offsets

---
 explorerscript/ssb_converting/ssb_special_ops.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index b929a00..248d64b 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -534,13 +534,12 @@ def process_op_for_jump(
                 next_label_id = max(label.id for label in known_labels.values()) + 1
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
-            # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
-                routine_id -= 1
-            while old_offset > routine_end_offsets[routine_id]:
-                routine_id += 1
-                if routine_id >= len(routine_end_offsets):
-                    raise ValueError("A jump operation went past EOF.")
+            # LATER routine we haven't passed yet or even in one before. Routines are not always in the order of their
+            # offsets: It's in the routine with the lowest end offset of those that don't end before it.
+            routines_after = [(end, rtn_id) for rtn_id, end in enumerate(routine_end_offsets) if end >= old_offset]
+            if len(routines_after) < 1:
+                raise ValueError("A jump operation went past EOF.")
+            _end, routine_id = min(routines_after)
             label = SsbLabel(next_label_id, routine_id)
             if routine_id != our_routine_id:
                 label.referenced_from_other_routine = True
-- 
2.43.0


From 23435170181fa2d096ecf0c0d18bae58480a024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 58/62] fix: reject a text as the default of a regular switch

---
 .../compiler/compile_handlers/blocks/switches/switch_block.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 2045934..cdbe78f 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -98,6 +98,10 @@ class SwitchBlockCompileHandler(
 
         # 2. Default block (first because default is after no case op branched)
         if self._default_handler is not None:
+            if self._default_handler.is_message_case:
+                raise SsbCompilerError(
+                    f(_("A switch case must contain a list of statements (line {self.ctx.start.line})."))
+                )
             self._default_handler.set_end_label(end_label)
             default_ops = []
             # Insert a jump blueprint for now, note it, and if it comes up later during 3b,
-- 
2.43.0


From 6e59a0220e115cb7b378bec320183d99024a771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 59/62] fix: reject index based assignments with an operator
 other than =

---
 .../compile_handlers/assignments/assignment_regular.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/assignments/assignment_regular.py b/explorerscript/ssb_converting/compiler/compile_handlers/assignments/assignment_regular.py
index 1e3e05e..7157e29 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/assignments/assignment_regular.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/assignments/assignment_regular.py
@@ -70,6 +70,10 @@ class AssignmentRegularCompileHandler(
                 raise SsbCompilerError(
                     f(_("value(X) can not be used with index based assignments (line {self.ctx.start.line})."))
                 )
+            if self.operator != SsbCalcOperator.ASSIGN:
+                raise SsbCompilerError(
+                    f(_("Only = can be used for index based assignments (line {self.ctx.start.line})."))
+                )
             if str(self.var_target) == self.compiler_ctx.performance_progress_list_var_name:
                 return [self._generate_operation(OPS_FLAG__SET_PERFORMANCE, [index, self.value])]
             return [self._generate_operation(OPS_FLAG__CALC_BIT, [self.var_target, index, self.value])]
-- 
2.43.0


From b6646e104cfe30e37c369badb7691dc816d41760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 60/62] fix: reject labels that are not the last parameter of
 an SsbScript operation

---
 .../ssb_script/ssb_converting/compiler/compiler_listener.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 2dc02dc..6498b03 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -198,7 +198,8 @@ class SsbScriptCompilerListener(SsbScriptListener):
 
     def exitPos_argument(self, ctx: SsbScriptParser.Pos_argumentContext) -> None:
         self._is_processing_argument = False
-        self._turn_next_op_into_label_jump_for = None
+        if self._turn_next_op_into_label_jump_for is not None:
+            raise SsbCompilerError(_("Only the last parameter of an operation can be a label."))
         if self._argument_type == ListenerArgType.JUMP:
             label_name = self._argument_value
             assert isinstance(label_name, str)
-- 
2.43.0


From 97f6b7a56fd1b95c0e5583501b713419e0bcc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 61/62] fix: a game variable in a macro is not taken for a
 variable of the macros that call it

---
 explorerscript/macro.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 947a2bd..8120256 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -62,6 +62,10 @@ class MacroEndSsbLabel(SsbLabel):
     pass
 
 
+class _ExpandedConstant(SsbOpParamConstant):
+    """A constant of an expanded macro: It's not a variable of the macros that this macro is called in."""
+
+
 class ExplorerScriptMacro:
     # The name of the macro
     name: str
@@ -224,7 +228,7 @@ class ExplorerScriptMacro:
             smb.add_macro_opcode(new_op_idx, self.included__relative_path, self.name, mapping.line, mapping.column)
         op_code = blueprint_op.op_code
         new_params = self._process_parameters(blueprint_op.params, params)
-        if new_params and new_params[0] is not blueprint_op.params[0]:
+        if new_params and self._is_variable(blueprint_op.params[0], params):
             # If a macro variable that is used with an index turns out to be the performance progress list,
             # the op has to be the one for the performance progress list.
             if (
@@ -245,18 +249,25 @@ class ExplorerScriptMacro:
         where SsbOpConstants that match keys of macro_params are
         replaced with the respective value from that dict.
         """
-        new_params = []
+        new_params: list[SsbOpParam] = []
         for p in original_params:
-            if isinstance(p, SsbOpParamConstant):
-                p_as_str = str(p)
-                if p_as_str in macro_params:
-                    new_params.append(macro_params[p_as_str])
-                else:
-                    new_params.append(p)
+            if self._is_variable(p, macro_params):
+                new_params.append(macro_params[str(p)])
+            elif isinstance(p, SsbOpParamConstant):
+                new_params.append(_ExpandedConstant(p.name))
             else:
                 new_params.append(p)
         return new_params
 
+    @staticmethod
+    def _is_variable(param: SsbOpParam, macro_params: dict[str, SsbOpParam]) -> bool:
+        """Whether the parameter of an op is one of the macro variables."""
+        return (
+            isinstance(param, SsbOpParamConstant)
+            and not isinstance(param, _ExpandedConstant)
+            and param.name in macro_params
+        )
+
     def _create_parameter_mapping(self, parameters: dict[str, SsbOpParam]) -> dict[str, str]:
         return {x: str(y) for x, y in parameters.items()}
 
-- 
2.43.0


From 8db55b638cdb49bce8b2909bd3d1ab27406f08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 62/62] fix: a macro variable with the name of the performance
 progress list is not taken for the list

---
 explorerscript/macro.py                       | 21 +++++++++++++------
 .../compile_handlers/operations/macro_call.py |  1 +
 .../compiler_visitor/macro_visitor.py         |  8 +++++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 8120256..d2253f5 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -95,7 +95,6 @@ class ExplorerScriptMacro:
         variables: list[str],
         blueprints: list[SsbOperation],
         source_map: SourceMap,
-        performance_progress_list_var_name: str | None = None,
     ):
         """
         A model for a ExplorerScript macro. Contains the processed (= all sub-macros are already fully processed)
@@ -107,7 +106,6 @@ class ExplorerScriptMacro:
         self.included__absolute_path = None
         self.source_map: SourceMap = source_map
         self.included__relative_path = None
-        self.performance_progress_list_var_name = performance_progress_list_var_name
 
     def build(
         self,
@@ -115,12 +113,14 @@ class ExplorerScriptMacro:
         lbl_idx_counter: Counter,
         parameters: dict[str, SsbOpParam],
         smb: SourceMapBuilder,
+        performance_progress_list_var_name: str | None = None,
     ) -> list[SsbOperation]:
         """
         Returns new built opcodes for this macro. SsbOpConstants in the blueprints, that have the names of variables,
         are replaced with the values from the parameter dict. The keys for the dict are the names of the variables,
         all must be defined.
         Also updates the source map with macro opcode / position mark entries.
+        performance_progress_list_var_name is the name of the performance progress list where the macro is called.
         """
         # Check:
         for var_name in self.variables:
@@ -175,7 +175,9 @@ class ExplorerScriptMacro:
                     # Copy the label with a new proper index
                     new_labels[blueprint_op.label.id] = self._copy_blueprint_label(lbl_idx_counter, blueprint_op.label)
                     new_labels[blueprint_op.label.id].markers = blueprint_op.label.markers.copy()
-                new_root = self._build_op(op_idx_counter, blueprint_op.root, smb, parameters)
+                new_root = self._build_op(
+                    op_idx_counter, blueprint_op.root, smb, parameters, performance_progress_list_var_name
+                )
                 new_jumps = SsbLabelJump(new_root, new_labels[blueprint_op.label.id])
                 new_jumps.markers = blueprint_op.markers.copy()
                 out_ops.append(new_jumps)
@@ -186,7 +188,9 @@ class ExplorerScriptMacro:
                     SsbLabelJump(self._build_op(op_idx_counter, replacement_blueprint_op, smb, parameters), end_label)
                 )
             else:
-                out_ops.append(self._build_op(op_idx_counter, blueprint_op, smb, parameters))
+                out_ops.append(
+                    self._build_op(op_idx_counter, blueprint_op, smb, parameters, performance_progress_list_var_name)
+                )
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
@@ -204,7 +208,12 @@ class ExplorerScriptMacro:
         return out_ops
 
     def _build_op(
-        self, op_idx_counter: Counter, blueprint_op: SsbOperation, smb: SourceMapBuilder, params: dict[str, SsbOpParam]
+        self,
+        op_idx_counter: Counter,
+        blueprint_op: SsbOperation,
+        smb: SourceMapBuilder,
+        params: dict[str, SsbOpParam],
+        performance_progress_list_var_name: str | None = None,
     ) -> SsbOperation:
         new_op_idx = op_idx_counter()
         # Maybe this op was also included through a macro, if so just relay the macro source map entry
@@ -233,7 +242,7 @@ class ExplorerScriptMacro:
             # the op has to be the one for the performance progress list.
             if (
                 isinstance(new_params[0], SsbOpParamConstant)
-                and new_params[0].name == self.performance_progress_list_var_name
+                and new_params[0].name == performance_progress_list_var_name
             ):
                 if op_code.name == OP_BRANCH_BIT:
                     op_code, new_params = SsbOpCode(-1, OP_BRANCH_PERFORMANCE), [*new_params[1:], 1]
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
index 40cc6f3..d6926af 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
@@ -55,6 +55,7 @@ class MacroCallCompileHandler(
             self.compiler_ctx.counter_labels,
             dict(zip(macro.variables, args)),
             self.compiler_ctx.source_map_builder,
+            self.compiler_ctx.performance_progress_list_var_name,
         )
 
     def add(self, obj: ArgListCompileHandler) -> None:
diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index d6f92b6..abc6c1f 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -80,23 +80,27 @@ class MacroVisitor(ExplorerScriptVisitor):
         # Each macro has its own source map: it is replayed for every op and position mark when the macro is called.
         self.source_map_builder = self.compiler_ctx.source_map_builder = SourceMapBuilder()
         self._root_handler = macrodef_handler
+        variables = self._root_handler.get_variables()
+        performance_progress_list_var_name = self.compiler_ctx.performance_progress_list_var_name
+        if performance_progress_list_var_name in variables:
+            # In this macro the name is the one of the macro variable, not the one of the performance progress list.
+            self.compiler_ctx.performance_progress_list_var_name = ""
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        self.compiler_ctx.performance_progress_list_var_name = performance_progress_list_var_name
         # The labels of the jumps may also be missing if nothing calls the macro.
         labels = {op.id for op in blueprints if isinstance(op, SsbLabel)}
         for op in blueprints:
             if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in labels:
                 raise_label_does_not_exist(op.label)
         name = self._root_handler.get_name()
-        variables = self._root_handler.get_variables()
 
         return ExplorerScriptMacro(
             name,
             variables,
             blueprints,
             self.source_map_builder.build(),
-            self.compiler_ctx.performance_progress_list_var_name,
         )
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
-- 
2.43.0

