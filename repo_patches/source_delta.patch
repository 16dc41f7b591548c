From 270718145a61ddd1d25053bc9d2a921321c5ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 01/59] fix: follow the outgoing edges when looking for the
 common end of branches

The edge list was always empty, so the end of an if or switch block was never
found and flat structured programs decompiled to labels and jumps.
---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..889ff67 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 5defe685e3285adc655230c6abd9196e8c91092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 02/59] fix: keep the jump of a negated block that consists of
 a single jump

The headers of a negated if/elseif jump over the block, so they can not be
pointed at the target of the block's only jump.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..aa68bad 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -149,8 +149,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
-            - If the sub-block only has one single label jump, it's removed and the target
-              of the headers is changed to the target of that jump
+            - If the headers are not negated and the sub-block only has one single label jump, it's removed and
+              the target of the headers is changed to the target of that jump
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -171,6 +171,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
 
         if (
             len(self._header_jump_blueprints) > 0
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
-- 
2.43.0


From 721f6379e91a5e9450e0ab607281d06c0218a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 03/59] fix: do not replace branches to the end of a routine
 with a return

---
 explorerscript/source_map.py                  |  8 ++++
 .../compiler_visitor/routine_visitor.py       | 44 ++++++++++++++++++-
 .../ssb_converting/compiler/utils.py          | 14 +++---
 3 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..5ad1dae 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -380,6 +380,14 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Adding opcode: %d -> %d, %d", id(self), op_offset, line_number, column)
         return self
 
+    def copy_opcode(self, from_offset: int, to_offset: int) -> SourceMapBuilder:
+        """Add an opcode that has the same place in the source as an already added one."""
+        if from_offset in self._mappings:
+            self._mappings[to_offset] = self._mappings[from_offset]
+        if from_offset in self._mappings_macros:
+            self._mappings_macros[to_offset] = self._mappings_macros[from_offset]
+        return self
+
     def add_position_mark(self, position_mark: SourceMapPositionMark) -> SourceMapBuilder:
         self._pos_marks.append(position_mark)
         # logger.debug("<%d>: Adding PositionMark: %s", id(self), position_mark)
diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..91b9537 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -35,7 +35,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_targe
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import SsbOpCode, SsbRoutineInfo, SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, OP_JUMP, OPS_CTX, SsbLabel, SsbLabelJump
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -52,6 +53,8 @@ class RoutineVisitor(ExplorerScriptVisitor):
     compiler_ctx: CompilerCtx
 
     _active_routine_id: int
+    # Offsets for the final ops of the routines that end with labels, see _terminate_routines.
+    _end_offsets: dict[int, int]
     _root_handler: (
         ForTargetDefCompileHandler | CoroDefCompileHandler | SimpleDefCompileHandler | IntegerLikeCompileHandler | None
     )
@@ -67,8 +70,13 @@ class RoutineVisitor(ExplorerScriptVisitor):
         )
 
         self._active_routine_id = -1
+        self._end_offsets = {}
         self._root_handler = None
 
+    def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> None:
+        self.visitChildren(ctx)
+        self._terminate_routines()
+
     def visitImport_stmt(self, ctx: ExplorerScriptParser.Import_stmtContext) -> None:
         # Are not visited.
         return
@@ -86,6 +94,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._reserve_end_offset()
 
     def visitCoro_def(self, ctx: ExplorerScriptParser.Coro_defContext) -> None:
         self._root_handler = CoroDefCompileHandler(ctx, self.compiler_ctx)
@@ -98,6 +107,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
             self.routine_infos[self._active_routine_id],
             self.routine_ops[self._active_routine_id],
         ) = self._root_handler.collect()
+        self._reserve_end_offset()
 
     def visitFor_target_def(self, ctx: ExplorerScriptParser.For_target_defContext) -> None:
         self._root_handler = ForTargetDefCompileHandler(ctx, self.compiler_ctx)
@@ -108,6 +118,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._reserve_end_offset()
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> list[SsbOperation]:
         return []
@@ -128,3 +139,34 @@ class RoutineVisitor(ExplorerScriptVisitor):
                 self.routine_infos.append(None)  # type: ignore
                 self.routine_ops.append([])
                 self.named_coroutines.append([])  # type: ignore
+
+    def _reserve_end_offset(self) -> None:
+        ops = self.routine_ops[self._active_routine_id]
+        if len(ops) > 0 and isinstance(ops[-1], SsbLabel):
+            self._end_offsets[self._active_routine_id] = self.compiler_ctx.counter_ops()
+
+    def _terminate_routines(self) -> None:
+        """
+        Add a final op to routines that end with labels, if these are the targets of jumps that can not be replaced
+        with that op (see strip_last_label): Branches, calls and jumps from other routines.
+        """
+        end_labels: dict[int, int] = {}
+        for r_id in self._end_offsets:
+            for op in reversed(self.routine_ops[r_id]):
+                if not isinstance(op, SsbLabel):
+                    break
+                end_labels[op.id] = r_id
+        to_terminate: dict[int, int] = {}
+        for r_id, ops in enumerate(self.routine_ops):
+            for i, op in enumerate(ops):
+                if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id in end_labels:
+                    label_r_id = end_labels[op.label.id]
+                    is_simple_jump = op.root.op_code.name == OP_JUMP and (
+                        i == 0 or ops[i - 1].op_code.name not in OPS_CTX
+                    )
+                    if not is_simple_jump or label_r_id != r_id:
+                        to_terminate.setdefault(label_r_id, op.offset)
+        for r_id, jump_offset in to_terminate.items():
+            offset = self._end_offsets[r_id]
+            self.source_map_builder.copy_opcode(jump_offset, offset)
+            self.routine_ops[r_id].append(SsbOperation(offset, SsbOpCode(-1, OP_DUMMY_END), []))
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..a77fe3b 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -259,14 +259,14 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
     """
     logger.debug("Stripping last label...")
     returned_routine_ops = []
+    jump_counts: dict[int, int] = {}
+    for routine in routine_ops:
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
     for routine in routine_ops:
         if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
-            while isinstance(routine[-1], SsbLabel):
+            while len(routine) > 0 and isinstance(routine[-1], SsbLabel):
                 indices_to_remove = set()
                 label = routine[-1]
                 # Remove the label
@@ -284,7 +284,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                     else:
                         if isinstance(op, SsbLabel):
                             # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
+                            if jump_counts.get(op.id, 0) > 0:
                                 op_before_ends_control_flow = False
                         else:
                             op_before_ends_control_flow = does_op_end_control_flow(
-- 
2.43.0


From cb65cde0414bb2e0e6caa222010e2b1a9662b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 04/59] fix: only skip plain jumps when looking for labels
 after a jump

---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..35b8680 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -75,7 +75,7 @@ class LabelFinalizer:
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From ff19de0ea519e4796ecc397032a9aef72af1c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 05/59] fix: keep the jump of a switch case that the case
 before falls into

---
 .../ssb_converting/compiler/compile_handlers/abstract.py   | 7 +++++--
 .../compile_handlers/blocks/switches/switch_block.py       | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index aa68bad..f5b5c35 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -143,14 +143,16 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self._added_handlers = []
         self.start_label = None
         self.end_label = None
+        # Whether the block can also be entered from the block before it, instead of only via the headers.
+        self.can_be_fallen_into = False
 
     def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
         """
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
-            - If the headers are not negated and the sub-block only has one single label jump, it's removed and
-              the target of the headers is changed to the target of that jump
+            - If the headers are not negated, the sub-block only has one single label jump and can only be entered
+              via the headers, it's removed and the target of the headers is changed to the target of that jump
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -175,6 +177,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
+            and not self.can_be_fallen_into
         ):
             # Just has a jump, insert that into the headers instead
             for hjb in self._header_jump_blueprints:
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..fe0ddbb 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,13 +105,18 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        # Whether the block of the previous case continues with the block of the next case
+        falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
                 cases_waiting_for_a_block.append(h)
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
+                h.can_be_fallen_into = falls_through
                 ops = h.collect()
+                if len(ops) > 1:  # otherwise the block consists only of it's end label and was not fallen into
+                    falls_through = not does_op_end_control_flow(ops[-2], ops[-3] if len(ops) > 2 else None)
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
-- 
2.43.0


From 0cb12342f0c89b84569ca8579050e989079233c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 06/59] fix: reject routine ids that are out of order instead
 of failing an assertion

---
 .../compiler_visitor/routine_visitor.py         | 17 +++++++++++------
 explorerscript/ssb_converting/compiler/utils.py | 11 -----------
 explorerscript/ssb_converting/ssb_compiler.py   |  4 +---
 3 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index 91b9537..b9707fe 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -26,6 +26,7 @@ from typing import cast
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
+from explorerscript.error import SsbCompilerError
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
@@ -37,6 +38,7 @@ from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor i
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbOpCode, SsbRoutineInfo, SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, OP_JUMP, OPS_CTX, SsbLabel, SsbLabelJump
+from explorerscript.util import _, f
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -133,12 +135,15 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        r_id = self._active_routine_id
+        if r_id != len(self.routine_infos):
+            expected_id = len(self.routine_infos)
+            raise SsbCompilerError(
+                f(_("Unexpected routine id {r_id}: Routine ids must be in order and without gaps, expected {expected_id}."))
+            )
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
 
     def _reserve_end_offset(self) -> None:
         ops = self.routine_ops[self._active_routine_id]
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index a77fe3b..e740549 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -241,17 +241,6 @@ def _count_iter_items(iterable: Iterable[Any]) -> int:
     return next(counter)
 
 
-def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> bool:
-    last_offset = -1
-    for routine in routine_ops:
-        for op in routine:
-            if op.offset != -1 and op.offset <= last_offset:
-                return False
-            last_offset = op.offset
-
-    return True
-
-
 def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..705c543 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -38,7 +38,7 @@ from explorerscript.ssb_converting.compiler.compiler_visitor.routine_visitor imp
 from explorerscript.ssb_converting.compiler.label_finalizer import LabelFinalizer
 from explorerscript.ssb_converting.compiler.label_jump_to_remover import OpsLabelJumpToRemover
 from explorerscript.ssb_converting.compiler.meta_attributes import parse_exps_meta_attributes, ExpsMetaAttributes
-from explorerscript.ssb_converting.compiler.utils import routine_op_offsets_are_ordered, strip_last_label
+from explorerscript.ssb_converting.compiler.utils import strip_last_label
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbRoutineInfo
 from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
 from explorerscript.util import open_utf8, f, _
@@ -236,8 +236,6 @@ class ExplorerScriptSsbCompiler:
         except AssertionError as e:
             raise ValueError(str(e)) from e
 
-        assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
-
         # Copy from listener / remove labels and label jumps
         label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
 
-- 
2.43.0


From 4d4a851601323587e7c1a0069ea2faa8480ea1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 07/59] fix: reject jump operations that are written without a
 label to jump to

---
 .../ssb_converting/compiler/label_jump_to_remover.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 84eebff..f2b6878 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -31,7 +31,7 @@ import logging
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel, OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import f, _
 
 logger = logging.getLogger(__name__)
@@ -64,4 +64,8 @@ class OpsLabelJumpToRemover:
                     # Remove
                     pass
                 else:
+                    if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                        raise SsbCompilerError(
+                            f(_("The operation {op.op_code.name} jumps to a label and can not be used without one."))
+                        )
                     new_rtn_ops.append(op)
-- 
2.43.0


From 0f12c686bf19a67397ea54b2a47a885bf4c87646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 08/59] fix: collect SsbScript routines only after the syntax
 was checked

---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..c98fba1 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Collect the routines. This must not be done while parsing, because the tree may be incomplete on errors.
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From 4fd75280a4fd42e5088c56ce22ee25a813488604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 09/59] fix: reject SsbScript routine ids that are out of order
 or used twice

---
 .../compiler/compiler_listener.py               | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..d2c8d6b 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -43,7 +43,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamFixedPoint,
 )
 from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
-from explorerscript.util import exps_int, _
+from explorerscript.util import exps_int, _, f
 
 
 class ListenerArgType(Enum):
@@ -313,9 +313,12 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        r_id = self._active_routine_id
+        if r_id != len(self.routine_infos):
+            expected_id = len(self.routine_infos)
+            raise SsbCompilerError(
+                f(_("Unexpected routine id {r_id}: Routine ids must be in order and without gaps, expected {expected_id}."))
+            )
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
-- 
2.43.0


From c513e871ee5e8137b1bef6d4e355d4257f4cd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 10/59] fix: map the added end of a routine to its last
 statement

---
 explorerscript/source_map.py                  |  8 --------
 .../compiler_visitor/routine_visitor.py       | 20 +++++++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 5ad1dae..3710f3f 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -380,14 +380,6 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Adding opcode: %d -> %d, %d", id(self), op_offset, line_number, column)
         return self
 
-    def copy_opcode(self, from_offset: int, to_offset: int) -> SourceMapBuilder:
-        """Add an opcode that has the same place in the source as an already added one."""
-        if from_offset in self._mappings:
-            self._mappings[to_offset] = self._mappings[from_offset]
-        if from_offset in self._mappings_macros:
-            self._mappings_macros[to_offset] = self._mappings_macros[from_offset]
-        return self
-
     def add_position_mark(self, position_mark: SourceMapPositionMark) -> SourceMapBuilder:
         self._pos_marks.append(position_mark)
         # logger.debug("<%d>: Adding PositionMark: %s", id(self), position_mark)
diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index b9707fe..a1e4c75 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -55,8 +55,9 @@ class RoutineVisitor(ExplorerScriptVisitor):
     compiler_ctx: CompilerCtx
 
     _active_routine_id: int
-    # Offsets for the final ops of the routines that end with labels, see _terminate_routines.
-    _end_offsets: dict[int, int]
+    # Offsets and last statements of the routines that end with labels, see _terminate_routines.
+    _end_offsets: dict[int, tuple[int, ExplorerScriptParser.StmtContext]]
+    _last_stmt: ExplorerScriptParser.StmtContext | None
     _root_handler: (
         ForTargetDefCompileHandler | CoroDefCompileHandler | SimpleDefCompileHandler | IntegerLikeCompileHandler | None
     )
@@ -73,6 +74,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
 
         self._active_routine_id = -1
         self._end_offsets = {}
+        self._last_stmt = None
         self._root_handler = None
 
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> None:
@@ -129,6 +131,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         assert self._root_handler is not None
         for stmt_ctx in ctx.stmt():
             stmt_ctx.accept(StatementVisitor(cast(AnyCompileHandler, self._root_handler), self.compiler_ctx))
+            self._last_stmt = stmt_ctx
 
     def visitInteger_like(self, ctx: ExplorerScriptParser.Integer_likeContext) -> None:
         assert isinstance(self._root_handler, ForTargetDefCompileHandler)
@@ -148,7 +151,8 @@ class RoutineVisitor(ExplorerScriptVisitor):
     def _reserve_end_offset(self) -> None:
         ops = self.routine_ops[self._active_routine_id]
         if len(ops) > 0 and isinstance(ops[-1], SsbLabel):
-            self._end_offsets[self._active_routine_id] = self.compiler_ctx.counter_ops()
+            assert self._last_stmt is not None
+            self._end_offsets[self._active_routine_id] = (self.compiler_ctx.counter_ops(), self._last_stmt)
 
     def _terminate_routines(self) -> None:
         """
@@ -161,7 +165,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
                 if not isinstance(op, SsbLabel):
                     break
                 end_labels[op.id] = r_id
-        to_terminate: dict[int, int] = {}
+        to_terminate: set[int] = set()
         for r_id, ops in enumerate(self.routine_ops):
             for i, op in enumerate(ops):
                 if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id in end_labels:
@@ -170,8 +174,8 @@ class RoutineVisitor(ExplorerScriptVisitor):
                         i == 0 or ops[i - 1].op_code.name not in OPS_CTX
                     )
                     if not is_simple_jump or label_r_id != r_id:
-                        to_terminate.setdefault(label_r_id, op.offset)
-        for r_id, jump_offset in to_terminate.items():
-            offset = self._end_offsets[r_id]
-            self.source_map_builder.copy_opcode(jump_offset, offset)
+                        to_terminate.add(label_r_id)
+        for r_id in sorted(to_terminate):
+            offset, last_stmt = self._end_offsets[r_id]
+            self.source_map_builder.add_opcode(offset, last_stmt.start.line - 1, last_stmt.start.column)
             self.routine_ops[r_id].append(SsbOperation(offset, SsbOpCode(-1, OP_DUMMY_END), []))
-- 
2.43.0


From 561bb3f502041297e04df51eca4351504c04523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 11/59] fix: find the routines of imported files

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 705c543..af9ff95 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -165,7 +165,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +214,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From 383d36755f4f54701f072e985563d8e38da173c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 12/59] fix: do not try to import directories

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index af9ff95..d6c5b16 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -256,7 +256,7 @@ class ExplorerScriptSsbCompiler:
             if import_file.startswith(".") or import_file.startswith("/"):
                 # Relative or absolute import
                 abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))
-                if not os.path.exists(abs_path):
+                if not os.path.isfile(abs_path):
                     raise SsbCompilerError(f(_("The file to import ('{import_file}') was not found.")))
             else:
                 # Relative to one of the lookup paths
@@ -275,7 +275,7 @@ class ExplorerScriptSsbCompiler:
                     abs_path_c = os.path.realpath(
                         str(PurePath(dir_name).joinpath(PurePosixPath(lp).joinpath(import_file)))
                     )
-                    if os.path.exists(abs_path_c):
+                    if os.path.isfile(abs_path_c):
                         abs_path = abs_path_c
                         break
                 if abs_path is None:
-- 
2.43.0


From b01bd267aa760437a8b67a6e4720184b7e5768d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 13/59] fix: resolve every macro after all macros it depends on

---
 .../compiler_visitor/macro_resolution_order.py        | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..94be391 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -51,16 +51,7 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        return [self._dependency_graph.vs[v]["name"] for v in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
-- 
2.43.0


From 2f0f1e121febe1dd2936a745ae77c8622c68c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 14/59] fix: reject fixed point numbers as routine targets

---
 .../compile_handlers/functions/for_target_def.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..da0726a 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam, SsbOpParamConstant
+from explorerscript.util import exps_int, _
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -50,10 +50,12 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
-        try:
-            linked_to = exps_int(integer_like)  # type: ignore
-        except ValueError:
-            linked_to_name = integer_like.name  # type: ignore
+        if isinstance(integer_like, int):
+            linked_to = integer_like
+        elif isinstance(integer_like, SsbOpParamConstant):
+            linked_to_name = integer_like.name
+        else:
+            raise SsbCompilerError(_("The target of a routine must be an integer or a constant."))
 
         target: ExplorerScriptParser.For_target_def_targetContext = self.ctx.for_target_def_target()
         legacy_deprecated_target = target.FOR_TARGET()
-- 
2.43.0


From 19324c90a6c087b2c3a29137c4d424d3cde7476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/59] fix: give every macro its own source map

---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..af0a580 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -76,6 +76,9 @@ class MacroVisitor(ExplorerScriptVisitor):
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
         self._root_handler = macrodef_handler
+        # Each macro has it's own source map, otherwise it would also contain the entries of all macros before it.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
-- 
2.43.0


From 6baff96398cf7d2f7914b56fe8ca0a216cac90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 16/59] fix: name the file of position marks of nested macros

---
 explorerscript/macro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..69a2dc1 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -164,8 +164,11 @@ class ExplorerScriptMacro:
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
-        for m in self.source_map.get_position_marks__macros():
-            smb.add_macro_position_mark(*m)
+        for file_path, macro_name, pos_mark in self.source_map.get_position_marks__macros():
+            # If the file path was None in that entry, then it's OUR file. Correct the entry.
+            if file_path is None:
+                file_path = self.included__relative_path
+            smb.add_macro_position_mark(file_path, macro_name, pos_mark)
 
         out_ops.append(end_label)
 
-- 
2.43.0


From cbc6e9374308ffe6e54accdcbfb99a1742d95784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 17/59] fix: keep the file of macros that are imported by
 imported files

---
 explorerscript/ssb_converting/ssb_compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index d6c5b16..7765592 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -290,7 +290,9 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
-            if basefile_path is not None:
+            if macro.included__absolute_path is None:
+                macro.included__absolute_path = subfile_path
+            # Macros that the sub-file itself imported already have the path to the file that they are really in.
+            if basefile_path is not None and macro.included__relative_path is None:
                 macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
         return macros
-- 
2.43.0


From 1dd85634d9931adc5353849b5fff8e8d7d5d4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 18/59] fix: accept negative position mark coordinates without
 digits before the point

-.5 is a valid decimal and means the same as -0.5.
---
 explorerscript/common_syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..a3e56b6 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -42,7 +42,7 @@ def parse_position_marker_arg(
             dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
             dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
+            pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
             dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
             dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
         else:
-- 
2.43.0


From b69eb87b8a881012602ad74a3db8cc20e099317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 19/59] fix: report scripts that are nested too deeply as
 compiler errors

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 7765592..104bbad 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -133,6 +133,14 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except RecursionError as e:
+            raise SsbCompilerError(_("The script is nested too deeply.")) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From 17de1ca5443bcb2db6b670cbd2df59650cc6fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:54 +0000
Subject: [PATCH 20/59] fix: reject jumps to undefined labels in macros that
 are not called

---
 .../compiler/compiler_visitor/macro_visitor.py      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index af0a580..52c95b1 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,9 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import f, _
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -82,11 +84,20 @@ class MacroVisitor(ExplorerScriptVisitor):
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        self._check_labels(blueprints)
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
 
+    def _check_labels(self, blueprints: list[SsbOperation]) -> None:
+        """Labels are private to the macro: All jumps must lead to a label in it, even if the macro is never used."""
+        label_ids = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in label_ids:
+                label_id = op.label.original_name
+                raise SsbCompilerError(f(_("Label {label_id} does not exist, but a jump to it does (remove it).")))
+
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
 
-- 
2.43.0


From 9351aa50d8f5fd21a1cfc4697e85f1577e8245e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 21/59] fix: accept sources that only consist of attribute
 lines

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From a7383651c62bb397eab5254291bbbdb0d46f4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 22/59] fix: compare source maps by their contents

---
 explorerscript/source_map.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..ec69096 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, SourceMapping):
+            return False
+        return self.serialize() == other.serialize()
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
@@ -298,7 +303,12 @@ class SourceMap:
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SourceMap):
             return False
-        return self._mappings == other._mappings and self._position_marks == other._position_marks
+        return (
+            self._mappings == other._mappings
+            and self._position_marks == other._position_marks
+            and self._mappings_macros == other._mappings_macros
+            and self._position_marks_macro == other._position_marks_macro
+        )
 
     def __str__(self) -> str:
         return self.serialize()
-- 
2.43.0


From 7e2321c08b892a740a3c1666a8302d2089a0a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 23/59] fix: read the call position of macro entries back as a
 tuple

---
 explorerscript/source_map.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index ec69096..b2ca3aa 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -212,7 +212,13 @@ class MacroSourceMapping(SourceMapping):
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0],
+            data_list[1],
+            data_list[2],
+            data_list[3],
+            tuple(data_list[4]) if data_list[4] is not None else None,
+            data_list[5],
+            data_list[6],
         )
 
 
-- 
2.43.0


From ae39ee7b220aaf6626ca3ed4362f73db07e6d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 24/59] fix: rewrite macro return addresses that are zero

---
 explorerscript/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index b2ca3aa..7b37f26 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -362,7 +362,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From fe151e1e764484e8c5582b68a3d4176d8ea02e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 25/59] fix: print the index of the target operation as the
 parameter of jumps

---
 explorerscript/cli/compile.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..cc0b9a8 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,7 +66,12 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_op_indices(routine_ops: list[list[SsbOperation]]) -> dict[int, int]:
+    """Maps the offsets of all operations to their index, counted across all routines, starting at 1."""
+    return {op.offset: index for index, op in enumerate((op for ops in routine_ops for op in ops), start=1)}
+
+
+def build_ops(ops: list[SsbOperation], op_indices: dict[int, int]) -> list[OpDict]:
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
@@ -86,6 +92,11 @@ def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
                 )
             else:
                 raise ValueError("Invalid parameter.")
+        if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+            # The compiler always generates the offset of the target as the last parameter.
+            target = op.params[-1]
+            assert isinstance(target, int)
+            out_op["params"][-1] = op_indices[target]
         out_ops.append(out_op)
     return out_ops
 
@@ -94,29 +105,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    op_indices = build_op_indices(routine_ops)
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_indices)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, op_indices)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_indices),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_indices),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_indices),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
@@ -183,6 +195,7 @@ if __name__ == "__main__":
     }
 
     if args.source_map is not None:
+        compiler.source_map.rewrite_offsets(build_op_indices(compiler.routine_ops))
         with open_utf8(args.source_map, "w") as f:
             f.write(compiler.source_map.serialize())
 
-- 
2.43.0


From f36ab45923710a28f35e3e1b86db26b87d1d1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 26/59] fix: do not print null for routine targets that are -1

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index cc0b9a8..aaa7673 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -115,19 +115,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_indices),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_indices),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_indices),
             }
         else:
-- 
2.43.0


From ad0df83559f2b56808fc6d52c886560b3401de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 27/59] fix: register coroutines under their routine id

---
 explorerscript/cli/decompile.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..27c87a2 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -143,11 +143,10 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "ACTOR":
@@ -159,7 +158,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
@@ -171,7 +169,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
@@ -183,7 +180,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         else:
-- 
2.43.0


From d4e48726013fa500ae646d04a1863a570a44151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 28/59] fix: accept numbers as the coordinates of position
 marks

---
 explorerscript/cli/decompile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 27c87a2..ee54157 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,10 +81,10 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
-    arg_str_arr = arg_str.split(".")
+def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
+    arg_str_arr = str(arg).split(".")
     if len(arg_str_arr) < 2:
-        return exps_int(arg_str), 0
+        return exps_int(arg), 0
     if arg_str_arr[1] != "5" or len(arg_str_arr) > 2:
         raise ValueError("Invalid position mark")
     return exps_int(arg_str_arr[0]), 2
-- 
2.43.0


From 127b4f8a6064fef60177bbdadbdb108cd6807c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 29/59] fix: keep all lookup paths if the option is used
 several times

---
 explorerscript/cli/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index aaa7673..845b1fd 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -146,7 +146,9 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument(
+        "--lookup", dest="lookup_paths", nargs="*", action="extend", metavar="PATH", help="Lookup paths."
+    )
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From d51d56242e7bc630b7e7ebe6e267cb46fe18d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 30/59] fix: fall back to SsbScript on every error of the
 decompiler

---
 explorerscript/ssb_converting/ssb_decompiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..566a60c 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -152,8 +152,8 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If anything failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
-- 
2.43.0


From 1ddc9f6d51f584499af7035d1e68d0b3366a5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 31/59] fix: find the routine of jumps to the last op of a
 routine

---
 explorerscript/ssb_converting/ssb_special_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..3e0fedf 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From 670b2f296b485b0c200f125688c28066f0d323fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 32/59] fix: fall back to SsbScript if a used label was not
 printed

---
 .../write_handlers/label_jumps/call.py        |  2 +-
 .../ssb_converting/ssb_decompiler.py          | 20 ++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..8de2223 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -49,7 +49,7 @@ class CallWriteHandler(AbstractWriteHandler):
         op: SsbLabelJump = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
         assert op.label is not None
-        self.decompiler.write_stmnt(f"call @label_{op.label.id};")
+        self.decompiler.write_call(op.label.id)
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
         return exits[0].target_vertex
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 566a60c..1322294 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,7 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    labels_jumped_to: set[int]
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +96,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -105,6 +107,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
@@ -150,6 +153,9 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            missing_labels = self.labels_jumped_to.difference(self.labels_already_printed)
+            assert len(missing_labels) == 0, f"The labels {missing_labels} are used but were not printed."
+
             return self._output, self.smb.build()
 
         except Exception:
@@ -204,10 +210,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -216,7 +222,15 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
+
+    def write_call(self, label_id: int) -> None:
+        self.labels_jumped_to.add(label_id)
+        self.write_stmnt(f"call @label_{label_id};")
+
+    def _write_jump(self, label_id: int) -> None:
+        self.labels_jumped_to.add(label_id)
+        self.write_stmnt(f"jump @label_{label_id};")
 
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
-- 
2.43.0


From 4f569492642a6e358352279016cbbe431d6cf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 33/59] fix: continue after calls instead of in the called code

---
 .../decompiler/graph_building/graph_minimizer.py   | 14 ++++++++++++++
 .../decompiler/write_handlers/label_jumps/call.py  |  9 ++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..2c1281f 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -681,8 +681,22 @@ class SsbGraphMinimizer:
         else:
             breaks_set = set(immediate_breaks)
 
+        if any(self._is_edge_to_called_label(e) for e in list(breaks_set) + continues):
+            # The called code is left by a return, it can't be a way out of the loop or back to it's beginning.
+            return False, None, None
+
         return True, list(b for b in breaks_set if b not in continues), continues
 
+    @staticmethod
+    def _is_edge_to_called_label(e: Edge) -> bool:
+        op = e.source_vertex["op"]
+        if not isinstance(op, SsbLabelJump) or not isinstance(op.get_marker(), CallJump):
+            return False
+        target_op = e.target_vertex["op"]
+        if isinstance(target_op, SsbForeignLabel):
+            target_op = target_op.label
+        return target_op is op.label
+
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 8de2223..64006e5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -52,4 +52,11 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.write_call(op.label.id)
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
+        # Continue with the operation after the call and not with the called label.
+        for e in exits:
+            target_op = e.target_vertex["op"]
+            if isinstance(target_op, SsbForeignLabel):
+                target_op = target_op.label
+            if target_op is not op.label:
+                return e.target_vertex
         return exits[0].target_vertex
-- 
2.43.0


From 5401795ff1a04919638a75f7969f731df1a5e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 34/59] fix: continue after an if whose if-branch ends on a
 jump

---
 .../write_handlers/label_jumps/if_start.py    | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..2fc0fbb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -76,14 +76,15 @@ class IfWriteHandler(AbstractWriteHandler):
                 )
                 v_after_if_branch = if_branch_handler.write_content()
             else_ends_on_common_vtx = True
-            v_after_else_branch = None
+            v_after_else_branch: Vertex | None = else_edge.target_vertex
+            v_after_elseif_branches: list[Vertex] = []
             if not (
                 isinstance(else_edge.target_vertex["op"], SsbLabel)
                 and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
             ):
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
-                else_edge = self._build_else_if_chain(else_edge)
+                else_edge, v_after_else_branch = self._build_else_if_chain(else_edge, v_after_elseif_branches)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
                     else_ends_on_common_vtx = False
@@ -109,9 +110,12 @@ class IfWriteHandler(AbstractWriteHandler):
                 or v_after_if_branch == v_after_else_branch
             ), f"Invalid if-structure for if {m.if_id}"
 
-            if v_after_if_branch is None:
-                return v_after_else_branch
-            return v_after_if_branch
+            # All branches that do not end on a jump continue with the same vertex.
+            v_after = None
+            for v in (v_after_if_branch, *v_after_elseif_branches, v_after_else_branch):
+                assert v is None or v_after is None or v == v_after, f"Invalid if-structure for if {m.if_id}"
+                v_after = v if v is not None else v_after
+            return v_after
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -175,8 +179,14 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
-    def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
-        """Starting from the in_edge try to build as many elseif constructs as possible."""
+    def _build_else_if_chain(
+        self, in_edge: Edge, v_after_branches: list[Vertex]
+    ) -> tuple[Edge | None, Vertex | None]:
+        """
+        Starting from the in_edge try to build as many elseif constructs as possible.
+        The vertices the elseif branches continue with are added to v_after_branches.
+        Returns the edge of the else-block or, if there is none, the vertex the chain continues with.
+        """
         op: SsbOperation = in_edge.target_vertex["op"]
         while isinstance(op, SsbLabelJump) and isinstance(op.get_marker(), IfStart):
             logger.debug("<%d> Handling else-if-block (%s)...", id(self.start_vertex), op)
@@ -189,7 +199,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 logger.debug("<%d> Empty else-if-block (%s).", id(self.start_vertex), op)
                 with Blk(self.decompiler):
                     pass
-                return None
+                return None, else_edge.target_vertex
             else:
                 # If they are the same, we also need to print the else with a jump to it, so we need to make sure,
                 # the label is wirrten!
@@ -199,13 +209,15 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    v_after_branch = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
                     ).write_content()
+                if v_after_branch is not None:
+                    v_after_branches.append(v_after_branch)
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
                     isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
@@ -219,12 +231,12 @@ class IfWriteHandler(AbstractWriteHandler):
                     # because we WON'T be printing it's opcodes next otherwise!
                     eop = else_edge.target_vertex["op"]
                     if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
-                        return else_edge
+                        return else_edge, None
                     else:
-                        return None
+                        return None, else_edge.target_vertex
                 else:
-                    return None
-        return in_edge
+                    return None, else_edge.target_vertex
+        return in_edge, None
 
     def _write_if_header(
         self, header_str: str, op: SsbLabelJump, v: Vertex, include_newline_in_header: bool = True
-- 
2.43.0


From a8fa86860428863a49f981734d0ea30f508cad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 35/59] fix: print break_loop and continue only in their own
 loop

---
 .../write_handlers/label_jumps/forever_break.py           | 8 ++++++--
 .../write_handlers/label_jumps/forever_continue.py        | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..252b0e0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,8 +46,6 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-        self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
             if len(self.decompiler.forever_start_handler_stack) < 1:
@@ -56,6 +54,12 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
+            m = self.start_vertex["op"].get_marker()
+            if self.decompiler.forever_start_handler_stack[-1].m.loop_id != m.loop_id:
+                logger.warning("While decompiling, tried to generate break_loop; for another loop!")
+                raise FallbackToJump()
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..1487f12 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -52,6 +52,10 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             # the loop
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
+        m = self.start_vertex["op"].get_marker()
+        if self.decompiler.forever_start_handler_stack[-1].m.loop_id != m.loop_id:
+            logger.warning("While decompiling, tried to generate continue; for another loop!")
+            raise FallbackToJump()
         if not self._continue_is_implicit():
             self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
-- 
2.43.0


From 33605fde314b37a29714bacbf34c39192d35e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 36/59] fix: print the break of cases that jump to the end of
 the switch

---
 .../decompiler/write_handlers/label_jumps/switch_start.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..c347f33 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -115,6 +115,12 @@ class SwitchWriteHandler(AbstractWriteHandler):
                             )
                             handler.write_content()
                             if (
+                                isinstance(handler.last_handler_in_block, LabelWriteHandler)
+                                and m.switch_id in handler.last_handler_in_block.ended_switches
+                            ):
+                                # The branch reached the end of this switch.
+                                self.decompiler.write_stmnt("break;")
+                            elif (
                                 not isinstance(handler.last_handler_in_block, LabelWriteHandler)
                                 or not handler.last_handler_in_block.switch_fell_through
                             ):
-- 
2.43.0


From b86c5203d22877d229888eb6f4c2e663a4d63a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 37/59] fix: keep the start of routines, calls and loops when
 optimizing jumps

---
 .../graph_building/graph_minimizer.py         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 2c1281f..272fdf1 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -112,8 +112,12 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
-                            # IS JUMP AND BEFORE IS LABEL:
+                        if (
+                            isinstance(iv["op"], SsbLabel)
+                            and iv.index != 0
+                            and not iv["op"].referenced_from_other_routine
+                        ):
+                            # IS JUMP AND BEFORE IS LABEL (which is not a start of the routine):
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
 
@@ -133,9 +137,14 @@ class SsbGraphMinimizer:
             for in_edge_id in ins:
                 old_in_edge = g.es[in_edge_id]
                 attr = old_in_edge.attributes()
+                attr["loop"] = attr["loop"] or g.es[outs[0]]["loop"]
                 iv = old_in_edge.source
                 # Create a new edge between the target label and the old entry point
                 g.add_edge(iv, ov, **attr)
+                # If this was a call, it calls the other label now.
+                iv_op = old_in_edge.source_vertex["op"]
+                if isinstance(iv_op, SsbLabelJump) and iv_op.label is label["op"]:
+                    iv_op.label = ov["op"]
             g.delete_edges(ins)
             return [jump.index, label.index]
         return []
@@ -735,6 +744,9 @@ class SsbGraphMinimizer:
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
                         e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
+                    elif v.index == 0:
+                        # The routine starts with this jump.
+                        continue
                     vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
             vs_to_delete = set()
@@ -743,6 +755,10 @@ class SsbGraphMinimizer:
                 if isinstance(v["op"], SsbLabel):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0 and (v["op"].referenced_from_other_routine or out_edges[0].target != 1):
+                        # The routine starts with this label and does not continue with the next operation or it is
+                        # referenced from another routine.
+                        continue
                     if len(in_edges) == 0:
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
-- 
2.43.0


From 7a81731ddbaf9d05d11dd50136fcea766e267256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 38/59] fix: keep dungeon modes that have no constant

---
 explorerscript/ssb_converting/ssb_data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..a1faff3 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -426,7 +426,10 @@ class DungeonModeConstants:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        if idx == 0:
+            return self.close_constant
+        # Not one of the known modes, keep the value.
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From cdf2379f66e7286bae6d541eda239ad69751841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 39/59] fix: do not print message switches inside of
 with-blocks

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index cfea333..531cc0d 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -117,7 +117,10 @@ class BlockWriteHandler(AbstractWriteHandler):
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
                 # (last_handler_in_block must be SimpleOperationWriteHandler in this case)
                 assert isinstance(self.last_handler_in_block, SimpleOperationWriteHandler)
-                if self.last_handler_in_block.get_real_handler().__name__ == "CtxSimpleOpWriteHandler":
+                if self.last_handler_in_block.get_real_handler().__name__ in (
+                    "CtxSimpleOpWriteHandler",
+                    "MesageSwitchSimpleOpWriteHandler",
+                ):
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
 
             previous_vertex = self._next_vertex
-- 
2.43.0


From 4de0f95f0e2eaa202fb142c4b060b2690bece7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 40/59] fix: use special syntax only for the operations it is
 read as

---
 .../write_handlers/label_jumps/if_start.py       | 16 ++++++++++++++++
 .../write_handlers/label_jumps/switch_start.py   | 13 ++++++++-----
 .../decompiler/write_handlers/simple_ops/flag.py | 16 +++++++++++++++-
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 2fc0fbb..1911482 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -137,6 +137,8 @@ class IfWriteHandler(AbstractWriteHandler):
 
     def _if_header_for(self, op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
+        if not self._has_own_syntax(op):
+            return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
         if op.op_code.name == "BranchBit":
@@ -179,6 +181,20 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
+    def _has_own_syntax(self, op: SsbOperation) -> bool:
+        """Whether the special syntax for this operation stands for exactly this operation with these parameters."""
+        if op.op_code.name == "BranchBit":
+            perf_var = self.decompiler.performance_progress_list_var_name
+            return isinstance(op.params[1], int) and str(op.params[0]) != perf_var
+        if op.op_code.name == "BranchPerformance":
+            return isinstance(op.params[0], int) and op.params[1] in (0, 1)
+        if op.op_code.name in ("BranchDebug", "BranchEdit", "BranchVariation"):
+            return op.params[0] in (0, 1)
+        if op.op_code.name == "BranchValue":
+            # This would be read as Branch.
+            return op.params[1] != SsbOperator.EQ.value
+        return True
+
     def _build_else_if_chain(
         self, in_edge: Edge, v_after_branches: list[Vertex]
     ) -> tuple[Edge | None, Vertex | None]:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index c347f33..cf0a1dc 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -41,6 +41,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
     OP_SWITCH_DUNGEON_MODE,
+    OP_SWITCH_SCENARIO,
 )
 from explorerscript.ssb_converting.util import Blk
 
@@ -65,7 +66,6 @@ class SwitchWriteHandler(AbstractWriteHandler):
         assert isinstance(m, SwitchStart)
         self.decompiler.source_map_add_opcode(op.offset)
         self.decompiler.write_stmnt(f"switch ( {self._switch_header_for(op.root)} )")
-        is_switch_dungeon_mode = op.root.op_code.name == OP_SWITCH_DUNGEON_MODE
 
         exits = self.start_vertex.out_edges()
         edges_that_will_be_visited_multiple_times = set()
@@ -91,7 +91,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                     for sco in switch_case_ops:
                         logger.debug("Writing switch case (%s)...", sco)
                         self.decompiler.source_map_add_opcode(sco.op.offset)
-                        self.decompiler.write_stmnt(f"case {self._case_header_for(sco.op, is_switch_dungeon_mode)}:")
+                        self.decompiler.write_stmnt(f"case {self._case_header_for(sco.op, op.root)}:")
                     if is_default:
                         logger.debug("Writing default...")
                         self.decompiler.write_stmnt("default:")
@@ -192,10 +192,10 @@ class SwitchWriteHandler(AbstractWriteHandler):
             return f"{op.params[0]}"
         raise ValueError(f"Unknown switch {op.op_code.name}")
 
-    def _case_header_for(self, op: SsbOperation, is_switch_dungeon_mode: bool) -> str:
+    def _case_header_for(self, op: SsbOperation, switch_op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
         if op.op_code.name == "Case":
-            if is_switch_dungeon_mode:
+            if switch_op.op_code.name == OP_SWITCH_DUNGEON_MODE:
                 return f"{self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])}"  # type: ignore
             return f"{op.params[0]}"
         if op.op_code.name == "CaseMenu":
@@ -205,9 +205,12 @@ class SwitchWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "CaseMenu2":
             return f"menu2({op.params[0]})"
         if op.op_code.name == "CaseScenario":
-            # TODO: This will convert them into CaseValues. Might cause issues.
+            if switch_op.op_code.name != OP_SWITCH_SCENARIO:
+                raise ValueError("CaseScenario can only be expressed for SwitchScenario.")
             return f"{SsbOperator(op.params[0]).notation} {op.params[1]}"  # type: ignore
         if op.op_code.name == "CaseValue":
+            if switch_op.op_code.name == OP_SWITCH_SCENARIO:
+                raise ValueError("CaseValue can not be expressed for SwitchScenario.")
             return f"{SsbOperator(op.params[0]).notation} {op.params[1]}"  # type: ignore
         if op.op_code.name == "CaseVariable":
             return f"{SsbOperator(op.params[0]).notation} value({op.params[1]})"  # type: ignore
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index badc60f..ad83f9e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -55,10 +55,24 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
 
+    def _has_own_syntax(self, op: SsbOperation) -> bool:
+        """Whether the special syntax for this operation stands for exactly this operation with these parameters."""
+        if op.op_code.name == OPS_FLAG__CALC_BIT:
+            perf_var = self.decompiler.performance_progress_list_var_name
+            return isinstance(op.params[1], int) and str(op.params[0]) != perf_var
+        if op.op_code.name == OPS_FLAG__SET_PERFORMANCE:
+            return isinstance(op.params[0], int)
+        if op.op_code.name == OPS_FLAG__CALC_VALUE:
+            # This would be read as flag_Set.
+            return op.params[1] != SsbCalcOperator.ASSIGN.value
+        return True
+
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
-        if op.op_code.name == OPS_FLAG__CALC_BIT:
+        if not self._has_own_syntax(op):
+            self.decompiler.write_stmnt(f"{op.op_code.name}({', '.join(str(x) for x in op.params)});")
+        elif op.op_code.name == OPS_FLAG__CALC_BIT:
             self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
         elif op.op_code.name == OPS_FLAG__CALC_VALUE:
             self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
-- 
2.43.0


From 97af4149a47cae586e423b306fbf7a0fe3a50a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 41/59] fix: print message switches only if their default is
 last

---
 .../write_handlers/simple_ops/message_switches.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 3746493..557f530 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -33,6 +33,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import (
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
+    OP_DEFAULT_TEXT,
     OP_MESSAGE_SWITCH_TALK,
     OP_MESSAGE_SWITCH_MONOLOGUE,
     OPS_SWITCH_TEXT_CASE_MAP,
@@ -48,6 +49,7 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
 
     op_name: str | None
     have_written_at_least_one_child: bool
+    have_written_default: bool
 
     def __init__(
         self, start_vertex: Vertex, decompiler: ExplorerScriptSsbDecompiler, parent: AbstractWriteHandler | None
@@ -55,6 +57,7 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
         self.have_written_at_least_one_child = False
+        self.have_written_default = False
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
@@ -98,5 +101,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
             if not self.have_written_at_least_one_child:
                 raise ValueError("A message_Switch* must have at least one case or default.")
             return False
+        if self.have_written_default:
+            raise ValueError("The default of a message_Switch* must be last.")
         self.have_written_at_least_one_child = True
+        self.have_written_default = next_op.op_code.name == OP_DEFAULT_TEXT
         return True
-- 
2.43.0


From 3adf16aaf9926f9f1910ab1b5c8b345a5b40cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 42/59] fix: fall back to SsbScript for jumps into the cases of
 a switch

---
 .../decompiler/graph_building/graph_minimizer.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 272fdf1..1b6fea8 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -433,6 +433,10 @@ class SsbGraphMinimizer:
                     find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
+            # Cases that are not (only) reached from their switch can't be expressed.
+            for v in g.vs:
+                if isinstance(v["op"], SsbLabelJump) and v["op"].get_marker() is None:
+                    assert v["op"].root.op_code.name == OP_JUMP, f"{v['op']} is not part of a switch or if."
 
     def group_switch_cases(self) -> None:
         """Group cases of a switch or multi switch that jump to the same point"""
-- 
2.43.0


From 596710d2a199cc0bada49c9ddad15e3a2f034b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 43/59] fix: build only loops that are left by their breaks

---
 .../decompiler/graph_building/graph_minimizer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 1b6fea8..f148fd0 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -698,7 +698,21 @@ class SsbGraphMinimizer:
             # The called code is left by a return, it can't be a way out of the loop or back to it's beginning.
             return False, None, None
 
-        return True, list(b for b in breaks_set if b not in continues), continues
+        break_points = list(b for b in breaks_set if b not in continues)
+        # Without breaks, the loop must not be left to the vertex after it, and all points must be in the loop.
+        vertices_in_loop = {start.index}
+        to_visit = [start]
+        while len(to_visit) > 0:
+            for e in to_visit.pop().out_edges():
+                if e not in break_points and e not in continues and e.target not in vertices_in_loop:
+                    vertices_in_loop.add(e.target)
+                    to_visit.append(e.target_vertex)
+        if any(e.source not in vertices_in_loop for e in break_points + continues) or any(
+            e.target in vertices_in_loop for e in break_points
+        ):
+            return False, None, None
+
+        return True, break_points, continues
 
     @staticmethod
     def _is_edge_to_called_label(e: Edge) -> bool:
-- 
2.43.0


From e333f514b5e185095c809f4183728d41ddac392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 44/59] fix: decompile message switches without cases

---
 .../decompiler/write_handlers/simple_ops/message_switches.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 557f530..ffd9302 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -48,7 +48,6 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     """Handles writing message_SwitchMonologue and message_SwitchTalk."""
 
     op_name: str | None
-    have_written_at_least_one_child: bool
     have_written_default: bool
 
     def __init__(
@@ -56,7 +55,6 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
-        self.have_written_at_least_one_child = False
         self.have_written_default = False
 
     def write_content(self) -> Vertex | None:
@@ -98,11 +96,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         next_op: SsbOperation = next_handler.start_vertex["op"]
         assert self.op_name is not None
         if next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
-            if not self.have_written_at_least_one_child:
-                raise ValueError("A message_Switch* must have at least one case or default.")
             return False
         if self.have_written_default:
             raise ValueError("The default of a message_Switch* must be last.")
-        self.have_written_at_least_one_child = True
         self.have_written_default = next_op.op_code.name == OP_DEFAULT_TEXT
         return True
-- 
2.43.0


From 6eaac00460ec7d398b542046e9fb5d6f3c66219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 45/59] fix: write a break for all cases that are empty

---
 .../decompiler/write_handlers/label_jumps/switch_start.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index cf0a1dc..be9eecb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -79,9 +79,11 @@ class SwitchWriteHandler(AbstractWriteHandler):
             return exits[0].target_vertex
         else:
             list_of_switch_cases = list(iterate_switch_edges_using_edges_and_op(exits, op))
+            end_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             # Build a list of all edges that will be visited multiple times, make sure to generate a label for them
+            # (except for edges to the end of the switch, they are just written as a break).
             for e, _, __ in list_of_switch_cases:
-                if e in already_printed_edges:
+                if e in already_printed_edges and (end_vertex is None or e.target != end_vertex.index):
                     edges_that_will_be_visited_multiple_times.add(e)
                 already_printed_edges.add(e)
             already_printed_edges = set()  # reuse
@@ -100,7 +102,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
-                        if e in already_printed_edges:
+                        if e in edges_that_will_be_visited_multiple_times and e in already_printed_edges:
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
                         else:
-- 
2.43.0


From 785fdecdd6351126ab71a21aabc961a14ae61b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 46/59] fix: do not keep the results of searches for the end of
 branches for other graphs

---
 .../graph_building/graph_minimizer.py         |  8 -----
 .../decompiler/graph_building/graph_utils.py  | 32 +++++++------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index f148fd0..8af612d 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -179,7 +178,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -416,7 +414,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -430,7 +427,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
             # Cases that are not (only) reached from their switch can't be expressed.
@@ -469,8 +465,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -536,7 +530,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -727,7 +720,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 889ff67..0b4df33 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -27,7 +27,6 @@ import itertools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -55,15 +54,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -71,6 +61,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -93,22 +84,22 @@ def find_first_common_next_vertex_in_edges(
     Else:
         Those edges are not visited, aborting the branch.
 
+    The cache holds the results of the searches that are part of this search. They are only valid for this search,
+    the graph may be changed after it.
+
     If no common vertex is found, returns None.
     """
     # TODO: Performance with (not allow_open_branches).
+    if cache is None:
+        cache = {}
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], allow_open_branches, allow_loops, cache, vs_to_not_visit, allow_loop_edges
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -118,6 +109,7 @@ def _find_first_common_next_vertex_in_edges__impl(
     map_of_visited: list[dict[int, int]],
     allow_open_branches: bool,
     allow_loops: bool,
+    cache: dict[str, list[Edge] | None],
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
 ) -> None | list[Edge]:
@@ -190,7 +182,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch, cache=cache
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 8b3176dfb7b2d357dce86021b385f68db8104e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 47/59] fix: group the default of switches with the case it
 shares its block with

---
 .../decompiler/graph_building/graph_minimizer.py  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 8af612d..47a67bb 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -379,6 +379,21 @@ class SsbGraphMinimizer:
                             g.delete_edges(case_edge.index)
                         vs_to_delete.add(next_vertex)
                         next_vertex = else_edge_target_vertex
+                    # If the default only jumps to one of the cases, it is grouped with that case.
+                    if (
+                        next_vertex is not None
+                        and isinstance(next_vertex["op"], SsbLabelJump)
+                        and next_vertex["op"].maybe_root is not None
+                        and next_vertex["op"].root.op_code.name == OP_JUMP
+                        and len(next_vertex.in_edges()) == 0
+                    ):
+                        jump_edge = next_vertex.out_edges()[0]
+                        if not jump_edge["loop"] and any(
+                            e["switch_ops"] is not None and e.target == jump_edge.target for e in v.out_edges()
+                        ):
+                            vs_to_delete.add(next_vertex)
+                            next_vertex = jump_edge.target_vertex
+                            g.delete_edges(jump_edge)
                     # Else edge:
                     if next_vertex is not None:
                         v_else_edge = next(e for e in v.out_edges() if e["switch_ops"] is None)
-- 
2.43.0


From 2b03e8cf1e76adbaebd4622dc286b8676cd4b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 48/59] fix: source map entries of elseif headers in decompiled
 text

---
 .../write_handlers/label_jumps/if_start.py      |  3 ++-
 explorerscript/ssb_converting/ssb_decompiler.py | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 1911482..5c0ac6b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -266,7 +266,8 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        # Without newline the header is written behind the closing brace of the previous block and a space.
+        self.decompiler.source_map_add_opcode(op.offset, None if include_newline_in_header else 2)
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 1322294..0ed613f 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -232,12 +232,19 @@ class ExplorerScriptSsbDecompiler:
         self.labels_jumped_to.add(label_id)
         self.write_stmnt(f"jump @label_{label_id};")
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, offset_in_current_line: int | None = None) -> None:
+        """
+        Has to be called BEFORE writing the opcode.
+        The statement is expected to be written in a new line after the indent, unless offset_in_current_line is given:
+        It is the number of characters between the indent of the current line and the statement.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        line_number = self._line_number
+        col_number = self.indent * NUMBER_OF_SPACES_PER_INDENT
+        if offset_in_current_line is not None:
+            line_number -= 1
+            col_number += offset_in_current_line
+        self.smb.add_opcode(op_offset, line_number, col_number)
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
-- 
2.43.0


From 8fe9d63254535f81cfdb2b92935a074668e1332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 49/59] fix: source map entries only for jumps that are written
 by the decompiler

---
 .../decompiler/write_handlers/label_jumps/forever_break.py | 6 +++++-
 .../write_handlers/label_jumps/forever_continue.py         | 6 +++++-
 .../decompiler/write_handlers/label_jumps/jump.py          | 7 ++++---
 explorerscript/ssb_converting/ssb_decompiler.py            | 7 +++++++
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 252b0e0..7fcaccb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -58,7 +59,10 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
             if self.decompiler.forever_start_handler_stack[-1].m.loop_id != m.loop_id:
                 logger.warning("While decompiling, tried to generate break_loop; for another loop!")
                 raise FallbackToJump()
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            op: SsbLabelJump = self.start_vertex["op"]
+            # If there is no jump, then the offset is the one of the operation before this.
+            if op.maybe_root is not None and op.root.op_code.name == OP_JUMP:
+                self.decompiler.source_map_add_opcode(op.offset)
             self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 1487f12..d269c84 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -57,7 +58,10 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; for another loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            op: SsbLabelJump = self.start_vertex["op"]
+            # If there is no jump, then the offset is the one of the operation before this.
+            if op.maybe_root is not None and op.root.op_code.name == OP_JUMP:
+                self.decompiler.source_map_add_opcode(op.offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..e1fb20e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -48,8 +48,9 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        # The source map entry is only written if a jump is written next (by the label handler).
+        if op.maybe_root is not None and op.root.op_code.name == OP_JUMP:
+            self.decompiler.unwritten_jump_offset = op.offset
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 0ed613f..e1ef9f6 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -68,6 +68,8 @@ class ExplorerScriptSsbDecompiler:
     labels_already_printed: list[int] = []
     labels_jumped_to: set[int]
     smb: SourceMapBuilder | None
+    # Offset of the jump that was handled last, if nothing was written since.
+    unwritten_jump_offset: int | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
@@ -98,6 +100,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.labels_jumped_to = set()
         self.smb = None
+        self.unwritten_jump_offset = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
         self.forever_start_handler_stack = []
@@ -110,6 +113,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_jumped_to = set()
         self._line_number = 1
         self.smb = SourceMapBuilder()
+        self.unwritten_jump_offset = None
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
@@ -191,6 +195,7 @@ class ExplorerScriptSsbDecompiler:
             self.write_line()
         self._line_number += stmnt.count("\n")
         self._output += stmnt
+        self.unwritten_jump_offset = None
 
     def write_line(self) -> None:
         self._line_number += 1
@@ -230,6 +235,8 @@ class ExplorerScriptSsbDecompiler:
 
     def _write_jump(self, label_id: int) -> None:
         self.labels_jumped_to.add(label_id)
+        if self.unwritten_jump_offset is not None:
+            self.source_map_add_opcode(self.unwritten_jump_offset)
         self.write_stmnt(f"jump @label_{label_id};")
 
     def source_map_add_opcode(self, op_offset: int, offset_in_current_line: int | None = None) -> None:
-- 
2.43.0


From d6641899d5f6fa3417870e7c07e1ae1dfc364f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 50/59] fix: source map entries of the cases of message
 switches

---
 .../compile_handlers/blocks/switches/case_block.py         | 6 +++++-
 .../compile_handlers/blocks/switches/default_case_block.py | 6 +++++-
 .../compile_handlers/blocks/switches/message_switch.py     | 7 ++-----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
index 238bf32..53846de 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
@@ -35,7 +35,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.atoms.string import
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.case_header import CaseHeaderCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, OP_JUMP, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, OP_CASE_TEXT, OP_JUMP, SsbLabelJump
 from explorerscript.util import _
 
 
@@ -85,6 +85,10 @@ class CaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         return self._added_string_handler.collect()
 
+    def text_case(self, value: SsbOpParam) -> SsbOperation:
+        """The operation for this case of a message switch."""
+        return self._generate_operation(OP_CASE_TEXT, [value, self.get_text()])
+
     def collect_header_handler(self) -> CaseHeaderCompileHandler:
         assert self._case_header_handler is not None
         return self._case_header_handler
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
index ee1dd26..f695337 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.string import StringCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, OP_JUMP, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, OP_DEFAULT_TEXT, OP_JUMP, SsbLabelJump
 from explorerscript.util import _
 
 
@@ -75,6 +75,10 @@ class DefaultCaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         return self._added_string_handler.collect()
 
+    def text_case(self) -> SsbOperation:
+        """The operation for this default case of a message switch."""
+        return self._generate_operation(OP_DEFAULT_TEXT, [self.get_text()])
+
     def add(self, obj: AbstractStatementCompileHandler[ParserRuleContext] | StringCompileHandler) -> None:
         if isinstance(obj, AbstractComplexStatementCompileHandler):
             # Sub statement for the block
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..dea15bb 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -43,8 +43,6 @@ from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     OP_MESSAGE_SWITCH_MONOLOGUE,
     OP_MESSAGE_SWITCH_TALK,
-    OP_CASE_TEXT,
-    OP_DEFAULT_TEXT,
 )
 from explorerscript.util import _, f
 
@@ -81,17 +79,16 @@ class MessageSwitchCompileHandler(
             header_handler = h.collect_header_handler()
             if header_handler.get_header_handler_type() != IntegerLikeCompileHandler:
                 raise SsbCompilerError(f(_("Invalid case type for message_ switch (line {self.ctx.start.line}).")))
-            string = h.get_text()
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(h.text_case(value))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(self._default_handler.text_case())
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From 3db08d89d2b4716efd1e5cc45e7743f76b87ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 51/59] fix: convert() of a decompiler can be called again

---
 explorerscript/ssb_converting/ssb_decompiler.py          | 9 ++++-----
 .../ssb_script/ssb_converting/ssb_decompiler.py          | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index e1ef9f6..2aa6c70 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -119,17 +119,17 @@ class ExplorerScriptSsbDecompiler:
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -165,7 +165,6 @@ class ExplorerScriptSsbDecompiler:
         except Exception:
             # If anything failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
@@ -181,7 +180,7 @@ class ExplorerScriptSsbDecompiler:
 
             ssb_script_decompiler = SsbScriptSsbDecompiler(
                 self._routine_infos,
-                self._routine_ops,
+                raw_routine_backup_ops,
                 self._raw_named_coroutines,
             )
 
diff --git a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
index 20fc791..0564314 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
@@ -82,9 +82,9 @@ class SsbScriptSsbDecompiler:
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
 
-        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, self._routine_ops)):
+        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, routine_ops)):
             logger.debug(
                 "Decompiling (%d, %s)...",
                 r_id,
-- 
2.43.0


From 8165aa58909f11c8f67f74349ba894163aadb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 52/59] fix: read_routines numbers the ops of every model from
 one

---
 explorerscript/cli/decompile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index ee54157..e94da8c 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,8 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
 
 class OpDict(TypedDict):
     params: list[ParamDict]
@@ -90,7 +88,7 @@ def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -132,6 +130,7 @@ def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
+    counter = Counter()
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
@@ -145,10 +144,10 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -159,7 +158,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -170,7 +169,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -181,7 +180,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From 55f65a5124d187a62ab9e70bb53e8e86a1c35a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 53/59] fix: multi-line string literals keep a blank line
 before an unindented end delimiter

---
 explorerscript/ssb_converting/compiler/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index e740549..40890f3 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -204,6 +204,8 @@ def singleline_string_literal(string: str) -> str:
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
     all_lines = string.splitlines()
+    if string.endswith("\n"):
+        all_lines.append("")  # The last line is empty, splitlines leaves it out.
     lines: list[str] = []
     last_line = ""
 
-- 
2.43.0


From f6e40919cf5f37d9ddda4321539f0ee0fefe20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 54/59] fix: strings are printed as literals that are read back
 as the same string

---
 .../ssb_converting/ssb_data_types.py          | 74 +++++++++++++------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index a1faff3..741fe49 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -39,32 +39,62 @@ def escape_newlines(string: str) -> str:
     return string.replace("\n", "\\n")
 
 
+# Characters other than the newline at which the lines of multi-line string literals end when they are read.
+OTHER_LINE_BREAKS = "\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
+
+
 def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False) -> str:
-    if prefer_single_qoute:
-        preferred_quote = "'"
-        preferred_multiline_quote = "'''"
-        secondary_multiline_quote = '"""'
-    else:
-        preferred_quote = '"'
-        preferred_multiline_quote = '"""'
-        secondary_multiline_quote = "'''"
-
-    if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
-
-
-def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
+    quotes = ("'", '"') if prefer_single_qoute else ('"', "'")
+
+    if "\n" in string:
+        for quote in quotes:
+            if quote * 3 not in string and _keeps_lines(string.split("\n"), string):
+                return _repr_multiline_string(string, indent, quote * 3)
+    for quote in quotes:
+        single_line = _repr_single_line_string(string, quote)
+        if single_line is not None:
+            return single_line
+    # What single-line literals have no spelling for (such as a backslash before an "n") is kept in multi-line literals.
+    first_line, *lines = string.split("\n")
+    for quote in quotes:
+        if quote * 3 in string or not _keeps_lines(lines, string):
+            continue
+        if len(lines) > 0 and first_line != "":
+            return _repr_multiline_string("\n".join(lines), indent, quote * 3, first_line)
+        if len(lines) == 0 and not string.endswith(quote):
+            return f"{quote * 3}{string}{quote * 3}"
+    # There is no literal for this string.
+    return f"{quotes[0]}{escape_newlines(escape_quotes(string, which_quotes=quotes[0]))}{quotes[0]}"
+
+
+def _repr_single_line_string(string: str, quote: str) -> str | None:
+    """Returns the single-line literal with these quotes, or None, if it wouldn't be read as the string."""
+    if "\r" in string or "\f" in string:
+        return None
+    other_quote = '"' if quote == "'" else "'"
+    # The reader also replaces escaped quotes of the other kind.
+    output = string.replace(f"\\{other_quote}", f"\\\\{other_quote}")
+    output = escape_newlines(escape_quotes(output, which_quotes=quote))
+    if output.replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n") != string:
+        return None
+    unescaped = output.replace("\\\\", "").replace(f"\\{quote}", "")
+    if quote in unescaped or unescaped.endswith("\\"):
+        return None
+    return f"{quote}{output}{quote}"
+
+
+def _keeps_lines(lines: list[str], string: str) -> bool:
+    """Whether the lines of the string are still the same after the indent of a multi-line literal is removed."""
+    if any(char in string for char in OTHER_LINE_BREAKS):
+        return False
+    return len(lines) == 0 or any(not line.startswith(" ") for line in lines)
+
+
+def _repr_multiline_string(string: str, indent: int, delimiter: str, first_line: str = "") -> str:
     lines = string.split("\n")
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
-    return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
+    return f"{delimiter}{first_line}\n{output}\n{indentprefix}{delimiter}"
 
 
 class SsbRoutineType(Enum):
-- 
2.43.0


From 9e89cb3a5bb2f29a68137e1be2a3d42fb844a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 55/59] fix: names of position marks are printed as string
 literals

---
 explorerscript/ssb_converting/ssb_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 741fe49..41bfbca 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -336,7 +336,9 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        # Only single-line strings are allowed for the name.
+        name = _repr_single_line_string(self.name, "'") or _repr_single_line_string(self.name, '"') or f"'{self.name}'"
+        return f"Position<{name}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 42dcaced04f8dee30551e6949fe4d7db314a218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 56/59] fix: only .5 decimal places of position mark arguments
 are half tiles

---
 explorerscript/common_syntax.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index a3e56b6..409c6ab 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -39,18 +39,16 @@ def parse_position_marker_arg(
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
         if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
             pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From 6f6a7ec4a214be13e8f8f8b596b3ba58b6f8f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 57/59] fix: headers with multi-line strings are printed the
 same by every conversion

---
 explorerscript/ssb_converting/ssb_decompiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 2aa6c70..d81f310 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -115,6 +115,13 @@ class ExplorerScriptSsbDecompiler:
         self.smb = SourceMapBuilder()
         self.unwritten_jump_offset = None
 
+        # The parameters may still have the indents from a previous conversion.
+        for rtn in self._routine_ops:
+            for op in rtn:
+                for param in op.params:
+                    if hasattr(param, "indent"):
+                        param.indent = 0
+
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
         # Step 1: Build labels
-- 
2.43.0


From 38c12c0be45f3413a49f75ab73ddbd214bbcb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 58/59] fix: the Pygments lexer keeps newlines at the start and
 end of the text

---
 explorerscript/pygments/expslexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..8b345e0 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -23,6 +23,7 @@
 from __future__ import annotations
 
 import re
+from typing import Any
 
 from pygments.lexer import RegexLexer, include, words
 from pygments.token import Comment, Name, String, Text, Number
@@ -90,6 +91,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options: Any):
+        # Otherwise all newlines at the start and the end of the text would be removed.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From 1031dc1ab45d61467b61a468e2c2dcf53f5dbc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 59/59] fix: number switches over all routines when decompiling

Labels in switches are named after the number of the switch, which was
counted for each routine on its own: two routines could get labels of
the same name and one of them jumped into the other.
---
 .../decompiler/graph_building/graph_minimizer.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 47a67bb..b036bf0 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -335,9 +335,10 @@ class SsbGraphMinimizer:
 
     def build_and_group_switch_cases(self) -> None:
         logger.debug("Building switches...")
+        # The labels in switches are named after this, so it is counted for all routines.
+        current_switch_id = -1
         for i, g in enumerate(self._graphs):
             vs_to_delete: set[Vertex | int] = set()
-            current_switch_id = -1
             for v in g.vs:
                 if v["op"].op_code.name in OPS_SWITCH_CASE_MAP.keys() and v not in vs_to_delete:
                     current_switch_id += 1
-- 
2.43.0

