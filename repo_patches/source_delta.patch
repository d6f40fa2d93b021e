From a9e99fd75c2a8085cb3ed1cf763e5323ffede5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 01/40] fix: resolve an existing non-local upvalue to its own
 position

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..06cf7da 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1367,9 +1367,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index, to the position of this upvalue within the function at this depth
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From ebf764d8d2a4c428e0c39f1572a40204499ec698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 02/40] fix: close captured for loop variables when an
 iteration ends with continue

---
 cordy-sys/src/compiler/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..1b0e3ad 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -949,8 +949,9 @@ impl Parser<'_> {
         match self.current_locals_mut().top_loop() {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
-                let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let (outer, inner): (u32, u32) = (loop_stmt.enclosing_scope(), loop_stmt.inner_scope());
+                self.pop_locals(Some(outer), false, false, true); // Lift everything unique to this iteration, including the variables of a `for` loop
+                self.pop_locals(Some(inner), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From 557636682b2c413872845254c302e8e9d951e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 03/40] fix: recover the REPL from a runtime error without
 moving globals or leaving open upvalues

---
 cordy-sys/src/compiler/parser/semantic.rs |  7 ++++
 cordy-sys/src/repl.rs                     |  5 ++-
 cordy-sys/src/vm/mod.rs                   | 39 ++++++++++++++++++++---
 cordy-sys/src/vm/value/ptr.rs             |  7 ++++
 4 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 06cf7da..fd27c11 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -88,6 +88,13 @@ impl Locals {
         self.locals[index].name.clone().to_named()
     }
 
+    /// Hides the locals at or above the given `index`, which keep their slot but can no longer be referenced by name.
+    pub fn undeclare(&mut self, index: usize) {
+        for local in self.locals.iter_mut().skip(index) {
+            local.name = Reference::Named(String::new());
+        }
+    }
+
     /// Returns the topmost `Loop` statement on the stack, or `None` if the stack is empty.
     pub(super) fn top_loop(&mut self) -> Option<&mut Loop> {
         self.loops.last_mut()
diff --git a/cordy-sys/src/repl.rs b/cordy-sys/src/repl.rs
index 60c38cb..f64390d 100644
--- a/cordy-sys/src/repl.rs
+++ b/cordy-sys/src/repl.rs
@@ -115,7 +115,10 @@ impl<W: Write, F : FunctionInterface> Repl<W, F> {
         }
 
         self.vm.view_mut().push(String::from("<stdin>"), String::new());
-        self.vm.run_recovery(self.locals[0].len());
+
+        // If the input terminated early, some of the variables it would have declared may not exist
+        let declared = self.vm.run_recovery(self.locals[0].len());
+        self.locals[0].undeclare(declared);
         RunResult::Ok
     }
 }
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..dcab35d 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -225,12 +225,39 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
         ExitType::of(self, result)
     }
 
-    /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
-    pub fn run_recovery(&mut self, locals: usize) {
+    /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function.
+    /// `locals` is the number of global variables which were declared at compile time. Of these, the ones which did not get to be declared at runtime
+    /// (because the declaration did not execute) keep their slot, but are marked as undeclared.
+    ///
+    /// Returns the number of global variables which were declared at runtime.
+    pub fn run_recovery(&mut self, locals: usize) -> usize {
+        let declared = self.global_count;
+
+        self.close_upvalues(0);
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
+        self.stack.truncate(declared);
+        self.stack.resize(locals, ValuePtr::undeclared());
+        self.global_count = locals;
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
+
+        declared
+    }
+
+    /// Closes all open upvalues which refer to the stack at or above `index`
+    fn close_upvalues(&mut self, index: usize) {
+        if self.open_upvalues.is_empty() {
+            return
+        }
+        let stack = &self.stack;
+        self.open_upvalues.retain(|&local, upvalue| {
+            if local < index {
+                return true
+            }
+            upvalue.set(UpValue::Closed(stack.get(local).cloned().unwrap_or_default()));
+            false
+        });
     }
 
     /// Core Interpreter loop. This runs until the current frame is dropped via a `Return` opcode.
@@ -307,6 +334,8 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    self.close_upvalues(frame.frame_pointer); // Locals that were captured after (in code) an early return, won't have been lifted
+
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -346,7 +375,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Globals are absolute offsets, and allow late binding, which means we have to check the global count before referencing.
                     let local: usize = local as usize;
                     trace::trace_interpreter!("vm::run PushGlobal index={}, value={}", local, self.stack[local].as_debug_str());
-                    if local < self.global_count {
+                    if local < self.global_count && !self.stack[local].is_undeclared() {
                         self.push(self.stack[local].clone());
                     } else {
                         return ValueErrorVariableNotDeclaredYet(self.globals[local].clone()).err()
@@ -657,7 +686,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
     fn store_global(&mut self, index: u32, value: ValuePtr) -> AnyResult {
         let local: usize = index as usize;
-        if local < self.global_count {
+        if local < self.global_count && !self.stack[local].is_undeclared() {
             self.stack[local] = value;
             Ok(())
         } else {
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..42a4e4e 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -58,6 +58,7 @@ enum MemoryType {
 
 const TAG_INT      : usize = 0b______00;
 const TAG_NIL      : usize = 0b__000_01;
+const TAG_UNDECLARED: usize = 0b1_000_01;
 const TAG_BOOL     : usize = 0b__001_01;
 const TAG_FALSE    : usize = 0b0_001_01;
 const TAG_TRUE     : usize = 0b1_001_01;
@@ -175,6 +176,11 @@ impl ValuePtr {
         ValuePtr { tag: TAG_NIL }
     }
 
+    /// A placeholder for a global variable whose declaration was never executed. It is a unique form of `nil`.
+    pub const fn undeclared() -> ValuePtr {
+        ValuePtr { tag: TAG_UNDECLARED }
+    }
+
     pub const fn str() -> ValuePtr {
         ValuePtr { tag: TAG_STR }
     }
@@ -277,6 +283,7 @@ impl ValuePtr {
     // Utility, and efficient, functions for checking the type of inline or pointer values.
 
     pub const fn is_nil(&self) -> bool { (unsafe { self.tag } & MASK_NIL) == TAG_NIL }
+    pub const fn is_undeclared(&self) -> bool { (unsafe { self.tag }) == TAG_UNDECLARED }
     pub const fn is_bool(&self) -> bool { (unsafe { self.tag } & MASK_BOOL) == TAG_BOOL }
     pub const fn is_true(&self) -> bool { (unsafe { self.tag }) == TAG_TRUE }
     pub const fn is_int(&self) -> bool { self.is_precise_int() || self.is_bool() }
-- 
2.43.0


From f11782dfde5b1fa2849c52fb6051a90d464051ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 04/40] fix: process both sides of a comparison in an assert
 statement

---
 cordy-sys/src/compiler/parser/codegen.rs | 10 ++++++++--
 cordy-sys/src/compiler/parser/mod.rs     |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..31b8adb 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -47,12 +47,18 @@ impl<'a, 'b> Visitor for Process<'a, 'b> {
 impl<'a> Parser<'a> {
 
     /// Emits an expression, with optimizations (if enabled)
-    pub fn emit_optimized_expr(&mut self, mut expr: Expr) {
+    pub fn emit_optimized_expr(&mut self, expr: Expr) {
+        let expr = self.process_optimized_expr(expr);
+        self.emit_expr(expr);
+    }
+
+    /// Processes an expression, with optimizations (if enabled), to be emitted later
+    pub fn process_optimized_expr(&mut self, mut expr: Expr) -> Expr {
         expr = self.process_expr(expr);
         if self.enable_optimization {
             expr = self.optimize_expr(expr)
         }
-        self.emit_expr(expr);
+        expr
     }
 
     /// Processes and transforms expressions _prior_ to optimizing and emitting them. This is mainly to allow for
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 1b0e3ad..bebb37d 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -970,7 +970,8 @@ impl Parser<'_> {
         // If we parse an expression that has a top-level compare operation, we use AssertCompare, which performs the comparison (and thus can report both sides of the assert value)
         let branch_type = match self.parse_expr() {
             Expr(_, ExprType::Binary(op @ (BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::GreaterThan | BinaryOp::GreaterThanEqual | BinaryOp::LessThan | BinaryOp::LessThanEqual), lhs, rhs, swap)) => {
-                self.emit_binary_op_args(*lhs, *rhs, swap);
+                let (lhs, rhs) = (self.process_optimized_expr(*lhs), self.process_optimized_expr(*rhs));
+                self.emit_binary_op_args(lhs, rhs, swap);
                 BranchType::AssertCompare(CompareOp::from(op))
             }
             e => {
-- 
2.43.0


From 2afde7a885cfc0b7ea348f012c3236d389ca6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 05/40] fix: continue REPL input which ends after the opening
 parenthesis of a call

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index bebb37d..32972d3 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1665,7 +1665,10 @@ impl Parser<'_> {
                     match self.peek2() {
                         Some(CloseParen) => expr = expr.call(self.advance_with() | self.advance_with(), vec![]),
                         Some(_) => expr = expr.call_with(self.parse_comma_expr()),
-                        _ => self.error_with(ExpectedCommaOrEndOfArguments),
+                        _ => {
+                            self.advance(); // Consume `(`, so the error is at the end of input
+                            self.error_with(ExpectedCommaOrEndOfArguments)
+                        },
                     }
                 },
                 Some(OpenSquareBracket) => {
-- 
2.43.0


From d199e5e3264b2d5701f86046432a2c5668cdeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 06/40] fix: do not invoke a callback again after it raised an
 error

---
 cordy-sys/src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..f8d54be 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -23,6 +23,9 @@ pub fn strip_line_ending(buffer: &mut String) {
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default // The first error terminates the outer function, so nothing may be evaluated after it
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From f57f61fcead1f6069736ed89e680e22afc18aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 07/40] fix: set operations with the same set on both sides,
 and the order that difference leaves

---
 cordy-sys/src/core/collections.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..055f111 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -643,8 +643,9 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>(); // `other` may be the same object as `this`
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
+            for e in other {
                 set.insert(e);
             }
             drop(set);
@@ -659,8 +660,8 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
+            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>(); // `other` may be the same object as `this`
             let mut set = this.as_set().borrow_mut();
-            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -673,9 +674,10 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>(); // `other` may be the same object as `this`
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.remove(&e);
+            for e in other {
+                set.shift_remove(&e);
             }
             drop(set);
             this.ok()
-- 
2.43.0


From 1333451c5d39202f5223cd3b3ef11117830a26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 08/40] fix: compute line numbers in characters, as locations
 do

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..e1898eb 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations count characters, not bytes
             }
 
             starts.push(start);
-- 
2.43.0


From 40575fab6baff117b6cc2d282a9cc4c3c1c0bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 09/40] fix: report a failure to read standard input as an
 IOError instead of panicking

---
 cordy-sys/src/core/mod.rs |  4 ++--
 cordy-sys/src/vm/mod.rs   | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..d58c297 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -826,8 +826,8 @@ pub fn invoke_partial<VM : VirtualInterface>(f: &PartialNativeFunction, nargs: u
 
 fn invoke_arg0<VM : VirtualInterface>(f: NativeFunction, vm: &mut VM) -> ValueResult {
     match f {
-        Read => vm.read().to_value().ok(),
-        ReadLine => vm.read_line().to_value().ok(),
+        Read => vm.read(),
+        ReadLine => vm.read_line(),
         Print => {
             vm.println0();
             ValuePtr::nil().ok()
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index dcab35d..c1b2bc6 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -121,8 +121,8 @@ pub trait VirtualInterface {
     fn println(&mut self, str: &str);
     fn print(&mut self, str: &str);
 
-    fn read_line(&mut self) -> String;
-    fn read(&mut self) -> String;
+    fn read_line(&mut self) -> ValueResult;
+    fn read(&mut self) -> ValueResult;
 
     fn get_envs(&self) -> ValuePtr;
     fn get_env(&self, name: &str) -> ValuePtr;
@@ -993,17 +993,21 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn println(&mut self, str: &str) { writeln!(&mut self.write, "{}", str).unwrap(); }
     fn print(&mut self, str: &str) { write!(&mut self.write, "{}", str).unwrap(); }
 
-    fn read_line(&mut self) -> String {
+    fn read_line(&mut self) -> ValueResult {
         let mut buf = String::new();
-        self.read.read_line(&mut buf).unwrap();
+        if let Err(err) = self.read.read_line(&mut buf) {
+            return IOError(err.to_string()).err()
+        }
         util::strip_line_ending(&mut buf);
-        buf
+        buf.to_value().ok()
     }
 
-    fn read(&mut self) -> String {
+    fn read(&mut self) -> ValueResult {
         let mut buf = String::new();
-        self.read.read_to_string(&mut buf).unwrap();
-        buf
+        match self.read.read_to_string(&mut buf) {
+            Ok(_) => buf.to_value().ok(),
+            Err(err) => IOError(err.to_string()).err(),
+        }
     }
 
     fn get_envs(&self) -> ValuePtr {
-- 
2.43.0


From 3d06a01009cdafd4cb3a8f4f6660de760f94f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 10/40] fix: revert what a failed eval staged, as an
 incremental compile does

---
 cordy-sys/src/compiler/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/mod.rs b/cordy-sys/src/compiler/mod.rs
index d0579db..727d051 100644
--- a/cordy-sys/src/compiler/mod.rs
+++ b/cordy-sys/src/compiler/mod.rs
@@ -85,8 +85,16 @@ pub fn incremental_compile(mut params: CompileParameters) -> IncrementalCompileR
 /// This is the API used to run an `eval()` statement.
 pub fn eval_compile(text: String, mut params: CompileParameters) -> AnyResult {
     params.view.push(String::from("<eval>"), text);
-    try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false)
-        .ok_or_runtime_error()
+
+    // As with an incremental compile, an error must not leave anything that it staged behind
+    let state: CompileState = params.save();
+    let ret: IncrementalCompileResult = try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false);
+
+    if !ret.is_success() { // Revert staged changes
+        params.restore(state);
+    }
+
+    ret.ok_or_runtime_error()
 }
 
 
-- 
2.43.0


From 4f277002b7b90fb10f27e0b0563ba2389c16e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 11/40] fix: place late bound references where they occur

---
 cordy-sys/src/compiler/parser/core/graph.rs | 50 +++++++++++++--------
 cordy-sys/src/compiler/parser/core/mod.rs   |  4 +-
 cordy-sys/src/compiler/parser/mod.rs        |  1 +
 cordy-sys/src/compiler/parser/semantic.rs   | 37 ++++++++-------
 4 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..d3cf608 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -16,6 +16,9 @@ use crate::vm::operator::CompareOp;
 pub struct Code {
     pub(super) blocks: Vec<Block>,
     locals: HashMap<CodeId, String, FxBuildHasher>,
+    /// The positions which were reserved for a late binding. Anything that the binding resolves to is inserted at that position.
+    /// They hold a placeholder opcode, and are removed by `remove_reserved()` once all late bindings are resolved.
+    reserved: Vec<CodeId>,
 }
 
 
@@ -105,21 +108,20 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Returns a unique identifier for the next opcode in the current function.
+    /// Reserves the next position in the current function, and returns a unique identifier for it.
+    /// This keeps the position distinct from those of any other opcodes pushed (or reserved) before or after it.
     ///
     /// N.B. The parser **must** be within a function, this does not allow identifying targets within global code!
-    pub fn next_opcode(&self) -> OpcodeId {
-        let function_id = self.current_locals().func.expect("next_opcode() called in global scope!");
-        let blocks = &self.functions[function_id].code.blocks;
-        let block_id = blocks.len() - 1;
-        let opcode_id = blocks[block_id].code.len();
+    pub fn reserve_opcode(&mut self) -> OpcodeId {
+        let function_id = self.current_locals().func.expect("reserve_opcode() called in global scope!");
+        let code_id = self.functions[function_id].code.reserve();
 
-        OpcodeId { function_id, code_id: CodeId { block_id, opcode_id } }
+        OpcodeId { function_id, code_id }
     }
 
     pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Inserts the provided instruction at the reserved `OpcodeId`, after any which were already inserted there, and shifts all other code forward.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
     pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
@@ -134,6 +136,7 @@ impl Code {
         Code {
             blocks: vec![Block::new(BlockEnd::Exit)],
             locals: HashMap::with_hasher(FxBuildHasher::default()),
+            reserved: Vec::new(),
         }
     }
 
@@ -205,6 +208,23 @@ impl Code {
     }
 
 
+    /// Reserves a position at the end of the current block, for a late binding.
+    fn reserve(&mut self) -> CodeId {
+        let block_id = self.blocks.len() - 1;
+        let opcode_id = self.blocks[block_id].push(Location::empty(), Opcode::placeholder());
+        let code_id = CodeId { block_id, opcode_id };
+
+        self.reserved.push(code_id);
+        code_id
+    }
+
+    /// Removes all positions reserved for late bindings, which must have been resolved by now.
+    pub fn remove_reserved(&mut self) {
+        for CodeId { block_id, opcode_id } in self.reserved.drain(..) {
+            self.blocks[block_id].code.retain(|(id, _, _)| *id != opcode_id);
+        }
+    }
+
     pub(super) fn push(&mut self, loc: Location, opcode: Opcode, local: Option<String>) {
         let block_id = self.blocks.len() - 1;
         let opcode_id = self.blocks.last_mut().unwrap().push(loc, opcode);
@@ -290,16 +310,10 @@ impl Block {
     }
 
     fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+        let index = self.code.iter()
+            .position(|(i, _, _)| i == &id)
+            .expect("insert() called without a reserved opcode");
+        self.code.insert(index, (self.code.len(), loc, opcode));
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..11c291a 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -233,7 +233,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(native) => self.push_at(NativeFunction(native), loc),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Load(self.next_opcode()));
+                binding.update(ReferenceType::Load(self.reserve_opcode()));
                 self.late_bindings.push(*binding);
             }
 
@@ -271,7 +271,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(_) => self.error(AssignmentTargetInvalid),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Store(self.next_opcode()));
+                binding.update(ReferenceType::Store(self.reserve_opcode()));
                 self.late_bindings.push(*binding);
             }
 
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 32972d3..f1308c7 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -239,6 +239,7 @@ impl Parser<'_> {
 
         // Emit functions
         for mut func in self.functions.drain(..) {
+            func.code.remove_reserved();
             if self.enable_optimization {
                 func.code.optimize();
             }
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index fd27c11..e0d835e 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1042,15 +1042,7 @@ impl<'a> Parser<'a> {
                     (ReferenceType::Load(at), LateBound::Local(index)) => self.insert(at, binding.loc, PushGlobal(*index)),
                     (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
-                        // Need to update all the matching late bound globals in the pattern
-                        let pattern = &mut self.patterns[pattern_index];
-                        pattern.visit(&mut |op| {
-                            if let ParserStoreOp::LateBoundGlobal(index) = op {
-                                if *index == binding.index {
-                                    *op = ParserStoreOp::Bound(StoreOp::Global(*local))
-                                }
-                            }
-                        });
+                        Parser::do_bind_pattern(pattern_index, binding.index, *local, &mut self.patterns);
                     },
                     (ReferenceType::Load(at), LateBound::Method { function_id, instance }) => {
                         if *instance {
@@ -1059,15 +1051,14 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.insert(at, binding.loc, GetMethod(*function_id))
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.insert(at, binding.loc, GetMethod(*function_id))
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
@@ -1078,7 +1069,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
@@ -1088,6 +1079,19 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Updates all references from a pattern to the late binding with the given index, to reference a global.
+    ///
+    /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
+    fn do_bind_pattern(pattern_index: usize, binding_index: usize, global: u32, patterns: &mut [Pattern<ParserStoreOp>]) {
+        patterns[pattern_index].visit(&mut |op| {
+            if let ParserStoreOp::LateBoundGlobal(index) = op {
+                if *index == binding_index {
+                    *op = ParserStoreOp::Bound(StoreOp::Global(global))
+                }
+            }
+        });
+    }
+
     /// Resolves any outstanding late bindings present at teardown, by either falling back to a global, or raises an error.
     pub fn resolve_remaining_late_bindings(&mut self) {
         for binding in self.late_bindings.drain(..) {
@@ -1095,7 +1099,8 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
-                    _ => panic!()
+                    ReferenceType::StorePattern(pattern_index) => Parser::do_bind_pattern(pattern_index, binding.index, fallback, &mut self.patterns),
+                    ReferenceType::Invalid => panic!("Invalid reference type set!"),
                 }
             } else if binding.error {
                 self.errors.insert(ParserError::new(UndeclaredIdentifier(binding.name), binding.loc));
-- 
2.43.0


From d9c25f4cbd7253ba39d41248e53b4daa2267aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 12/40] fix: forget every captured variable that goes out of
 scope, whatever the order of capture

---
 cordy-sys/src/compiler/parser/semantic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index e0d835e..b644509 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1161,12 +1161,8 @@ impl<'a> Parser<'a> {
                     // Pop the local
                     self.current_locals_mut().locals.pop().unwrap();
 
-                    // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
-                    }
+                    // And pop any matching upvalue, which need not be the last one, as upvalues are in order of capture and not of declaration
+                    self.current_locals_mut().upvalues.retain(|upvalue| !(upvalue.index == local_index && upvalue.is_local));
                 }
             }
         }
-- 
2.43.0


From 01ef44df0d804bb972fd4321e22879823f16ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 13/40] fix: capture the variables of enclosing functions that
 a default argument references

---
 cordy-sys/src/compiler/parser/mod.rs      | 20 +++++++++++++++++++-
 cordy-sys/src/compiler/parser/semantic.rs | 13 +++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index f1308c7..4d430d1 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -120,6 +120,7 @@ pub(super) struct Parser<'a> {
 
     scope_depth: u32, // Current scope depth
     function_depth: u32, // Current depth of nested / enclosing functions
+    default_arg_depth: u32, // Of `function_depth`, how many are due to being within a default argument of a function (which is not itself declared yet)
     module_depth: u32, // Current depth of nested modules / structs
 
     modules: Vec<Module>,
@@ -186,6 +187,7 @@ impl Parser<'_> {
 
             scope_depth: 0,
             function_depth: 0,
+            default_arg_depth: 0,
             module_depth: 0,
 
             modules: Vec::new(),
@@ -584,7 +586,7 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
-                    params.default_args.push(self.parse_expr()); // Parse an expression
+                    params.default_args.push(self.parse_default_argument());
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -599,6 +601,22 @@ impl Parser<'_> {
         params
     }
 
+    /// Parses the expression of a default argument. As this will be evaluated by the function that is being declared (and not the enclosing one),
+    /// any local variables of enclosing functions that it references must be captured by that function.
+    fn parse_default_argument(&mut self) -> Expr {
+        self.locals.push(Locals::new(None));
+        self.function_depth += 1;
+        self.default_arg_depth += 1;
+
+        let expr = self.parse_expr();
+
+        self.default_arg_depth -= 1;
+        self.function_depth -= 1;
+        self.locals.pop();
+
+        expr
+    }
+
     fn parse_function_body_and_emit(&mut self, params: ParserFunctionParameters) {
         let closed_locals = self.parse_function_body(params);
         self.emit_closure_and_closed_locals(closed_locals);
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b644509..5d8fe45 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1259,9 +1259,12 @@ impl<'a> Parser<'a> {
             Reference::LateThis => return LValueReference::Invalid,
         };
 
+        // Default arguments don't count as being within the function they are declared by
+        let function_depth = self.function_depth - self.default_arg_depth;
+
         // 4. If we are within a function and module, we may bind to functions defined on this, or enclosing modules
         // Note that we can only bind to named references via this mechanism, `self` is only present as a local
-        if self.function_depth > 0 && self.module_depth > 0 {
+        if function_depth > 0 && self.module_depth > 0 {
             // Resolve reference to fields or other `self` methods
             //
             // 1. A reference to a field or `self` method, without an explicit `self` is different than a non-self method, in that it cannot fully elide the `self`.
@@ -1323,11 +1326,11 @@ impl<'a> Parser<'a> {
         }
 
         // 5. If we are in a function depth > 0, then we can also resolve true globals
-        // If we are in function depth == 0, any true globals will be caught and resolved as locals by (1.) (but the opcodes for global load/store will still be emitted)
+        // If we are in function depth == 0, any true globals will be caught and resolved as locals by (1.) (but the opcodes for global load/store will still be emitted), except from a default argument
         if self.function_depth > 0 {
             for local in self.locals[0].locals.iter().rev() {
                 if local.name.is_same(&name) && local.initialized && local.is_global() {
-                    if self.module_depth > 0 {
+                    if function_depth > 0 && self.module_depth > 0 {
                         // Note that module methods should take priority over globals, and both can be late bound
                         // In order to handle this, we create a late binding here, but with a fallback instead of an error
                         // If unbound, this will default to assuming the fallback
@@ -1338,7 +1341,9 @@ impl<'a> Parser<'a> {
             }
 
             // Late Bindings, but with an error
-            return LValueReference::LateBinding(LateBinding::with_error(name, self));
+            if function_depth > 0 {
+                return LValueReference::LateBinding(LateBinding::with_error(name, self));
+            }
         }
 
         // In global scope if we still could not resolve a variable, we return `None`
-- 
2.43.0


From 000fd0b41c569b4c0a891eea63a7399682e175ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 14/40] fix: continue REPL input which ends within 'not in' or
 before the value of a let pattern

---
 cordy-sys/src/compiler/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 4d430d1..77cf82e 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1066,7 +1066,10 @@ impl Parser<'_> {
                             // It makes no sense for them to be here, since everything gets initialized to null anyway
                             // Don't write `let a, _, *b`, just write `let a, b`
                             if lvalue.is_non_trivial() {
-                                self.semantic_error_at(loc_start | self.prev_location(), LetWithNonTrivialPattern);
+                                match self.peek() {
+                                    Some(_) => self.semantic_error_at(loc_start | self.prev_location(), LetWithNonTrivialPattern),
+                                    None => self.expect(Equals), // The expression is still to come
+                                }
                             }
                             lvalue.declare_locals(self);
                             lvalue.initialize_locals(self);
@@ -1840,6 +1843,7 @@ impl Parser<'_> {
                         long = true;
                         Some(BinaryOp::NotIn)
                     },
+                    None => Some(BinaryOp::NotIn), // Nothing but (the rest of) `not in` can continue this expression
                     _ => None,
                 }
                 _ => None
-- 
2.43.0


From 9213b641ef2c44c111b8c5d86d1fa1f6a7a77181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 15/40] fix: initialize an annotated function only once its
 annotations are evaluated

---
 cordy-sys/src/compiler/parser/mod.rs      | 39 +++++++++++++++++------
 cordy-sys/src/compiler/parser/semantic.rs |  5 +++
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 77cf82e..8c4aeba 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -280,7 +280,7 @@ impl Parser<'_> {
             trace::trace_parser!("rule <statement>");
             match self.peek() {
                 Some(At) => self.parse_annotated_named_function(),
-                Some(KeywordFn) => self.parse_named_function(),
+                Some(KeywordFn) => { self.parse_named_function(true); },
                 Some(KeywordReturn) => self.parse_return_statement(),
                 Some(KeywordLet) => self.parse_let_statement(),
                 Some(KeywordIf) => self.parse_if_statement(),
@@ -451,23 +451,38 @@ impl Parser<'_> {
     fn parse_annotated_named_function(&mut self) {
         trace::trace_parser!("rule <annotated-named-function");
 
+        // The variable gets initialized once, with the value of the outermost annotation
+        if let Some(local) = self.parse_annotation() {
+            self.init_local(local);
+        }
+    }
+
+    /// Returns the index of the local variable of the annotated function, which is referencable but still to be initialized, or `None` if there is no such variable.
+    fn parse_annotation(&mut self) -> Option<usize> {
         self.push_delayed_pop();
         self.advance(); // Consume `@`
         self.parse_expression(); // The annotation body
-        match self.peek() {
-            Some(At) => self.parse_annotated_named_function(),
-            Some(KeywordFn) => self.parse_named_function(),
-            _ => self.error_with(ExpectedAnnotationOrNamedFunction),
-        }
-        self.push(Call(1, false)) // Evaluate the annotation
+        let local = match self.peek() {
+            Some(At) => self.parse_annotation(),
+            Some(KeywordFn) => self.parse_named_function(false),
+            _ => {
+                self.error_with(ExpectedAnnotationOrNamedFunction);
+                None
+            },
+        };
+        self.push(Call(1, false)); // Evaluate the annotation
+        local
     }
 
-    fn parse_named_function(&mut self) {
+    /// Returns the index of the local variable declared for this function, if any.
+    ///
+    /// - If `init` is true, this local will be immediately initialized. Otherwise, it is only made referencable (i.e. by the function body), and must be initialized with `init_local()` afterwards.
+    fn parse_named_function(&mut self, init: bool) -> Option<usize> {
         // Before we enter this rule, we instead check if we see `fn` `(`, which would imply this is actually part of an expression
         // If so, we shortcut into that
         if let Some(OpenParen) = self.peek2() {
             self.parse_expression_statement();
-            return
+            return None
         }
 
         trace::trace_parser!("rule <named-function>");
@@ -481,13 +496,17 @@ impl Parser<'_> {
 
         // Named functions are a complicated local variable, and needs to be declared as such
         // Note that we always declare the function here, to preserve parser operation in the event of a parse error
-        self.declare_local(name.clone(), true);
+        let local: Option<usize> = self.declare_local(name.clone(), init);
+        if let Some(local) = local {
+            self.set_local_referencable(local);
+        }
 
         let func: u32 = self.declare_function(name, &params);
         self.push(Constant(func));
 
         // Emit the closed locals from the function body right away, because we are not in an expression context
         self.parse_function_body_and_emit(params);
+        local
     }
 
     fn parse_expression_function(&mut self) -> Expr {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 5d8fe45..03c6cc1 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1400,6 +1400,11 @@ impl<'a> Parser<'a> {
         if is_self { LValueReference::UpValueThis(index) } else { LValueReference::UpValue(index) }
     }
 
+    /// Marks a local as initialized at compile time only, so it can be referenced, by code that will be executed after `init_local()`
+    pub fn set_local_referencable(&mut self, index: usize) {
+        self.current_locals_mut().locals[index].initialized = true;
+    }
+
     /// Initializes a local, so it can be referenced.
     /// Marks the corresponding `Local` as initialized, and also (if necessary), pushes a `IncGlobalCount` opcode.
     pub fn init_local(&mut self, index: usize) {
-- 
2.43.0


From 985957c90923b03bcf9765b9a84c8ad388855497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 16/40] fix: locate the next token, not a newline before it

---
 cordy-sys/src/compiler/parser/core/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 11c291a..3a829f2 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -350,7 +350,11 @@ impl<'a> Parser<'a> {
 
     /// Returns the source location of the next token, aka the one in `peek()`
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.iter()
+            .find(|(_, token)| token != &NewLine)
+            .or(self.input.front())
+            .map(|&(loc, _)| loc)
+            .unwrap_or_else(Location::empty)
     }
 
     pub fn synthetic_name(&mut self) -> String {
-- 
2.43.0


From 3668b6a716114247be9d7c7784b3e737684223f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 17/40] fix: a break or continue in the else of a loop belongs
 to the enclosing loop

---
 cordy-sys/src/compiler/parser/mod.rs      | 15 +++++++++++----
 cordy-sys/src/compiler/parser/semantic.rs | 13 ++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 8c4aeba..25457c4 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -849,13 +849,15 @@ impl Parser<'_> {
         self.join_reverse(jump, BranchType::Jump);
         self.join_forward(branch, BranchType::JumpIfFalsePop); // Fix the initial conditional jump
 
+        let breaks = self.end_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse `while {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(breaks);
     }
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
@@ -873,13 +875,15 @@ impl Parser<'_> {
             self.join_reverse(jump, BranchType::JumpIfTruePop); // Jump back to origin
         }
 
+        let breaks = self.end_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse do { } while <expr> else { }
             self.advance(); // Consume `else`
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(breaks);
     }
 
     fn parse_loop_statement(&mut self) {
@@ -902,7 +906,8 @@ impl Parser<'_> {
         self.push_delayed_pop(); // Loops can't return a value
         self.join_reverse(jump, BranchType::Jump);
 
-        self.end_loop();
+        let breaks = self.end_loop();
+        self.join_breaks(breaks);
     }
 
     fn parse_for_statement(&mut self) {
@@ -956,13 +961,15 @@ impl Parser<'_> {
         self.pop_locals(Some(self.scope_depth), true, true, false);
         self.scope_depth -= 1;
 
+        let breaks = self.end_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(breaks);
     }
 
     fn parse_break_statement(&mut self) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 03c6cc1..747d0d4 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -880,9 +880,16 @@ impl<'a> Parser<'a> {
         loop_start
     }
 
-    /// Marks the end of a loop, at the point where `break` statements should jump to (so after any `else` statements attached to the loop)
-    pub fn end_loop(&mut self) {
-        for jump in self.current_locals_mut().loops.pop().unwrap().break_ids {
+    /// Marks the end of the body of a loop. Any `break` or `continue` statements after this point - including those in an `else` statement attached to the loop - do not refer to this loop.
+    ///
+    /// Returns the `break` statements of the loop, which must be passed to `join_breaks()`
+    pub fn end_loop(&mut self) -> Vec<ForwardBlockId> {
+        self.current_locals_mut().loops.pop().unwrap().break_ids
+    }
+
+    /// Joins all `break` statements of a loop, at the point where they should jump to (so after any `else` statements attached to the loop)
+    pub fn join_breaks(&mut self, break_ids: Vec<ForwardBlockId>) {
+        for jump in break_ids {
             self.join_forward(jump, BranchType::Jump);
         }
     }
-- 
2.43.0


From 17dedab0840c00e6d3f520171b44af39cf923639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 18/40] fix: collect the variadic arguments of a partially
 evaluated function from all of its arguments

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index c1b2bc6..5840117 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -795,7 +795,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 398e9dd96538879393e3b13e75e05d979778cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 19/40] fix: release the list borrow before indexing in an
 evaluated list

---
 cordy-sys/src/vm/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 5840117..6f456d1 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -838,6 +838,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
                 }
                 let index = list[0].clone();
+                drop(list); // Indexing might call user code (a dictionary's default), which may modify this list
                 let result = core::get_index(self, &arg, index)?;
                 self.push(result);
                 Ok(FunctionType::Native)
-- 
2.43.0


From 0e39a69e5471f6459bf5364567f0e6c0731cf2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 20/40] fix: keep the location of min and max calls when
 optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..857936f 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -65,7 +65,7 @@ impl Visitor for Optimizer {
                     },
 
                     // This is a special case, for `min(int)` and `max(int)`, we can replace this with a compile time constant
-                    Expr(loc, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
+                    Expr(_, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
                         if let Expr(_, ExprType::NativeFunction(NativeFunction::Int)) = args[0] {
                             Expr::int(loc, if native_f == NativeFunction::Min { ValuePtr::MIN_INT } else { ValuePtr::MAX_INT })
                         } else {
-- 
2.43.0


From 154614f789f8a680e42f1a0e963017565b61e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 21/40] fix: assertion messages which are not strings

---
 cordy-sys/src/reporting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index e1898eb..e27d676 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -291,12 +291,12 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
                     error.push(if any { '\n' } else { ' '});
-                    error.push_str(message.as_str_slice())
+                    error.push_str(&message.to_str())
                 }
                 error
             },
-- 
2.43.0


From 35df80bae0c7bf2d835a38d357e8c2ca128ea3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 22/40] fix: do not reorder expressions which may fail or exit
 when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 857936f..94d10b0 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,4 +1,5 @@
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
+use crate::compiler::parser::semantic::LValueReference;
 use crate::core::NativeFunction;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
@@ -170,13 +171,15 @@ impl Expr {
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            // Late bound variables may be undeclared at runtime
+            ExprType::LValue(LValueReference::LateBinding(_)) => Purity::None,
             ExprType::LValue(_) => Purity::Weak,
 
-            ExprType::Unary(_, arg) => arg.purity(),
-            ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
-            ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
+            // Note that an expression which can raise an error (any operator, unrolling a non-iterable, or literals of non-hashable values) is not pure,
+            // as raising the error must not be reordered with respect to any other effects.
+            ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
+            ExprType::Literal(LiteralType::List | LiteralType::Vector, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
-- 
2.43.0


From 9ddba39bc358b34678fad9c3146c93b086da30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 23/40] fix: inline evaluated slices only when their bounds are
 known when optimizing

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 94d10b0..e251e7e 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -105,7 +105,8 @@ impl Visitor for Optimizer {
                     }
                 },
                 // Found `arg . [a:b:c]`. Inline into `arg[a:b:c]`
-                Expr(_, ExprType::SliceLiteral(a, b, c)) => match *c {
+                // The bounds of a slice literal are checked before it is evaluated, so they must be known to be valid
+                Expr(_, ExprType::SliceLiteral(a, b, c)) if a.is_slice_bound() && b.is_slice_bound() && c.as_ref().as_ref().map_or(true, |c| c.is_slice_bound()) => match *c {
                     Some(c) => arg.slice_step(loc, *a, *b, c),
                     None => arg.slice(loc, *a, *b),
                 },
@@ -197,6 +198,11 @@ impl Expr {
         }
     }
 
+    /// Returns `true` if this expression is known to be a valid bound in a slice, that is, a constant integer or `nil`
+    fn is_slice_bound(&self) -> bool {
+        matches!(&self.1, ExprType::Nil | ExprType::Int(_))
+    }
+
     fn is_partial(&self, nargs: usize) -> bool {
         match &self.1 {
             ExprType::NativeFunction(f) => f.min_nargs() as usize > nargs,
-- 
2.43.0


From 8fd7d137cd9a9b18186e44e14dbf0b8be3d9826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 24/40] fix: read_text replaces \r\n by \n, and keeps other
 carriage returns

---
 cordy-sys/src/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index d58c297..6420def 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -854,7 +854,7 @@ fn invoke_arg1<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, vm: &mut
         ReadText => {
             let path = a1.as_str_checked()?;
             match fs::read_to_string::<&str>(path) {
-                Ok(text) => text.replace('\r', "").to_value().ok(),
+                Ok(text) => text.replace("\r\n", "\n").to_value().ok(),
                 Err(err) => IOError(err.to_string()).err(),
             }
         },
-- 
2.43.0


From 48232aec6b1f551c455bdc30721d970081e55ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 25/40] fix: read() replaces \r\n by \n, as documented

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 6f456d1..29a38c9 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1006,7 +1006,7 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn read(&mut self) -> ValueResult {
         let mut buf = String::new();
         match self.read.read_to_string(&mut buf) {
-            Ok(_) => buf.to_value().ok(),
+            Ok(_) => buf.replace("\r\n", "\n").to_value().ok(),
             Err(err) => IOError(err.to_string()).err(),
         }
     }
-- 
2.43.0


From 7cae287e64ac089e52839068e97ab718c17e4bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 26/40] fix: env() does not panic on variables which are not
 unicode

---
 cordy-sys/src/vm/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 29a38c9..460b46a 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1012,7 +1012,10 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     }
 
     fn get_envs(&self) -> ValuePtr {
-        std::env::vars().map(|(k, v)| (k.to_value(), v.to_value())).to_dict()
+        // Variables which are not unicode are not representable, and are absent, as with `get_env`
+        std::env::vars_os()
+            .filter_map(|(k, v)| Some((k.into_string().ok()?.to_value(), v.into_string().ok()?.to_value())))
+            .to_dict()
     }
 
     fn get_env(&self, name: &str) -> ValuePtr {
-- 
2.43.0


From 17ae5017d417237ae7a977480ef68e881212d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 27/40] fix: program arguments which are not unicode do not
 panic

---
 cordy/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy/src/main.rs b/cordy/src/main.rs
index e50c7a4..529831d 100644
--- a/cordy/src/main.rs
+++ b/cordy/src/main.rs
@@ -54,7 +54,7 @@ const FORMAT_COLORS: &str = "\
 
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<String> = std::env::args_os().map(|arg| arg.to_string_lossy().into_owned()).collect();
     let mut options: Options = match parse_args(args) {
         Ok(args) => args,
         Err(err) => {
-- 
2.43.0


From 43664c5017e5ef4ab9a4b468398c31995bdb6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 28/40] fix: modifying the list argv() returns does not change
 the arguments

---
 cordy-sys/src/vm/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 460b46a..dc86964 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1,5 +1,5 @@
 use std::cell::Cell;
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::io::{BufRead, Write};
 use std::rc::Rc;
 use fxhash::FxBuildHasher;
@@ -189,7 +189,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
             read,
             write,
             ffi,
-            args: ValuePtr::nil(),
+            args: VecDeque::new().to_value(),
         }
     }
 
@@ -1023,7 +1023,8 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     }
 
     fn get_args(&self) -> ValuePtr {
-        self.args.clone()
+        // A new list each time, as the one returned may be modified
+        self.args.as_list().borrow().iter().cloned().to_list()
     }
 
 
-- 
2.43.0


From 3f1339c17d0f096cac97d5274a889822348075a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 29/40] fix: native modules of one program are told apart

---
 cordy-sys/src/vm/value/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..9cc66c6 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -788,15 +788,16 @@ impl StructTypeImpl {
     }
 }
 
+// Unlike the instance type, the constructor type is unique, even among native modules, which have no instances.
 impl PartialEq for StructTypeImpl {
     fn eq(&self, other: &Self) -> bool {
-        self.instance_type == other.instance_type
+        self.constructor_type == other.constructor_type
     }
 }
 
 impl Hash for StructTypeImpl {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.instance_type.hash(state);
+        self.constructor_type.hash(state);
     }
 }
 
-- 
2.43.0


From eeaa07ad6d25849dbd5db02d2c228b1f82dd0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 30/40] fix: a location which ends in the first column of a
 line includes that line

---
 cordy-sys/src/reporting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index e27d676..268525a 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -170,7 +170,9 @@ impl SourceEntry {
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-            while index.starts[end_lineno + 1] < loc.end() {
+            // A location at the very end of the source does not reach into a (empty) last line
+            let end = index.starts[index.lines.len()] - 1;
+            while index.starts[end_lineno + 1] <= loc.end() && index.starts[end_lineno + 1] < end {
                 end_lineno += 1;
             }
         }
-- 
2.43.0


From 995204700cfe5ca1aa1f0136421a9e154d8dfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 31/40] fix: a value that can't be inserted into a set or dict
 because it refers to it isn't inserted

---
 cordy-sys/src/vm/value/collections.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..7dadc32 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -3,7 +3,7 @@ use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::ops::{Deref, DerefMut};
-use fxhash::FxBuildHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
@@ -77,10 +77,9 @@ impl Set {
     }
 
     pub fn insert_checked(&mut self, value: ValuePtr) -> AnyResult {
-        match guard_recursive_hash(|| self.insert(value)) {
-            false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
-        }
+        check_recursive_hash(&value)?;
+        self.insert(value);
+        Ok(())
     }
 }
 
@@ -143,10 +142,9 @@ impl Dict {
     }
 
     pub fn insert_checked(&mut self, key: ValuePtr, value: ValuePtr) -> AnyResult {
-        match guard_recursive_hash(|| self.insert(key, value)) {
-            false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
-        }
+        check_recursive_hash(&key)?;
+        self.insert(key, value);
+        Ok(())
     }
 
     pub fn set_default(&mut self, default: InvokeArg0) {
@@ -194,6 +192,16 @@ thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
 }
 
+/// Checks that hashing `value` doesn't require a borrow on a collection that is currently (mutably) borrowed.
+/// This has to happen before the value is inserted, so that in the case of an error, the collection is left as it was.
+#[inline]
+fn check_recursive_hash(value: &ValuePtr) -> AnyResult {
+    match guard_recursive_hash(|| value.hash(&mut FxHasher::default())) {
+        false => Ok(()),
+        true => ValueErrorRecursiveHash.err()
+    }
+}
+
 /// Returns `true` if a recursive hash error occurred.
 #[inline]
 fn guard_recursive_hash<T, F : FnOnce() -> T>(f: F) -> bool {
-- 
2.43.0


From cb439296e35e5c88c7015201b263452ca1619633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 32/40] fix: a name used in a module before its declaration was
 bound to a method of another module

---
 cordy-sys/src/compiler/parser/semantic.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 747d0d4..9809033 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -253,6 +253,8 @@ pub struct LateBinding {
     fallback: Option<u32>,
     /// If true, an error should be raised. Represents the state of the error recovery mode when hit
     error: bool,
+    /// If true, the reference is within the module currently being parsed, and so may still be bound to one of its methods.
+    in_module: bool,
 }
 
 impl LateBinding {
@@ -270,9 +272,11 @@ impl LateBinding {
         let error = !parser.error_recovery;
         let this = parser.resolve_reference(Reference::LateThis);
 
+        let in_module = parser.module_depth > 0;
+
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error, in_module })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -941,6 +945,11 @@ impl<'a> Parser<'a> {
 
         // Decrement module depth
         self.module_depth -= 1;
+
+        // Outstanding references from within this module can no longer be bound to methods, as those of other modules are unrelated
+        for binding in &mut self.late_bindings {
+            binding.in_module = false;
+        }
     }
 
     /// Declares a function with a given name and arguments.
@@ -1039,9 +1048,9 @@ impl<'a> Parser<'a> {
         while i < self.late_bindings.len() {
             let binding = &self.late_bindings[i];
 
-            // If the binding matches, it will be declared here
+            // If the binding matches, it will be declared here. Note that methods can only be bound from within their own module
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            if binding.name == name && (binding.in_module || !matches!(result, LateBound::Method { .. })) {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
-- 
2.43.0


From 2d3f16070d53cd1bd8569b8b5baec57d56556cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 33/40] fix: pattern assignment to fields through the implicit
 self panicked the compiler

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 9809033..5d5d1dc 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -613,10 +613,13 @@ impl LValue {
                     index += 1;
                 }
                 LValue::Named(lvalue) => {
+                    parser.push_store_lvalue_prefix(&lvalue, parser.prev_location());
                     pattern.push_index(index, lvalue.as_store_op(parser, pattern_index));
                     index += 1;
                 }
                 LValue::VarNamed(lvalue) => {
+                    parser.push_store_lvalue_prefix(&lvalue, parser.prev_location());
+
                     let low = index;
                     index = -(len as i64 - index);
                     let high = index;
@@ -655,6 +658,7 @@ impl LValueReference {
             LValueReference::Local(index) => ParserStoreOp::Bound(StoreOp::Local(index)),
             LValueReference::Global(index) => ParserStoreOp::Bound(StoreOp::Global(index)),
             LValueReference::UpValue(index) => ParserStoreOp::Bound(StoreOp::UpValue(index)),
+            LValueReference::ThisField { field_index, .. } => ParserStoreOp::Bound(StoreOp::Field(field_index)),
 
             LValueReference::LateBinding(mut binding) => {
                 let index = binding.index;
-- 
2.43.0


From 50b38905592c3a09f68de16d53fe6ea3439de325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 34/40] fix: a pattern assignment with another pattern inside a
 target lost its late bindings

---
 cordy-sys/src/compiler/parser/semantic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 5d5d1dc..ca9fb01 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -575,9 +575,12 @@ impl LValue {
     /// 2. The output will be handled as part of codegen, and thus does not need to emit code
     /// 3. This always returns the pattern index
     pub(super) fn emit_expression_destructuring(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
+        // Reserve the pattern first, as the terms may contain expressions which declare patterns of their own
         let index = parser.patterns.len();
-        let pattern = LValue::do_build_pattern(terms, parser, index);
-        parser.declare_pattern(pattern)
+        let pattern_id = parser.declare_pattern(Pattern::new(0, false));
+
+        parser.patterns[index] = LValue::do_build_pattern(terms, parser, index);
+        pattern_id
     }
 
     fn build_pattern(self, parser: &mut Parser, pattern_index: usize) -> Pattern<ParserStoreOp> {
-- 
2.43.0


From 6c5c10dd92838b428e149059eea618a9e27f60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 35/40] fix: continue REPL input which ends after a parameter
 whose default value is yet to come

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 25457c4..fde778b 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -607,6 +607,7 @@ impl Parser<'_> {
                     self.advance(); // Consume `=`
                     params.default_args.push(self.parse_default_argument());
                 },
+                None => {}, // A default value may still follow, which is an end of input error
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
                 },
-- 
2.43.0


From 0292c81bf28d1098dea0ae428ac12403a7224a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:38 +0000
Subject: [PATCH 36/40] fix: `lhs->field .= f` compared the field with f
 instead of calling f

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 31b8adb..4c60979 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -255,7 +255,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From 286822df7440e907b2fba8afed0904710ff4410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 37/40] fix: an invalid numeric prefix at the start of the
 source crashed the scanner

`0o`, or any other `0` followed by a letter or digit which is not a prefix, underflowed
while computing the location of the error when it was the first thing in a script or a REPL
session.
---
 cordy-sys/src/compiler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..9fd244b 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -542,7 +542,7 @@ impl<'a> Scanner<'a> {
     fn push_err(&mut self, offset: usize, width: usize, error: ScanErrorType) {
         self.errors.push(ScanError {
             error,
-            loc: Location::new(self.cursor - width + offset, width as u32, self.index)
+            loc: Location::new(self.cursor + offset - width, width as u32, self.index)
         });
     }
 
-- 
2.43.0


From 8d1eb0c18b6e4ba0f761857e76f2894ea132397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:16 +0000
Subject: [PATCH 38/40] fix: an unrolled expression in a slice literal or as a
 dict value crashed

`[...x:2]` reached the code generator, which panicked, although there is an error for it, and
`{1: ...x}` built a dict from an odd number of values at run time. Both are compile errors.
---
 cordy-sys/src/compiler/parser/errors.rs |  2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 28 +++++++++++++++++++++----
 cordy-sys/src/reporting.rs              |  1 +
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index 8e75dff..ab766ac 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -69,6 +69,7 @@ impl ParserError {
             NonDefaultParameterAfterDefaultParameter |
             ParameterAfterVarParameter |
             UnrollNotAllowedInSlice |
+            UnrollNotAllowedInDictValue |
             UnrollNotAllowedInPartialOperator => false,
 
             Runtime(_) => false,
@@ -134,6 +135,7 @@ pub enum ParserErrorType {
     NonDefaultParameterAfterDefaultParameter,
     ParameterAfterVarParameter,
     UnrollNotAllowedInSlice,
+    UnrollNotAllowedInDictValue,
     UnrollNotAllowedInPartialOperator,
 
     Runtime(ErrorPtr),
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index fde778b..a6be96e 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1530,6 +1530,7 @@ impl Parser<'_> {
                 return Expr::list(loc_start | loc_end, vec![arg]);
             },
             Some(Colon) => { // Slice with a first argument
+                let arg = self.reject_unroll(arg, UnrollNotAllowedInSlice);
                 return self.parse_expr_1_slice_literal(loc_start, arg);
             },
             Some(Comma) => {}, // Don't consume the comma just yet
@@ -1558,7 +1559,7 @@ impl Parser<'_> {
                 let loc_end = self.advance_with();
                 return Expr::slice_literal(loc_start | loc_end, arg1, Expr::nil(), None);
             }
-            _ => self.parse_comma_expr_arg(), // As we consumed `:`, we require a second expression
+            _ => self.parse_slice_expr_arg(), // As we consumed `:`, we require a second expression
         };
 
         // Consumed `[` <expression> `:` <expression> so far
@@ -1580,13 +1581,27 @@ impl Parser<'_> {
         // Consumed `[` <expression> `:` <expression> `:` so far
         let arg3: Expr = match self.peek() {
             Some(CloseSquareBracket) => Expr::nil(),
-            _ => self.parse_comma_expr_arg(),
+            _ => self.parse_slice_expr_arg(),
         };
 
         self.expect(CloseSquareBracket);
         Expr::slice_literal(loc_start | self.prev_location(), arg1, arg2, Some(arg3))
     }
 
+    fn parse_slice_expr_arg(&mut self) -> Expr {
+        let arg = self.parse_comma_expr_arg();
+        self.reject_unroll(arg, UnrollNotAllowedInSlice)
+    }
+
+    /// Reports `error` if the given argument is an unrolled expression, in a place where exactly one value is required.
+    fn reject_unroll(&mut self, arg: Expr, error: ParserErrorType) -> Expr {
+        if arg.is_unroll() {
+            self.semantic_error(error);
+            return Expr::nil();
+        }
+        arg
+    }
+
     /// Parses either a `dict` or `set` literal.
     /// Literals default to being sets, unless a `:` is present in any entry. This means empty literals, and literals with only unrolled terms default to sets.
     fn parse_expr_1_dict_or_set_literal(&mut self) -> Expr {
@@ -1610,14 +1625,14 @@ impl Parser<'_> {
                 match is_dict {
                     Some(true) => {
                         self.expect(Colon);
-                        args.push(self.parse_comma_expr_arg());
+                        args.push(self.parse_dict_value());
                     },
                     Some(false) => {}, // Set does not have any `:` arguments
                     None => { // Still undetermined if it is a dict, or set -> based on this argument we can know definitively
                         is_dict = Some(match self.peek() { // Found a `:`, so we know this is now a dict
                             Some(Colon) => {
                                 self.advance();
-                                args.push(self.parse_comma_expr_arg());
+                                args.push(self.parse_dict_value());
                                 true
                             },
                             _ => false,
@@ -1636,6 +1651,11 @@ impl Parser<'_> {
         if is_dict.unwrap_or(false) { Expr::dict(loc, args) } else { Expr::set(loc, args) }
     }
 
+    fn parse_dict_value(&mut self) -> Expr {
+        let arg = self.parse_comma_expr_arg();
+        self.reject_unroll(arg, UnrollNotAllowedInDictValue)
+    }
+
     fn parse_inline_if_then_else(&mut self) -> Expr {
         trace::trace_parser!("rule <expr-1-inline-if-then-else>");
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 268525a..0d276a0 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -477,6 +477,7 @@ impl AsError for ParserError {
             NonDefaultParameterAfterDefaultParameter => String::from("Non-default argument cannot follow default argument"),
             ParameterAfterVarParameter => String::from("Variadic parameter must be the last one in the function"),
             UnrollNotAllowedInSlice => String::from("Unrolled expression with '...' not allowed in slice literal"),
+            UnrollNotAllowedInDictValue => String::from("Unrolled expression with '...' not allowed as the value of a dict entry"),
             UnrollNotAllowedInPartialOperator => String::from("Unrolled expression with '...' not allowed to be attached to a implicit partially-evaluated operator"),
 
             Runtime(e) => e.as_err().as_error(),
-- 
2.43.0


From 057342d202eed78c93bb97bc900a34b1a2d55887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:16 +0000
Subject: [PATCH 39/40] fix: a 'return' outside of any function crashed the VM

There is no call frame to return from, so the VM underflowed the frame pointer. It is a compile
error now, as 'break' and 'continue' outside of a loop are.
---
 cordy-sys/src/compiler/parser/errors.rs | 2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 3 +++
 cordy-sys/src/reporting.rs              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index ab766ac..8cb2715 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -65,6 +65,7 @@ impl ParserError {
             LValueVarEmptyUsedOutsideAssignment |
             BreakOutsideOfLoop |
             ContinueOutsideOfLoop |
+            ReturnOutsideOfFunction |
             StructNotInGlobalScope |
             NonDefaultParameterAfterDefaultParameter |
             ParameterAfterVarParameter |
@@ -131,6 +132,7 @@ pub enum ParserErrorType {
     LValueVarEmptyUsedOutsideAssignment,
     BreakOutsideOfLoop,
     ContinueOutsideOfLoop,
+    ReturnOutsideOfFunction,
     StructNotInGlobalScope,
     NonDefaultParameterAfterDefaultParameter,
     ParameterAfterVarParameter,
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index a6be96e..ad2678c 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -747,6 +747,9 @@ impl Parser<'_> {
         trace::trace_parser!("rule <return-statement>");
         self.push_delayed_pop();
         self.advance(); // Consume `return`
+        if self.function_depth == 0 {
+            self.semantic_error(ReturnOutsideOfFunction); // There is no call frame to return from
+        }
         match self.peek() {
             Some(CloseBrace) => { // Allow a bare return, but only when followed by a `}` or `;`, which we can recognize and discard properly.
                  self.push(Nil);
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 0d276a0..e38c0af 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -473,6 +473,7 @@ impl AsError for ParserError {
             LValueVarEmptyUsedOutsideAssignment => String::from("Expected an expression, got '*_' instead"),
             BreakOutsideOfLoop => String::from("Invalid 'break' statement outside of an enclosing loop"),
             ContinueOutsideOfLoop => String::from("Invalid 'continue' statement outside of an enclosing loop"),
+            ReturnOutsideOfFunction => String::from("Invalid 'return' statement outside of an enclosing function"),
             StructNotInGlobalScope => String::from("'struct' statements can only be present in global scope"),
             NonDefaultParameterAfterDefaultParameter => String::from("Non-default argument cannot follow default argument"),
             ParameterAfterVarParameter => String::from("Variadic parameter must be the last one in the function"),
-- 
2.43.0


From 1c4c48e71b7594905b2e207f7adf0d2f6dc83fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:40 +0000
Subject: [PATCH 40/40] fix: an index or slice of a string with characters
 outside ASCII crashed the VM
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The bounds were those of the bytes of the string, the characters are what is indexed: 'é'[1] and
'é'[-1] panicked, and 'é'[:] as well.
---
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cc66c6..1bc9f48 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1004,7 +1004,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0

