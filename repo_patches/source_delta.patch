From d470d5a912740c86b79caf41873ea1c78528cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 01/16] fix: keep the statements before a top-level block
 boundary

The top-level block was replaced by each newly parsed block, so the
statements before a root-level return were silently dropped.
---
 src/syntax/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..11b98fa 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,12 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +210,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From fe90a2f3abbb7a4200bdb014fc65eccafb53036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 02/16] fix: keep track of duplicate keys across nested dict
 literals

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..08932af 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// The items may contain nested dict literals.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From 54aa4c99c44139ab621c153720c3d5c86d5e8986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 03/16] fix: raise a panic when negating the minimum integer

---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..04ebafd 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -664,7 +664,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From ef8334ec5ef1b4340e37cba5b7430c19296a2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 04/16] fix: hash negative zero like positive zero

---
 src/runtime/value/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..dad9de5 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -67,6 +67,8 @@ impl Hash for Float {
 		let float =
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
+			} else if self.0 == 0.0 {
+				0.0 // Negative zero equals positive zero.
 			} else {
 				self.0
 			};
-- 
2.43.0


From 8c19b00e9c45a42e8e31463033cadffb45a98a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 05/16] fix: handle negative and overflowing substr ranges

---
 src/runtime/lib/substr.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..147d08c 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,12 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        let range = || {
+            let start = usize::try_from(start).ok()?;
+            let end = start.checked_add(usize::try_from(len).ok()?)?;
+            Some(start..end)
+        };
+        let substr = range().and_then(|range| string.get(range));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From 724af0bd385cdcb01cef88870c9d0194b86ec086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 06/16] fix: don't overflow when a range ends close to the
 integer limits

---
 src/runtime/lib/range.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..2bb4eba 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -52,6 +53,20 @@ impl NativeFun for Range {
 }
 
 
+/// Advance by a step, stopping at the limits of the type.
+trait Advance {
+	fn advance(&self, step: &Self) -> Self;
+}
+
+impl Advance for i64 {
+	fn advance(&self, step: &Self) -> Self { self.saturating_add(*step) }
+}
+
+impl Advance for Float {
+	fn advance(&self, step: &Self) -> Self { self + step }
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
 	from: GcCell<T>,
@@ -62,7 +77,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Advance,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -87,7 +102,7 @@ where
 			None
 		} else {
 			let value = from.clone();
-			*from = from.clone() + self.step.clone();
+			*from = from.advance(&self.step);
 			Some(value)
 		};
 
-- 
2.43.0


From c1c27d3ab45d80d7389fbeb604c7a9231f515e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 07/16] fix: don't abort when exporting an empty key

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From effe9a670c79c5996497bf1a0bfc078c020ec245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 08/16] fix: keep empty quoted arguments in commands

---
 src/syntax/parser/command.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..ac116d2 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -363,6 +363,13 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// An empty argument is still an argument.
+		if parts.is_empty() {
+			parts.push(
+				ast::ArgPart::Unit(ast::ArgUnit::Literal(Default::default()))
+			);
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From 9d479091cecab8ea5d45228c5a4ec9251bd27eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 09/16] fix: drop the globals of a module when its import
 panics

---
 src/runtime/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 04ebafd..51c846f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,16 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
-			Flow::Regular(value) => value,
-			flow => panic!("invalid flow in root state: {:#?}", flow)
-		};
+		let result = self.eval_block(&program.statements);
 
 		// Drop global variables.
 		self.stack.shrink(slots);
 
+		let value = match result? {
+			Flow::Regular(value) => value,
+			flow => panic!("invalid flow in root state: {:#?}", flow)
+		};
+
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From b7fea3620169ac9d750e24f77d250aaa0a293191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 10/16] fix: raise a panic for an empty randint range

---
 src/runtime/lib/rand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..098f5a5 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,6 +51,9 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), n @ Value::Int(max) ] if m > max => Err(
+				Panic::value_error(n.copy(), "upper bound not lower than the lower bound", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-- 
2.43.0


From 61f9e91ef182536472b3cda087d8845fd15410e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 11/16] fix: don't abort on unsupported expansions in command
 arguments

---
 src/syntax/lexer/automata/expansion.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..83ddee9 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -83,13 +83,7 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
-			}
+			// TODO: char class, range and collection. For now, those are regular words.
 
 			// Failed to parse expansion.
 			_ => self.context.rollback(self.start)
-- 
2.43.0


From 4ad4193e84d39a275fd25695993205a4661a0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 12/16] fix: offset signal statuses by 128, according to bash
 and dash

---
 src/runtime/command/exec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..99d97bb 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -19,7 +19,7 @@ pub use error::{Panic, Error, PipelineErrors, IntoValue};
 /// Status to be produced when an IO error occurs
 const IO_ERROR_STATUS: i32 = 0x7F;
 /// Offset of a signal status, according to Bash and Dash.
-const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
+const SIGNAL_STATUS_OFFSET: i32 = 0x80;
 
 
 /// Execution status of a single command.
-- 
2.43.0


From 558ab2726f58067183d3fee75f925bb298245264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 13/16] fix: report the right amount of items when a single one
 is expected

---
 src/runtime/command/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..f542a8e 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -353,7 +353,7 @@ impl Runtime {
 		if args.is_empty() {
 			Ok(arg)
 		} else {
-			Err(panic(args.len() as u32))
+			Err(panic(args.len() as u32 + 1))
 		}
 	}
 
-- 
2.43.0


From 29d4d5756a641646e6ae2a55995e64fe04bdcce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 14/16] fix: don't deadlock on literal inputs larger than the
 pipe capacity

---
 src/runtime/command/exec/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 99d97bb..d41081d 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -347,11 +347,12 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_owned();
+							input.push(b'\n');
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							// The input may exceed the capacity of the pipe, so we must not block before the
+							// command is able to read it. The command may also exit before reading it all.
+							std::thread::spawn(move || writer.write_all(&input).ok());
 
 							reader
 						} else {
-- 
2.43.0


From f1f84216bedb7c492ccc3c5bbd2e65aac4629c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 15/16] fix: don't overflow the stack when comparing a
 recursive function with itself

---
 src/runtime/value/function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/function.rs b/src/runtime/value/function.rs
index 166ffcf..45532bc 100644
--- a/src/runtime/value/function.rs
+++ b/src/runtime/value/function.rs
@@ -110,8 +110,10 @@ impl PartialEq for HushFun {
 	fn eq(&self, other: &Self) -> bool {
 		// As the functions are defined in the source code, two functions can't share the same
 		// body.
+		// Don't traverse the captures if they are the same, as recursive functions capture
+		// themselves.
 		std::ptr::eq(self.body, other.body)
-			&& self.context == other.context
+			&& (Gc::ptr_eq(&self.context, &other.context) || self.context == other.context)
 	}
 }
 
-- 
2.43.0


From 636ae61afb8c3f61b48290498ec7010606a59fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:28 +0000
Subject: [PATCH 16/16] fix: capture the standard error of every command in a
 pipeline

---
 src/runtime/command/exec/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d41081d..d8fe736 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -482,7 +482,6 @@ impl Command {
 
 			Command::External { head, tail } => {
 				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
 
 				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
@@ -491,17 +490,19 @@ impl Command {
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
+					// All commands in the pipeline share the same stderr.
+					let cmd_stderr = stderr.try_clone()
+						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
+
 					let child = cmd.exec(
 						Stdio {
 							stdin: pipe_reader,
 							stdout: last_stdout,
-							stderr: last_stderr,
+							stderr: cmd_stderr,
 						}
 					)?;
 
 					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
 
 					tail_children.push((child, child_abort_on_error));
 				}
@@ -515,7 +516,7 @@ impl Command {
 					Stdio {
 						stdin,
 						stdout: last_stdout,
-						stderr: last_stderr,
+						stderr,
 					}
 				)?;
 
-- 
2.43.0

