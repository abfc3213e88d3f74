From c7b394e1e3ef550cb3d8c414d26360a52b1394fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 01/31] fix: forget the parent block of instructions when a
 list is cleared or a block leaves the layout

---
 koopa/src/ir/layout.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..dc5445f 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -95,6 +95,15 @@ impl BasicBlockMap {
       map: HashMap::new(),
     }
   }
+
+  /// Forgets the parent basic block of all instructions in the given node.
+  fn forget_insts(&self, node: &BasicBlockNode) {
+    let inst_bb = self.inst_bb.upgrade().unwrap();
+    let mut inst_bb = inst_bb.as_ref().borrow_mut();
+    for inst in node.insts().keys() {
+      inst_bb.remove(inst);
+    }
+  }
 }
 
 impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
@@ -103,6 +112,7 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    self.map.values().for_each(|node| self.forget_insts(node));
     self.map.clear()
   }
 
@@ -140,7 +150,11 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((_, node)) = &kv {
+      self.forget_insts(node);
+    }
+    kv
   }
 }
 
@@ -222,6 +236,11 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    let inst_bb = self.inst_bb.upgrade().unwrap();
+    let mut inst_bb = inst_bb.as_ref().borrow_mut();
+    for inst in self.map.keys() {
+      inst_bb.remove(inst);
+    }
     self.map.clear()
   }
 
-- 
2.43.0


From 5c7255d9f2abad5372e635af3847170baa8e7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 02/31] fix: removing a function that is not in the program
 returns None instead of panicking

---
 koopa/src/ir/entities.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..b8f6ce4 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -181,9 +181,7 @@ impl Program {
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
+    self.func_layout.retain(|f| *f != func);
     self.funcs.remove(&func)
   }
 
-- 
2.43.0


From 568508de0ba62a16c0ed231ed22057fa92c7589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 03/31] fix: global values are not used by the values of a
 removed function

---
 koopa/src/ir/entities.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b8f6ce4..620928a 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -132,6 +132,16 @@ impl Program {
     data.dfg.globals = Rc::downgrade(&self.values);
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
+    // the function may already use global values if it has been in a program
+    let mut values = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(v) = values.get_mut(&v) {
+          v.used_by.insert(*value);
+        }
+      }
+    }
+    drop(values);
     self.funcs.insert(func, data);
     self.func_layout.push(func);
     func
@@ -182,7 +192,18 @@ impl Program {
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
     self.func_layout.retain(|f| *f != func);
-    self.funcs.remove(&func)
+    let data = self.funcs.remove(&func)?;
+    // global values are no longer used by the values of this function
+    let mut values = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(v) = values.get_mut(&v) {
+          v.used_by.remove(value);
+        }
+      }
+    }
+    drop(values);
+    Some(data)
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From 8f60bea53bfb5184526042c7fa7b672587a4a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 04/31] fix: reject argument lists whose length differs from
 the parameter list

---
 koopa/src/front/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..2320596 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,14 +503,14 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
+        args_ty.len(),
+        "argument".to_plural(args_ty.len()),
         args.len(),
-        "arguments".to_plural(args.len()),
-        args.len(),
-        "arguments".to_plural(args.len())
+        "argument".to_plural(args.len())
       );
     }
     // generate arguments
-- 
2.43.0


From be107410e25e4b7c2c9ea661a1d4af414cd59aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 05/31] fix: do not panic on jumps to basic blocks that do not
 exist

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2320596..f0092ca 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // invalid targets have already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From 961d5478b68ea5f1e2cfef02dc1742a421e04a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 06/31] fix: do not build on aggregates whose length does not
 match the array type

---
 koopa/src/front/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index f0092ca..9d83428 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
-- 
2.43.0


From 06d18cbe68371675b5fba7369df6890a85b9f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 07/31] fix: report array lengths that are not positive instead
 of panicking

---
 koopa/src/front/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..c38da26 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,10 +219,14 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(len_span, "invalid array length '{}'", len);
+    }
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
-    Ok(ast::ArrayType::new_boxed(span, base, len))
+    Ok(ast::ArrayType::new_boxed(span, base, len as usize))
   }
 
   /// Parses pointer types.
-- 
2.43.0


From 6ccb4b1bf7f675e38cc7d773ee9b7161de922b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 08/31] fix: report aggregates that initialize pointers instead
 of building a value of another type

---
 koopa/src/front/builder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 9d83428..e636697 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 0324c4d726b24c8866bb3e307c3e069e29a39e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 09/31] fix: function parameters clash with global variables
 and block parameters of the same name

---
 koopa/src/front/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index e636697..0390d16 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -186,6 +186,9 @@ impl Builder {
     // create argument map
     let mut args = HashMap::new();
     for ((n, a), p) in ast.params.iter().zip(self.program.func(func).params()) {
+      if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
+      }
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
       }
@@ -297,6 +300,8 @@ impl Builder {
 
   /// Initializes local basic block map.
   fn init_local_bbs(&mut self, func: Function, args: HashMap<String, Value>, bbs: &[&ast::Block]) {
+    // add argument references to local symbols
+    self.local_symbols.extend(args.keys().cloned());
     // create all basic blocks
     self.local_bbs.clear();
     for block in bbs {
@@ -334,12 +339,10 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-    entry_info.local_defs = args;
+    entry_info.local_defs.extend(args);
     // fill predecessors
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
-- 
2.43.0


From 44122aa99b4ae231f4c79bbc289bdbdb387654ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 10/31] fix: names are made of ASCII letters and digits, so
 that they survive printing

---
 koopa/src/front/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..800e478 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -109,7 +109,7 @@ impl<T: Read> Lexer<T> {
     let mut symbol = String::from(tag);
     self.next_char()?;
     // check if number
-    if self.last_char.is_some_and(|c| c.is_numeric()) {
+    if self.last_char.is_some_and(|c| c.is_ascii_digit()) {
       // check if is named symbol
       if tag == '@' {
         return self.log_err_and_skip(span, "invalid named symbol");
@@ -121,7 +121,7 @@ impl<T: Read> Lexer<T> {
       self.next_char()?;
       if digit != '0' {
         // read the rest numbers to string
-        while self.last_char.is_some_and(|c| c.is_numeric()) {
+        while self.last_char.is_some_and(|c| c.is_ascii_digit()) {
           symbol.push(self.last_char.unwrap());
           span.update(self.pos);
           self.next_char()?;
@@ -131,7 +131,7 @@ impl<T: Read> Lexer<T> {
       // read letters, numbers or underscores
       while self
         .last_char
-        .is_some_and(|c| c.is_alphanumeric() || c == '_')
+        .is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
       {
         symbol.push(self.last_char.unwrap());
         span.update(self.pos);
-- 
2.43.0


From 3ff4aee18f86fe99556e8aa3c9d59da077794788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 11/31] fix: temporary names skip names that have been taken

---
 koopa/src/back/generator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..1d0082e 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -142,9 +142,14 @@ impl NameManager {
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
+      // generate a temporary name, skip names that have already been taken
+      let mut next_id = self.next_id;
+      let mut name = self.prefix.temp_name(next_id);
+      while self.global_names.contains(&name) || self.bb_names.contains(&name) {
+        next_id += 1;
+        name = self.prefix.temp_name(next_id);
+      }
+      self.next_id = next_id + 1;
       let names = name_set(self);
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
-- 
2.43.0


From d50be70f24a199101ebaf810aff1c4df21f8bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 12/31] fix: name globals and functions before the bodies that
 refer to them

---
 koopa/src/back/koopa.rs | 12 ++++++++++++
 koopa/src/back/llvm.rs  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 38c8afe..72db17b 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -51,6 +51,7 @@ macro_rules! value {
 impl<W: Write> VisitorImpl<'_, W> {
   /// Visits the program.
   fn visit(&mut self) -> Result<()> {
+    self.name_globals();
     for inst in self.program.inst_layout() {
       self.visit_global_inst(&self.program.borrow_value(*inst))?;
     }
@@ -70,6 +71,17 @@ impl<W: Write> VisitorImpl<'_, W> {
     Ok(())
   }
 
+  /// Names all global values and functions, so that the names do not depend on
+  /// the scope in which they are used first.
+  fn name_globals(&mut self) {
+    for inst in self.program.inst_layout() {
+      self.nm.value_name(&self.program.borrow_value(*inst));
+    }
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
+  }
+
   /// Generates the given function.
   fn visit_func(&mut self, func: &FunctionData) -> Result<()> {
     // header
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..3e4f6e4 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -72,6 +72,7 @@ impl<W: Write> VisitorImpl<'_, W> {
       temp: "@$".into(),
       max_len: Some(unsafe { NonZeroUsize::new_unchecked(Self::MAX_ID_LEN + 1) }),
     });
+    self.name_globals();
     for inst in self.program.inst_layout() {
       self.visit_global_inst(&self.program.borrow_value(*inst))?;
     }
@@ -92,6 +93,17 @@ impl<W: Write> VisitorImpl<'_, W> {
     Ok(())
   }
 
+  /// Names all global values and functions, so that the names do not depend on
+  /// the scope in which they are used first.
+  fn name_globals(&mut self) {
+    for inst in self.program.inst_layout() {
+      self.nm.value_name(&self.program.borrow_value(*inst));
+    }
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
+  }
+
   /// Generates the given function.
   fn visit_func(&mut self, func: &FunctionData) -> Result<()> {
     // header
-- 
2.43.0


From ae51992ffea547e8689aa4073f2c419f6daba9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 13/31] fix: labels and local values of LLVM functions do not
 share names

---
 koopa/src/back/generator.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 1d0082e..a946cf3 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -62,6 +62,11 @@ impl NameManager {
       "not in function scope"
     );
     self.cur_scope = ScopeKind::Global;
+    if self.prefix.labels_are_values() {
+      for name in self.bbs.values() {
+        self.global_names.remove(name);
+      }
+    }
     self.bb_names.clear();
     self.bbs.clear();
     for name in self.values.values() {
@@ -92,7 +97,11 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      let name = if self.prefix.labels_are_values() {
+        self.next_name(bb.name(), |s| &mut s.global_names)
+      } else {
+        self.next_name(bb.name(), |s| &mut s.bb_names)
+      };
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
@@ -236,6 +245,12 @@ impl Prefix {
     }
   }
 
+  /// Returns `true` if basic blocks and values share the same name space,
+  /// which is the case in all forms except the text form Koopa IR.
+  fn labels_are_values(&self) -> bool {
+    matches!(self, Prefix::Custom { .. })
+  }
+
   /// Returns a temp name by the given id.
   fn temp_name(&self, id: usize) -> String {
     match self {
-- 
2.43.0


From c2516bbcadbf0167b92a76a2e3fea4d5d80fdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 14/31] fix: elements of aggregates always have types in LLVM
 IR

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 3e4f6e4..2c1a681 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -454,7 +454,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From 64d0da31457a34a3f2ee9189717f4418640debe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 15/31] fix: phi functions have one argument for every edge in
 the layout

---
 koopa/src/back/llvm.rs | 75 +++++++++++++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2c1a681..ed7be3c 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -5,8 +5,10 @@ use crate::ir::entities::{FunctionData, ValueData};
 use crate::ir::layout::BasicBlockNode;
 use crate::ir::values::*;
 use crate::ir::{BasicBlock, Program, Type, TypeKind, Value, ValueKind};
+use std::collections::HashMap;
 use std::io::{Result, Write};
 use std::num::NonZeroUsize;
+use std::rc::Rc;
 
 /// Visitor for generating the in-memory form Koopa IR program into
 /// the text form LLVM IR program.
@@ -22,6 +24,7 @@ impl<W: Write> back::Visitor<W> for Visitor {
       nm,
       program,
       func: None,
+      edge_bbs: HashMap::new(),
     };
     visitor.visit()
   }
@@ -33,6 +36,7 @@ struct VisitorImpl<'a, W: Write> {
   nm: &'a mut NameManager,
   program: &'a Program,
   func: Option<&'a FunctionData>,
+  edge_bbs: HashMap<Value, Rc<String>>,
 }
 
 /// Returns a reference to the current function.
@@ -87,6 +91,7 @@ impl<W: Write> VisitorImpl<'_, W> {
       let func = self.program.func(*func);
       self.func = Some(func);
       self.nm.enter_func_scope();
+      self.edge_bbs.clear();
       self.visit_func(func)?;
       self.nm.exit_func_scope();
     }
@@ -181,36 +186,69 @@ impl<W: Write> VisitorImpl<'_, W> {
       write!(self.w, "  {} = phi ", self.nm.value_name(param))?;
       self.visit_type(param.ty())?;
       write!(self.w, " ")?;
-      for (k, user) in data.used_by().iter().enumerate() {
-        if k != 0 {
-          write!(self.w, ", ")?;
-        }
-        write!(self.w, "[")?;
+      let mut first = true;
+      for user in data.used_by() {
+        // ignore users that have been removed from the layout
+        let pred = match func!(self).layout().parent_bb(*user) {
+          Some(pred) => pred,
+          None => continue,
+        };
         match value!(self, *user).kind() {
           ValueKind::Branch(br) => {
             if br.true_bb() == bb {
-              self.visit_value(false, br.true_args()[i])?;
-            } else {
-              self.visit_value(false, br.false_args()[i])?;
+              let pred = self.nm.bb_name(func!(self).dfg().bb(pred));
+              self.visit_phi_arg(&mut first, br.true_args()[i], &pred)?;
+            }
+            if br.false_bb() == bb {
+              let pred = if br.true_bb() == bb {
+                self.edge_bb_name(*user)
+              } else {
+                self.nm.bb_name(func!(self).dfg().bb(pred))
+              };
+              self.visit_phi_arg(&mut first, br.false_args()[i], &pred)?;
             }
           }
-          ValueKind::Jump(jump) => self.visit_value(false, jump.args()[i])?,
+          ValueKind::Jump(jump) => {
+            let pred = self.nm.bb_name(func!(self).dfg().bb(pred));
+            self.visit_phi_arg(&mut first, jump.args()[i], &pred)?;
+          }
           _ => panic!("invalid branch/jump instruction"),
         }
-        write!(self.w, ", ")?;
-        self.visit_bb_ref(func!(self).layout().parent_bb(*user).unwrap())?;
-        write!(self.w, "]")?;
       }
       writeln!(self.w)?;
     }
     // instrustions in basic block
     for inst in node.insts().keys() {
       write!(self.w, "  ")?;
-      self.visit_local_inst(value!(self, *inst))?;
+      self.visit_local_inst(*inst)?;
     }
     Ok(())
   }
 
+  /// Generates the given argument of phi function.
+  fn visit_phi_arg(&mut self, first: &mut bool, arg: Value, pred: &str) -> Result<()> {
+    if !*first {
+      write!(self.w, ", ")?;
+    }
+    *first = false;
+    write!(self.w, "[")?;
+    self.visit_value(false, arg)?;
+    write!(self.w, ", {}]", pred)
+  }
+
+  /// Returns the name of the extra basic block on the false edge of the given
+  /// branch, which is required when both targets are the same basic block
+  /// but arguments passed to it may be different.
+  fn edge_bb_name(&mut self, br: Value) -> Rc<String> {
+    if let Some(name) = self.edge_bbs.get(&br) {
+      name.clone()
+    } else {
+      let name = self.nm.temp_value_name();
+      self.edge_bbs.insert(br, name.clone());
+      name
+    }
+  }
+
   /// Generates the given global instruction.
   fn visit_global_inst(&mut self, inst: &ValueData) -> Result<()> {
     let alloc = match inst.kind() {
@@ -224,7 +262,8 @@ impl<W: Write> VisitorImpl<'_, W> {
   }
 
   /// Generates the given instruction.
-  fn visit_local_inst(&mut self, inst: &ValueData) -> Result<()> {
+  fn visit_local_inst(&mut self, value: Value) -> Result<()> {
+    let inst = value!(self, value);
     // definition
     if !matches!(inst.kind(), ValueKind::Binary(_)) && !inst.ty().is_unit() {
       write!(self.w, "{} = ", self.nm.value_name(inst))?;
@@ -237,7 +276,7 @@ impl<W: Write> VisitorImpl<'_, W> {
       ValueKind::GetPtr(v) => self.visit_getptr(v),
       ValueKind::GetElemPtr(v) => self.visit_getelemptr(v),
       ValueKind::Binary(v) => self.visit_binary(inst, v),
-      ValueKind::Branch(v) => self.visit_branch(v),
+      ValueKind::Branch(v) => self.visit_branch(value, v),
       ValueKind::Jump(v) => self.visit_jump(v),
       ValueKind::Call(v) => self.visit_call(inst.ty(), v),
       ValueKind::Return(v) => self.visit_return(v),
@@ -342,7 +381,7 @@ impl<W: Write> VisitorImpl<'_, W> {
   }
 
   /// Generates branch.
-  fn visit_branch(&mut self, br: &Branch) -> Result<()> {
+  fn visit_branch(&mut self, value: Value, br: &Branch) -> Result<()> {
     // generate condition
     let temp = self.nm.temp_value_name();
     write!(self.w, "{} = icmp ne i32 ", temp)?;
@@ -353,6 +392,10 @@ impl<W: Write> VisitorImpl<'_, W> {
     // because they are handled when generating basic blocks
     self.visit_bb_ref(br.true_bb())?;
     write!(self.w, ", label ")?;
+    if br.true_bb() == br.false_bb() && !br.true_args().is_empty() {
+      let edge = self.edge_bb_name(value);
+      write!(self.w, "{}\n\n{}:\n  br label ", edge, &edge[1..])?;
+    }
     self.visit_bb_ref(br.false_bb())
   }
 
-- 
2.43.0


From 3fc0c51ef519238e210abfb96b861d01c5b68f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 16/31] fix: truncate long names at character boundaries

---
 koopa/src/back/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index a946cf3..e2ae9a1 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -238,7 +238,11 @@ impl Prefix {
           format!("{}{}", temp, &name[1..])
         };
         if let Some(max_len) = max_len {
-          name.truncate(max_len.get());
+          let mut len = max_len.get().min(name.len());
+          while !name.is_char_boundary(len) {
+            len -= 1;
+          }
+          name.truncate(len);
         }
         name
       }
-- 
2.43.0


From d0abcfe4db459785945d048e3324c81e4cb88c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 17/31] fix: phi functions only ignore jumps outside of the
 layout, edges to one target twice take no arguments

---
 koopa/src/back/llvm.rs | 70 ++++++++++--------------------------------
 1 file changed, 17 insertions(+), 53 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index ed7be3c..9526a05 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -5,10 +5,8 @@ use crate::ir::entities::{FunctionData, ValueData};
 use crate::ir::layout::BasicBlockNode;
 use crate::ir::values::*;
 use crate::ir::{BasicBlock, Program, Type, TypeKind, Value, ValueKind};
-use std::collections::HashMap;
 use std::io::{Result, Write};
 use std::num::NonZeroUsize;
-use std::rc::Rc;
 
 /// Visitor for generating the in-memory form Koopa IR program into
 /// the text form LLVM IR program.
@@ -24,7 +22,6 @@ impl<W: Write> back::Visitor<W> for Visitor {
       nm,
       program,
       func: None,
-      edge_bbs: HashMap::new(),
     };
     visitor.visit()
   }
@@ -36,7 +33,6 @@ struct VisitorImpl<'a, W: Write> {
   nm: &'a mut NameManager,
   program: &'a Program,
   func: Option<&'a FunctionData>,
-  edge_bbs: HashMap<Value, Rc<String>>,
 }
 
 /// Returns a reference to the current function.
@@ -91,7 +87,6 @@ impl<W: Write> VisitorImpl<'_, W> {
       let func = self.program.func(*func);
       self.func = Some(func);
       self.nm.enter_func_scope();
-      self.edge_bbs.clear();
       self.visit_func(func)?;
       self.nm.exit_func_scope();
     }
@@ -188,67 +183,41 @@ impl<W: Write> VisitorImpl<'_, W> {
       write!(self.w, " ")?;
       let mut first = true;
       for user in data.used_by() {
-        // ignore users that have been removed from the layout
+        // ignore users that are not in the layout
         let pred = match func!(self).layout().parent_bb(*user) {
           Some(pred) => pred,
           None => continue,
         };
+        if !first {
+          write!(self.w, ", ")?;
+        }
+        first = false;
+        write!(self.w, "[")?;
         match value!(self, *user).kind() {
           ValueKind::Branch(br) => {
             if br.true_bb() == bb {
-              let pred = self.nm.bb_name(func!(self).dfg().bb(pred));
-              self.visit_phi_arg(&mut first, br.true_args()[i], &pred)?;
-            }
-            if br.false_bb() == bb {
-              let pred = if br.true_bb() == bb {
-                self.edge_bb_name(*user)
-              } else {
-                self.nm.bb_name(func!(self).dfg().bb(pred))
-              };
-              self.visit_phi_arg(&mut first, br.false_args()[i], &pred)?;
+              self.visit_value(false, br.true_args()[i])?;
+            } else {
+              self.visit_value(false, br.false_args()[i])?;
             }
           }
-          ValueKind::Jump(jump) => {
-            let pred = self.nm.bb_name(func!(self).dfg().bb(pred));
-            self.visit_phi_arg(&mut first, jump.args()[i], &pred)?;
-          }
+          ValueKind::Jump(jump) => self.visit_value(false, jump.args()[i])?,
           _ => panic!("invalid branch/jump instruction"),
         }
+        write!(self.w, ", ")?;
+        self.visit_bb_ref(pred)?;
+        write!(self.w, "]")?;
       }
       writeln!(self.w)?;
     }
     // instrustions in basic block
     for inst in node.insts().keys() {
       write!(self.w, "  ")?;
-      self.visit_local_inst(*inst)?;
+      self.visit_local_inst(value!(self, *inst))?;
     }
     Ok(())
   }
 
-  /// Generates the given argument of phi function.
-  fn visit_phi_arg(&mut self, first: &mut bool, arg: Value, pred: &str) -> Result<()> {
-    if !*first {
-      write!(self.w, ", ")?;
-    }
-    *first = false;
-    write!(self.w, "[")?;
-    self.visit_value(false, arg)?;
-    write!(self.w, ", {}]", pred)
-  }
-
-  /// Returns the name of the extra basic block on the false edge of the given
-  /// branch, which is required when both targets are the same basic block
-  /// but arguments passed to it may be different.
-  fn edge_bb_name(&mut self, br: Value) -> Rc<String> {
-    if let Some(name) = self.edge_bbs.get(&br) {
-      name.clone()
-    } else {
-      let name = self.nm.temp_value_name();
-      self.edge_bbs.insert(br, name.clone());
-      name
-    }
-  }
-
   /// Generates the given global instruction.
   fn visit_global_inst(&mut self, inst: &ValueData) -> Result<()> {
     let alloc = match inst.kind() {
@@ -262,8 +231,7 @@ impl<W: Write> VisitorImpl<'_, W> {
   }
 
   /// Generates the given instruction.
-  fn visit_local_inst(&mut self, value: Value) -> Result<()> {
-    let inst = value!(self, value);
+  fn visit_local_inst(&mut self, inst: &ValueData) -> Result<()> {
     // definition
     if !matches!(inst.kind(), ValueKind::Binary(_)) && !inst.ty().is_unit() {
       write!(self.w, "{} = ", self.nm.value_name(inst))?;
@@ -276,7 +244,7 @@ impl<W: Write> VisitorImpl<'_, W> {
       ValueKind::GetPtr(v) => self.visit_getptr(v),
       ValueKind::GetElemPtr(v) => self.visit_getelemptr(v),
       ValueKind::Binary(v) => self.visit_binary(inst, v),
-      ValueKind::Branch(v) => self.visit_branch(value, v),
+      ValueKind::Branch(v) => self.visit_branch(v),
       ValueKind::Jump(v) => self.visit_jump(v),
       ValueKind::Call(v) => self.visit_call(inst.ty(), v),
       ValueKind::Return(v) => self.visit_return(v),
@@ -381,7 +349,7 @@ impl<W: Write> VisitorImpl<'_, W> {
   }
 
   /// Generates branch.
-  fn visit_branch(&mut self, value: Value, br: &Branch) -> Result<()> {
+  fn visit_branch(&mut self, br: &Branch) -> Result<()> {
     // generate condition
     let temp = self.nm.temp_value_name();
     write!(self.w, "{} = icmp ne i32 ", temp)?;
@@ -392,10 +360,6 @@ impl<W: Write> VisitorImpl<'_, W> {
     // because they are handled when generating basic blocks
     self.visit_bb_ref(br.true_bb())?;
     write!(self.w, ", label ")?;
-    if br.true_bb() == br.false_bb() && !br.true_args().is_empty() {
-      let edge = self.edge_bb_name(value);
-      write!(self.w, "{}\n\n{}:\n  br label ", edge, &edge[1..])?;
-    }
     self.visit_bb_ref(br.false_bb())
   }
 
-- 
2.43.0


From 6b6cd8d7805e01d3793f51f23509af5b97aa7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 18/31] fix: temporary names that clash get another number, not
 a suffix; functions are named first

---
 koopa/src/back/generator.rs | 37 ++++++++++++++++++++++++-------------
 koopa/src/back/koopa.rs     |  8 ++++----
 koopa/src/back/llvm.rs      |  8 ++++----
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index e2ae9a1..a91bd77 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -145,38 +145,49 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name, skip names that have already been taken
-      let mut next_id = self.next_id;
-      let mut name = self.prefix.temp_name(next_id);
-      while self.global_names.contains(&name) || self.bb_names.contains(&name) {
-        next_id += 1;
-        name = self.prefix.temp_name(next_id);
-      }
-      self.next_id = next_id + 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      self.next_temp_name(name_set)
     }
   }
 
+  /// Generates the next temporary name that has not been taken.
+  fn next_temp_name<F>(&mut self, name_set: F) -> Rc<String>
+  where
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
+  {
+    let mut next_id = self.next_id;
+    let mut name = self.prefix.temp_name(next_id);
+    while self.global_names.contains(&name) || self.bb_names.contains(&name) {
+      next_id += 1;
+      name = self.prefix.temp_name(next_id);
+    }
+    self.next_id = next_id + 1;
+    let names = name_set(self);
+    names.insert(name.clone().into());
+    names.get(&name).unwrap().to_rc()
+  }
+
   /// Generates the next name by the given string
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
+    let is_temp = name[1..].chars().all(|c| c.is_ascii_digit());
     let name = self.prefix.name(name);
     let names = name_set(self);
     // check for duplicate names
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_temp {
+      // temporary names can not have a suffix
+      self.next_temp_name(name_set)
     } else {
       // generate a new name
       for id in 0.. {
diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 72db17b..c6cde05 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -71,15 +71,15 @@ impl<W: Write> VisitorImpl<'_, W> {
     Ok(())
   }
 
-  /// Names all global values and functions, so that the names do not depend on
+  /// Names all functions and global values, so that the names do not depend on
   /// the scope in which they are used first.
   fn name_globals(&mut self) {
-    for inst in self.program.inst_layout() {
-      self.nm.value_name(&self.program.borrow_value(*inst));
-    }
     for func in self.program.func_layout() {
       self.nm.func_name(self.program.func(*func));
     }
+    for inst in self.program.inst_layout() {
+      self.nm.value_name(&self.program.borrow_value(*inst));
+    }
   }
 
   /// Generates the given function.
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 9526a05..539b566 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -93,15 +93,15 @@ impl<W: Write> VisitorImpl<'_, W> {
     Ok(())
   }
 
-  /// Names all global values and functions, so that the names do not depend on
+  /// Names all functions and global values, so that the names do not depend on
   /// the scope in which they are used first.
   fn name_globals(&mut self) {
-    for inst in self.program.inst_layout() {
-      self.nm.value_name(&self.program.borrow_value(*inst));
-    }
     for func in self.program.func_layout() {
       self.nm.func_name(self.program.func(*func));
     }
+    for inst in self.program.inst_layout() {
+      self.nm.value_name(&self.program.borrow_value(*inst));
+    }
   }
 
   /// Generates the given function.
-- 
2.43.0


From cbe32766a80ccf4f43c158b5cb34e2bdfe9e6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 19/31] fix: do not recurse on every comment in the lexer

---
 koopa/src/front/lexer.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 800e478..1200a24 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    loop {
+      while self.last_char.is_some_and(|c| c.is_whitespace()) {
+        self.next_char()?;
+      }
+      if self.last_char != Some('/') {
+        break;
+      }
+      self.handle_comment()?;
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -167,7 +170,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -179,15 +182,14 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
       self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -201,15 +203,14 @@ impl<T: Read> Lexer<T> {
       self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
   /// Logs error message to stderr, and skip to the next space character.
   ///
   /// For error recovery support.
-  fn log_err_and_skip(&mut self, span: Span, message: &str) -> Result {
+  fn log_err_and_skip<U>(&mut self, span: Span, message: &str) -> std::result::Result<U, Error> {
     while self.last_char.is_some_and(|c| !c.is_whitespace()) {
       self.next_char()?;
     }
-- 
2.43.0


From f80249b6b263b721fa1161ec010a6e053e2052af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 20/31] fix: symbols are only visible where their definitions
 dominate

---
 koopa/src/front/builder.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 0390d16..50ebe7e 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -453,35 +453,37 @@ impl Builder {
   fn generate_symbol(&self, span: &Span, bb_name: &str, symbol: &str) -> ValueResult {
     // try to find symbol in global scope
     // if not found, find symbol in local definitions
-    let mut visited_bbs = HashSet::new();
     self
       .global_vars
       .get(symbol)
       .copied()
-      .or_else(|| self.generate_local_symbol(&mut visited_bbs, bb_name, symbol))
+      .or_else(|| self.generate_local_symbol(bb_name, symbol))
       .ok_or_else(|| return_error!(span, "symbol '{}' not found", symbol))
   }
 
   /// Generates the symbol locally by the symbol name.
-  fn generate_local_symbol<'a>(
-    &'a self,
-    visited_bbs: &mut HashSet<&'a str>,
-    bb_name: &'a str,
-    symbol: &str,
-  ) -> Option<Value> {
-    if visited_bbs.insert(bb_name) {
+  ///
+  /// The symbol must have been defined on all paths from the entry basic block
+  /// to the given basic block.
+  fn generate_local_symbol(&self, bb_name: &str, symbol: &str) -> Option<Value> {
+    let mut value = None;
+    let mut visited = HashSet::from([bb_name]);
+    let mut bbs = vec![bb_name];
+    while let Some(bb_name) = bbs.pop() {
       // find symbol in local scope of the current basic block
       // if not found, try to find symbol in all predecessors
       let bb_info = &self.local_bbs[bb_name];
-      bb_info.local_defs.get(symbol).copied().or_else(|| {
-        bb_info
-          .preds
-          .iter()
-          .find_map(|pred| self.generate_local_symbol(visited_bbs, pred, symbol))
-      })
-    } else {
-      None
+      if let Some(def) = bb_info.local_defs.get(symbol) {
+        value = Some(*def);
+      } else if bb_info.preds.is_empty() {
+        // the entry has been reached without passing the definition
+        return None;
+      } else {
+        let preds = bb_info.preds.iter().map(String::as_str);
+        bbs.extend(preds.filter(|p| visited.insert(p)));
+      }
     }
+    value
   }
 
   /// Generates the basic block handle by the given basic block name.
-- 
2.43.0


From c5ad63ce9d621bccb0d56cdc93f0b0ffd2a29bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 21/31] fix: drivers that are created before another one runs
 keep their own errors and file

---
 koopa/src/front/driver.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index b24fbc0..4523493 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -15,8 +15,8 @@ use std::path::Path;
 ///
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
-  parser: Result<Parser<T>, Error>,
-  builder: Builder,
+  file_type: FileType,
+  reader: T,
 }
 
 impl<T: Read> Driver<T> {
@@ -25,17 +25,19 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft);
     Self {
-      parser: Parser::new(Lexer::new(reader)),
-      builder: Builder::new(),
+      file_type: ft,
+      reader,
     }
   }
 
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
-  pub fn generate_program(mut self) -> Result<Program, Error> {
-    let mut parser = self.parser?;
+  pub fn generate_program(self) -> Result<Program, Error> {
+    // reset here, because other drivers may have run since `new`
+    Span::reset(self.file_type);
+    let mut parser = Parser::new(Lexer::new(self.reader))?;
+    let mut builder = Builder::new();
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
@@ -44,7 +46,7 @@ impl<T: Read> Driver<T> {
         break;
       }
       // build on the current AST
-      self.builder.build_on(&ast);
+      builder.build_on(&ast);
       // exit if too many errors are generated
       if Span::error_num() > Self::MAX_ERR_NUM {
         return log_raw_error!("too many errors are generated, aborted").into();
@@ -58,7 +60,7 @@ impl<T: Read> Driver<T> {
     if Span::error_num() != 0 {
       Error::default().into()
     } else {
-      Ok(self.builder.program())
+      Ok(builder.program())
     }
   }
 }
-- 
2.43.0


From 84466f1459d5657581a336f075f24a694dd3c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 22/31] fix: print errors about any source file without
 panicking

---
 koopa/src/front/span.rs | 57 +++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..5c39ff8 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -7,7 +7,7 @@ use std::path::PathBuf;
 #[cfg(not(feature = "no-front-logger"))]
 use colored::*;
 #[cfg(not(feature = "no-front-logger"))]
-use std::{fs::File, io::BufRead, io::BufReader, io::Result as IoResult};
+use std::{fs::File, io::BufRead, io::BufReader};
 
 /// The type of error returned by logger methods of [`Span`].
 #[cfg(feature = "no-front-logger")]
@@ -75,32 +75,32 @@ pub struct Span {
 }
 
 /// Gets the string of the given line.
+///
+/// Columns count bytes, they may lie in the middle of a character or
+/// behind the last one.
 #[cfg(not(feature = "no-front-logger"))]
 macro_rules! get_line_str {
+  (@expand $line:expr) => {
+    String::from_utf8_lossy($line).replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+  };
+  (@col $line:expr, $col:expr) => {
+    get_line_str!(@expand &$line[..$line.len().min($col as usize)])
+      .chars()
+      .count()
+  };
   ($line:expr) => {
-    $line
-      .map_or("".into(), |r| r.unwrap())
-      .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+    get_line_str!(@expand &$line.unwrap_or_default())
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
-    (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col + tabs * (Span::TAB_WIDTH - 1),
-    )
+    let line = $line.unwrap_or_default();
+    (get_line_str!(@expand &line), get_line_str!(@col line, $col))
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let line = $line.unwrap_or_default();
     (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col1 + tabs1 * (Span::TAB_WIDTH - 1),
-      col2 + tabs2 * (Span::TAB_WIDTH - 1),
+      get_line_str!(@expand &line),
+      get_line_str!(@col line, $col1),
+      get_line_str!(@col line, $col2),
     )
   }};
 }
@@ -327,9 +327,16 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      // get lines, which may not be valid UTF-8
+      let mut lines = BufReader::new(file).split(b'\n').map(|line| {
+        let mut line = line.unwrap_or_default();
+        if line.ends_with(b"\r") {
+          line.pop();
+        }
+        line
+      });
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
@@ -345,13 +352,13 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_single_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = Vec<u8>>,
   {
     // get some parameters
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
+    let leading = c1.saturating_sub(1);
     let len = c2 - c1 + 1;
     // print the current line to stderr
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
@@ -367,7 +374,7 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_multi_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = Vec<u8>>,
   {
     // get some parameters
     let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
@@ -394,7 +401,7 @@ impl Span {
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
-      eprint!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
+      eprintln!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
       let line = get_line_str!(lines.nth(mid_lines - 3));
       eprint!("{} ", format!("{:w$}", self.end.line - 1, w = width).blue());
       eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
-- 
2.43.0


From 4ed43952483ffda960d4392ededea1d008ea9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 23/31] fix: a raw program builder can build several programs

---
 libkoopa/src/raw/builder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..362c2ab 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -8,6 +8,7 @@ use std::cell::UnsafeCell;
 use std::collections::HashMap;
 use std::ffi::CString;
 use std::marker::PhantomData;
+use std::mem::take;
 use std::os::raw::{c_char, c_void};
 use std::ptr::null;
 
@@ -20,8 +21,16 @@ pub struct RawProgramBuilder {
   funcs: HashMap<Function, Box<RawFunctionData>>,
   bbs: HashMap<BasicBlock, Box<RawBasicBlockData>>,
   values: HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+  built: Vec<BuiltEntities>,
 }
 
+/// Entities of the raw programs that have been built.
+type BuiltEntities = (
+  HashMap<Function, Box<RawFunctionData>>,
+  HashMap<BasicBlock, Box<RawBasicBlockData>>,
+  HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+);
+
 impl RawProgramBuilder {
   /// Creates a new raw builder.
   pub fn new() -> Self {
@@ -57,6 +66,12 @@ impl RawProgramBuilder {
     for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
       data.get_mut().used_by = slice;
     }
+    // keep the entities alive, but do not reuse them
+    self.built.push((
+      take(&mut self.funcs),
+      take(&mut self.bbs),
+      take(&mut self.values),
+    ));
     raw
   }
 }
-- 
2.43.0


From 6d2fb86c63cf7f1a9008df83234ec243c4966487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 24/31] fix: raw programs can be built with instructions
 outside of the layout

---
 libkoopa/src/raw/builder.rs | 54 ++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index 362c2ab..e923ae6 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -45,26 +45,14 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    // fill `used_by` fields of all values and basic blocks
+    for (value, used_by) in info.value_used_by {
+      let slice = self.build_used_by(used_by);
+      self.values.get_mut(&value).unwrap().get_mut().used_by = slice;
+    }
+    for (bb, used_by) in info.bb_used_by {
+      let slice = self.build_used_by(used_by);
+      self.bbs.get_mut(&bb).unwrap().used_by = slice;
     }
     // keep the entities alive, but do not reuse them
     self.built.push((
@@ -74,6 +62,23 @@ impl RawProgramBuilder {
     ));
     raw
   }
+
+  /// Builds a `used_by` list, which does not contain values
+  /// that are not in the raw program.
+  fn build_used_by(&mut self, used_by: Vec<Value>) -> RawSlice {
+    let v: Vec<_> = used_by
+      .iter()
+      .filter_map(|v| self.values.get(v))
+      .map(|v| v.get() as *const ())
+      .collect();
+    let slice = RawSlice {
+      buffer: v.as_ptr() as *const c_void,
+      len: v.len() as u32,
+      kind: RawSliceItemKind::Value,
+    };
+    self.slices.push(v);
+    slice
+  }
 }
 
 /// Some necessary information required by the [`BuildRaw`] trait.
@@ -82,6 +87,7 @@ struct ProgramInfo<'a> {
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
   value_used_by: HashMap<Value, Vec<Value>>,
+  bb_used_by: HashMap<BasicBlock, Vec<Value>>,
 }
 
 impl<'a> ProgramInfo<'a> {
@@ -91,6 +97,7 @@ impl<'a> ProgramInfo<'a> {
       cur_func: None,
       cur_bb: None,
       value_used_by: HashMap::new(),
+      bb_used_by: HashMap::new(),
     }
   }
 }
@@ -250,7 +257,10 @@ impl BuildRaw for BasicBlock {
     } else {
       builder.bbs.insert(*self, unsafe { new_uninit_box() });
       let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
+      let data = info.cur_func.unwrap().dfg().bb(*self);
+      let used_by = data.used_by().iter().copied().collect();
+      info.bb_used_by.insert(*self, used_by);
+      let b = data.build(builder, info);
       info.cur_bb = last_bb;
       let bb = builder.bbs.get_mut(self).unwrap();
       **bb = b;
@@ -266,7 +276,7 @@ impl BuildRaw for BasicBlockData {
     RawBasicBlockData {
       name: self.name().build(builder, info),
       params: iter_into_raw(self.params().iter(), builder, info),
-      used_by: iter_into_raw(self.used_by().iter(), builder, info),
+      used_by: RawSlice::default(),
       insts: {
         let node = &info.cur_func.unwrap().layout().bbs()[&info.cur_bb.unwrap()];
         iter_into_raw(node.insts().keys(), builder, info)
-- 
2.43.0


From 028c3bbfc80dd1df9f1c67665fee912a47a4a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 25/31] fix: raw programs keep the order of functions and
 blocks, and do not take stack for each

---
 libkoopa/src/raw/builder.rs   | 40 ++++++++++++++++----------
 libkoopa/src/raw/generator.rs | 54 +++++++++++++++++++++++++----------
 2 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e923ae6..744e196 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -45,6 +45,18 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
+    // fill functions and basic blocks
+    while let Some(func) = info.funcs.pop() {
+      let data = program.func(func);
+      info.cur_func = Some(data);
+      let f = data.build(self, &mut info);
+      **self.funcs.get_mut(&func).unwrap() = f;
+      while let Some(bb) = info.bbs.pop() {
+        info.cur_bb = Some(bb);
+        let b = data.dfg().bb(bb).build(self, &mut info);
+        **self.bbs.get_mut(&bb).unwrap() = b;
+      }
+    }
     // fill `used_by` fields of all values and basic blocks
     for (value, used_by) in info.value_used_by {
       let slice = self.build_used_by(used_by);
@@ -86,6 +98,8 @@ struct ProgramInfo<'a> {
   program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
+  funcs: Vec<Function>,
+  bbs: Vec<BasicBlock>,
   value_used_by: HashMap<Value, Vec<Value>>,
   bb_used_by: HashMap<BasicBlock, Vec<Value>>,
 }
@@ -96,6 +110,8 @@ impl<'a> ProgramInfo<'a> {
       program,
       cur_func: None,
       cur_bb: None,
+      funcs: Vec::new(),
+      bbs: Vec::new(),
       value_used_by: HashMap::new(),
       bb_used_by: HashMap::new(),
     }
@@ -221,14 +237,10 @@ impl BuildRaw for Function {
     if let Some(f) = builder.funcs.get(self) {
       f.as_ref()
     } else {
-      builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      // the data will be filled later, to avoid deep recursion
+      info.funcs.push(*self);
+      let f = unsafe { new_uninit_box() };
+      builder.funcs.entry(*self).or_insert(f).as_ref()
     }
   }
 }
@@ -255,16 +267,14 @@ impl BuildRaw for BasicBlock {
     if let Some(b) = builder.bbs.get(self) {
       b.as_ref()
     } else {
-      builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
+      // get `used_by` list
       let data = info.cur_func.unwrap().dfg().bb(*self);
       let used_by = data.used_by().iter().copied().collect();
       info.bb_used_by.insert(*self, used_by);
-      let b = data.build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      // the data will be filled later, to avoid deep recursion
+      info.bbs.push(*self);
+      let b = unsafe { new_uninit_box() };
+      builder.bbs.entry(*self).or_insert(b).as_ref()
     }
   }
 }
diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..c8444d5 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -24,6 +23,8 @@ pub(crate) fn generate_program(raw: &RawProgram) -> Result<Program> {
 struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
+  todo_funcs: VecDeque<RawFunction>,
+  todo_bbs: VecDeque<RawBasicBlock>,
   cur_func: RawFunction,
 }
 
@@ -33,6 +34,8 @@ impl ProgramInfo {
     ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
+      todo_funcs: VecDeque::new(),
+      todo_bbs: VecDeque::new(),
       cur_func: null(),
     }
   }
@@ -206,6 +209,16 @@ impl GenerateOnRaw for RawProgram<'_> {
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate contents of all functions, in order
+    while let Some(func) = info.todo_funcs.pop_front() {
+      info.cur_func = func;
+      for bb in unsafe { &*func }.bbs.bbs()? {
+        bb.generate(program, info)?;
+      }
+      while let Some(bb) = info.todo_bbs.pop_front() {
+        bb.generate_insts(program, info)?;
+      }
+    }
     Ok(())
   }
 }
@@ -263,13 +276,9 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
+      // basic blocks will be generated later
       if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
+        info.todo_funcs.push_back(*self);
       }
       Ok(func)
     }
@@ -309,18 +318,33 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      // instructions will be generated later
+      info.todo_bbs.push_back(*self);
       Ok(bb)
     }
   }
 }
 
+/// Trait for generating instructions of raw basic blocks.
+trait GenerateInsts {
+  /// Generates all instructions of the current basic block,
+  /// which must have been generated.
+  fn generate_insts(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()>;
+}
+
+impl GenerateInsts for RawBasicBlock {
+  fn generate_insts(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
+    let bb = info.cur_func_info().bbs[self];
+    for inst in unsafe { &**self }.insts.values()? {
+      let inst = inst.generate(program, info)?;
+      // insert to the current basic block
+      let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+      layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+    }
+    Ok(())
+  }
+}
+
 impl GenerateOnRaw for RawValue {
   type Entity = Value;
 
-- 
2.43.0


From a6b22f52baf25192aa588dbde485eedb531c1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 26/31] fix: read again when reading was interrupted

---
 koopa/src/front/lexer.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 1200a24..91ea7e6 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -4,7 +4,7 @@ use crate::front::span::{Error, Pos, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
 use crate::ir::BinaryOp;
 use crate::{log_raw_fatal_error, return_error};
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 /// A lexer for lexing text form Koopa IR.
 ///
@@ -71,17 +71,19 @@ impl<T: Read> Lexer<T> {
   fn next_char(&mut self) -> std::result::Result<(), Error> {
     // NOTE: UTF-8 characters will not be handled here.
     let mut single_char = [0];
-    self.last_char = (self
-      .reader
-      .read(&mut single_char)
-      .map_err(|err| log_raw_fatal_error!("{}", err))?
-      != 0)
-      .then(|| {
-        let c = single_char[0] as char;
-        // update the current position
-        self.pos.update(c);
-        c
-      });
+    let len = loop {
+      match self.reader.read(&mut single_char) {
+        // not a failure, should try again
+        Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+        result => break result.map_err(|err| log_raw_fatal_error!("{}", err))?,
+      }
+    };
+    self.last_char = (len != 0).then(|| {
+      let c = single_char[0] as char;
+      // update the current position
+      self.pos.update(c);
+      c
+    });
     Ok(())
   }
 
-- 
2.43.0


From 00e7d9860a683ab282cc018a6392b05624efa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 27/31] fix: a generator can generate several programs

---
 koopa/src/back/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index a91bd77..3b5ea92 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -351,6 +351,8 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
 
   /// Generates on the given Koopa IR program.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    // names belong to one program, and a failed run leaves its scope open
+    self.name_man = NameManager::new();
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 6d33ff320afa59f1c36fa30713f4b59d66108101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 28/31] fix: return the messages of all errors when the
 front-end logger is disabled

---
 koopa/src/front/driver.rs | 10 +++++++++-
 koopa/src/front/span.rs   | 42 +++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index 4523493..3665ddb 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -36,7 +36,15 @@ impl<T: Read> Driver<T> {
   pub fn generate_program(self) -> Result<Program, Error> {
     // reset here, because other drivers may have run since `new`
     Span::reset(self.file_type);
-    let mut parser = Parser::new(Lexer::new(self.reader))?;
+    let result = Self::generate(self.reader);
+    #[cfg(feature = "no-front-logger")]
+    let result = result.map_err(Error::with_logged_messages);
+    result
+  }
+
+  /// Generates Koopa IR program from the given reader.
+  fn generate(reader: T) -> Result<Program, Error> {
+    let mut parser = Parser::new(Lexer::new(reader))?;
     let mut builder = Builder::new();
     loop {
       // parse & get the next AST
diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 5c39ff8..3a903b1 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -36,6 +36,17 @@ impl Error {
     matches!(self, Error::Fatal(..))
   }
 
+  /// Returns an error of the same kind, which holds the messages of
+  /// all errors that have been logged, one per line.
+  #[cfg(feature = "no-front-logger")]
+  pub(in crate::front) fn with_logged_messages(self) -> Self {
+    let messages = Span::STATE.with(|gs| gs.borrow().err_msgs.join("\n"));
+    match self {
+      Error::Normal(_) => Error::Normal(messages),
+      Error::Fatal(_) => Error::Fatal(messages),
+    }
+  }
+
   /// Returns `true` if the current error is fatal.
   #[cfg(not(feature = "no-front-logger"))]
   pub fn is_fatal(&self) -> bool {
@@ -116,6 +127,8 @@ impl Span {
         file: FileType::Buffer,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        err_msgs: Vec::new(),
       })
     };
   }
@@ -132,6 +145,8 @@ impl Span {
         file,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        err_msgs: Vec::new(),
       }
     });
   }
@@ -139,9 +154,7 @@ impl Span {
   /// Logs normal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Normal(format!("{}", args))
+    Error::Normal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs normal error with no span provided.
@@ -159,9 +172,7 @@ impl Span {
   /// Logs fatal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_fatal_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Fatal(format!("{}", args))
+    Error::Fatal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs fatal error with no span provided.
@@ -241,8 +252,7 @@ impl Span {
   /// Logs normal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Normal(self.error_message(args))
+    Error::Normal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs normal error message.
@@ -256,8 +266,7 @@ impl Span {
   /// Logs fatal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_fatal_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Fatal(self.error_message(args))
+    Error::Fatal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs fatal error message.
@@ -314,6 +323,17 @@ impl Span {
     self.end.line == span.start.line
   }
 
+  /// Updates error number, and stores the given message.
+  #[cfg(feature = "no-front-logger")]
+  fn record_error(message: String) -> String {
+    Self::STATE.with(|gs| {
+      let mut gs = gs.borrow_mut();
+      gs.err_num += 1;
+      gs.err_msgs.push(message.clone());
+    });
+    message
+  }
+
   /// Returns the error message.
   #[cfg(feature = "no-front-logger")]
   fn error_message(&self, args: Arguments) -> String {
@@ -471,6 +491,8 @@ struct GlobalState {
   file: FileType,
   err_num: usize,
   warn_num: usize,
+  #[cfg(feature = "no-front-logger")]
+  err_msgs: Vec<String>,
 }
 
 /// Type of input file.
-- 
2.43.0


From 22f1c0dfed0d622c63c2d9f2ea7526f888489585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 29/31] fix: spans of jumps and branches without arguments end
 at their last target

---
 koopa/src/front/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index c38da26..14620fb 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -427,11 +427,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get false target basic block
+    let fbb_span = self.span();
     let fbb = read!(self, TokenKind::Symbol, "basic block name")?;
     // get false target basic block arguments
     let (fargs, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Branch::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(fbb_span)),
       cond,
       tbb,
       targs,
@@ -446,11 +447,12 @@ impl<T: Read> Parser<T> {
     // eat 'jump'
     self.next_token()?;
     // get target basic block
+    let target_span = self.span();
     let target = read!(self, TokenKind::Symbol, "basic block name")?;
     // get target basic block arguments
     let (args, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Jump::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(target_span)),
       target,
       args,
     ))
@@ -578,15 +580,21 @@ impl<T: Read> Parser<T> {
   }
 
   /// Parses optional comma-separated lists.
-  fn parse_opt_list<F, U>(&mut self, parser: F) -> std::result::Result<(Vec<U>, Span), Error>
+  ///
+  /// Returns no span if there is no list.
+  fn parse_opt_list<F, U>(
+    &mut self,
+    parser: F,
+  ) -> std::result::Result<(Vec<U>, Option<Span>), Error>
   where
     F: Fn(&mut Self) -> std::result::Result<U, Error>,
   {
     // check left bracket
     if self.is_token(TokenKind::Other('(')) {
-      self.parse_list(parser)
+      let (items, span) = self.parse_list(parser)?;
+      Ok((items, Some(span)))
     } else {
-      Ok((Vec::new(), self.span()))
+      Ok((Vec::new(), None))
     }
   }
 
-- 
2.43.0


From fed580766476e1e567bc705bb295123bf460b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 30/31] fix: warnings about unreachable blocks come in the
 order of the text

---
 koopa/src/front/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 50ebe7e..a902688 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -290,8 +290,10 @@ impl Builder {
       }
     }
     // check if there are any unvisited blocks
-    for (bb_name, (span, _)) in bb_map {
-      if !visited.contains(bb_name) {
+    for bb in bbs {
+      let bb_name = &unwrap_ast!(bb, Block).name;
+      if visited.insert(bb_name) {
+        let span = bb_map[bb_name].0;
         log_warning!(span, "basic block '{}' is unreachable, skipped", bb_name);
       }
     }
-- 
2.43.0


From 909e1e6b1ca8213a60940aca341c5a97055b0f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 31/31] fix: phi functions list their edges in the order of the
 layout

---
 koopa/src/back/llvm.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 539b566..3f60a8b 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -5,6 +5,7 @@ use crate::ir::entities::{FunctionData, ValueData};
 use crate::ir::layout::BasicBlockNode;
 use crate::ir::values::*;
 use crate::ir::{BasicBlock, Program, Type, TypeKind, Value, ValueKind};
+use std::collections::HashMap;
 use std::io::{Result, Write};
 use std::num::NonZeroUsize;
 
@@ -22,6 +23,7 @@ impl<W: Write> back::Visitor<W> for Visitor {
       nm,
       program,
       func: None,
+      bb_users: HashMap::new(),
     };
     visitor.visit()
   }
@@ -33,6 +35,7 @@ struct VisitorImpl<'a, W: Write> {
   nm: &'a mut NameManager,
   program: &'a Program,
   func: Option<&'a FunctionData>,
+  bb_users: HashMap<BasicBlock, Vec<(BasicBlock, Value)>>,
 }
 
 /// Returns a reference to the current function.
@@ -151,6 +154,7 @@ impl<W: Write> VisitorImpl<'_, W> {
     // function body
     if !is_decl {
       writeln!(self.w, " {{")?;
+      self.collect_bb_users(func);
       for (i, (bb, node)) in func.layout().bbs().iter().enumerate() {
         if i != 0 {
           writeln!(self.w)?;
@@ -170,24 +174,38 @@ impl<W: Write> VisitorImpl<'_, W> {
     Ok(())
   }
 
+  /// Collects the branches/jumps to all basic blocks of the given function,
+  /// in the order of the layout, so that the order of the incoming edges of
+  /// phi functions does not depend on the order of `used_by`.
+  fn collect_bb_users(&mut self, func: &FunctionData) {
+    self.bb_users.clear();
+    for (bb, node) in func.layout().bbs() {
+      for inst in node.insts().keys() {
+        for target in func.dfg().value(*inst).kind().bb_uses() {
+          let users = self.bb_users.entry(target).or_default();
+          // the targets of a branch can be the same
+          if users.last() != Some(&(*bb, *inst)) {
+            users.push((*bb, *inst));
+          }
+        }
+      }
+    }
+  }
+
   /// Generates the given basic block.
   fn visit_bb(&mut self, bb: BasicBlock, node: &BasicBlockNode) -> Result<()> {
     // basic block name
     let data = func!(self).dfg().bb(bb);
     writeln!(self.w, "{}:", &self.nm.bb_name(data)[1..])?;
     // basic block parameters (phi functions)
+    let users = self.bb_users.remove(&bb).unwrap_or_default();
     for (i, param) in data.params().iter().enumerate() {
       let param = value!(self, *param);
       write!(self.w, "  {} = phi ", self.nm.value_name(param))?;
       self.visit_type(param.ty())?;
       write!(self.w, " ")?;
       let mut first = true;
-      for user in data.used_by() {
-        // ignore users that are not in the layout
-        let pred = match func!(self).layout().parent_bb(*user) {
-          Some(pred) => pred,
-          None => continue,
-        };
+      for (pred, user) in &users {
         if !first {
           write!(self.w, ", ")?;
         }
@@ -205,7 +223,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           _ => panic!("invalid branch/jump instruction"),
         }
         write!(self.w, ", ")?;
-        self.visit_bb_ref(pred)?;
+        self.visit_bb_ref(*pred)?;
         write!(self.w, "]")?;
       }
       writeln!(self.w)?;
-- 
2.43.0

