From b3f188ae427c0e5335363e2d83c31df776c80c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 01/35] fix: leave the nesting level when a pattern fails to
 parse

---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From 12bcbdb11364fc893127679e931d8ed2f5e6cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 02/35] fix: write the body of a filter block to its own buffer

Control structures in the body were written to the outer writer, out of
order and unfiltered, and an empty body dropped what preceded the block.
---
 askama_derive/src/generator.rs | 53 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..688025d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -711,6 +711,7 @@ impl<'a> Generator<'a> {
         filter: &'a FilterBlock<'_>,
     ) -> Result<usize, CompileError> {
         self.flush_ws(filter.ws1);
+        let mut size_hint = 0;
         let mut var_name = String::new();
         for id in 0.. {
             var_name = format!("__filter_block{id}");
@@ -719,36 +720,34 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
+        size_hint += self.write_buf_writable(buf)?;
 
+        // Everything the body writes goes to the variable instead of the outer `writer`, unless
+        // the filter block is discarded: then only a block fragment inside of it can be written.
+        let discard = self.buf_writable.discard;
+        self.locals.push();
+        if !discard {
+            buf.writeln(&format!(
+                "let mut {var_name} = ::std::string::String::new();"
+            ))?;
+        }
+        buf.writeln("{")?;
+        if !discard {
+            buf.writeln("#[allow(unused_variables)]")?;
+            buf.writeln(&format!(
+                "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+            ))?;
+        }
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        buf.writeln("}")?;
+        self.locals.pop();
+        if discard {
+            self.prepare_ws(filter.ws2);
+            return Ok(size_hint);
+        }
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
-- 
2.43.0


From c401611d901b80b044ef7ecf247e1650f7b36137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 03/35] fix: find blocks that are defined inside filter blocks

---
 askama_derive/src/heritage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..301e0c2 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -97,6 +97,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(f) => {
+                        nested.push(&f.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 13e8fc7e2bea5e9fc7401fc8c723249f1e0ebca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 04/35] fix: write pending expressions before a let statement

A new local variable that shadows a field changed expressions before it.
---
 askama_derive/src/generator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 688025d..a75c634 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -881,11 +881,9 @@ impl<'a> Generator<'a> {
         self.visit_expr(&mut expr_buf, val)?;
 
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
+        // Need to flush the buffer, because the variable may shadow another
+        // variable or a field, to ensure the old value is used.
+        self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
-- 
2.43.0


From f5ed1821635b8ccbf9b3d7a33a08580ed2ae0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 05/35] fix: write pending expressions at the end of a block

They were resolved against the variables of the surrounding template, or
lost if the block is a fragment inside of another block.
---
 askama_derive/src/generator.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a75c634..5548ce0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -970,14 +970,12 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
+        // Need to flush the buffer before popping the variable stack, and before
+        // a discarded outer block is continued
+        size_hint += child.write_buf_writable(buf)?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1941,10 +1939,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From 06865691c571d6e94992159f222c4eda80ea6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 06/35] fix: do not leak variables out of blocks and included
 templates

---
 askama_derive/src/generator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5548ce0..b2631da 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -825,8 +825,10 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
@@ -965,6 +967,7 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        buf.writeln("{")?;
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
@@ -976,6 +979,7 @@ impl<'a> Generator<'a> {
         // Need to flush the buffer before popping the variable stack, and before
         // a discarded outer block is continued
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
-- 
2.43.0


From 1ec372ee9f12f04b932b90a46a4b86e3a4e771c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 07/35] fix: find declared variables that are named like Rust
 keywords

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b2631da..adeac51 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -888,7 +888,7 @@ impl<'a> Generator<'a> {
         self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From a0f014d935b7693ef21320cf3d069129326a4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 08/35] fix: do not count indentation while output is discarded

Every else branch in a discarded block dedented the code of a block
fragment until compilation failed.
---
 askama_derive/src/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index adeac51..1224b32 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1882,6 +1882,9 @@ impl Buffer {
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From 19973e8373fd1f334b8e230b61d39dcd790e71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 09/35] fix: minimize whitespace after a `~` that is followed
 by a tag

The documentation says that minimizing is preferred to preserving if two
whitespace controls point to the same whitespace.
---
 askama_derive/src/generator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1224b32..4e25055 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -33,6 +33,8 @@ pub(crate) struct Generator<'a> {
     // Whitespace suppression from the previous non-literal. Will be used to
     // determine whether to flush prefix whitespace from the next literal.
     skip_ws: WhitespaceHandling,
+    // Whether the previous non-literal had an inline whitespace control for `skip_ws`.
+    skip_ws_inline: bool,
     // If currently in a block, this will contain the name of a potential parent block
     super_block: Option<(&'a str, usize)>,
     // Buffer for writable
@@ -55,6 +57,7 @@ impl<'a> Generator<'a> {
             locals,
             next_ws: None,
             skip_ws: WhitespaceHandling::Preserve,
+            skip_ws_inline: false,
             super_block: None,
             buf_writable: WritableBuffer {
                 discard: input.block.is_some(),
@@ -1795,7 +1798,17 @@ impl<'a> Generator<'a> {
 
         // If `whitespace` is set to `suppress`, we keep the whitespace characters only if there is
         // a `+` character.
-        match self.should_trim_ws(ws.0) {
+        let handling = match self.should_trim_ws(ws.0) {
+            // There is nothing but whitespace since the previous non-literal: its `~` wins
+            // against preserving the whitespace.
+            WhitespaceHandling::Preserve
+                if self.skip_ws == WhitespaceHandling::Minimize && self.skip_ws_inline =>
+            {
+                WhitespaceHandling::Minimize
+            }
+            handling => handling,
+        };
+        match handling {
             WhitespaceHandling::Preserve => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
@@ -1822,6 +1835,7 @@ impl<'a> Generator<'a> {
     // next literal.
     fn prepare_ws(&mut self, ws: Ws) {
         self.skip_ws = self.should_trim_ws(ws.1);
+        self.skip_ws_inline = ws.1.is_some();
     }
 }
 
-- 
2.43.0


From 102f2f7e3526ac32b536ee1f9232977a42828f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 10/35] fix: reject a block fragment of a template that has no
 blocks

---
 askama_derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..08a1e40 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -77,6 +77,8 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
         }
 
         Some(heritage)
+    } else if let Some(block_name) = input.block {
+        return Err(format!("cannot find block {}", block_name).into());
     } else {
         None
     };
-- 
2.43.0


From d8628e655762d31e5297744b8dc561c840ce65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 11/35] fix: do not panic on a block that is defined in a macro

---
 askama_derive/src/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 4e25055..f467894 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -941,7 +941,8 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
+        let ancestors = heritage.blocks.get(cur.0).map(Vec::as_slice);
+        let (child_ctx, def) = *ancestors.unwrap_or_default().get(cur.1).ok_or_else(|| {
             CompileError::from(match name {
                 None => format!("no super() block found for block '{}'", cur.0),
                 Some(name) => format!("no block found for name '{name}'"),
-- 
2.43.0


From 6879d221716b77a8c7d6bf1faf35f37dbb7509e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 12/35] fix: resolve an include relative to the template it is
 written in

The path was resolved relative to the root template, so that the wrong
file was included, or the derive macro panicked.
---
 askama_derive/src/generator.rs | 2 +-
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f467894..e2ecaa6 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -785,7 +785,7 @@ impl<'a> Generator<'a> {
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 301e0c2..20a2885 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,6 +38,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -107,6 +108,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From 37cf20fd82c88ed5486d471bb31d4171b25b3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 13/35] fix: resolve includes in inherited macros relative to
 the macro's template

---
 askama_derive/src/generator.rs | 17 ++++++++++-------
 askama_derive/src/heritage.rs  |  5 +++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e2ecaa6..d9e66f3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -579,17 +579,20 @@ impl<'a> Generator<'a> {
                     .contexts
                     .get(path)
                     .ok_or_else(|| CompileError::from(format!("context for {path:?} not found")))?;
-                let def = mctx.macros.get(name).ok_or_else(|| {
+                let (def, _) = mctx.macros.get(name).ok_or_else(|| {
                     CompileError::from(format!("macro {name:?} not found in scope {s:?}"))
                 })?;
-                (def, mctx)
+                (def, Cow::Borrowed(mctx))
             }
             None => {
-                let def = ctx
+                let (def, path) = ctx
                     .macros
                     .get(name)
                     .ok_or_else(|| CompileError::from(format!("macro {name:?} not found")))?;
-                (def, ctx)
+                // The macro may be inherited from another template.
+                let mut own_ctx = ctx.clone();
+                own_ctx.path = Some(path);
+                (def, Cow::Owned(own_ctx))
             }
         };
 
@@ -697,7 +700,7 @@ impl<'a> Generator<'a> {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
         }
 
-        let mut size_hint = self.handle(own_ctx, &def.nodes, buf, AstLevel::Nested)?;
+        let mut size_hint = self.handle(&own_ctx, &def.nodes, buf, AstLevel::Nested)?;
 
         self.flush_ws(def.ws2);
         size_hint += self.write_buf_writable(buf)?;
@@ -804,7 +807,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let child_ctx = &mut self.contexts[&path].clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
@@ -954,7 +957,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let mut child_ctx = child_ctx.clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 20a2885..1a9ffd2 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -42,7 +42,8 @@ pub(crate) struct Context<'a> {
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
-    pub(crate) macros: HashMap<&'a str, &'a Macro<'a>>,
+    // The macros with the path of the template they are defined in
+    pub(crate) macros: HashMap<&'a str, (&'a Macro<'a>, &'a Path)>,
     pub(crate) imports: HashMap<&'a str, Rc<Path>>,
 }
 
@@ -69,7 +70,7 @@ impl Context<'_> {
                         }
                     },
                     Node::Macro(m) if top => {
-                        macros.insert(m.name, m);
+                        macros.insert(m.name, (m, path));
                     }
                     Node::Import(import) if top => {
                         let path = config.find_template(import.path, Some(path))?;
-- 
2.43.0


From f428497257b2269603e8d6d33f03a996a3457f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 14/35] fix: evaluate the arguments of a macro call in the
 scope of the caller

A parameter captured arguments that have the name of another parameter,
`loop.index` as an argument changed in a loop inside of the macro, and a
parameter could not be shadowed, or have the name of a Rust keyword.
---
 askama_derive/src/generator.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d9e66f3..1c572e9 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -639,6 +639,7 @@ impl<'a> Generator<'a> {
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
         let mut allow_positional = true;
+        let mut params = Vec::with_capacity(def.args.len());
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
                 Some(expr) => {
@@ -663,16 +664,15 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((arg, var));
                 }
-                Expr::Attr(obj, attr) => {
+                // The fields of `loop` belong to the innermost loop, so they need to be copied.
+                Expr::Attr(obj, attr) if !matches!(**obj, Expr::Var("loop")) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((arg, var));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -685,15 +685,32 @@ impl<'a> Generator<'a> {
                         names.write(", ");
                         values.write(", ");
                     }
-                    names.write(arg);
+                    // Use a name that nothing in the template refers to.
+                    let mut var = String::new();
+                    for id in 0.. {
+                        var = format!("__macro_arg{id}");
+                        if self.locals.get(&Cow::Borrowed(var.as_str())).is_none() {
+                            break;
+                        }
+                    }
+                    names.write(&var);
 
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    self.locals
+                        .insert(Cow::Owned(var.clone()), LocalMeta::initialized());
+                    params.push((arg, var));
                 }
             }
         }
+        // All arguments were resolved in the scope of the caller, now they can be named.
+        for (arg, var) in params {
+            self.locals.insert(
+                Cow::Borrowed(normalize_identifier(arg)),
+                LocalMeta::with_ref(var),
+            );
+        }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
-- 
2.43.0


From 17e0b9d7be5c57ef9248f07ea24714eb847b8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 15/35] fix: do not write the same `join` filter twice

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1c572e9..a49a417 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2086,6 +2086,8 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
+        // The output of `join` can only be written once:
+        Expr::Filter(Filter { name: "join", .. }) => false,
         Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-- 
2.43.0


From 873260eb8101fd512a96ae31e66ef22d60ace853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 16/35] fix: respond with an error status if rendering fails in
 axum

---
 askama_axum/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..e5c5b9f 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,12 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| {
+            axum_core::response::ErrorResponse::from((
+                http::StatusCode::INTERNAL_SERVER_ERROR,
+                err.to_string(),
+            ))
+        })
         .into_response()
 }
 
-- 
2.43.0


From f94fe9b6943be563c98a5dfd2c3084cb3104c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 17/35] fix: reject templates that extend each other

Only a template that extends itself was detected, longer cycles made the
derive macro loop forever.
---
 askama_derive/src/input.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..4b1a411 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -150,6 +150,16 @@ impl TemplateInput<'_> {
                                 return cyclic_graph_error(&dependency_graph);
                             }
                             dependency_graph.push(dependency_path);
+                            // Follow the ancestors: they must not lead back to this template.
+                            let mut ancestor = &extends;
+                            while let Some((_, parent)) =
+                                dependency_graph.iter().find(|(child, _)| child == ancestor)
+                            {
+                                if *parent == path || *parent == *ancestor {
+                                    return cyclic_graph_error(&dependency_graph);
+                                }
+                                ancestor = parent;
+                            }
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
-- 
2.43.0


From 79ae46a2fdf3f456c3c4634a4ae49f1e67a02f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 18/35] fix: reject recursive includes and macro calls, accept
 deep nesting

The derive macro panicked, or overflowed the stack, if the generated code
was indented by more than 63 levels.
---
 askama_derive/src/generator.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a49a417..017a06c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1038,7 +1038,7 @@ impl<'a> Generator<'a> {
                 expr: Some(expr),
             }) => {
                 buf.writeln("::std::write!(")?;
-                buf.indent();
+                buf.indent()?;
                 buf.writeln("writer,")?;
                 buf.writeln(&format!("{:#?},", &format.buf))?;
                 buf.writeln(expr.buf.trim())?;
@@ -1881,19 +1881,19 @@ impl Buffer {
     }
 
     fn writeln(&mut self, s: &str) -> Result<(), CompileError> {
-        if self.discard {
-            return Ok(());
-        }
         if s == "}" {
             self.dedent()?;
         }
         if !s.is_empty() {
             self.write(s);
         }
-        self.buf.push('\n');
         if s.ends_with('{') {
-            self.indent();
+            self.indent()?;
+        }
+        if self.discard {
+            return Ok(());
         }
+        self.buf.push('\n');
         self.start = true;
         Ok(())
     }
@@ -1903,7 +1903,7 @@ impl Buffer {
             return;
         }
         if self.start {
-            for _ in 0..(self.indent * 4) {
+            for _ in 0..(usize::from(self.indent) * 4) {
                 self.buf.push(' ');
             }
             self.start = false;
@@ -1912,14 +1912,14 @@ impl Buffer {
         self.buf.push_str(s);
     }
 
-    fn indent(&mut self) {
-        self.indent += 1;
+    fn indent(&mut self) -> Result<(), CompileError> {
+        self.indent = self.indent.checked_add(1).ok_or(
+            "template is nested too deeply, or an include or macro call leads back to itself",
+        )?;
+        Ok(())
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
-        if self.discard {
-            return Ok(());
-        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From 52d8572101e1685635d8234ca0e15321f2109ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 19/35] fix: do not panic in write_into if rendering fails

---
 askama/src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..ba03d43 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -93,7 +93,15 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        let mut writer = IoWriter {
+            inner: writer,
+            error: None,
+        };
+        self.render_into(&mut writer)
+            .map_err(|err| match writer.error.take() {
+                Some(error) => error,
+                None => std::io::Error::new(std::io::ErrorKind::Other, err),
+            })
     }
 
     /// The template's extension, if provided
@@ -171,7 +179,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
@@ -193,6 +201,21 @@ impl fmt::Display for dyn DynTemplate {
     }
 }
 
+/// Writes to an io buffer, and remembers the io error if that fails
+struct IoWriter<'a, W: ?Sized> {
+    inner: &'a mut W,
+    error: Option<std::io::Error>,
+}
+
+impl<W: std::io::Write + ?Sized> fmt::Write for IoWriter<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.inner.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::fmt;
-- 
2.43.0


From 95268dcba9e23bcfbd5b15a6e7ec36a4f613f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 20/35] fix: center values whose Display ignores the width

---
 askama/src/filters/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..dde34c0 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -498,7 +498,10 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // not every `Display` implementation honors the width
+            let mut src = String::new();
+            write!(src, "{}", self.src)?;
+            write!(f, "{: ^1$}", src, self.width)
         } else {
             write!(f, "{}", self.src)
         }
-- 
2.43.0


From c05921aa67af7a014d3e596ee8b3b98ff0fe9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 21/35] fix: keep macro arguments from being captured by
 variables of the macro

---
 askama_derive/src/generator.rs | 54 ++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 017a06c..ea23a86 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -619,7 +619,7 @@ impl<'a> Generator<'a> {
         if let Some(Expr::NamedArgument(_, _)) = args.last() {
             // First we check that all named arguments actually exist in the called item.
             for arg in args.iter().rev() {
-                let Expr::NamedArgument(arg_name, _) = arg else {
+                let Expr::NamedArgument(arg_name, value) = arg else {
                     break;
                 };
                 if !def.args.iter().any(|arg| arg == arg_name) {
@@ -627,7 +627,7 @@ impl<'a> Generator<'a> {
                         "no argument named `{arg_name}` in macro {name:?}"
                     )));
                 }
-                named_arguments.insert(Cow::Borrowed(arg_name), arg);
+                named_arguments.insert(Cow::Borrowed(arg_name), &**value);
             }
         }
 
@@ -1723,13 +1723,14 @@ impl<'a> Generator<'a> {
             }
             Target::Name(name) => {
                 let name = normalize_identifier(name);
-                match initialized {
-                    true => self
-                        .locals
-                        .insert(Cow::Borrowed(name), LocalMeta::initialized()),
-                    false => self.locals.insert_with_default(Cow::Borrowed(name)),
-                }
-                buf.write(name);
+                let refs = match self.locals.get(&Cow::Borrowed(name)) {
+                    // This is the assignment to a variable that was declared before
+                    Some(meta) if initialized && !meta.initialized => meta.refs.clone(),
+                    _ => self.locals.hygienic_name(name),
+                };
+                buf.write(refs.as_deref().unwrap_or(name));
+                self.locals
+                    .insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
             }
             Target::OrChain(targets) => match targets.first() {
                 None => buf.write("_"),
@@ -1991,13 +1992,6 @@ where
         // compile error "identifier `a` used more than once".
     }
 
-    fn insert_with_default(&mut self, key: K)
-    where
-        V: Default,
-    {
-        self.insert(key, V::default());
-    }
-
     fn push(&mut self) {
         self.scopes.push(HashMap::new());
     }
@@ -2021,6 +2015,34 @@ impl MapChain<'_, Cow<'_, str>, LocalMeta> {
         let name = normalize_identifier(name);
         self.resolve(name).unwrap_or_else(|| format!("self.{name}"))
     }
+
+    /// Returns the name to use in the generated code for the new variable `name`, if it has to be
+    /// another one: the arguments of a macro can be references to variables of its caller, which
+    /// must not be captured by variables of the same name in the macro.
+    fn hygienic_name(&self, name: &str) -> Option<String> {
+        let mut var = None;
+        let mut id = 0;
+        while self.is_referenced(var.as_deref().unwrap_or(name), name) {
+            var = Some(format!("__{}{id}", name.trim_start_matches("r#")));
+            id += 1;
+        }
+        var
+    }
+
+    /// Returns `true` if any local besides `except` refers to the variable `var`.
+    fn is_referenced(&self, var: &str, except: &str) -> bool {
+        let refers = |refs: &str| {
+            refs.split(|c: char| !(c.is_alphanumeric() || matches!(c, '_' | '#' | '.')))
+                .any(|path| path.split('.').next() == Some(var))
+        };
+        self.scopes
+            .iter()
+            .flatten()
+            .any(|(key, meta)| key != except && meta.refs.as_deref().map_or(false, refers))
+            || self
+                .parent
+                .map_or(false, |parent| parent.is_referenced(var, except))
+    }
 }
 
 impl<K: Eq + hash::Hash, V> Default for MapChain<'_, K, V> {
-- 
2.43.0


From 9f123c09fd043eb44601b363cd072cce91481386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 22/35] fix: pass the contents of a filter block to the first
 filter of its chain, also if that has a filter in its arguments

---
 askama_derive/src/generator.rs | 20 +++++++++++---------
 askama_parser/src/node.rs      |  6 +++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ea23a86..cd074a7 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -779,7 +779,7 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name.clone());
+        set_first_filter_argument(&mut arguments, var_name.clone());
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
@@ -2156,7 +2156,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2167,13 +2167,15 @@ fn median(sizes: &mut [usize]) -> usize {
 /// ```
 ///
 /// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
-fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally set our
+/// variable as the first argument to the `"a"` call, where the parser left a placeholder for it.
+fn set_first_filter_argument(args: &mut [Expr<'_>], var_name: String) {
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            set_first_filter_argument(arguments, var_name);
+        }
+        Some(Expr::Generated(placeholder)) => *placeholder = var_name,
+        _ => unreachable!("the parser adds a placeholder to the first filter"),
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..7010fba 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,13 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The first argument of the first filter will be the contents of the block.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
+
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0


From 39d75cfc213fea0c3a69e2855c92af8bd9fe7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 23/35] fix: remove also the empty paragraphs at the start and
 end in paragraphbreaks

---
 askama/src/filters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index dde34c0..ca13a24 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,8 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let paragraphs = s.split("\n\n").filter(|p| !p.is_empty());
+        Ok(paragraphs.map(|p| format!("<p>{p}</p>")).collect())
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From 3577d5c892306e244dc082a55587d62d8e0fb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 24/35] fix: report a missing path or source and odd attribute
 keys as errors

The derive macro panicked for #[template()] without path and source, and
for a key with several segments.
---
 askama_derive/src/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 4b1a411..c800c1a 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or("template path or source not found in attributes")?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
@@ -269,7 +269,13 @@ impl TemplateArgs {
 
             let ident = match pair.path.get_ident() {
                 Some(ident) => ident,
-                None => unreachable!("not possible in syn::Meta::NameValue(…)"),
+                None => {
+                    return Err(format!(
+                        "unsupported attribute key {:?} found",
+                        pair.path.to_token_stream().to_string()
+                    )
+                    .into())
+                }
             };
 
             let value = match pair.value {
-- 
2.43.0


From 8ff683ab076cdfca8e978b61cb775eeacd386e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 25/35] fix: count the characters of a delimiter, not its bytes

A delimiter that is a single non-ASCII character was accepted although
delimiters must be at least two characters long.
---
 askama_derive/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..6764636 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -156,7 +156,7 @@ impl<'a> TryInto<Syntax<'a>> for RawSyntax<'a> {
             (syntax.comment_start, "comment_start"),
             (syntax.comment_end, "comment_end"),
         ] {
-            if s.len() < 2 {
+            if s.chars().nth(1).is_none() {
                 return Err(format!(
                     "{kind} delimiter must be at least two characters long: {s:?}"
                 )
-- 
2.43.0


From 8ee3387b40e32dc17116a066e1cb55855c687d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 26/35] fix: accept a template that extends another one and
 refers to itself

---
 askama_derive/src/input.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index c800c1a..7c2b1e4 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -118,6 +118,11 @@ impl TemplateInput<'_> {
             ),
         };
 
+        // A template can refer to itself, but it is only looked at once.
+        if let Some(path) = &source_path {
+            map.insert(Rc::clone(path), Parsed::default());
+        }
+
         let mut dependency_graph = Vec::new();
         let mut check = vec![(Rc::clone(&self.path), source, source_path)];
         while let Some((path, source, source_path)) = check.pop() {
-- 
2.43.0


From 9fa155f0ccc6af860276bbf141d4ad3e56a95e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 27/35] fix: do not overflow when an expression is written at
 the deepest indentation

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cd074a7..330e2d4 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1084,7 +1084,7 @@ impl<'a> Generator<'a> {
 
         let mut size_hint = 0;
         let mut buf_format = Buffer::new(0);
-        let mut buf_expr = Buffer::new(indent + 1);
+        let mut buf_expr = Buffer::new(indent.saturating_add(1));
 
         for s in mem::take(&mut self.buf_writable.buf) {
             match s {
-- 
2.43.0


From 8f2f0d5daf0627ddcb55b45892db4cd08c0aa5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 28/35] fix: bound the size hint of nested loops

---
 askama_derive/src/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 330e2d4..d76ebbf 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -43,6 +43,9 @@ pub(crate) struct Generator<'a> {
     named: usize,
 }
 
+/// Nested loops multiply their size hint, up to this size
+const MAX_LOOP_SIZE_HINT: usize = 1 << 20;
+
 impl<'a> Generator<'a> {
     pub(crate) fn new<'n>(
         input: &'n TemplateInput<'_>,
@@ -551,7 +554,8 @@ impl<'a> Generator<'a> {
         buf.writeln("}")?;
         self.locals.pop();
 
-        Ok(flushed + ((size_hint1 * 3) + size_hint2) / 2)
+        let looped = ((size_hint1 * 3) + size_hint2) / 2;
+        Ok(flushed + looped.min(MAX_LOOP_SIZE_HINT.max(size_hint1 + size_hint2)))
     }
 
     fn write_call(
-- 
2.43.0


From e1499db951cc1cbcd547e04d8cbf5ba125a0a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 29/35] fix: names that start with an underscore or an uncased
 letter are variables, not paths

---
 askama_parser/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..0717141 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -516,7 +516,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
+        (None, name, []) if name.chars().next().map_or(true, |c| !c.is_uppercase()) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0


From ddb4a28f8833a6937f963b4eb52425e039c6c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 30/35] fix: return an error instead of panicking if a value
 that a text filter is applied to cannot be displayed

---
 askama/src/filters/mod.rs | 63 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index ca13a24..cd21fe0 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -219,21 +219,21 @@ pub fn format() {}
 /// A single newline becomes an HTML line break `<br>` and a new line
 /// followed by a blank line becomes a paragraph break `<p>`.
 #[inline]
-pub fn linebreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaks(s: String) -> Result<String, Infallible> {
+pub fn linebreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace('\n', "<br/>");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    linebreaks(s.to_string())
+    linebreaks(try_to_string(s)?)
 }
 
 /// Converts all newlines in a piece of plain text to HTML line breaks
 #[inline]
-pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaksbr(s: String) -> Result<String, Infallible> {
+pub fn linebreaksbr(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaksbr(s: String) -> Result<String, fmt::Error> {
         Ok(s.replace('\n', "<br/>"))
     }
-    linebreaksbr(s.to_string())
+    linebreaksbr(try_to_string(s)?)
 }
 
 /// Replaces only paragraph breaks in plain text with appropriate HTML
@@ -242,41 +242,41 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 /// Paragraph tags only wrap content; empty paragraphs are removed.
 /// No `<br/>` tags are added.
 #[inline]
-pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn paragraphbreaks(s: String) -> Result<String, Infallible> {
+pub fn paragraphbreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn paragraphbreaks(s: String) -> Result<String, fmt::Error> {
         let paragraphs = s.split("\n\n").filter(|p| !p.is_empty());
         Ok(paragraphs.map(|p| format!("<p>{p}</p>")).collect())
     }
-    paragraphbreaks(s.to_string())
+    paragraphbreaks(try_to_string(s)?)
 }
 
 /// Converts to lowercase
 #[inline]
-pub fn lower(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn lower(s: String) -> Result<String, Infallible> {
+pub fn lower(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn lower(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_lowercase())
     }
-    lower(s.to_string())
+    lower(try_to_string(s)?)
 }
 
 /// Alias for the `lower()` filter
 #[inline]
-pub fn lowercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn lowercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     lower(s)
 }
 
 /// Converts to uppercase
 #[inline]
-pub fn upper(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn upper(s: String) -> Result<String, Infallible> {
+pub fn upper(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn upper(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_uppercase())
     }
-    upper(s.to_string())
+    upper(try_to_string(s)?)
 }
 
 /// Alias for the `upper()` filter
 #[inline]
-pub fn uppercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn uppercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     upper(s)
 }
 
@@ -375,8 +375,8 @@ impl<S: fmt::Display> fmt::Display for TruncateFilter<S> {
 
 /// Indent lines with `width` spaces
 #[inline]
-pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infallible> {
-    fn indent(s: String, width: usize) -> Result<String, Infallible> {
+pub fn indent(s: impl fmt::Display, width: usize) -> Result<impl fmt::Display, fmt::Error> {
+    fn indent(s: String, width: usize) -> Result<String, fmt::Error> {
         if width >= MAX_LEN || s.len() >= MAX_LEN {
             return Ok(s);
         }
@@ -392,7 +392,7 @@ pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infal
         }
         Ok(indented)
     }
-    indent(s.to_string(), width)
+    indent(try_to_string(s)?, width)
 }
 
 #[cfg(feature = "num-traits")]
@@ -470,8 +470,8 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn capitalize(s: String) -> Result<String, Infallible> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
                 let mut replacement: String = c.to_uppercase().collect();
@@ -481,7 +481,7 @@ pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
             _ => Ok(s),
         }
     }
-    capitalize(s.to_string())
+    capitalize(try_to_string(s)?)
 }
 
 /// Centers the value in a field of a given width
@@ -510,18 +510,18 @@ impl<T: fmt::Display> fmt::Display for Center<T> {
 
 /// Count the words in that string.
 #[inline]
-pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-    fn wordcount(s: String) -> Result<usize, Infallible> {
+pub fn wordcount(s: impl fmt::Display) -> Result<usize, fmt::Error> {
+    fn wordcount(s: String) -> Result<usize, fmt::Error> {
         Ok(s.split_whitespace().count())
     }
-    wordcount(s.to_string())
+    wordcount(try_to_string(s)?)
 }
 
 /// Return a title cased version of the value. Words will start with uppercase letters, all
 /// remaining characters are lowercase.
 #[inline]
-pub fn title(s: impl ToString) -> Result<String, Infallible> {
-    let s = s.to_string();
+pub fn title(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let s = try_to_string(s)?;
     let mut need_capitalization = true;
 
     // Sadly enough, we can't mutate a string when iterating over its chars, likely because it could
@@ -547,6 +547,13 @@ pub fn title(s: impl ToString) -> Result<String, Infallible> {
     Ok(output)
 }
 
+/// Like [`ToString::to_string()`], but an error of the [`fmt::Display`] implementation is returned
+fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    write!(result, "{s}")?;
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From edf4d7cd464cdaea11c35fe845e7c50203c9e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 31/35] fix: a block fragment is a block of the template, not
 one of the same name in an included template

---
 askama_derive/src/generator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d76ebbf..a4d44c6 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -41,6 +41,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // If the current template was included: its blocks are not the ones that `block = "…"` names
+    included: bool,
 }
 
 /// Nested loops multiply their size hint, up to this size
@@ -67,6 +69,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            included: false,
         }
     }
 
@@ -852,6 +855,7 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        child.included = true;
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
@@ -954,7 +958,8 @@ impl<'a> Generator<'a> {
 
         self.write_buf_writable(buf)?;
 
-        let block_fragment_write = self.input.block == name && self.buf_writable.discard;
+        let block_fragment_write =
+            self.input.block == name && self.buf_writable.discard && !self.included;
         // Allow writing to the buffer if we're in the block fragment
         if block_fragment_write {
             self.buf_writable.discard = false;
@@ -995,6 +1000,7 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        child.included = self.included;
         buf.writeln("{")?;
 
         // Handle inner whitespace suppression spec and process block nodes
-- 
2.43.0


From 36c8fb8d67391e800dcd4f410ec4dd85c4f9a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 32/35] fix: return an error instead of panicking if a value
 that is formatted cannot be displayed

---
 askama/src/helpers.rs          |  8 +++++++
 askama_derive/src/generator.rs | 38 +++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/askama/src/helpers.rs b/askama/src/helpers.rs
index 79a1ada..685e594 100644
--- a/askama/src/helpers.rs
+++ b/askama/src/helpers.rs
@@ -1,5 +1,13 @@
+use std::fmt;
 use std::iter::{Enumerate, Peekable};
 
+/// The text of `args`, or an error if one of the values cannot be displayed
+pub fn format(args: fmt::Arguments<'_>) -> crate::Result<String> {
+    let mut text = String::new();
+    fmt::write(&mut text, args)?;
+    Ok(text)
+}
+
 pub struct TemplateLoop<I>
 where
     I: Iterator,
diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a4d44c6..a2d911d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -41,6 +41,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // If the current expression is evaluated in a closure that cannot return an error
+    infallible: bool,
     // If the current template was included: its blocks are not the ones that `block = "…"` names
     included: bool,
 }
@@ -69,6 +71,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            infallible: false,
             included: false,
         }
     }
@@ -519,7 +522,9 @@ impl<'a> Generator<'a> {
             buf.write("let _iter = _iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
             buf.write("| -> bool {");
+            self.infallible = true;
             self.visit_expr(buf, cond)?;
+            self.infallible = false;
             buf.writeln("});")?;
             self.locals.pop();
         }
@@ -1407,14 +1412,7 @@ impl<'a> Generator<'a> {
             [Expr::StrLit(fmt), ..] => fmt,
             _ => return Err(r#"use filter format like `"a={} b={}"|format(a, b)`"#.into()),
         };
-        buf.write("::std::format!(");
-        self.visit_str_lit(buf, fmt);
-        if args.len() > 1 {
-            buf.write(", ");
-            self._visit_args(buf, &args[1..])?;
-        }
-        buf.write(")");
-        Ok(DisplayWrap::Unwrapped)
+        self.visit_format(buf, fmt, &args[1..])
     }
 
     fn _visit_fmt_filter(
@@ -1426,11 +1424,27 @@ impl<'a> Generator<'a> {
             [_, Expr::StrLit(fmt)] => fmt,
             _ => return Err(r#"use filter fmt like `value|fmt("{:?}")`"#.into()),
         };
-        buf.write("::std::format!(");
+        self.visit_format(buf, fmt, &args[..1])
+    }
+
+    fn visit_format(
+        &mut self,
+        buf: &mut Buffer,
+        fmt: &str,
+        args: &[Expr<'_>],
+    ) -> Result<DisplayWrap, CompileError> {
+        // `format!` panics if one of the values cannot be displayed
+        let (start, end) = match self.infallible {
+            true => ("::std::format!(".to_owned(), ")"),
+            false => (format!("{CRATE}::helpers::format(::std::format_args!("), "))?"),
+        };
+        buf.write(&start);
         self.visit_str_lit(buf, fmt);
-        buf.write(", ");
-        self._visit_args(buf, &args[..1])?;
-        buf.write(")");
+        if !args.is_empty() {
+            buf.write(", ");
+            self._visit_args(buf, args)?;
+        }
+        buf.write(end);
         Ok(DisplayWrap::Unwrapped)
     }
 
-- 
2.43.0


From 611eb58e1d9250313fc92a51aaae70d7ef64178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 33/35] fix: accept a loop over an array of values that are not
 constant

---
 askama_derive/src/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a2d911d..b6c49c2 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -499,7 +499,11 @@ impl<'a> Generator<'a> {
         }
         match loop_block.iter {
             Expr::Range(_, _, _) => buf.writeln(&format!("let _iter = {expr_code};")),
-            Expr::Array(..) => buf.writeln(&format!("let _iter = {expr_code}.iter();")),
+            // The array has to outlive the iterator.
+            Expr::Array(..) => {
+                buf.writeln(&format!("let _iter = {expr_code};"))?;
+                buf.writeln("let _iter = _iter.iter();")
+            }
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
-- 
2.43.0


From 53865d605252fa1434f2b49983ab1215c31719cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 34/35] fix: accept operators in the expression of match and if
 let

---
 askama_derive/src/generator.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b6c49c2..b0e025b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -389,7 +389,7 @@ impl<'a> Generator<'a> {
                             self.visit_expr(&mut expr_buf, right)?;
                         }
                         _ => {
-                            self.visit_expr(&mut expr_buf, expr)?;
+                            expr_buf.write(&self.visit_operand(expr)?);
                             self.visit_target(buf, true, true, target);
                         }
                     }
@@ -447,7 +447,7 @@ impl<'a> Generator<'a> {
         let flushed = self.write_buf_writable(buf)?;
         let mut arm_sizes = Vec::new();
 
-        let expr_code = self.visit_expr_root(expr)?;
+        let expr_code = self.visit_operand(expr)?;
         buf.writeln(&format!("match &{expr_code} {{"))?;
 
         let mut arm_size = 0;
@@ -1227,6 +1227,15 @@ impl<'a> Generator<'a> {
         Ok(buf.buf)
     }
 
+    /// Like `visit_expr_root()`, but the result can be the operand of a prefix operator.
+    fn visit_operand(&mut self, expr: &Expr<'_>) -> Result<String, CompileError> {
+        let expr_code = self.visit_expr_root(expr)?;
+        Ok(match expr {
+            Expr::BinOp(..) | Expr::Range(..) => format!("({expr_code})"),
+            _ => expr_code,
+        })
+    }
+
     fn visit_expr(
         &mut self,
         buf: &mut Buffer,
-- 
2.43.0


From 956aef19fe5e637286b074070b807042b15ca26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 35/35] fix: evaluate a macro argument that is a field of a
 computed value once

---
 askama_derive/src/generator.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b0e025b..417ab55 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -515,6 +515,10 @@ impl<'a> Generator<'a> {
             _ if expr_code.starts_with("self.") => {
                 buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();"))
             }
+            // The same holds for a macro argument that is a field of a computed value.
+            Expr::Var(_) if expr_code.starts_with("(*") => {
+                buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();"))
+            }
             // If accessing a field then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
             Expr::Attr(..) => buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();")),
@@ -683,7 +687,7 @@ impl<'a> Generator<'a> {
                     params.push((arg, var));
                 }
                 // The fields of `loop` belong to the innermost loop, so they need to be copied.
-                Expr::Attr(obj, attr) if !matches!(**obj, Expr::Var("loop")) => {
+                Expr::Attr(obj, attr) if is_variable_path(obj) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
@@ -711,12 +715,17 @@ impl<'a> Generator<'a> {
                     }
                     names.write(&var);
 
-                    values.write("(");
+                    // A field of a computed value may be behind a reference.
+                    let borrow = matches!(
+                        expr,
+                        Expr::Attr(obj, _) if !matches!(**obj, Expr::Var("loop"))
+                    );
+                    values.write(if borrow { "&(" } else { "(" });
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
                     self.locals
                         .insert(Cow::Owned(var.clone()), LocalMeta::initialized());
-                    params.push((arg, var));
+                    params.push((arg, if borrow { format!("(*{var})") } else { var }));
                 }
             }
         }
@@ -2128,6 +2137,16 @@ pub(crate) fn is_attr_self(expr: &Expr<'_>) -> bool {
     }
 }
 
+/// Returns `true` if this is a variable (other than `loop`), or a field of one, so that evaluating
+/// it again makes no difference.
+fn is_variable_path(expr: &Expr<'_>) -> bool {
+    match expr {
+        Expr::Var(name) => *name != "loop",
+        Expr::Attr(obj, _) => is_variable_path(obj),
+        _ => false,
+    }
+}
+
 /// Returns `true` if the outcome of this expression may be used multiple times in the same
 /// `write!()` call, without evaluating the expression again, i.e. the expression should be
 /// side-effect free.
-- 
2.43.0

