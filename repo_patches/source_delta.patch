From 7ad1af639ee89d97b34b4e796d43a167f47e8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 01/14] fix: match constant lexemes against the input

---
 src/lexeme/constants.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..43bbf8f 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -52,9 +52,13 @@ where
         _: &mut Vec<Self::State>,
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
+        let code_part = &code.value[pointer..];
         let result = self.values.iter().rev().find_map(|(value, token)| {
-            let lex = Lex::new(token.clone(), pointer, pointer + value.len());
-            Some(lex)
+            if !value.is_empty() && code_part.starts_with(value.as_bytes()) {
+                Some(Lex::new(token.clone(), pointer, pointer + value.len()))
+            } else {
+                None
+            }
         });
         self.log_result(pointer, code, &result);
         result
-- 
2.43.0


From 647fb6b7fd0d74cbaf3252454af604349ad2dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 02/14] fix: fall back to the longest complete punctuation
 match

---
 src/field_tree.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..a3f242b 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,24 +34,24 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        // The longest field which has been completely matched so far.
+        let mut longest_match = current_field.token.as_ref().map(|t| (t, index));
 
-        loop {
-            if code_part.len() > index {
-                match current_field
-                    .children
-                    .binary_search_by_key(&code_part[index], |s| s.0)
-                {
-                    Ok(i) => {
-                        index += 1;
-                        current_field = &current_field.children[i].1;
-                    }
-                    Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+        while code_part.len() > index {
+            match current_field
+                .children
+                .binary_search_by_key(&code_part[index], |s| s.0)
+            {
+                Ok(i) => {
+                    index += 1;
+                    current_field = &current_field.children[i].1;
+                    if let Some(t) = &current_field.token {
+                        longest_match = Some((t, index));
                     }
                 }
-            } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                Err(_) => break,
             }
         }
+        longest_match.map(|(t, i)| (t.clone(), i))
     }
 }
-- 
2.43.0


From 34743e2ff1628f529b39f73a53a891e9feb50b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/14] fix: reject an empty punctuation, which would tokenize
 forever

---
 src/lexeme/punctuation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexeme/punctuation.rs b/src/lexeme/punctuation.rs
index 13ff636..1b7e8cb 100644
--- a/src/lexeme/punctuation.rs
+++ b/src/lexeme/punctuation.rs
@@ -23,6 +23,12 @@ impl<TToken: Debug + Copy, TState> Punctuations<TToken, TState> {
 
     fn add(&mut self, fields: Vec<(&str, TToken)>) -> Result<(), String> {
         for (key, token) in fields {
+            if key.is_empty() {
+                return Err(format!(
+                    "Punctuation for token {:?} should not be empty.",
+                    token
+                ));
+            }
             self.field_tree
                 .insert(key.as_bytes(), token)
                 .map_err(|err| {
-- 
2.43.0


From e7788f9e1b0c5724017633038bff51638492c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 04/14] fix: token stream lookups by code pointer and
 has_stream

---
 src/filtered_stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..bf0e600 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -77,19 +77,25 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .binary_search_by_key(&code_pointer, |segment| segment.start)
         {
             Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Err(index) => {
+                Err(&self.original_stream[self.nearest_index(index, self.original_stream.len())])
+            }
         }
     }
-    /// Get original lexical data ai code pointer.
+    /// Get filtered lexical data at code pointer.
     pub fn filtered_data_at(&self, code_pointer: usize) -> Result<&Lex<TToken>, &Lex<TToken>> {
         match self
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[FltrPtr(index)]),
+            Err(index) => Err(&self[FltrPtr(self.nearest_index(index, self.length()))]),
         }
     }
+    /// Index of the segment to report for a failed search, which may point past the last segment.
+    fn nearest_index(&self, index: usize, length: usize) -> usize {
+        std::cmp::min(index, length - 1)
+    }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
         self[filtered_index].start
     }
@@ -102,7 +108,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From 54586446ea0fd54ede9e8c94ea5c50c090a701f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 05/14] fix: parse structural productions from the next
 structural token

---
 src/filtered_stream.rs                |  2 +-
 src/production/wrappers/structural.rs | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index bf0e600..03189bf 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -153,7 +153,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..96dd940 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let consumed_index = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(consumed_index, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From 4ec5edc3a9cb49b36f966f0480c64988ee472ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 06/14] fix: count the column of a position from the last line
 break

---
 src/position.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..a951780 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -13,14 +13,13 @@ impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
         let mut pointer: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                pointer = index + 1;
             }
-            pointer += 1;
         }
-        let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
-        Position::new(line + 1, s.len() + 1)
+        Position::new(line + 1, code.len() - pointer + 1)
     }
 }
 
-- 
2.43.0


From 8d8e868f488fb14bd25320833a16e0f9648e8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 07/14] fix: validate constant field sets

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 823a694f64aee08e5d7c838c34d149094772b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 08/14] fix: do not build error messages from invalid UTF-8

---
 src/cache.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..82c50e7 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -75,11 +75,9 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s = String::from_utf8_lossy(
+                                &code.value[lex_data.start..lex_data.end],
+                            );
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -122,11 +120,10 @@ impl<TToken> Cache<usize, TToken> {
                     let failed_index = self.get_index();
                     (
                         failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
+                        format!(
+                            "Unexpected '{}'.",
+                            String::from_utf8_lossy(&code.value[failed_index..failed_index + 1]),
+                        ),
                     )
                 }
             }
-- 
2.43.0


From de69b30dbfe3e67cc1cc971ab5ebeebbfde5007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 09/14] fix: report the token which failed to parse, not the
 one after it

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 82c50e7..adca818 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From 79af5b4d046d069c0f51632d2fbbbbebafc49357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 10/14] fix: parse non structural tokens at the beginning of
 the stream

---
 src/production/wrappers/non_structural.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..0a1705d 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -97,15 +97,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         #[cfg(debug_assertions)]
         self.log_entry();
 
-        let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
-        } else {
-            TokenPtr::default()
+        let start_segment = match token_stream.last_segment_index(&fltr_ptr) {
+            Some(last_structural) => last_structural + 1,
+            None => TokenPtr::default(),
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From 0dbf1f74af532a1dac4814f824d447d19d0e3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 11/14] fix: separated list of a nullable production

---
 src/production/wrappers/separated_list.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..3a156ef 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: PartialEq + Copy,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,9 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if moved_ptr == next_success_data.consumed_index {
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
@@ -264,19 +267,18 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From ab751efc1f1dfb6bba4487da99f153e3355a81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/14] fix: detect left recursive productions

---
 src/production/mod.rs                     |  1 +
 src/production/non_terminals/concat.rs    |  1 +
 src/production/non_terminals/mod.rs       | 13 ++++++++++---
 src/production/non_terminals/suffixes.rs  |  6 +++---
 src/production/non_terminals/union.rs     |  1 +
 src/production/wrappers/separated_list.rs |  6 ++----
 6 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..d957564 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -280,6 +280,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    validated: OnceCell<()>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..4e996b2 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -216,6 +216,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..a9a7393 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -38,6 +38,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            validated: OnceCell::new(),
             debugger: OnceCell::new(),
         }
     }
@@ -68,15 +69,21 @@ impl NTHelper {
                 build_circular_format(self.identifier, &connected_set),
             ))
         } else {
-            if visited_prod.insert(self.identifier) {
+            // A production reached without consuming any input has to be explored again until it is
+            // known that none of the productions it begins with are left recursive.
+            let is_explored = connected_set.is_empty() || self.validated.get().is_some();
+            if visited_prod.insert(self.identifier) || !is_explored {
                 let l = connected_set.len();
                 connected_set.insert(self.identifier, l);
-                Ok(true)
-            } else {
                 Ok(false)
+            } else {
+                Ok(true)
             }
         }
     }
+    fn set_validated(&self) {
+        self.validated.get_or_init(|| ());
+    }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
             .set(debugger)
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..dff7c0a 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
@@ -249,15 +249,15 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
                 if is_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.set_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..cf44b53 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -210,6 +210,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            self.nt_helper.set_validated();
         }
         Ok(())
     }
diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 3a156ef..13165d8 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -142,14 +142,12 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
         // vps.push(&self.separator);
+        self.get_production()
+            .validate(connected_sets.clone(), visited_prod)?;
         if self.get_production().obtain_nullability(HashMap::new())? {
-            self.get_production()
-                .validate(connected_sets.clone(), visited_prod)?;
             self.get_separator()
                 .validate(connected_sets, visited_prod)?;
         } else {
-            self.get_production()
-                .validate(connected_sets, visited_prod)?;
             self.get_separator()
                 .validate(HashMap::new(), visited_prod)?;
         }
-- 
2.43.0


From 2ed7790f29e54238de836da3bf1b62ab1af87bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 13/14] fix: detect left recursion behind a lookahead or end of
 file

---
 src/production/terminals/eof.rs       | 3 ++-
 src/production/wrappers/look_ahead.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/production/terminals/eof.rs b/src/production/terminals/eof.rs
index fa07f70..eff9987 100644
--- a/src/production/terminals/eof.rs
+++ b/src/production/terminals/eof.rs
@@ -53,7 +53,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        // The end of file does not consume any input.
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..9b5e5fe 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        self.production.is_nullable()
     }
 
     fn impl_grammar(
@@ -68,9 +68,10 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        // A lookahead does not consume any input.
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
-- 
2.43.0


From 96f6102e541d8174beb06553f7817b7a6610cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 14/14] fix: parse alternatives and suffixes in order,
 including null derivations

---
 src/filtered_stream.rs                    |   7 +
 src/production/mod.rs                     |   1 -
 src/production/non_terminals/suffixes.rs  | 242 ++++++++--------------
 src/production/non_terminals/union.rs     | 169 ++++++---------
 src/production/wrappers/non_structural.rs |   5 +-
 5 files changed, 158 insertions(+), 266 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index 03189bf..a0eb5d9 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -156,6 +156,13 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             Err(i) => Err(FltrPtr(i)),
         }
     }
+    /// Index of the token following the previous structural token.
+    pub(crate) fn segment_start(&self, index: FltrPtr) -> TokenPtr {
+        match self.last_segment_index(&index) {
+            Some(last_structural) => last_structural + 1,
+            None => TokenPtr::default(),
+        }
+    }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
         if lex_index.0 > 0 {
             Some(self.filtered_stream[lex_index.0 - 1])
diff --git a/src/production/mod.rs b/src/production/mod.rs
index d957564..205e19c 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -554,7 +554,6 @@ pub struct Suffixes<TP: IProduction> {
     suffixes: OnceCell<Vec<TSuffixMap<TP::Node, TP::Token>>>,
     nt_helper: NTHelper,
     suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
-    null_suffix_index: OnceCell<Option<usize>>,
 }
 
 /// An utility to parse a terminal or non-terminal symbols one or multiple times.
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index dff7c0a..90731f2 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -28,7 +28,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -54,7 +53,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -94,14 +92,6 @@ impl<TP: IProduction> Suffixes<TP> {
         })
     }
 
-    fn obtain_first_null_suffix(&self) -> &Option<usize> {
-        self.null_suffix_index.get_or_init(|| {
-            self.get_suffixes()
-                .iter()
-                .position(|(prod, _)| prod.is_nullable())
-        })
-    }
-
     fn obtain_suffixes_set(&self) -> &(bool, Vec<(TP::Token, Vec<usize>)>) {
         self.suffix_first_set.get_or_init(|| {
             let mut children_set: HashMap<TP::Token, Vec<usize>> = HashMap::new();
@@ -112,14 +102,6 @@ impl<TP: IProduction> Suffixes<TP> {
                     let v = children_set.entry(t).or_insert_with(|| Vec::new());
                     v.push(index);
                 }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break;
-                }
             }
 
             #[cfg(debug_assertions)]
@@ -137,6 +119,23 @@ impl<TP: IProduction> Suffixes<TP> {
             (v.iter().all(|(t, _)| t.is_structural()), v)
         })
     }
+
+    /// Obtain the suffixes which can be parsed where the stream continues with the given tokens.
+    fn candidates(&self, tokens: &[TP::Token]) -> Vec<&TSuffixMap<TP::Node, TP::Token>> {
+        let (_, suffix_first_set) = self.obtain_suffixes_set();
+        let indexes: Vec<&Vec<usize>> = tokens
+            .iter()
+            .filter_map(|token| suffix_first_set.binary_search_by_key(token, |(t, _)| *t).ok())
+            .map(|p_index| &suffix_first_set[p_index].1)
+            .collect();
+
+        self.get_suffixes()
+            .iter()
+            .enumerate()
+            .filter(|(j, (prod, _))| prod.is_nullable() || indexes.iter().any(|v| v.contains(j)))
+            .map(|(_, suffix)| suffix)
+            .collect()
+    }
 }
 
 impl<TP: IProduction> Display for Suffixes<TP> {
@@ -272,110 +271,59 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data =
+        let left_success_data =
             self.left
                 .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
 
-        let suffixes = self.get_suffixes();
-
-        let (is_structural, suffix_first_set) = self.obtain_suffixes_set();
+        let (is_structural, _) = self.obtain_suffixes_set();
 
         let moved_ptr: FltrPtr = left_success_data.consumed_index;
         let immediate_lex = &token_stream[moved_ptr];
 
-        let mut production_set_index: Option<usize> = None;
-        match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_index) = suffix_first_set
-                            .binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_index);
-                        }
-                    }
-                }
-            }
+        let mut tokens = vec![immediate_lex.token];
+        if !is_structural {
+            tokens.push(token_stream[token_stream.segment_start(moved_ptr)].token);
         }
 
-        match production_set_index {
-            Some(p_index) => {
-                for (prod, node_value) in suffix_first_set[p_index].1.iter().map(|j| &suffixes[*j])
-                {
-                    match prod.advance_fltr_ptr(
+        for (prod, node_value) in self.candidates(&tokens) {
+            match prod.advance_fltr_ptr(
+                code,
+                left_success_data.consumed_index,
+                token_stream,
+                cache,
+            ) {
+                Ok(data) => {
+                    let mut children = left_success_data.children;
+                    children.extend(data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        token_stream.pointer(fltr_ptr),
+                        token_stream.pointer(data.consumed_index),
+                        Some((
+                            token_stream.get_token_ptr(fltr_ptr),
+                            token_stream.get_token_ptr(data.consumed_index),
+                        )),
+                        children,
+                    );
+
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
                         code,
-                        left_success_data.consumed_index,
-                        token_stream,
-                        cache,
-                    ) {
-                        Ok(data) => {
-                            let mut children = left_success_data.children;
-                            children.extend(data.children);
-                            let ast = ASTNode::<TP::Node>::new(
-                                node_value.clone(),
-                                token_stream.pointer(fltr_ptr),
-                                token_stream.pointer(data.consumed_index),
-                                Some((
-                                    token_stream.get_token_ptr(fltr_ptr),
-                                    token_stream.get_token_ptr(data.consumed_index),
-                                )),
-                                children,
-                            );
-
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[data.consumed_index].end,
-                            );
-
-                            return Ok(SuccessData::tree(data.consumed_index, ast));
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[moved_ptr].start, &err);
+                        token_stream[fltr_ptr].start,
+                        token_stream[data.consumed_index].end,
+                    );
 
-                                return Err(err);
-                            }
-                        }
-                    }
+                    return Ok(SuccessData::tree(data.consumed_index, ast));
                 }
-            }
-            None => {
-                if let Some(i) = self.obtain_first_null_suffix() {
-                    let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[moved_ptr].start, &err);
+
+                        return Err(err);
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
@@ -413,61 +361,41 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         let mut left_success_data = self.left.advance_token_ptr(code, index, stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
         let moved_ptr: TokenPtr = left_success_data.consumed_index;
-        let suffixes = self.get_suffixes();
 
-        let (_, suffix_first_set) = self.obtain_suffixes_set();
+        let mut tokens = vec![stream[moved_ptr].token];
+        let (Ok(i) | Err(i)) = stream.find_filter_ptr(moved_ptr);
+        tokens.extend(stream.get(i).map(|lex_data| lex_data.token));
 
-        let immediate_lex = &stream[moved_ptr];
-
-        if let Ok(i) = suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for (prod, node_value) in suffix_first_set[i].1.iter().map(|j| &suffixes[*j]) {
-                match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
-                    Ok(success_data) => {
-                        left_success_data.consumed_index = success_data.consumed_index;
-                        left_success_data.children.extend(success_data.children);
-                        let ast = ASTNode::<TP::Node>::new(
-                            node_value.clone(),
-                            stream[index].start,
-                            stream[success_data.consumed_index].start,
-                            Some((index, success_data.consumed_index)),
-                            left_success_data.children,
-                        );
-
-                        let data = SuccessData::tree(success_data.consumed_index, ast);
+        for (prod, node_value) in self.candidates(&tokens) {
+            match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
+                Ok(success_data) => {
+                    left_success_data.consumed_index = success_data.consumed_index;
+                    left_success_data.children.extend(success_data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        stream[index].start,
+                        stream[success_data.consumed_index].start,
+                        Some((index, success_data.consumed_index)),
+                        left_success_data.children,
+                    );
+
+                    let data = SuccessData::tree(success_data.consumed_index, ast);
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        stream[index].start,
+                        stream[data.consumed_index].start,
+                    );
+                    return Ok(data);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            stream[index].start,
-                            stream[data.consumed_index].start,
-                        );
-                        return Ok(data);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, stream[index].start, &err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, stream[index].start, &err);
+                        return Err(err);
                     }
                 }
             }
-        } else {
-            if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
-                }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
-            }
         }
         if self.standalone {
             #[cfg(debug_assertions)]
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index cf44b53..999743d 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -2,8 +2,8 @@ use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Cache, Code, FltrPtr, IProduction, ImplementationError, NodeImpl,
+    ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -88,14 +88,6 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
                     let indexes = children_set.entry(t).or_insert_with(|| Vec::new());
                     indexes.push(index);
                 }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break; // We do not want to visit more production if we find nullable production.
-                }
             }
 
             #[cfg(debug_assertions)]
@@ -113,6 +105,23 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
             (v.iter().all(|(t, _)| t.is_structural()), v)
         })
     }
+
+    /// Obtain the alternatives which can be parsed where the stream continues with the given tokens.
+    fn candidates(&self, tokens: &[TL]) -> Vec<&Rc<dyn IProduction<Node = TN, Token = TL>>> {
+        let (_, first_sets) = self.obtain_first_set();
+        let indexes: Vec<&Vec<usize>> = tokens
+            .iter()
+            .filter_map(|token| first_sets.binary_search_by_key(token, |(t, _)| *t).ok())
+            .map(|p_index| &first_sets[p_index].1)
+            .collect();
+
+        self.get_productions()
+            .iter()
+            .enumerate()
+            .filter(|(j, prod)| prod.is_nullable() || indexes.iter().any(|v| v.contains(j)))
+            .map(|(_, prod)| prod)
+            .collect()
+    }
 }
 
 impl<TN: NodeImpl, TL: TokenImpl> Display for Union<TN, TL> {
@@ -227,75 +236,35 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         let immediate_lex = &token_stream[fltr_ptr];
 
-        let (is_structural, first_sets) = self.obtain_first_set();
+        let (is_structural, _) = self.obtain_first_set();
 
-        let productions = self.get_productions();
+        let mut tokens = vec![immediate_lex.token];
+        if !is_structural {
+            tokens.push(token_stream[token_stream.segment_start(fltr_ptr)].token);
+        }
 
-        let mut production_set_index: Option<usize> = None;
+        for prod in self.candidates(&tokens) {
+            match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        token_stream[fltr_ptr].start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_i) =
-                            first_sets.binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_i);
-                        }
-                    }
+                    return Ok(s);
                 }
-            }
-        }
-        match production_set_index {
-            Some(p_index) => {
-                for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                    match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
-                        Ok(s) => {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[s.consumed_index].start,
-                            );
-
-                            return Ok(s);
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[fltr_ptr].start, &err);
-                                // println!("Returning validation Err:{:?}", err);
-                                return Err(err);
-                            }
-                        }
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[fltr_ptr].start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
-            None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
-                        token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
-                    );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
-                }
-            }
         }
 
         #[cfg(debug_assertions)]
@@ -320,46 +289,38 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         let immediate_lex = &token_stream[index];
 
-        let (_, first_sets) = self.obtain_first_set();
+        let mut tokens = vec![immediate_lex.token];
+        let (Ok(i) | Err(i)) = token_stream.find_filter_ptr(index);
+        tokens.extend(token_stream.get(i).map(|lex_data| lex_data.token));
+
+        for prod in self.candidates(&tokens) {
+            match prod.advance_token_ptr(code, index, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        immediate_lex.start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
-            for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                match prod.advance_token_ptr(code, index, token_stream, cache) {
-                    Ok(s) => {
+                    return Ok(s);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            immediate_lex.start,
-                            token_stream[s.consumed_index].start,
-                        );
-
-                        return Ok(s);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, immediate_lex.start, &err);
-                            // println!("Returning validation Err:{:?}", err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, immediate_lex.start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
 
-            Err(ProductionError::Unparsed)
-        }
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 0a1705d..4bedf78 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -97,10 +97,7 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         #[cfg(debug_assertions)]
         self.log_entry();
 
-        let start_segment = match token_stream.last_segment_index(&fltr_ptr) {
-            Some(last_structural) => last_structural + 1,
-            None => TokenPtr::default(),
-        };
+        let start_segment = token_stream.segment_start(fltr_ptr);
 
         let parsed_data =
             self.get_symbol()
-- 
2.43.0

