From 75f21a6487fa9731c1388f6346b51121cf611991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:35 +0000
Subject: [PATCH 01/15] fix: report the end of a text without a final newline
 on its last line

A byte offset equal to the length of a text that does not end in a newline
was reported as column 0 of a line that does not exist.
---
 crates/ruby-analysis/src/indexer/source_document.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/source_document.rs b/crates/ruby-analysis/src/indexer/source_document.rs
index 378617f..5d9cdd2 100644
--- a/crates/ruby-analysis/src/indexer/source_document.rs
+++ b/crates/ruby-analysis/src/indexer/source_document.rs
@@ -42,6 +42,9 @@ impl SourceDocument {
             offset -= 1;
         }
         let line_index = match self.line_offsets.binary_search(&offset) {
+            // The closing entry is the end of the text, which starts a line
+            // only when a newline precedes it.
+            Ok(exact) if exact > 0 && !content[..offset].ends_with('\n') => exact - 1,
             Ok(exact) => exact,
             Err(after) => after - 1,
         };
-- 
2.43.0


From 26c1ea1271c9e32abf623f63d30933db91644ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:44 +0000
Subject: [PATCH 02/15] fix: place the end of an engine file without a final
 newline on its last line

---
 crates/ruby-analysis/src/engine/state.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index ebac430..3176cb3 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -155,6 +155,7 @@ pub struct SourceLineIndex {
     line_offsets: Vec<u32>,
     len: u32,
     ascii: bool,
+    final_newline: bool,
 }
 
 impl SourceLineIndex {
@@ -182,6 +183,7 @@ impl SourceLineIndex {
             line_offsets,
             len,
             ascii: source.is_ascii(),
+            final_newline: source.ends_with('\n'),
         }
     }
 
@@ -213,6 +215,15 @@ impl SourceFile {
             return None;
         }
         let line_index = match self.line_index.line_offsets.binary_search(&target) {
+            // The closing entry is the end of the text, which starts a line
+            // only when a newline precedes it.
+            Ok(exact)
+                if exact > 0
+                    && target == self.line_index.len
+                    && !self.line_index.final_newline =>
+            {
+                exact - 1
+            }
             Ok(exact) => exact,
             Err(after) => after.saturating_sub(1),
         };
-- 
2.43.0


From 19531f5db0cb03a501e0fe97d551688d6690bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:16 +0000
Subject: [PATCH 03/15] fix: wake other queued indexing work when one request
 is admitted

A waiter that looked at the queue while another request was first went back
to sleep; admitting that request did not notify it, so work that fitted the
remaining budget stayed asleep until some running work ended.
---
 src/indexing_resources.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..cf524e3 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,11 +693,16 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
-                        return Ok(ActiveResourceLease {
+                        let lease = ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
                             completed: false,
-                        });
+                        };
+                        // Other queued work may fit the remaining budget: it
+                        // already looked while this entry was still first.
+                        drop(admission);
+                        self.state.changed.notify_waiters();
+                        return Ok(lease);
                     }
                 }
             }
-- 
2.43.0


From 91f9bbfc14cb27d55ad432d1202fcad1b956991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 04/15] fix: forget a failed single-flight production before
 reporting it

A consumer told of the failure could look the key up again before the entry
was removed and was answered with the old failure instead of a new attempt.
---
 src/single_flight.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index 8df54e1..a1c6efa 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -154,9 +154,6 @@ where
                 counters.record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
                     let mut entries = entries.lock();
                     if entries
                         .get(&producer_key)
@@ -165,6 +162,7 @@ where
                         entries.remove(&producer_key);
                     }
                 }
+                producer_cell.complete(result);
             });
         }
         let wait_started = Instant::now();
@@ -327,11 +325,9 @@ where
                 cache
                     .counters
                     .record_producer_wall(producer_started.elapsed());
-                if result.is_err() {
+                let succeeded = result.is_ok();
+                if !succeeded {
                     cache.counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
                     let mut entries = cache.entries.lock();
                     if entries
                         .get(&producer_key)
@@ -339,7 +335,9 @@ where
                     {
                         entries.remove(&producer_key);
                     }
-                } else {
+                }
+                producer_cell.complete(result);
+                if succeeded {
                     cache.evict_completed_to_limits();
                 }
             });
-- 
2.43.0


From 3659f1a6330c5ddbc7012a7d86705241203e6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:18 +0000
Subject: [PATCH 05/15] fix: a single-flight producer that panics before
 returning its future no longer blocks its key forever

The closure ran on the caller after the entry was published; its panic left
the entry pending for ever. It now runs inside the producer task, whose
failure is reported to every waiter and clears the entry.
---
 src/single_flight.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index a1c6efa..34d88a6 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -139,7 +139,7 @@ where
         if owns_producer {
             self.counters.producers.fetch_add(1, Ordering::Relaxed);
             let producer_started = Instant::now();
-            let producer_task = tokio::spawn(producer());
+            let producer_task = tokio::spawn(async move { producer().await });
             let producer_cell = cell.clone();
             let producer_key = key.clone();
             let entries = self.entries.clone();
@@ -311,7 +311,7 @@ where
         if owns_producer {
             self.counters.producers.fetch_add(1, Ordering::Relaxed);
             let producer_started = Instant::now();
-            let producer_task = tokio::spawn(producer());
+            let producer_task = tokio::spawn(async move { producer().await });
             let producer_cell = cell.clone();
             let producer_key = key.clone();
             let cache = self.clone();
-- 
2.43.0


From 2ac36872e8e8ec2ce4e6a126ee8cbc96ce4e8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 06/15] fix: count destructured parameters as required
 arguments

---
 .../ruby-analysis/src/indexer/analysis_indexer.rs  | 12 ++++++++++++
 .../src/indexer/fact_collector/def_node.rs         | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 5fe59c1..7d50b28 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -2053,6 +2053,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if let Some(param) = required.as_multi_target_node() {
+            // A destructured parameter (`(a, b)`) takes one required argument.
+            params.push(MethodParamFact::new(
+                String::from_utf8_lossy(param.location().as_slice()).to_string(),
+                MethodParamKind::Required,
+            ));
         }
     }
 
@@ -2086,6 +2092,12 @@ fn method_param_facts(node: &DefNode<'_>) -> Vec<MethodParamFact> {
                 String::from_utf8_lossy(param.name().as_slice()).to_string(),
                 MethodParamKind::Required,
             ));
+        } else if let Some(param) = post.as_multi_target_node() {
+            // A destructured parameter (`(a, b)`) takes one required argument.
+            params.push(MethodParamFact::new(
+                String::from_utf8_lossy(param.location().as_slice()).to_string(),
+                MethodParamKind::Required,
+            ));
         }
     }
 
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
index af5c6b2..928b267 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/def_node.rs
@@ -591,6 +591,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if let Some(param) = required.as_multi_target_node() {
+                // A destructured parameter (`(a, b)`) takes one required argument.
+                params.push(MethodParamInfo::new(
+                    String::from_utf8_lossy(param.location().as_slice()).to_string(),
+                    MethodParamKind::Required,
+                    self.direct_range(&param.location()),
+                ));
             }
         }
 
@@ -645,6 +652,13 @@ impl FactCollector {
                     MethodParamKind::Required,
                     self.direct_range(&param.location()),
                 ));
+            } else if let Some(param) = post.as_multi_target_node() {
+                // A destructured parameter (`(a, b)`) takes one required argument.
+                params.push(MethodParamInfo::new(
+                    String::from_utf8_lossy(param.location().as_slice()).to_string(),
+                    MethodParamKind::Required,
+                    self.direct_range(&param.location()),
+                ));
             }
         }
 
-- 
2.43.0


From da54891ba009c77b9f68c7c495397f4deb4700e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:13 +0000
Subject: [PATCH 07/15] fix: keywords given to a forwarding method may fill its
 leading parameters

---
 crates/ruby-analysis/src/engine/diagnostic_helpers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/diagnostic_helpers.rs b/crates/ruby-analysis/src/engine/diagnostic_helpers.rs
index fb42a08..b0eb182 100644
--- a/crates/ruby-analysis/src/engine/diagnostic_helpers.rs
+++ b/crates/ruby-analysis/src/engine/diagnostic_helpers.rs
@@ -105,10 +105,9 @@ impl MethodArity {
                     arity.has_kwrest = true
                 }
                 MethodParamKind::Block => {}
-                MethodParamKind::Forwarding => {
-                    arity.has_rest = true;
-                    arity.has_kwrest = true;
-                }
+                // `...` declares no keywords of its own: keywords travel in its rest
+                // arguments, and fill a leading parameter as a hash if one is unfilled.
+                MethodParamKind::Forwarding => arity.has_rest = true,
             }
         }
         arity
-- 
2.43.0


From a33ef3454d3930c9e9b79c323fb3ede031aa36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 08/15] fix: bound nested annotation arrays by the annotation
 depth limit

skip_annotation_value recursed into arrays of arrays without consulting
max_annotation_depth, so a class file with a few hundred kilobytes of nested
annotation arrays overflowed the stack and aborted the process.
---
 crates/jvm-metadata/src/classfile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/jvm-metadata/src/classfile.rs b/crates/jvm-metadata/src/classfile.rs
index debcba6..9bda6d4 100644
--- a/crates/jvm-metadata/src/classfile.rs
+++ b/crates/jvm-metadata/src/classfile.rs
@@ -1007,6 +1007,9 @@ fn skip_annotation_value(
             parse_annotation(cursor, constant_pool, limits, depth + 1)?;
         }
         b'[' => {
+            if depth > limits.max_annotation_depth {
+                return Err(MetadataError::LimitExceeded("annotation depth"));
+            }
             let count =
                 bounded_nested_count(cursor, limits.max_annotations, "annotation array values")?;
             for _ in 0..count {
-- 
2.43.0


From 6b461483cad00412eed7adffc662caea0050a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 09/15] fix: refuse descriptors with more than 255 array
 dimensions

The Java virtual machine allows at most 255 dimensions. The reader recursed
once per dimension, so a 64 KiB descriptor of brackets overflowed the stack
and aborted the process.
---
 crates/jvm-metadata/src/descriptor.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/jvm-metadata/src/descriptor.rs b/crates/jvm-metadata/src/descriptor.rs
index 363247a..404b9b7 100644
--- a/crates/jvm-metadata/src/descriptor.rs
+++ b/crates/jvm-metadata/src/descriptor.rs
@@ -1,3 +1,6 @@
+/// A descriptor is valid only if its array type has 255 or fewer dimensions (JVMS 4.3.2).
+const MAX_ARRAY_DIMENSIONS: usize = 255;
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum JvmType {
     Byte,
@@ -110,8 +113,19 @@ impl<'a> DescriptorCursor<'a> {
                 Ok(JvmType::Object(self.source[start..end].to_string()))
             }
             Some(b'[') => {
-                let element = self.parse_type(false)?;
-                Ok(JvmType::Array(Box::new(element)))
+                let mut dimensions = 1usize;
+                while self.peek() == Some(b'[') {
+                    self.offset += 1;
+                    dimensions += 1;
+                }
+                if dimensions > MAX_ARRAY_DIMENSIONS {
+                    return Err("array type has too many dimensions");
+                }
+                let mut ty = self.parse_type(false)?;
+                for _ in 0..dimensions {
+                    ty = JvmType::Array(Box::new(ty));
+                }
+                Ok(ty)
             }
             Some(_) => Err("unknown descriptor type tag"),
             None => Err("missing descriptor type"),
-- 
2.43.0


From 16b319dea30731386ffed1c89aa3c72ef8fa01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 10/15] fix: accept several line number and local variable
 tables in one Code attribute

JVMS 4.7.12 and 4.7.13 allow more than one of each; a class using this was
refused as having a duplicate attribute. The tables are merged.
---
 crates/jvm-metadata/src/classfile.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/jvm-metadata/src/classfile.rs b/crates/jvm-metadata/src/classfile.rs
index 9bda6d4..c9daa85 100644
--- a/crates/jvm-metadata/src/classfile.rs
+++ b/crates/jvm-metadata/src/classfile.rs
@@ -746,8 +746,6 @@ impl<'a> ClassParser<'a> {
         let attribute_count = self.bounded_attribute_count_from(&mut cursor)?;
         let mut first_line = None;
         let mut local_variables = Vec::new();
-        let mut saw_line_table = false;
-        let mut saw_local_variable_table = false;
         for _ in 0..attribute_count {
             let name = constant_pool.utf8(cursor.u2()?)?;
             let length = usize::try_from(cursor.u4()?)
@@ -756,18 +754,17 @@ impl<'a> ClassParser<'a> {
                 return Err(MetadataError::LimitExceeded("attribute bytes"));
             }
             let attribute = cursor.take(length)?;
+            // A Code attribute may hold several of either table (JVMS 4.7.12, 4.7.13).
             if name == "LineNumberTable" {
-                if saw_line_table {
-                    return Err(MetadataError::DuplicateAttribute(name.to_string()));
+                if let Some(line) = parse_first_line(attribute, self.limits)? {
+                    first_line = Some(first_line.map_or(line, |current: u16| current.min(line)));
                 }
-                saw_line_table = true;
-                first_line = parse_first_line(attribute, self.limits)?;
             } else if name == "LocalVariableTable" {
-                if saw_local_variable_table {
-                    return Err(MetadataError::DuplicateAttribute(name.to_string()));
-                }
-                saw_local_variable_table = true;
-                local_variables = parse_local_variables(attribute, constant_pool, self.limits)?;
+                local_variables.extend(parse_local_variables(
+                    attribute,
+                    constant_pool,
+                    self.limits,
+                )?);
             }
         }
         require_finished(&cursor)?;
-- 
2.43.0


From 53afc8f1ec9cbf2d1ffee4550a55306d9f38ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 11/15] fix: encode semantic tokens in document order

Nodes are visited out of the order of the text (not x, x += 1 while x < 3,
arguments after a heredoc), and the relative encoding underflowed: a panic in
debug builds, positions far outside the file in release builds. Collect the
tokens and encode them sorted by position.
---
 .../src/indexer/semantic_tokens.rs            | 62 ++++++++++++++-----
 src/capabilities/semantic_tokens.rs           |  5 +-
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/semantic_tokens.rs b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
index 78ed038..87bda77 100644
--- a/crates/ruby-analysis/src/indexer/semantic_tokens.rs
+++ b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
@@ -159,21 +159,59 @@ pub static TOKEN_MODIFIERS_MAP: LazyLock<HashMap<SemanticTokenModifier, usize>>
         map
     });
 
+/// A token at its absolute position in the document.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+struct PlacedToken {
+    line: u32,
+    start: u32,
+    length: u32,
+    token_type: u32,
+    token_modifiers_bitset: u32,
+}
+
 pub struct TokenVisitor<'a> {
     document: &'a RubyDocument,
-    pub tokens: Vec<SemanticToken>,
-    current_position: (u32, u32),
+    placed_tokens: Vec<PlacedToken>,
 }
 
 impl<'a> TokenVisitor<'a> {
     pub fn new(document: &'a RubyDocument) -> Self {
         Self {
             document,
-            tokens: Vec::new(),
-            current_position: (0, 0),
+            placed_tokens: Vec::new(),
         }
     }
 
+    /// Encodes the visited tokens relative to one another. Syntax nodes are not always
+    /// visited in source order (`not x`, `x += 1 while x < 3`, heredoc arguments), while
+    /// every encoded position is an unsigned distance from the previous token.
+    pub fn into_tokens(mut self) -> Vec<SemanticToken> {
+        self.placed_tokens
+            .sort_by_key(|token| (token.line, token.start));
+
+        let mut tokens = Vec::with_capacity(self.placed_tokens.len());
+        let mut previous_line = 0;
+        let mut previous_start = 0;
+        for token in self.placed_tokens {
+            let delta_line = token.line - previous_line;
+            let delta_start = if delta_line == 0 {
+                token.start - previous_start
+            } else {
+                token.start
+            };
+            tokens.push(SemanticToken {
+                delta_line,
+                delta_start,
+                length: token.length,
+                token_type: token.token_type,
+                token_modifiers_bitset: token.token_modifiers_bitset,
+            });
+            previous_line = token.line;
+            previous_start = token.start;
+        }
+        tokens
+    }
+
     fn add_token(
         &mut self,
         location: &Location,
@@ -187,13 +225,6 @@ impl<'a> TokenVisitor<'a> {
         let start_pos = self.document.offset_to_position(location.start_offset());
         let end_pos = self.document.offset_to_position(location.end_offset());
 
-        let delta_line = start_pos.line - self.current_position.0;
-        let delta_column = if delta_line == 0 {
-            start_pos.character - self.current_position.1
-        } else {
-            start_pos.character
-        };
-
         // Calculate token length in UTF-16 code units
         let length = if start_pos.line == end_pos.line {
             // If on the same line, just subtract character positions
@@ -220,16 +251,13 @@ impl<'a> TokenVisitor<'a> {
         );
 
         // Add token to the list
-        self.tokens.push(SemanticToken {
-            delta_line,
-            delta_start: delta_column,
+        self.placed_tokens.push(PlacedToken {
+            line: start_pos.line,
+            start: start_pos.character,
             length,
             token_type: token_type_index,
             token_modifiers_bitset: modifiers_bitset,
         });
-
-        // Update current position
-        self.current_position = (start_pos.line, start_pos.character);
     }
 
     fn token_type_to_index(&self, token_type: SemanticTokenType) -> u32 {
diff --git a/src/capabilities/semantic_tokens.rs b/src/capabilities/semantic_tokens.rs
index 40ff5d1..4885e7b 100644
--- a/src/capabilities/semantic_tokens.rs
+++ b/src/capabilities/semantic_tokens.rs
@@ -60,7 +60,8 @@ pub fn get_semantic_tokens_full(server: &RubyLanguageServer, uri: Url) -> Semant
     visitor.visit(&root_node);
     let visit_time = visit_start.elapsed();
     debug!("[PERF] semantic token visitor took {:?}", visit_time);
-    let token_count = visitor.tokens.len();
+    let tokens = visitor.into_tokens();
+    let token_count = tokens.len();
     info!(
         "[PERF][semanticTokens waterfall] file={} total={:?} doc_lookup={:?} parse={:?} visit={:?} tokens={}",
         uri.path(),
@@ -73,7 +74,7 @@ pub fn get_semantic_tokens_full(server: &RubyLanguageServer, uri: Url) -> Semant
 
     SemanticTokensResult::Tokens(SemanticTokens {
         result_id: None,
-        data: visitor.tokens.into_iter().map(lsp_token).collect(),
+        data: tokens.into_iter().map(lsp_token).collect(),
     })
 }
 
-- 
2.43.0


From 18c4523f563478821989f020e0ae7c50f122683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 12/15] fix: rename local variables in the scope Ruby binds
 them in

The receiver of a def, the superclass and path of a class or module and the
object of class << x belong to the scope around the definition, and block-local
variables (|a; x|) are variables of the block.
---
 crates/ruby-analysis/src/indexer/rename.rs | 47 +++++++++++++++++-----
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rename.rs b/crates/ruby-analysis/src/indexer/rename.rs
index 5b9f9d4..51eb087 100644
--- a/crates/ruby-analysis/src/indexer/rename.rs
+++ b/crates/ruby-analysis/src/indexer/rename.rs
@@ -20,12 +20,11 @@
 
 use crate::core::{SourceFileId, TextRange};
 use ruby_prism::{
-    visit_block_node, visit_block_parameter_node, visit_class_node, visit_def_node,
-    visit_lambda_node, visit_local_variable_and_write_node,
-    visit_local_variable_operator_write_node, visit_local_variable_or_write_node,
-    visit_local_variable_write_node, visit_module_node, visit_optional_parameter_node,
-    visit_singleton_class_node, BlockNode, BlockParameterNode, ClassNode, DefNode,
-    KeywordRestParameterNode, LambdaNode, LocalVariableAndWriteNode,
+    visit_block_node, visit_block_parameter_node, visit_lambda_node,
+    visit_local_variable_and_write_node, visit_local_variable_operator_write_node,
+    visit_local_variable_or_write_node, visit_local_variable_write_node,
+    visit_optional_parameter_node, BlockLocalVariableNode, BlockNode, BlockParameterNode,
+    ClassNode, DefNode, KeywordRestParameterNode, LambdaNode, LocalVariableAndWriteNode,
     LocalVariableOperatorWriteNode, LocalVariableOrWriteNode, LocalVariableReadNode,
     LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node, OptionalParameterNode,
     RequiredParameterNode, RestParameterNode, SingletonClassNode, Visit,
@@ -157,21 +156,41 @@ impl RenameVisitor {
 impl Visit<'_> for RenameVisitor {
     // ── Scope-creating nodes ────────────────────────────────────────────
 
+    // The receiver of a method definition, the path and superclass of a class, the path of a
+    // module and the expression of a singleton class belong to the enclosing scope.
+
     fn visit_def_node(&mut self, node: &DefNode) {
+        if let Some(receiver) = node.receiver() {
+            self.visit(&receiver);
+        }
         self.push_scope();
-        visit_def_node(self, node);
+        if let Some(parameters) = node.parameters() {
+            self.visit_parameters_node(&parameters);
+        }
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_class_node(&mut self, node: &ClassNode) {
+        self.visit(&node.constant_path());
+        if let Some(superclass) = node.superclass() {
+            self.visit(&superclass);
+        }
         self.push_scope();
-        visit_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
+        self.visit(&node.constant_path());
         self.push_scope();
-        visit_module_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -188,8 +207,11 @@ impl Visit<'_> for RenameVisitor {
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode) {
+        self.visit(&node.expression());
         self.push_scope();
-        visit_singleton_class_node(self, node);
+        if let Some(body) = node.body() {
+            self.visit(&body);
+        }
         self.pop_scope();
     }
 
@@ -255,6 +277,11 @@ impl Visit<'_> for RenameVisitor {
         visit_block_parameter_node(self, node);
     }
 
+    fn visit_block_local_variable_node(&mut self, node: &BlockLocalVariableNode) {
+        self.process_parameter(node.name().as_slice(), &node.location());
+        // Leaf node
+    }
+
     fn visit_keyword_rest_parameter_node(&mut self, node: &KeywordRestParameterNode) {
         if let (Some(name), Some(name_loc)) = (node.name(), node.name_loc()) {
             self.process_parameter(name.as_slice(), &name_loc);
-- 
2.43.0


From ed25a0f7b8abb101e420ed03a2507314eed9854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 13/15] fix: keep keys and interface names when a local
 variable is renamed

Renaming x in a shorthand pair (x:) replaced the key with the variable; now the
new name is written after the colon. The names of keyword and numbered
parameters are part of the interface, so these are not renamed.
---
 crates/ruby-analysis/src/indexer/rename.rs | 86 ++++++++++++++++++++--
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/rename.rs b/crates/ruby-analysis/src/indexer/rename.rs
index 51eb087..102544f 100644
--- a/crates/ruby-analysis/src/indexer/rename.rs
+++ b/crates/ruby-analysis/src/indexer/rename.rs
@@ -20,14 +20,16 @@
 
 use crate::core::{SourceFileId, TextRange};
 use ruby_prism::{
-    visit_block_node, visit_block_parameter_node, visit_lambda_node,
+    visit_block_node, visit_block_parameter_node, visit_implicit_node, visit_lambda_node,
     visit_local_variable_and_write_node, visit_local_variable_operator_write_node,
     visit_local_variable_or_write_node, visit_local_variable_write_node,
-    visit_optional_parameter_node, BlockLocalVariableNode, BlockNode, BlockParameterNode,
-    ClassNode, DefNode, KeywordRestParameterNode, LambdaNode, LocalVariableAndWriteNode,
-    LocalVariableOperatorWriteNode, LocalVariableOrWriteNode, LocalVariableReadNode,
-    LocalVariableTargetNode, LocalVariableWriteNode, ModuleNode, Node, OptionalParameterNode,
-    RequiredParameterNode, RestParameterNode, SingletonClassNode, Visit,
+    visit_optional_keyword_parameter_node, visit_optional_parameter_node, BlockLocalVariableNode,
+    BlockNode, BlockParameterNode, ClassNode, DefNode, ImplicitNode, KeywordRestParameterNode,
+    LambdaNode, LocalVariableAndWriteNode, LocalVariableOperatorWriteNode,
+    LocalVariableOrWriteNode, LocalVariableReadNode, LocalVariableTargetNode,
+    LocalVariableWriteNode, ModuleNode, Node, NumberedParametersNode, OptionalKeywordParameterNode,
+    OptionalParameterNode, RequiredKeywordParameterNode, RequiredParameterNode, RestParameterNode,
+    SingletonClassNode, Visit,
 };
 
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -47,6 +49,9 @@ pub struct RenameVisitor {
     target_scope_id: Option<usize>,
     // Phase 2 output: all ranges to rename
     rename_ranges: Vec<TextRange>,
+    // The variable is declared by a keyword parameter, whose name its callers use, or by a
+    // numbered parameter, which is not declared by name
+    fixed_name: bool,
     phase: Phase,
 }
 
@@ -68,6 +73,7 @@ impl RenameVisitor {
             target_name: None,
             target_scope_id: None,
             rename_ranges: Vec::new(),
+            fixed_name: false,
             phase: Phase::FindTarget,
         };
         visitor.visit(root);
@@ -82,6 +88,9 @@ impl RenameVisitor {
         visitor.next_scope_id = 1;
         visitor.visit(root);
 
+        if visitor.fixed_name {
+            return Vec::new();
+        }
         visitor.rename_ranges
     }
 
@@ -112,6 +121,25 @@ impl RenameVisitor {
         name_bytes: &[u8],
         depth: u32,
         name_range_location: &ruby_prism::Location,
+    ) {
+        self.process_name(
+            name_bytes,
+            depth,
+            name_range_location,
+            name_range_location.start_offset(),
+            name_range_location.end_offset(),
+        );
+    }
+
+    /// Process an occurrence of a local variable for which the new name is written from
+    /// `edit_start` to `edit_end`.
+    fn process_name(
+        &mut self,
+        name_bytes: &[u8],
+        depth: u32,
+        name_range_location: &ruby_prism::Location,
+        edit_start: usize,
+        edit_end: usize,
     ) {
         let defining_scope = match self.defining_scope_id(depth) {
             Some(id) => id,
@@ -133,10 +161,10 @@ impl RenameVisitor {
                     if name.as_ref() == target_name.as_str() && defining_scope == target_scope {
                         let range = TextRange::new(
                             self.file_id,
-                            u32::try_from(name_range_location.start_offset()).expect(
+                            u32::try_from(edit_start).expect(
                                 "INVARIANT VIOLATED: rename start offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
-                            u32::try_from(name_range_location.end_offset()).expect(
+                            u32::try_from(edit_end).expect(
                                 "INVARIANT VIOLATED: rename end offset exceeded u32. This is a bug because TextRange stores u32 offsets. Fix: widen TextRange before accepting larger source files.",
                             ),
                         );
@@ -151,6 +179,16 @@ impl RenameVisitor {
     fn process_parameter(&mut self, name_bytes: &[u8], location: &ruby_prism::Location) {
         self.process_local_var(name_bytes, 0, location);
     }
+
+    /// Process a parameter whose name cannot be changed by renaming the variable.
+    fn process_fixed_parameter(&mut self, name_bytes: &[u8]) {
+        if self.phase == Phase::Collect
+            && self.target_name.as_deref().map(str::as_bytes) == Some(name_bytes)
+            && self.target_scope_id == self.defining_scope_id(0)
+        {
+            self.fixed_name = true;
+        }
+    }
 }
 
 impl Visit<'_> for RenameVisitor {
@@ -251,6 +289,22 @@ impl Visit<'_> for RenameVisitor {
         visit_local_variable_operator_write_node(self, node);
     }
 
+    fn visit_implicit_node(&mut self, node: &ImplicitNode) {
+        // `{name:}` stands for `{name: name}`: the key stays, the new name is written after it
+        let value = node.value();
+        let (name, depth) = if let Some(read) = value.as_local_variable_read_node() {
+            (read.name(), read.depth())
+        } else if let Some(target) = value.as_local_variable_target_node() {
+            (target.name(), target.depth())
+        } else {
+            visit_implicit_node(self, node);
+            return;
+        };
+        let location = node.location();
+        let after_key = location.start_offset() + name.as_slice().len() + 1;
+        self.process_name(name.as_slice(), depth, &location, after_key, after_key);
+    }
+
     // ── Parameter nodes (always depth=0) ────────────────────────────────
 
     fn visit_required_parameter_node(&mut self, node: &RequiredParameterNode) {
@@ -282,6 +336,22 @@ impl Visit<'_> for RenameVisitor {
         // Leaf node
     }
 
+    fn visit_required_keyword_parameter_node(&mut self, node: &RequiredKeywordParameterNode) {
+        self.process_fixed_parameter(node.name().as_slice());
+        // Leaf node
+    }
+
+    fn visit_optional_keyword_parameter_node(&mut self, node: &OptionalKeywordParameterNode) {
+        self.process_fixed_parameter(node.name().as_slice());
+        visit_optional_keyword_parameter_node(self, node);
+    }
+
+    fn visit_numbered_parameters_node(&mut self, node: &NumberedParametersNode) {
+        for number in 1..=node.maximum() {
+            self.process_fixed_parameter(format!("_{number}").as_bytes());
+        }
+    }
+
     fn visit_keyword_rest_parameter_node(&mut self, node: &KeywordRestParameterNode) {
         if let (Some(name), Some(name_loc)) = (node.name(), node.name_loc()) {
             self.process_parameter(name.as_slice(), &name_loc);
-- 
2.43.0


From 062a1f783aa4b891bff8f53d39820bf61966aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 14/15] fix: leave a definition's scopes only if they were
 entered

The cursor in the signature of a top-level def self.foo(a = b) ended in an
execution context stack underflow.
---
 .../src/indexer/identifier_visitor/def_node.rs        | 11 +++++++----
 .../src/indexer/identifier_visitor/mod.rs             |  6 ++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
index c1e335e..9d6576a 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
@@ -7,9 +7,11 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind, MethodReceiver};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_def_node_entry(&mut self, node: &DefNode) {
+    /// Returns whether the definition's scopes were entered, to be left again by
+    /// `process_def_node_exit`.
+    pub fn process_def_node_entry(&mut self, node: &DefNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let (definition_namespace, namespace_kind) = match node.receiver() {
@@ -17,7 +19,7 @@ impl IdentifierVisitor {
             Some(receiver) if receiver.as_self_node().is_some() => {
                 let (namespace, receiver_kind) = self.scope_tracker.implicit_receiver_context();
                 if receiver_kind != NamespaceKind::Singleton {
-                    return;
+                    return false;
                 }
                 (namespace, NamespaceKind::Singleton)
             }
@@ -37,7 +39,7 @@ impl IdentifierVisitor {
 
         if method.is_err() {
             warn!("Invalid method name: {}", name);
-            return;
+            return false;
         }
 
         let method = method.unwrap();
@@ -79,6 +81,7 @@ impl IdentifierVisitor {
                 Some(0),
             );
         }
+        true
     }
 
     pub fn process_def_node_exit(&mut self, node: &DefNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index 496255c..ca4b461 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -341,9 +341,11 @@ impl Visit<'_> for IdentifierVisitor {
     }
 
     fn visit_def_node(&mut self, node: &DefNode) {
-        self.process_def_node_entry(node);
+        let entered = self.process_def_node_entry(node);
         visit_def_node(self, node);
-        self.process_def_node_exit(node);
+        if entered {
+            self.process_def_node_exit(node);
+        }
     }
 
     fn visit_alias_method_node(&mut self, node: &AliasMethodNode) {
-- 
2.43.0


From 40df08852755036cd95afa262632972a86516c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 15/15] fix: keep the scopes around the cursor when enclosing
 nodes are left

A def with the cursor in its body, inside a block parameter's default value or a
superclass expression, kept its execution context while the enclosing node
popped its scope: an assertion failure on the next lookup.
---
 .../src/indexer/identifier_visitor/block_node.rs     |  2 +-
 .../src/indexer/identifier_visitor/class_node.rs     |  2 +-
 .../src/indexer/identifier_visitor/def_node.rs       |  2 +-
 .../src/indexer/identifier_visitor/mod.rs            | 12 ++++++++++++
 .../src/indexer/identifier_visitor/module_node.rs    |  2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
index 3f1aadf..cd77fc9 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/block_node.rs
@@ -29,7 +29,7 @@ impl IdentifierVisitor {
             }
         };
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if self.leaves_scopes(body_start, body_end) {
             self.scope_tracker.pop_scope_kind();
         }
     }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index a4dd6c2..eac6eda 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -63,7 +63,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if self.leaves_scopes(body_start, body_end) {
             self.scope_tracker.pop_ns_scope();
             self.scope_tracker.pop_scope_kind();
         }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
index 9d6576a..f64d28b 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
@@ -92,7 +92,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if self.leaves_scopes(body_start, body_end) {
             self.scope_tracker.pop_execution_context();
             self.scope_tracker.pop_scope_kind();
             self.scope_tracker.pop_method_fqn();
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index ca4b461..d010a11 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -42,6 +42,8 @@ pub struct IdentifierVisitor {
     byte_offset: u32,
     scope_tracker: ScopeTracker,
     execution_context: Option<ExecutionContextFact>,
+    /// The body holding the position was left, and `scope_tracker` keeps its scopes.
+    scopes_settled: bool,
 
     // Output
     pub ns_stack_at_pos: Vec<RubyConstant>,
@@ -73,6 +75,7 @@ impl IdentifierVisitor {
             byte_offset,
             scope_tracker,
             execution_context,
+            scopes_settled: false,
             ns_stack_at_pos: Vec::new(),
             namespace_kind_at_pos: None,
             lv_scope_id_at_pos: None,
@@ -105,6 +108,15 @@ impl IdentifierVisitor {
         position_offset >= start_offset && position_offset <= end_offset
     }
 
+    /// Whether leaving a node undoes the scopes its entry pushed. The scopes around the
+    /// position stay, and once they do, those of enclosing nodes stay below them.
+    fn leaves_scopes(&mut self, body_start: usize, body_end: usize) -> bool {
+        if self.is_position_in_offsets(body_start, body_end) {
+            self.scopes_settled = true;
+        }
+        !self.scopes_settled
+    }
+
     pub fn cursor_offset(&self) -> u32 {
         self.byte_offset
     }
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index 1009e0a..68f4c78 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -63,7 +63,7 @@ impl IdentifierVisitor {
         let (body_start, body_end) =
             utils::get_body_offsets(node.body().map(|body| body.location()), &node.location());
 
-        if !self.is_position_in_offsets(body_start, body_end) {
+        if self.leaves_scopes(body_start, body_end) {
             self.scope_tracker.pop_ns_scope();
             self.scope_tracker.pop_scope_kind();
         }
-- 
2.43.0

