From d347b102a31ea0cb01bd61ebfcae7b32c7b7a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 1/7] fix: keep symbols outside the alphabet out of ANY_BYTE

When the (compressed) alphabet size is not a multiple of 32, ANY_BYTE had
bits set for symbols that do not exist. Subtracting a set with all the real
symbols from it gave a non-empty set, so the emptiness check could report
an empty regex as non-empty.
---
 src/ast.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..7394d4d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -284,13 +284,19 @@ impl ExprSet {
             unicode_cache: std::collections::HashMap::new(),
         };
 
+        // only set bits for actual alphabet symbols
+        let mut any_byte = vec![0u32; alphabet_words];
+        for b in 0..alphabet_size {
+            byteset_set(&mut any_byte, b);
+        }
+
         let id = r.exprs.insert(&[]);
         assert!(id == 0);
         let inserts = vec![
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
             (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
+                r.mk(Expr::ByteSet(&any_byte)),
                 ExprRef::ANY_BYTE,
             ),
             (
-- 
2.43.0


From 41147cb291450f099c582c65c9ec6dbb3c382b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 2/7] fix: keep symbols outside the alphabet out of
 mk_byte_set_not()

---
 src/simplify.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..7c5e8f4 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -294,15 +294,7 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
-        match self.get(x) {
-            Expr::Byte(b) => {
-                let mut r = vec![!0u32; self.alphabet_words];
-                byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
-            }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
-            _ => panic!(),
-        }
+        self.mk_byte_set_neg_or(&[x])
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
-- 
2.43.0


From 0938295f12f51f3130b2fe95d37d4d8fe38e8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 3/7] fix: support regexes that distinguish all 256 byte values

Symbol 255 was confused with the 'not yet mapped' marker, and the byte got
mapped again, to symbol 256 truncated to 0.
---
 src/bytecompress.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..0756785 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -9,6 +9,9 @@ pub struct ByteCompressor {
     pub mapping: Vec<u8>,
     pub alphabet_size: usize,
     bytesets: Vec<Vec<u32>>,
+    // bytes that already have a mapping; note that INVALID_MAPPING is
+    // also a valid symbol when all the bytes are mapped to different symbols
+    is_mapped: Vec<bool>,
     map_cache: HashMap<ExprRef, ExprRef>,
 }
 
@@ -20,6 +23,7 @@ impl ByteCompressor {
             mapping: Vec::new(),
             alphabet_size: 0,
             bytesets: Vec::new(),
+            is_mapped: Vec::new(),
             map_cache: HashMap::new(),
         }
     }
@@ -81,6 +85,7 @@ impl ByteCompressor {
 
     pub fn compress(&mut self, exprset: &ExprSet, rx_list: &[ExprRef]) -> (ExprSet, Vec<ExprRef>) {
         self.mapping = vec![INVALID_MAPPING; exprset.alphabet_size()];
+        self.is_mapped = vec![false; exprset.alphabet_size()];
 
         let mut todo = rx_list.to_vec();
         let mut visited = vec![false; exprset.len()];
@@ -97,6 +102,7 @@ impl ByteCompressor {
                         "visiting the same byte the second time"
                     );
                     self.mapping[b as usize] = self.alphabet_size as u8;
+                    self.is_mapped[b as usize] = true;
                     self.alphabet_size += 1;
                 }
                 Expr::ByteSet(bs) => {
@@ -132,7 +138,7 @@ impl ByteCompressor {
     ) {
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
-            if self.mapping[b] == INVALID_MAPPING {
+            if !self.is_mapped[b] {
                 let mut v = alloc(self.bytesets.len());
                 for (idx, bs) in self.bytesets.iter().enumerate() {
                     if byteset_contains(bs, b) {
-- 
2.43.0


From 601f8f45b18ed52a443fb9ad17576cc295d795a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 4/7] fix: report invalid repeat range in RegexAst as an error,
 not a panic

---
 src/regexbuilder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..6a4deef 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -483,6 +483,7 @@ impl RegexBuilder {
                     RegexAst::Literal(s) => self.exprset.mk_literal(s),
                     RegexAst::ByteLiteral(s) => self.exprset.mk_byte_literal(s),
                     RegexAst::Repeat(_, min, max) => {
+                        ensure!(min <= max, "invalid repeat range: {{{},{}}}", min, max);
                         self.exprset.mk_repeat(new_args[0], *min, *max)
                     }
                     RegexAst::Prefixes(_) => self.exprset.mk_prefixes(new_args[0]),
-- 
2.43.0


From 54a9ec2e560d772634115c3128ee6268f7bcc9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 5/7] fix: do not accept quotes of characters outside of the
 set in json_quote()

When a class had all the control characters, \" and \\ were accepted for it
even if it contained neither the quote nor the backslash, as in [^"].
---
 src/regexbuilder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 6a4deef..84c6608 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -244,10 +244,11 @@ impl RegexBuilder {
             }
         }
 
-        // byteset of all possible single-char quotes
+        // byteset of all possible single-char quotes of control characters
+        // (\" and \\ depend on the rest of the set, see quote_byteset())
         fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
-- 
2.43.0


From b86b9f39f9bb4aee57c9a33ac02438a89461223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 6/7] fix: empty vector as the first insertion panicked in
 VecHashCons

---
 src/hashcons.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..9bdd5eb 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -81,6 +81,8 @@ impl VecHashCons {
     pub fn start_insert(&mut self) {
         assert!(self.curr_elt.backing_end == 0);
         self.curr_elt.backing_end = self.curr_elt.backing_start;
+        // the backing has to reach backing_start even if nothing is pushed
+        self.ensure_size();
     }
 
     #[inline(always)]
-- 
2.43.0


From fafbfe475f3a4fa61f0b02edfe3c38ad2fe93b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 7/7] fix: printing a byte set of a small alphabet read past
 its end

---
 src/pp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pp.rs b/src/pp.rs
index f9fe918..f86c4c5 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -277,7 +277,7 @@ pub fn byteset_to_string(s: &[u32]) -> String {
     let mut start = None;
     let mut first = true;
     for i in 0..=256 {
-        if i <= 0xff && byteset_contains(s, i) {
+        if i <= 0xff && i < 32 * s.len() && byteset_contains(s, i) {
             if start.is_none() {
                 start = Some(i);
             }
-- 
2.43.0

