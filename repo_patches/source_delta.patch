From ac3602f518db4d44c3b82b338938476fadad0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:51 +0000
Subject: [PATCH 01/26] fix: keep original source in the input when decoder
 fails

ParserResult.input was left with no bytes (but with a stale list of lines),
and so EncodingError diagnostic could not be rendered.
---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 4 +++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..5c47748 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -63,8 +63,10 @@ impl Input {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
+        // Decoding can fail, in such case diagnostics must still
+        // be able to refer to the original source
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.bytes.clone(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From 2e460bef914925681be38866ceef3262003b5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:28 +0000
Subject: [PATCH 02/26] fix: re-sync lexer position with decoded input

Buffer kept using offsets of the original line after the decoder
returned a line of a different length, and so the rest of the file was ignored
(if the line became longer) or lexer panicked (if it became shorter).
---
 src/lexer/parse_magic_comment.rs | 13 +++++++++++--
 src/source/buffer.rs             | 19 ++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..00c6067 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -340,7 +340,16 @@ impl Lexer {
                             }
                         };
                         match self.buffer.set_encoding(&encoding) {
-                            Ok(_) => {}
+                            Ok(_) => {
+                                // line could become shorter
+                                let pend = self.buffer.pend;
+                                let rest: i32 = pend.saturating_sub(str_).try_into().unwrap();
+                                len = len.min(rest);
+                                beg = beg.min(pend);
+                                end = end.min(pend);
+                                vbeg = vbeg.min(pend);
+                                vend = vend.min(pend);
+                            }
                             Err(err) => {
                                 self.yyerror1(
                                     DiagnosticMessage::EncodingError {
@@ -353,7 +362,7 @@ impl Lexer {
                         }
                     }
 
-                    let key_l = self.loc(beg, beg + n);
+                    let key_l = self.loc(beg, end);
                     let value_l = self.loc(vbeg, vend);
 
                     let magic_comment = MagicComment {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..8285ff0 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -323,7 +323,24 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        self.input.set_encoding(encoding)?;
+        self.sync_with_input();
+        Ok(())
+    }
+
+    /// Decoded line can have a different length (and there can be less lines),
+    /// so once input is replaced the current position has to be adjusted
+    fn sync_with_input(&mut self) {
+        let lines_count = self.input.lines_count();
+        if self.lastline >= lines_count {
+            self.lastline = lines_count - 1;
+            self.line_count = lines_count;
+        }
+        let line = self.input.line_at(self.lastline);
+        self.pend = line.end;
+        self.pbeg = self.pbeg.clamp(line.start, line.end);
+        self.pcur = self.pcur.clamp(self.pbeg, self.pend);
+        self.ptok = self.ptok.clamp(self.pbeg, self.pend);
     }
 }
 
-- 
2.43.0


From b47e2a58441422476e6423fad3b6d302cebb00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:29 +0000
Subject: [PATCH 03/26] fix: don't emit inverted location for unterminated
 heredoc

tSTRING_END of unterminated heredoc had location with begin > end,
rendering a diagnostic with such location panicked.
---
 src/lexer/parse_heredoc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..4848eb9 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -319,6 +319,10 @@ impl Lexer {
             self.current_loc(),
         );
         self.token_flush();
+        // position is restored to the end of heredoc id,
+        // so offsets that belong to the heredoc body are no longer valid
+        self.lval_start = None;
+        self.lval_end = None;
         self.strterm = None;
         self.lex_state.set(EXPR_END);
         Self::tSTRING_END
-- 
2.43.0


From 01357fa6bde3faa139263973508edfbcc94c0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:29 +0000
Subject: [PATCH 04/26] fix: don't emit locations past the end of input

Invalid/unterminated unicode escape and unterminated heredoc content
had location that ends one byte after EOF.
---
 src/lexer/parse_heredoc.rs |  2 +-
 src/lexer/parse_string.rs  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 4848eb9..2acaf30 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -240,7 +240,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some((self.buffer.pcur + 1).min(self.buffer.input.len()));
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..c61cdba 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -380,7 +380,10 @@ impl Lexer {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(
+                self.buffer.ptok,
+                (self.buffer.pcur + 1).min(self.buffer.input.len()),
+            ),
         );
     }
 
@@ -463,7 +466,10 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(
+                    self.buffer.pcur,
+                    (self.buffer.pcur + 1).min(self.buffer.input.len()),
+                ),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From ef8134e8ad6f542c861f14b6b6506f5cc656140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 05/26] fix: Lexer created by Lexer::new must own tokens pool

tokens_factory was a null pointer until it's replaced by Parser,
so Lexer::new(..).tokenize_until_eof() was an undefined behavior.
---
 src/lexer/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..50d918c 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -82,6 +82,8 @@ pub struct Lexer {
 
     #[doc(hidden)]
     pub tokens_factory: PoolFactory<Token>,
+    // Owns tokens of the Lexer that is constructed directly (i.e. not by Parser)
+    _tokens_pool: Pool<Token>,
 }
 
 impl Lexer {
@@ -97,11 +99,14 @@ impl Lexer {
         Bytes: Into<Vec<u8>>,
         Name: Into<String>,
     {
+        let tokens_pool = Pool::new();
         Self {
             cond: StackState::new("cond"),
             cmdarg: StackState::new("cmdarg"),
             lpar_beg: -1, /* make lambda_beginning_p() == FALSE at first */
             buffer: Buffer::new(name.into(), bytes.into(), decoder),
+            tokens_factory: tokens_pool.factory(),
+            _tokens_pool: tokens_pool,
             ..Self::default()
         }
     }
-- 
2.43.0


From 9eaed4c3077b1d86de3e0023a464332cc4f4181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:40 +0000
Subject: [PATCH 06/26] fix: don't emit inverted location for unterminated
 regexp

---
 src/builder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..e67d967 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -558,8 +558,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+            // no regexp options, only trailing "/" (or nothing if regexp is unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -587,7 +587,12 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let end_l = self.loc(&end_t);
+        let end_l = if end_l.size() > 1 {
+            end_l.resize(1)
+        } else {
+            end_l
+        };
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
-- 
2.43.0


From bbbd7506334e073c97b9c53f59ecd2bad5421f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 07/26] fix: don't lose beginning of the character token with
 invalid escape

---
 src/lexer/parse_qmark.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 35bb1d6..ce289ae 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -69,6 +69,8 @@ impl Lexer {
             }
             return self.parse_qmark_ternary(c);
         } else if c == b'\\' {
+            // invalid escape flushes current token, don't lose its beginning
+            self.lval_start = Some(self.buffer.ptok);
             if self.buffer.peek(b'u') {
                 self.nextc();
                 self.tokadd_utf8(None, 0, 0);
-- 
2.43.0


From 8d15c5f592463763969f6f731e5d44163a5b002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:55 +0000
Subject: [PATCH 08/26] fix: don't slice multibyte argument name in the middle
 of a char

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index e67d967..f46b072 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3890,7 +3890,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From ccc58410ab72cf9aa71af6b710a2f7475d73a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:16 +0000
Subject: [PATCH 09/26] fix: don't panic on heredoc indentation left by a
 syntax error

---
 src/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f46b072..a8e6073 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -520,9 +520,9 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // Syntax error could leave indentation of the heredoc that was not reduced,
+            // there's nothing to dedent in other string literals.
+            _ => node,
         }
     }
 
-- 
2.43.0


From c2530651ed32ebdf08443a7eb70ede6d5ea42d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:22 +0000
Subject: [PATCH 10/26] fix: collect when, in and rescue clauses in linear time

---
 src/parser/parse.y | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..3f1c0c5 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -421,7 +421,8 @@ use crate::Loc;
                   opt_ensure
                     {
                         let compound_stmt = $<MaybeBoxedNode>1;
-                        let rescue_bodies = $<NodeList>2;
+                        let mut rescue_bodies = $<NodeList>2;
+                        rescue_bodies.reverse();
                         if rescue_bodies.is_empty() {
                             return self.yyerror(@3, DiagnosticMessage::ElseWithoutRescue {});
                         }
@@ -443,7 +444,8 @@ use crate::Loc;
                   opt_ensure
                     {
                         let compound_stmt = $<MaybeBoxedNode>1;
-                        let rescue_bodies = $<NodeList>2;
+                        let mut rescue_bodies = $<NodeList>2;
+                        rescue_bodies.reverse();
                         let ensure = $<OptEnsure>3.map(|ensure| (ensure.ensure_t, ensure.body));
 
                         $$ = Value::MaybeNode(
@@ -3211,7 +3213,8 @@ use crate::Loc;
                   case_body
                   k_end
                     {
-                        let CaseBody { when_bodies, opt_else } = $<CaseBody>5;
+                        let CaseBody { mut when_bodies, opt_else } = $<CaseBody>5;
+                        when_bodies.reverse();
                         let (else_t, else_body) = opt_else.map(|else_| (Some(else_.else_t), else_.body)).unwrap_or_else(|| (None, None));
 
                         $$ = Value::Node(
@@ -3234,7 +3237,8 @@ use crate::Loc;
                   case_body
                   k_end
                     {
-                        let CaseBody { when_bodies, opt_else } = $<CaseBody>4;
+                        let CaseBody { mut when_bodies, opt_else } = $<CaseBody>4;
+                        when_bodies.reverse();
                         let (else_t, else_body) = opt_else.map(|else_| (Some(else_.else_t), else_.body)).unwrap_or_else(|| (None, None));
 
                         $$ = Value::Node(
@@ -3252,7 +3256,8 @@ use crate::Loc;
                   p_case_body
                   k_end
                     {
-                        let PCaseBody { in_bodies, opt_else } = $<PCaseBody>4;
+                        let PCaseBody { mut in_bodies, opt_else } = $<PCaseBody>4;
+                        in_bodies.reverse();
                         let (else_t, else_body) = opt_else.map(|else_| (Some(else_.else_t), else_.body)).unwrap_or_else(|| (None, None));
 
                         $$ = Value::Node(
@@ -4541,11 +4546,10 @@ opt_block_args_tail:
                         let when = *self.builder.when($<Token>1, $<NodeList>2, $<Token>3, $<MaybeBoxedNode>4);
                         let Cases { mut when_bodies, opt_else } = $<Cases>5;
 
-                        let mut nodes = Vec::with_capacity(1 + when_bodies.len());
-                        nodes.push(when);
-                        nodes.append(&mut when_bodies);
+                        // reduced last to first, `case` puts them in order
+                        when_bodies.push(when);
 
-                        $$ = Value::new_case_body(CaseBody { when_bodies: nodes, opt_else });
+                        $$ = Value::new_case_body(CaseBody { when_bodies, opt_else });
                     }
                 ;
 
@@ -4583,8 +4587,8 @@ opt_block_args_tail:
                         let PCases { mut in_bodies, opt_else } = $<PCases>7;
                         let PTopExpr { pattern, guard } = $<PTopExpr>3;
 
-                        let mut nodes = Vec::with_capacity(1 + in_bodies.len());
-                        nodes.push(
+                        // reduced last to first, `case` puts them in order
+                        in_bodies.push(
                             *self.builder.in_pattern(
                                 $<Token>1,
                                 pattern,
@@ -4593,9 +4597,8 @@ opt_block_args_tail:
                                 $<MaybeBoxedNode>6
                             )
                         );
-                        nodes.append(&mut in_bodies);
 
-                        $$ = Value::new_p_case_body(PCaseBody { in_bodies: nodes, opt_else  });
+                        $$ = Value::new_p_case_body(PCaseBody { in_bodies, opt_else  });
                     }
                 ;
 
@@ -5448,12 +5451,11 @@ opt_block_args_tail:
                             Some($<Token>4),
                             $<MaybeBoxedNode>5
                         );
+                        // reduced last to first, `bodystmt` puts them in order
                         let mut opt_rescue = $<NodeList>6;
-                        let mut nodes = Box::new(Vec::with_capacity(1 + opt_rescue.len()));
-                        nodes.push(rescue_body);
-                        nodes.append(&mut opt_rescue);
+                        opt_rescue.push(rescue_body);
 
-                        $$ = Value::NodeList(nodes);
+                        $$ = Value::NodeList(Box::new(opt_rescue));
                     }
                 | none
                     {
-- 
2.43.0


From 6450e12d9d5974d8e4a0f92bd802317a70deaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 11/26] fix: treat a carriage return inside a line as a space

---
 src/lexer/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 50d918c..a60f905 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -230,6 +230,9 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    // treated as a mere space
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 49ff7f8263ba35bf650204f827a513c522f48c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:08 +0000
Subject: [PATCH 12/26] fix: do not walk a chain of && or || again for every
 operator

---
 src/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a8e6073..611e224 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4182,8 +4182,7 @@ impl Builder {
                 if_true, if_false, ..
             }) => check_maybe_condition(if_true, if_false),
 
-            Node::And(And { lhs, .. }) | Node::Or(Or { lhs, .. }) => Self::void_value(lhs),
-
+            // the left side of `and` and `or` has been checked when the node was built
             _ => None,
         }
     }
-- 
2.43.0


From 810524af374cd9d966beefa463bf863d8b4f7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:29 +0000
Subject: [PATCH 13/26] fix: look for a heredoc terminator in the current line
 only

---
 src/source/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 8285ff0..e9ace3c 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -266,7 +266,7 @@ impl Buffer {
 
         if indent > 0 {
             while let Some(c) = self.input.byte_at(ptr) {
-                if !c.is_ascii_whitespace() {
+                if ptr >= self.pend || !c.is_ascii_whitespace() {
                     break;
                 }
                 ptr += 1;
-- 
2.43.0


From f64e017c0bd2c3b734a750c5c2a06c8202f95232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 14/26] fix: look up duplicate hash keys in a set instead of
 comparing every pair

---
 src/builder.rs | 117 ++++++++++++++++---------------------------------
 1 file changed, 37 insertions(+), 80 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 611e224..12dd3de 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1,7 +1,7 @@
 #[cfg(feature = "onig")]
 use onig::{Regex, RegexOptions};
 
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::convert::TryInto;
 
 use alloc_from_pool::{Factory as PoolFactory, PoolValue};
@@ -854,88 +854,45 @@ impl Builder {
         pairs: Vec<Node>,
         end_t: Option<PoolValue<Token>>,
     ) -> Box<Node> {
-        for i in 0..pairs.len() {
-            for j in i + 1..pairs.len() {
-                let key1 = if let Node::Pair(Pair { key, .. }) = &pairs[i] {
-                    &**key
-                } else {
-                    // kwsplat
-                    continue;
-                };
-                let key2 = if let Node::Pair(Pair { key, .. }) = &pairs[j] {
-                    &**key
-                } else {
-                    // kwsplat
-                    continue;
-                };
-
-                fn keys_are_equal(left: &Node, right: &Node) -> bool {
-                    match (left, right) {
-                        // sym
-                        (
-                            Node::Sym(Sym { name: name1, .. }),
-                            Node::Sym(Sym { name: name2, .. }),
-                        ) if name1 == name2 => true,
-
-                        // str
-                        (
-                            Node::Str(Str { value: value1, .. }),
-                            Node::Str(Str { value: value2, .. }),
-                        ) if value1 == value2 => true,
-
-                        // int
-                        (
-                            Node::Int(Int { value: value1, .. }),
-                            Node::Int(Int { value: value2, .. }),
-                        ) if value1 == value2 => true,
-
-                        // float
-                        (
-                            Node::Float(Float { value: value1, .. }),
-                            Node::Float(Float { value: value2, .. }),
-                        ) if value1 == value2 => true,
-
-                        // rational
-                        (
-                            Node::Rational(Rational { value: value1, .. }),
-                            Node::Rational(Rational { value: value2, .. }),
-                        ) if value1 == value2 => true,
-
-                        // complex
-                        (
-                            Node::Complex(Complex { value: value1, .. }),
-                            Node::Complex(Complex { value: value2, .. }),
-                        ) if value1 == value2 => true,
-
-                        // regexp
-                        (
-                            Node::Regexp(Regexp {
-                                parts: parts1,
-                                options: options1,
-                                ..
-                            }),
-                            Node::Regexp(Regexp {
-                                parts: parts2,
-                                options: options2,
-                                ..
-                            }),
-                        ) if options1 == options2 => {
-                            parts1.len() == parts2.len()
-                                && parts1
-                                    .iter()
-                                    .zip(parts2.iter())
-                                    .all(|(child1, child2)| keys_are_equal(child1, child2))
-                        }
-
-                        _ => false,
-                    }
+        // Appends an identity of the literal key to `id`, returns `false`
+        // if the key is not comparable with other keys
+        fn key_id(key: &Node, id: &mut Vec<u8>) -> bool {
+            let (kind, value) = match key {
+                Node::Sym(Sym { name, .. }) => (b's', name.as_raw().as_slice()),
+                Node::Str(Str { value, .. }) => (b'"', value.as_raw().as_slice()),
+                Node::Int(Int { value, .. }) => (b'i', value.as_bytes()),
+                Node::Float(Float { value, .. }) => (b'f', value.as_bytes()),
+                Node::Rational(Rational { value, .. }) => (b'r', value.as_bytes()),
+                Node::Complex(Complex { value, .. }) => (b'c', value.as_bytes()),
+                Node::Regexp(Regexp {
+                    parts,
+                    options: None,
+                    ..
+                }) => {
+                    id.push(b'/');
+                    id.extend_from_slice(&parts.len().to_ne_bytes());
+                    return parts.iter().all(|part| key_id(part, id));
                 }
+                _ => return false,
+            };
+            id.push(kind);
+            id.extend_from_slice(&value.len().to_ne_bytes());
+            id.extend_from_slice(value);
+            true
+        }
 
-                let do_warn = keys_are_equal(key1, key2);
+        let mut seen = BTreeSet::new();
+        for pair in pairs.iter() {
+            let key = if let Node::Pair(Pair { key, .. }) = pair {
+                &**key
+            } else {
+                // kwsplat
+                continue;
+            };
 
-                if do_warn {
-                    self.warn(DiagnosticMessage::DuplicateHashKey {}, key2.expression());
-                }
+            let mut id = vec![];
+            if key_id(key, &mut id) && !seen.insert(id) {
+                self.warn(DiagnosticMessage::DuplicateHashKey {}, key.expression());
             }
         }
 
-- 
2.43.0


From f00d7c248e9cd1c7ca9da658a0f747663a2b0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:59 +0000
Subject: [PATCH 15/26] fix: don't stop at a comment with a key that is not
 valid UTF-8

---
 src/lexer/parse_magic_comment.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 00c6067..042c709 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,13 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            // name that is not valid UTF-8 is not a name of any magic comment
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 35245267365761e7ae98c98dffb908f1dc35d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 16/26] fix: keep a dot or an exponent letter after a number at
 the end of input

---
 src/lexer/parse_numeric.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..04202c4 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -205,12 +205,11 @@ impl Lexer {
                     if seen_point.is_some() || seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     } else {
-                        let c0 = self.nextc();
-                        if c.is_eof() || !c0.is_digit() {
-                            self.buffer.pushback(c0);
+                        // `nextc` at the end of input makes it impossible to push back `c`
+                        if !self.buffer.peekc().is_digit() {
                             return self.decode_num(c, nondigit, is_float, seen_e);
                         }
-                        c = c0;
+                        c = self.nextc();
                     }
                     seen_point = Some(self.toklen());
                     self.tokadd(b'.');
@@ -228,13 +227,12 @@ impl Lexer {
                     if seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
-                    nondigit = Some(c);
-                    c = self.nextc();
-                    if c != b'-' && c != b'+' && !c.is_digit() {
-                        self.buffer.pushback(c);
-                        nondigit = None;
+                    let next = self.buffer.peekc();
+                    if next != b'-' && next != b'+' && !next.is_digit() {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
+                    nondigit = Some(c);
+                    c = self.nextc();
                     self.tokadd(nondigit.expect("nondigit must be set"));
                     seen_e = true;
                     is_float = true;
-- 
2.43.0


From 74f9c9c4ab9fb87fb28ceec07e531537ad371af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 17/26] fix: reject $- without a name instead of taking it as a
 character

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From eb1a62bbfb1e36e22516c7d21604363a518b512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:13 +0000
Subject: [PATCH 18/26] fix: keep the ~ or - of << at the end of input

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 2acaf30..7167930 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -65,6 +65,8 @@ impl Lexer {
                 self.buffer.pushback(c);
                 if (func & STR_FUNC_INDENT) != 0 {
                     self.buffer.pushback(if indent > 0 { b'~' } else { b'-' });
+                    // end of input is not reached yet, there's a byte that has been pushed back
+                    self.buffer.eofp = false;
                 }
                 return None;
             }
-- 
2.43.0


From b2f7d7b393842b83d67bbe9df03151b0fd636a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:25 +0000
Subject: [PATCH 19/26] fix: put the leading zero of a number after its sign

---
 src/lexer/parse_numeric.rs | 8 ++++----
 src/token_buf.rs           | 8 +++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 04202c4..db1e9d5 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -67,7 +67,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.prepend_zero();
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.prepend_zero();
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +151,7 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
+                tok.prepend_zero();
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -302,7 +302,7 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
+            tok.prepend_zero();
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..b136d4a 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,9 +26,11 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
+    // Adds a leading zero of a numeric literal, the sign (if any) remains the first byte
+    pub(crate) fn prepend_zero(&mut self) {
+        let mut tmp = self.bytes.as_raw().clone();
+        let pos = usize::from(matches!(tmp.first(), Some(b'+') | Some(b'-')));
+        tmp.insert(pos, b'0');
         self.bytes.set_raw(tmp);
     }
 
-- 
2.43.0


From faa370f25ba5ebcf6df3ddc68ccf241fc4df8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 20/26] fix: raw heredoc keeps CR of CRLF line ends

The case of "\r\n" lacks the fall-through of MRI's here_document(), so the
value of <<'A' in a file with CRLF line ends contains "\r\n" where all other
literals contain "\n".
---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 7167930..778e399 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -165,6 +165,9 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                // "\r\n" is a single line end
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From fa46fbd951b57d80c6ba8d57fceb3268ac78f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 21/26] fix: heredoc end location includes CR of a CRLF line
 end

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 778e399..7a92c4e 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -296,6 +296,9 @@ impl Lexer {
             if c.is_eof() || c == b'\n' {
                 break;
             }
+            if c == b'\r' && self.buffer.byte_at(end + 1) == b'\n' {
+                break;
+            }
             end += 1;
         }
         let value = self
-- 
2.43.0


From 1d74ac76f9bacd8c110cd17e2b95d6aa1217916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:22 +0000
Subject: [PATCH 22/26] fix: begin/end block does not swallow parentheses
 around its only statement

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 12dd3de..c88c86c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3101,7 +3101,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From 230d4702e5f493815ac9c78288d5b3a1d7d8be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:53 +0000
Subject: [PATCH 23/26] fix: entering a block does not copy all local variables

---
 src/static_environment.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/static_environment.rs b/src/static_environment.rs
index 6789be5..bf8a650 100644
--- a/src/static_environment.rs
+++ b/src/static_environment.rs
@@ -24,7 +24,16 @@ use std::rc::Rc;
 #[derive(Debug, Clone, Default)]
 pub struct StaticEnvironment {
     variables: Rc<RefCell<BTreeSet<String>>>,
-    stack: Rc<RefCell<Vec<BTreeSet<String>>>>,
+    stack: Rc<RefCell<Vec<Frame>>>,
+}
+
+/// What has to be done to leave a scope
+#[derive(Debug, Clone)]
+enum Frame {
+    /// Bring back variables of the outer scope
+    Static(BTreeSet<String>),
+    /// Forget variables that have been declared in the inner scope
+    Dynamic(Vec<String>),
 }
 
 const FORWARD_ARGS: &str = "FORWARD_ARGS";
@@ -48,30 +57,44 @@ impl StaticEnvironment {
     /// Handles class/module scopes
     pub fn extend_static(&self) {
         let variables = std::mem::take(&mut *self.variables.borrow_mut());
-        self.stack.borrow_mut().push(variables);
+        self.stack.borrow_mut().push(Frame::Static(variables));
     }
 
     /// Performs a push, inherits previously declared variables in the new scope
     ///
     /// Handles block/lambda scopes
     pub fn extend_dynamic(&self) {
-        self.stack
-            .borrow_mut()
-            .push(self.variables.borrow().clone());
+        self.stack.borrow_mut().push(Frame::Dynamic(vec![]));
     }
 
     /// Performs pop
     pub fn unextend(&self) {
-        *self.variables.borrow_mut() = self
+        let frame = self
             .stack
             .borrow_mut()
             .pop()
             .expect("expected static_env to have at least one frame");
+
+        match frame {
+            Frame::Static(variables) => *self.variables.borrow_mut() = variables,
+            Frame::Dynamic(declared) => {
+                let mut variables = self.variables.borrow_mut();
+                for name in declared {
+                    variables.remove(&name);
+                }
+            }
+        }
     }
 
     /// Declares a new variable in the current scope
     pub fn declare(&self, name: &str) {
+        if self.is_declared(name) {
+            return;
+        }
         self.variables.borrow_mut().insert(name.to_string());
+        if let Some(Frame::Dynamic(declared)) = self.stack.borrow_mut().last_mut() {
+            declared.push(name.to_string());
+        }
     }
 
     /// Returns `true` if variable with a given `name` is declared in the current scope
-- 
2.43.0


From f12298265b2f52d23b2c407276904bc865c5e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 24/26] fix: body of a second heredoc does not start at the
 body of the first one

---
 src/lexer/parse_heredoc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 7a92c4e..b86cc1b 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -131,10 +131,15 @@ impl Lexer {
         let func = here.func;
         let indent = here.func & STR_FUNC_INDENT;
 
+        let line_start = self.buffer.pbeg;
         let mut c = self.nextc();
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        if self.buffer.pbeg != line_start {
+            // bodies of other heredocs that start on the same line may be in between
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
-- 
2.43.0


From 6ca30ed03229e67fd8bd564afbdd1207f8078314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:35 +0000
Subject: [PATCH 25/26] fix: text of a heredoc ends where it ends, not in the
 interpolation or end marker that follows

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index b86cc1b..f9067eb 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -217,7 +217,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -250,8 +250,8 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some((self.buffer.pcur + 1).min(self.buffer.input.len()));
                 if c != b'\n' {
+                    self.lval_end = Some(self.buffer.pcur);
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
                     }
@@ -259,6 +259,7 @@ impl Lexer {
                 }
                 let cc = self.nextc();
                 self.tokadd(cc);
+                self.lval_end = Some(self.buffer.pcur);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
                     return self.heredoc_flush();
-- 
2.43.0


From a1687a71013b074868bca2c61496a19e0382ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:06 +0000
Subject: [PATCH 26/26] fix: a % literal delimited by line ends does not start
 in a heredoc body

---
 src/lexer/parse_string.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index c61cdba..d885f58 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -56,7 +56,12 @@ impl Lexer {
                 return Self::tSTRING_END;
             }
         }
+        let line_start = self.buffer.pbeg;
         let mut c = self.nextc();
+        if self.buffer.pbeg != line_start {
+            // bodies of heredocs that start on the same line may be in between
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         if (func & STR_FUNC_QWORDS) != 0 && c.is_space() {
             loop {
                 c = self.nextc();
-- 
2.43.0

