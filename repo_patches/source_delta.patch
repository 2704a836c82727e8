From 9abb16362851c7d66ad73312559167922508f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 01/26] fix: report a lexer error instead of panicking when a
 location is asked for

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..f6409de 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -274,7 +274,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
-- 
2.43.0


From ce876d67606668384138b2a84320ed4c7db258e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 02/26] fix: do not panic when the unexpected character is the
 end of input

---
 src/parser/lexer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..db14429 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -83,13 +83,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
         let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => LexerErr(ParseErrKind::UnexpectedEOF, loc),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From d11ac0e2339b0e71f3b8e108f61789eabb54238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 03/26] fix: do not overflow on a large numbered global
 variable

---
 src/parser/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index db14429..530b68f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -414,9 +414,11 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id
+                    .saturating_mul(10)
+                    .saturating_add(ch as u32 - '0' as u32);
             }
-            Ok(self.new_special_var(id as u32 + 100))
+            Ok(self.new_special_var(id.saturating_add(100)))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From 54fb2a5d9241998d73096b7fbf8fa1327d5ef602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 04/26] fix: do not overflow on large octal and binary literals

---
 src/parser/lexer.rs | 46 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 530b68f..5ec0e4a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -721,44 +721,50 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='7') | Some('_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), 8) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid octal number literal.", self.pos)),
+        }
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
+        while let Some('0'..='1') | Some('_') = self.peek() {
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), 2) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid binary number literal.", self.pos)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 1d21a0f135e7a3ff65f2bb3bfbcc50e2d66eb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 05/26] fix: do not loop forever on a non-hex character in
 \u{..}

---
 src/parser/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5ec0e4a..9cb7d8b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -927,6 +927,12 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                return Err(match self.peek() {
+                    Some(_) => Self::error_parse("Invalid Unicode escape sequence.", self.pos),
+                    None => Self::error_eof(self.pos),
+                });
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 6f05671a557f95456fe97f73a2c39fa07cf08930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 06/26] fix: accept class and special variables in
 interpolation instead of panicking

---
 src/parser/literals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..083c499 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -331,7 +331,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
+                _ => return Err(error_unexpected(loc, "Expect variable.")),
             };
             nodes.push(node);
         };
-- 
2.43.0


From 61c9a1f1b3c0c4f6f094de4c22bfa15c4f3e39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 07/26] fix: do not panic on interpolation in a command here
 document

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 083c499..c29c4f6 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -165,7 +165,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From e4818d45f967b965fadf2466864bd365f1c68823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 08/26] fix: do not panic on unary minus of a non-literal in a
 primary

---
 src/parser/expression.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..d591fee 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -755,14 +755,27 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                Punct::Minus => match self.peek()?.kind {
+                    TokenKind::IntegerLit(num) => {
+                        self.get()?;
+                        match num.checked_neg() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        }
+                    }
+                    TokenKind::BignumLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_bignum(-num, loc))
+                    }
+                    TokenKind::FloatLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_float(-num, loc))
+                    }
+                    _ => {
+                        let node = self.parse_unary()?;
+                        let loc = loc.merge(node.loc());
+                        Ok(Node::new_unop(UnOp::Neg, node, loc))
+                    }
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From b4208e2d40bbd9142fdbfaca11770ec2870ac13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 09/26] fix: require the closing parenthesis of an argument
 list

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d591fee..f5b196a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -967,7 +967,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -998,7 +998,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From 5660223b5d6291ecf451f2a8ca85bf496ab0d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 10/26] fix: report an unterminated here document as unexpected
 end of input

---
 src/parser/lexer.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 9cb7d8b..93f52b6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1220,13 +1220,7 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
-- 
2.43.0


From 7c9b547079ebf487e8bc3d3651c5e6e821a4d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 11/26] fix: report an unterminated interpolation as unexpected
 end of input

---
 src/parser/literals.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index c29c4f6..169c4bf 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -321,10 +321,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
-            if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
-            }
+            self.expect_punct(Punct::RBrace)?;
         } else {
             let tok = self.get()?;
             let loc = tok.loc();
-- 
2.43.0


From 43079d4beb9c7e6070bba1bef8ca6cf0a925bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 12/26] fix: keep local variables assigned in a here document's
 interpolation

---
 src/parser/literals.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 169c4bf..8ed48bb 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -132,13 +132,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ),
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_double();
-                res?
+                let node = parser.here_double()?;
+                self.scope = parser.scope;
+                node
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_command();
-                res?
+                let node = parser.here_command()?;
+                self.scope = parser.scope;
+                node
             }
         };
         Ok(node)
-- 
2.43.0


From 92931a6f54ebcba4e2a09282cf5d9b0c63659dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 13/26] fix: accept a keyword argument named like an outer
 local variable

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f5b196a..9ad7a62 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -974,7 +974,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From bbe99b60bf3328b499453b5f985f7641d4ed192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 14/26] fix: resolve the receiver of a singleton method
 definition

---
 src/parser/define.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..cf5250e 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -36,10 +36,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    (
-                        Some(Node::new_lvar(s, 0, loc)),
-                        self.read_method_name(true)?.0,
-                    )
+                    let receiver = match self.is_local_var(&s) {
+                        Some(outer) => Node::new_lvar(s, outer, loc),
+                        None => Node::new_identifier(s, loc),
+                    };
+                    (Some(receiver), self.read_method_name(true)?.0)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
-- 
2.43.0


From 6d3a803c18a7ea3f40a60f881d8671db8e51414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 15/26] fix: hide the caller's variables from method and class
 bodies and count their depth from inner blocks

---
 src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f6409de..7be5a43 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -207,20 +207,23 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If exiets, return true.
     fn is_local_var(&mut self, id: &str) -> Option<usize> {
         let mut outer = 0;
-        for c in self.scope.iter().rev() {
+        for (depth, c) in self.scope.iter().enumerate().rev() {
             if c.lvar.table.get_lvarid(id).is_some() {
                 return Some(outer);
             }
+            if depth == 0 {
+                break;
+            }
             match c.kind {
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                // outer variables are not visible from method and class bodies.
+                _ => return None,
             }
         }
-        if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
-        }
-        None
+        // the answer is counted from the outermost scope of this parse.
+        let found = self.extern_context.as_ref()?.find_lvar(id)?;
+        Some(found + outer)
     }
 
     /// Check whether numbered parameters exist in outer blocks.
-- 
2.43.0


From 36fc4e840027d5d9c9dff511f329796d1bf36912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 16/26] fix: exit with a failure status when the file can not
 be loaded

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6ed58f3..cab71c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,7 +44,7 @@ fn main() {
         Ok(path) => path,
         Err(ioerr) => {
             eprintln!("{}: {}.", file, ioerr);
-            return;
+            std::process::exit(1);
         }
     };
 
@@ -52,7 +52,7 @@ fn main() {
         Ok(program) => program,
         Err(err) => {
             eprintln!("{}: {}.", file, err);
-            return;
+            std::process::exit(1);
         }
     };
 
-- 
2.43.0


From 4575d4dddae809882a48bbffd1cf59bcea637288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 17/26] fix: do not panic on the short name of a path without a
 file name

---
 src/source_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 307aedf..454bfad 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -54,7 +54,10 @@ impl SourceInfo {
 
     /// Get short_file name.
     pub fn short_file_name(&self) -> Cow<'_, str> {
-        self.path.file_name().unwrap().to_string_lossy()
+        match self.path.file_name() {
+            Some(name) => name.to_string_lossy(),
+            None => self.path.to_string_lossy(),
+        }
     }
 
     /// Show the location of *loc* in source text.
-- 
2.43.0


From fd067a05c12c53747d95d0dcb92d4fa69f3a4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 18/26] fix: locate positions at the end of the code, in
 non-ASCII lines and on zero-width terminals without panicking

---
 src/source_info.rs | 156 ++++++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 86 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 454bfad..9c595ea 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -70,62 +70,58 @@ impl SourceInfo {
         if self.code.is_empty() {
             return "(internal)".to_string();
         }
-        let code = self.code.clone() + " ";
         let mut res_string = String::new();
-        let lines = self.get_lines(loc);
-        let mut found = false;
-        let term = console::Term::stdout();
-        let term_width = term.size().1 as usize;
-        for line in &lines {
-            if !found {
+        let term_width = match console::Term::stdout().size().1 as usize {
+            0 => 80,
+            width => width,
+        };
+        for (i, line) in self.get_lines(loc).iter().enumerate() {
+            if i == 0 {
                 res_string += &format!("{}:{}\n", self.file_name(), line.line_no);
-                found = true;
             };
 
-            let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
+            let text = &self.code[line.top..line.end];
+            // range of `loc` in this line.
+            let mut start = loc.0.saturating_sub(line.top).min(text.len());
+            while !text.is_char_boundary(start) {
+                start -= 1;
             }
-            let mut lead = if loc.0 <= line.top {
-                0
-            } else {
-                console::measure_text_width(&code[start..loc.0])
-            };
-            let offset = lead / term_width * term_width;
-            lead -= offset;
-            let range_start = std::cmp::max(loc.0, line.top);
-            let range_end = std::cmp::min(loc.1, line.end);
-            let term_end = start + (range_end - start) / term_width * term_width + term_width - 1;
-            let length = console::measure_text_width(&code[range_start..=range_end]);
-            res_string += &code[(start + offset)..=std::cmp::min(end, term_end)];
+            let mut end = (loc.1 + 1).saturating_sub(line.top).min(text.len());
+            while !text.is_char_boundary(end) {
+                end += 1;
+            }
+            let end = end.max(start);
+
+            // show only the rows of the terminal which the range is on.
+            let lead = console::measure_text_width(&text[..start]);
+            let tail = console::measure_text_width(&text[..end]).saturating_sub(1);
+            let first = column_pos(text, lead / term_width * term_width);
+            let first = first.min(start);
+            let last = column_pos(text, (lead.max(tail) / term_width + 1) * term_width);
+            let last = last.max(end);
+
+            let lead = console::measure_text_width(&text[first..start]);
+            let length = console::measure_text_width(&text[start..end]).max(1);
+            res_string += &text[first..last];
             res_string += "\n";
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
             res_string += "\n";
         }
+        res_string
+    }
+}
 
-        if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.line_no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&code[line.1..loc.0]);
-            let length = console::measure_text_width(&code[loc.0..loc.1]);
-            let is_cr = loc.1 >= code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.file_name(), line.0);
-            res_string += if !is_cr {
-                &code[line.1..=loc.1]
-            } else {
-                &code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
-            res_string += "\n";
+/// Get the byte position of the character at `column` in `text`.
+fn column_pos(text: &str, column: usize) -> usize {
+    let mut width = 0;
+    for (pos, ch) in text.char_indices() {
+        if width >= column {
+            return pos;
         }
-        res_string
+        width += console::measure_text_width(ch.encode_utf8(&mut [0; 4]));
     }
+    text.len()
 }
 
 impl SourceInfo {
@@ -140,56 +136,44 @@ impl SourceInfo {
         }
     }
 
+    /// Get the line number of the start of `loc`.
+    /// The end of the code belongs to the last line.
     pub fn get_line(&self, loc: &Loc) -> usize {
-        let mut line_top = 0;
-        self.code
-            .char_indices()
-            .filter_map(|(pos, ch)| if ch == '\n' { Some(pos) } else { None })
-            .enumerate()
-            .map(|(idx, pos)| {
-                let top = line_top;
-                line_top = pos + 1;
-                Line::new(idx + 1, top, pos)
-            })
-            .find_map(|line| {
-                if line.end >= loc.0 && line.top <= loc.0 {
-                    Some(line.line_no)
-                } else {
-                    None
-                }
-            })
-            .unwrap()
+        let lines = self.lines();
+        lines
+            .iter()
+            .find(|line| line.top <= loc.0 && loc.0 <= line.end)
+            .or(lines.last())
+            .map_or(1, |line| line.line_no)
     }
 
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
+    /// Get all lines in the code.
+    fn lines(&self) -> Vec<Line> {
+        let mut lines = vec![];
+        let mut top = 0;
+        for (pos, _) in self.code.match_indices('\n') {
+            lines.push(Line::new(lines.len() + 1, top, pos));
+            top = pos + 1;
+        }
+        if top < self.code.len() {
+            lines.push(Line::new(lines.len() + 1, top, self.code.len()));
+        }
+        lines
     }
 
+    /// Get lines which `loc` covers.
+    /// The end of the code belongs to the last line.
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
-        let mut line_top = 0;
-        //let code = self.code.clone() + " ";
-        let code_len = self.code.len();
-        let mut lines: Vec<_> = self
-            .code
-            .char_indices()
-            .filter_map(|(pos, ch)| if ch == '\n' { Some(pos) } else { None })
-            .enumerate()
-            .map(|(idx, pos)| {
-                let top = line_top;
-                line_top = pos + 1;
-                Line::new(idx + 1, top, pos)
-            })
-            .filter(|line| {
-                if loc.0 == loc.1 {
-                    line.top <= loc.1 && line.end >= loc.0
-                } else {
-                    line.top < loc.1 && line.end > loc.0
-                }
-            })
+        let lines = self.lines();
+        let last = lines.last().copied();
+        let lines: Vec<_> = lines
+            .into_iter()
+            .filter(|line| line.top <= loc.1 && loc.0 <= line.end)
             .collect();
-        if line_top < code_len && code_len > loc.0 && line_top < loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len));
+        if lines.is_empty() {
+            last.into_iter().collect()
+        } else {
+            lines
         }
-        lines
     }
 }
-- 
2.43.0


From bdedabfecb54934d9201eb1015bf18fe34a9651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 19/26] fix: drop peeked tokens when the lexer state is
 restored in a hash literal

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7be5a43..6112d6e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // tokens peeked from a later position are not valid any more.
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From 93f0e7127c44769245acb3b5db9bba9ae7cb7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 20/26] fix: skip a here document's body when the method name
 is on the line after the dot

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 93f52b6..068d34a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -528,7 +528,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_whitespace() || self.consume_newline() {}
+        while self.consume_newline() || self.consume_whitespace() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
-- 
2.43.0


From 6c067baa84b6581372be779135f8e329a0b44cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 21/26] fix: end a keyword parameter without a default at a
 semicolon

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6112d6e..3496556 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -667,12 +667,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.new_param(name, loc)?;
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
-                    let next = self.peek_no_term()?.kind;
+                    let tok = self.peek_no_term()?;
+                    let next = &tok.kind;
                     let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                        if *next == TokenKind::Punct(Punct::Comma) || tok.is_line_term() {
                             None
                         } else if let Some(term) = terminator {
-                            if next == TokenKind::Punct(term) {
+                            if *next == TokenKind::Punct(term) {
                                 None
                             } else {
                                 Some(self.parse_arg()?)
-- 
2.43.0


From 1fa7c7f920d31e461fde038dbcdadbd6f012e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 22/26] fix: restore the lexer's position when peeking a token
 fails

---
 src/parser/lexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 068d34a..609b42b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -127,8 +127,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let tok = self.read_token();
         self.restore_state(save);
+        let tok = tok?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -138,14 +139,14 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let tok = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
         self.restore_state(save);
+        let tok = tok?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From a80636b52a69134c7d58caa15894c14f9b4e8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 23/26] fix: start the location of an interpolated here
 document at its body

---
 src/parser/literals.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8ed48bb..c95302c 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -132,12 +132,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ),
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
+                parser.prev_loc = Loc(start, start);
                 let node = parser.here_double()?;
                 self.scope = parser.scope;
                 node
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
+                parser.prev_loc = Loc(start, start);
                 let node = parser.here_command()?;
                 self.scope = parser.scope;
                 node
-- 
2.43.0


From aba2d366035fbe30b9646fa41ded2dab30285b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 24/26] fix: report a misplaced numbered parameter where it is
 used

The error was placed where the conflicting parameter had been recorded in
the table. With a table from an earlier text (parse_program_binding) that
position belongs to the earlier text and may lie outside of this one.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3496556..11b890a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -231,11 +231,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Check whether numbered parameters exist in outer blocks.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
         //let mut outer = 0;
-        if let Some(loc) = self.scope.last_mut().unwrap().lvar.prohibit_numbered_param {
+        // what is recorded in the table may come from an earlier text, so report this place.
+        if self.scope_mut().lvar.prohibit_numbered_param.is_some() {
             return Err(error_nested_numbered_param(loc));
         }
         for c in self.scope.iter_mut().rev().skip(1) {
-            if let Some(loc) = c.lvar.numbered_param {
+            if c.lvar.numbered_param.is_some() {
                 return Err(error_nested_numbered_param(loc));
             }
             let prohibit = &mut c.lvar.prohibit_numbered_param;
-- 
2.43.0


From 19b233290477df42f719d216aa1a0c23d524d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 25/26] fix: a name is not called with a following else, elsif,
 when, ensure or in

---
 src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 9ad7a62..1678fa4 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1144,6 +1144,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::When
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::Ensure
+                        | Reserved::In
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From ef6390b982a016bbb2cb38647931a6df07638982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 26/26] fix: lines broken inside a literal or by a backslash
 are followed by the bodies of their here documents

---
 src/parser/lexer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 609b42b..22af7de 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -898,6 +898,10 @@ impl<'a> Lexer<'a> {
                         s.push(c);
                     }
                 }
+                '\n' => {
+                    s.push('\n');
+                    self.skip_heredoc();
+                }
                 c => s.push(c),
             }
         }
@@ -1048,6 +1052,9 @@ impl<'a> Lexer<'a> {
                             } else {
                                 body.push(ch);
                             }
+                            if ch == '\n' {
+                                self.skip_heredoc();
+                            }
                         }
                     };
                 }
@@ -1057,6 +1064,10 @@ impl<'a> Lexer<'a> {
                     }
                     _ => body.push('#'),
                 },
+                '\n' => {
+                    body.push('\n');
+                    self.skip_heredoc();
+                }
                 c => body.push(c),
             }
         }
@@ -1304,12 +1315,20 @@ impl<'a> Lexer<'a> {
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
             self.pos += 2;
+            self.skip_heredoc();
             true
         } else {
             false
         }
     }
 
+    /// Skip the bodies of here documents begun on the line which has just ended.
+    fn skip_heredoc(&mut self) {
+        if self.heredoc_pos > self.pos {
+            self.pos = self.heredoc_pos;
+        }
+    }
+
     /// Consume the next char, if the char is numeric char.
     /// Return Some(ch) if the token (ch) was consumed.
     fn consume_numeric(&mut self) -> Option<char> {
-- 
2.43.0

