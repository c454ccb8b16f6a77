From 21c341dfb455392f799d7714613763fac1dad0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 01/47] fix: accept digit separators in signed hex floats and
 NaN payloads

---
 crates/parser/src/parser/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..2a8875f 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -266,7 +266,8 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            // hexadecimal digits also come after a sign and in a NaN payload
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 5dc8f02a7f0524be27e11fbcd7becf2d28ed0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 02/47] fix: report a syntax error for tokens outside of
 modules

---
 crates/parser/src/parser/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..4b72937 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -43,7 +43,11 @@ impl<'s> Parser<'s> {
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
+        if self.errors.is_empty() {
+            self.errors.extend(find_unexpected_token(&tree));
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
@@ -87,6 +91,22 @@ fn root(input: &mut Input) -> PResult<GreenNode, SyntaxError> {
         })
 }
 
+/// Tokens that don't belong to any module are put into root without recording syntax errors,
+/// so the source code isn't valid even if there're no other syntax errors.
+fn find_unexpected_token(root: &GreenNode) -> Option<SyntaxError> {
+    let mut start = 0;
+    root.children().find_map(|child| {
+        let end = start + usize::from(child.text_len());
+        let error = (child.kind() == SyntaxKind::ERROR.into()).then_some(SyntaxError {
+            start,
+            end,
+            message: StrContext::Label("unexpected token"),
+        });
+        start = end;
+        error
+    })
+}
+
 /// Note: use `retry_once` instead if you're using `retry` in `repeat` or `repeat_till`.
 // copied and modified from https://github.com/winnow-rs/winnow/blob/95e0c100656a98a0ff3bc8420fc8844edff6b615/src/combinator/parser.rs#L963
 fn retry<'s, P, const N: usize>(
-- 
2.43.0


From 34c328a9953e1a1d41169da6a81b48e51d70cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 03/47] fix: never report a syntax error that ends before its
 start

---
 crates/parser/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..98543ef 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,8 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        // recovery may stop before the place where the error was found
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From ab4da0de0a5d0eeab50d5282768b0922ba2d5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 04/47] fix: keep all source code in the tree when a token is
 unknown

---
 crates/parser/src/parser/token.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 2a8875f..e4ffc46 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -294,13 +294,25 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, unknown_token)),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => unknown_token,
     }
     .map(|text| tok(ERROR, text))
 }
 
+/// This always takes at least one character, so no source code will be lost.
+fn unknown_token<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+    (
+        any,
+        take_till(0.., |c: char| {
+            c == '(' || c == ')' || c.is_ascii_whitespace()
+        }),
+    )
+        .take()
+        .parse_next(input)
+}
+
 pub(super) fn error_term<'s, const N: usize>(
     allowed_names: [&'static str; N],
 ) -> impl Parser<Input<'s>, Vec<GreenElement>, SyntaxError> {
-- 
2.43.0


From d36bf4bc75eccfeedb9e7ba1682341a2678f3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 05/47] fix: don't crash on unclosed nested block comments

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index e4ffc46..718401a 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 227fdd8ff7c669bb9d464b993c25bee2e1f73004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 06/47] fix: recover from unknown terms with whitespace before
 the right paren

---
 crates/parser/src/parser/token.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 718401a..dbb0b1b 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -347,15 +347,16 @@ fn error_term_inner(input: &mut Input) -> PResult<Vec<GreenElement>, SyntaxError
             }
             acc
         }),
-        opt(')'.map(|_| tok(ERROR, ")"))),
+        // there may be trivias between the last item and the right paren
+        opt(trivias_prefixed(')'.map(|_| tok(ERROR, ")")))),
     )
         .parse_next(input)
         .map(|(l_paren, mut tokens, r_paren)| {
             let mut children = Vec::with_capacity(3);
             children.push(l_paren);
             children.append(&mut tokens);
-            if let Some(r_paren) = r_paren {
-                children.push(r_paren);
+            if let Some(mut r_paren) = r_paren {
+                children.append(&mut r_paren);
             }
             children
         })
-- 
2.43.0


From 1916dec96203621ab0758a4f22480c7404240cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 07/47] fix: don't remove `shared` and `unshared` when
 formatting limits

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..33e02da 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..e411e27 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From a5c6b1cc6806436c970163ae308bf7ec8874f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 08/47] fix: keep comments before the first result when
 formatting a type use

---
 crates/formatter/src/printer/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..946692b 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1220,7 +1220,7 @@ impl DocGen for TypeUse {
         if let Some(param) = params.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(param.doc(ctx));
@@ -1239,7 +1239,7 @@ impl DocGen for TypeUse {
         if let Some(result) = results.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(result.doc(ctx));
-- 
2.43.0


From 91425c170114ab41037c95e40bd13c352b177a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 09/47] fix: keep comments at the start of unfolded `if` blocks
 when formatting

---
 crates/formatter/src/printer/instr.rs |  2 +-
 crates/formatter/src/printer/mod.rs   | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..f91fab7 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -207,7 +207,7 @@ impl DocGen for BlockIfElse {
 impl DocGen for BlockIfThen {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        let mut trivias = format_trivias_at_node_start(self.syntax(), ctx);
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..cd3b725 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,17 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_trivias_after_start(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+/// Unlike others, this formats the trivias that are the first children of a node.
+fn format_trivias_at_node_start(node: &SyntaxNode, ctx: &Ctx) -> Vec<Doc<'static>> {
+    format_trivias_after_start(node.children_with_tokens(), ctx)
+}
+fn format_trivias_after_start(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From ed29da167d81b5b60b23d3b27cc1ff5cb349ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 10/47] fix: keep erroneous tokens at the end of nodes when
 formatting

---
 crates/formatter/src/printer/instr.rs  | 12 +++++++++---
 crates/formatter/src/printer/module.rs |  5 +++--
 crates/formatter/src/printer/ty.rs     |  4 ++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index f91fab7..3c3e58d 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -67,7 +67,9 @@ impl DocGen for BlockBlock {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -159,7 +161,9 @@ impl DocGen for BlockIf {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
+        docs.append(&mut trivias);
 
         Doc::list(docs)
     }
@@ -196,8 +200,8 @@ impl DocGen for BlockIfElse {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -235,8 +239,8 @@ impl DocGen for BlockIfThen {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -318,7 +322,9 @@ impl DocGen for BlockLoop {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -384,8 +390,8 @@ impl DocGen for PlainInstr {
             docs.push(operand.doc(ctx));
             trivias = format_trivias_after_node(operand, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 946692b..3291522 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -98,8 +98,8 @@ impl DocGen for ElemExpr {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -1152,8 +1152,8 @@ impl DocGen for Offset {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -1254,6 +1254,7 @@ impl DocGen for TypeUse {
             docs.push(result.doc(ctx));
             trivias = format_trivias_after_node(result, ctx);
         });
+        docs.append(&mut trivias);
 
         Doc::list(docs)
     }
diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 33e02da..22a174a 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -94,7 +94,9 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(share.to_string()));
+            trivias = format_trivias_after_token(share, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -189,7 +191,9 @@ impl DocGen for TableType {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ref_type.to_string()));
+            trivias = format_trivias_after_token(ref_type, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
-- 
2.43.0


From f21c78d6bd1a64fad0345002767373dc4e2b5d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:40 +0000
Subject: [PATCH 11/47] fix: don't treat identifier after the end of block as
 its label

---
 crates/syntax/src/ast/instr.rs | 64 ++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/crates/syntax/src/ast/instr.rs b/crates/syntax/src/ast/instr.rs
index 51d62d0..7f87b38 100644
--- a/crates/syntax/src/ast/instr.rs
+++ b/crates/syntax/src/ast/instr.rs
@@ -1,10 +1,8 @@
 use super::{module::TypeUse, ty::Result, SyntaxKind, SyntaxNode, SyntaxToken, WatLanguage};
-use rowan::{
-    ast::{
-        support::{child, children, token},
-        AstChildren, AstNode,
-    },
-    NodeOrToken,
+use crate::SyntaxElement;
+use rowan::ast::{
+    support::{child, children, token},
+    AstChildren, AstNode,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -22,7 +20,7 @@ impl BlockBlock {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -45,13 +43,7 @@ impl BlockBlock {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        block_end_ident(&self.syntax)
     }
 }
 impl AstNode for BlockBlock {
@@ -95,7 +87,7 @@ impl BlockIf {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -126,13 +118,7 @@ impl BlockIf {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        block_end_ident(&self.syntax)
     }
 }
 impl AstNode for BlockIf {
@@ -320,7 +306,7 @@ impl BlockLoop {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        block_ident(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -343,13 +329,7 @@ impl BlockLoop {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        block_end_ident(&self.syntax)
     }
 }
 impl AstNode for BlockLoop {
@@ -571,3 +551,27 @@ impl AstNode for PlainInstr {
         &self.syntax
     }
 }
+
+/// The label of a block comes before the other nodes and the end of the block,
+/// while there may be another identifier after them.
+fn is_before_label_end(element: &SyntaxElement) -> bool {
+    match element {
+        SyntaxElement::Node(..) => false,
+        SyntaxElement::Token(token) => match token.kind() {
+            SyntaxKind::KEYWORD => token.text() != "end",
+            kind => kind != SyntaxKind::R_PAREN,
+        },
+    }
+}
+fn block_ident(node: &SyntaxNode) -> Option<SyntaxToken> {
+    node.children_with_tokens()
+        .take_while(is_before_label_end)
+        .filter_map(|it| it.into_token())
+        .find(|token| token.kind() == SyntaxKind::IDENT)
+}
+fn block_end_ident(node: &SyntaxNode) -> Option<SyntaxToken> {
+    node.children_with_tokens()
+        .skip_while(is_before_label_end)
+        .filter_map(|it| it.into_token())
+        .find(|token| token.kind() == SyntaxKind::IDENT)
+}
-- 
2.43.0


From 3b5b82483837bb0bac1ef23ad64436a68ac35ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:02 +0000
Subject: [PATCH 12/47] fix: don't print an extra line before offsets and elem
 expressions after comments

---
 crates/formatter/src/printer/module.rs | 94 +++++++++++---------------
 1 file changed, 40 insertions(+), 54 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 3291522..a4a9759 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -53,17 +53,12 @@ impl DocGen for Elem {
             trivias = format_trivias_after_node(index, ctx);
         });
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -85,19 +80,22 @@ impl DocGen for ElemExpr {
             docs.push(Doc::text("item"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
-        docs.push(
-            Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
-                    docs.append(&mut trivias);
-                }
-                docs.push(instr.doc(ctx));
-                trivias = format_trivias_after_node(instr, ctx);
-                docs
-            }))
-            .nest(ctx.indent_width),
-        );
+        let mut instrs = Vec::with_capacity(1);
+        self.instrs().for_each(|instr| {
+            if !trivias.is_empty() {
+                instrs.append(&mut trivias);
+            } else if !docs.is_empty() || !instrs.is_empty() {
+                instrs.push(Doc::hard_line());
+            }
+            instrs.push(instr.doc(ctx));
+            trivias = format_trivias_after_node(instr, ctx);
+        });
+        let instrs = Doc::list(instrs);
+        if docs.is_empty() {
+            docs.push(instrs);
+        } else {
+            docs.push(instrs.nest(ctx.indent_width));
+        }
         docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
             docs.push(Doc::text(")"));
@@ -130,17 +128,12 @@ impl DocGen for ElemList {
             trivias = format_trivias_after_token(ref_type, ctx);
         }
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -573,17 +566,12 @@ impl DocGen for ModuleFieldData {
             trivias = format_trivias_after_node(mem_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         self.string_tokens().for_each(|string| {
@@ -642,17 +630,12 @@ impl DocGen for ModuleFieldElem {
             trivias = format_trivias_after_node(table_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         if let Some(elem_list) = self.elem_list() {
@@ -1139,19 +1122,22 @@ impl DocGen for Offset {
             docs.push(Doc::text("offset"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
-        docs.push(
-            Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
-                    docs.append(&mut trivias);
-                }
-                docs.push(instr.doc(ctx));
-                trivias = format_trivias_after_node(instr, ctx);
-                docs
-            }))
-            .nest(ctx.indent_width),
-        );
+        let mut instrs = Vec::with_capacity(1);
+        self.instrs().for_each(|instr| {
+            if !trivias.is_empty() {
+                instrs.append(&mut trivias);
+            } else if !docs.is_empty() || !instrs.is_empty() {
+                instrs.push(Doc::hard_line());
+            }
+            instrs.push(instr.doc(ctx));
+            trivias = format_trivias_after_node(instr, ctx);
+        });
+        let instrs = Doc::list(instrs);
+        if docs.is_empty() {
+            docs.push(instrs);
+        } else {
+            docs.push(instrs.nest(ctx.indent_width));
+        }
         docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
             docs.push(Doc::text(")"));
-- 
2.43.0


From 9a2106d7712a979f6358ad5b700b14d9ccd58d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:07 +0000
Subject: [PATCH 13/47] fix: indent strings of data segments when they are on
 their own lines

---
 crates/formatter/src/printer/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index a4a9759..d2f3103 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -576,7 +576,7 @@ impl DocGen for ModuleFieldData {
         }
         self.string_tokens().for_each(|string| {
             if trivias.is_empty() {
-                docs.push(Doc::soft_line());
+                docs.push(Doc::soft_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-- 
2.43.0


From ade83d743d5fa36450064fa56c8a2074c9190b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:41 +0000
Subject: [PATCH 14/47] fix: respect tabs before the node when formatting a
 range

---
 crates/formatter/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/formatter/src/lib.rs b/crates/formatter/src/lib.rs
index ff9fd3f..2af0990 100644
--- a/crates/formatter/src/lib.rs
+++ b/crates/formatter/src/lib.rs
@@ -33,7 +33,14 @@ pub fn format_range(
         node = it;
     }
     let range = node.text_range();
-    let col = line_index.line_col(TextSize::new(range.start().into())).col as usize;
+    let col = line_index.line_col(TextSize::new(range.start().into())).col;
+    // a tab is as wide as one indentation
+    let mut tabs = 0;
+    root.syntax()
+        .text()
+        .slice(range.start() - rowan::TextSize::new(col)..range.start())
+        .for_each_chunk(|chunk| tabs += chunk.chars().filter(|c| *c == '\t').count());
+    let col = col as usize + tabs * options.layout.indent_width.saturating_sub(1);
 
     let ctx = Ctx::new(options);
     let doc = format_node(node, &ctx)?.nest(col);
-- 
2.43.0


From 423f6813e1cfbe4996fb0d0e7ebce31d5f67750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:24 +0000
Subject: [PATCH 15/47] fix: report folded if blocks without then branch

---
 crates/parser/src/parser/instr.rs | 47 ++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..4dc2c95 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -249,13 +249,20 @@ fn block_if(input: &mut Input) -> GreenResult {
             trivias_prefixed(keyword("if")),
             opt(trivias_prefixed(ident)),
             opt(trivias_prefixed(block_type)),
-            repeat_till::<_, _, Vec<_>, _, _, _, _>(
+            repeat::<_, _, Vec<_>, _, _>(
                 0..,
-                retry(instr, []),
-                (trivias, l_paren, trivias_prefixed(keyword("then"))),
+                preceded(
+                    peek(not((trivias, '(', trivias, keyword("then")))),
+                    retry(instr, []),
+                ),
             ),
-            repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
-            r_paren,
+            must((
+                trivias,
+                l_paren,
+                trivias_prefixed(keyword("then")),
+                repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
+                r_paren,
+            )),
             opt((
                 trivias,
                 l_paren,
@@ -271,9 +278,8 @@ fn block_if(input: &mut Input) -> GreenResult {
                     mut if_keyword,
                     id,
                     block_type,
-                    (cond_instrs, (mut trivias_before_then, then_l_paren, mut then_keyword)),
-                    then_instrs,
-                    then_r_paren,
+                    cond_instrs,
+                    then_branch,
                     else_branch,
                     r_paren,
                 )| {
@@ -289,18 +295,21 @@ fn block_if(input: &mut Input) -> GreenResult {
                     cond_instrs
                         .into_iter()
                         .for_each(|mut instr| children.append(&mut instr));
-                    children.append(&mut trivias_before_then);
 
-                    let mut then_children = Vec::with_capacity(4);
-                    then_children.push(then_l_paren);
-                    then_children.append(&mut then_keyword);
-                    then_instrs
-                        .into_iter()
-                        .for_each(|mut instr| then_children.append(&mut instr));
-                    if let Some(mut r_paren) = then_r_paren {
-                        then_children.append(&mut r_paren);
+                    if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = then_branch
+                    {
+                        children.append(&mut trivias);
+                        let mut then_children = Vec::with_capacity(4);
+                        then_children.push(l_paren);
+                        then_children.append(&mut keyword);
+                        instrs
+                            .into_iter()
+                            .for_each(|mut instr| then_children.append(&mut instr));
+                        if let Some(mut r_paren) = r_paren {
+                            then_children.append(&mut r_paren);
+                        }
+                        children.push(node(BLOCK_IF_THEN, then_children));
                     }
-                    children.push(node(BLOCK_IF_THEN, then_children));
 
                     if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = else_branch
                     {
-- 
2.43.0


From 20f9f620ce4be7fd099bece316f26f1bda86c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:09 +0000
Subject: [PATCH 16/47] fix: report then, else and end keywords outside of
 blocks

---
 crates/parser/src/parser/instr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 4dc2c95..52d30f7 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -374,7 +374,8 @@ fn plain_instr(input: &mut Input) -> GreenResult {
 }
 
 fn instr_name(input: &mut Input) -> GreenResult {
-    word.context(StrContext::Label("instruction name"))
+    word.verify(|word: &str| !matches!(word, "then" | "else" | "end"))
+        .context(StrContext::Label("instruction name"))
         .parse_next(input)
         .map(|text| tok(INSTR_NAME, text))
 }
-- 
2.43.0


From d34ecb58b627567cbcd6c42c88010de60525e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:56 +0000
Subject: [PATCH 17/47] fix: resolve labels of enclosing blocks through
 branches and operands

---
 crates/service/src/binder.rs | 61 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..4281091 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,18 +267,8 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
-                            .ancestors()
-                            .find(|node| {
-                                matches!(
-                                    node.kind(),
-                                    SyntaxKind::BLOCK_BLOCK
-                                        | SyntaxKind::BLOCK_LOOP
-                                        | SyntaxKind::BLOCK_IF
-                                )
-                            })
-                            .map(SymbolItemKey::from)
-                        else {
+                        let scopes = get_label_scopes(&node).collect::<Vec<_>>();
+                        let Some(region) = scopes.first().cloned().map(SymbolItemKey::from) else {
                             continue;
                         };
                         node.children()
@@ -291,25 +281,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
-                                    },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                blocks.extend(scopes.iter().zip(0..).map(|(block, level)| {
+                                    let idx = Idx {
+                                        num: Some(level),
+                                        name: token(block, SyntaxKind::IDENT)
+                                            .map(|token| db.ident(token.text().to_string())),
+                                    };
+                                    (symbol.key.clone(), block.clone().into(), idx)
+                                }));
+                                symbols.push(symbol);
                             });
                     }
                     Some(
@@ -495,6 +475,25 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     Rc::new(SymbolTable { symbols, blocks })
 }
 
+/// Blocks whose labels are visible at the given node, from innermost to outermost.
+fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
+    node.ancestors()
+        .zip(node.ancestors().skip(1))
+        .filter_map(|(child, parent)| match parent.kind() {
+            SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => Some(parent),
+            // label of `if` isn't visible in its condition
+            SyntaxKind::BLOCK_IF
+                if matches!(
+                    child.kind(),
+                    SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+                ) =>
+            {
+                Some(parent)
+            }
+            _ => None,
+        })
+}
+
 impl SymbolTable {
     pub fn find_defs(&self, key: &SymbolItemKey) -> Option<impl Iterator<Item = &SymbolItem>> {
         self.symbols
-- 
2.43.0


From 6dc1126b9379d23d8aa4b205f0a7b73c806c1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 18/47] fix: resolve indexes written in hex or with digit
 separators

---
 crates/service/src/binder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 4281091..a070e28 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -475,6 +475,14 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     Rc::new(SymbolTable { symbols, blocks })
 }
 
+fn parse_index(text: &str) -> Option<u32> {
+    let digits = text.replace('_', "");
+    match digits.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16).ok(),
+        None => digits.parse().ok(),
+    }
+}
+
 /// Blocks whose labels are visible at the given node, from innermost to outermost.
 fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
     node.ancestors()
-- 
2.43.0


From bde592d4669388a56a6b0c5c0ce078e3d5ed17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:47 +0000
Subject: [PATCH 19/47] fix: bind names in elem segments, table uses, global
 exports and call_indirect

---
 crates/service/src/binder.rs | 127 +++++++++++++++++++++++++++--------
 1 file changed, 98 insertions(+), 29 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index a070e28..ada50c2 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -44,39 +44,45 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
             },
         })
     }
+    fn create_named_ref_symbol(
+        db: &dyn SymbolTablesCtx,
+        node: SyntaxNode,
+        region: SymbolItemKey,
+        kind: SymbolItemKind,
+    ) -> Option<SymbolItem> {
+        token(&node, SyntaxKind::IDENT).map(|ident| SymbolItem {
+            green: node.green().into(),
+            key: node.into(),
+            region,
+            kind,
+            idx: Idx {
+                num: None,
+                name: Some(db.ident(ident.text().to_string())),
+            },
+        })
+    }
     fn create_ref_symbol(
         db: &dyn SymbolTablesCtx,
         node: SyntaxNode,
         region: SymbolItemKey,
         kind: SymbolItemKind,
     ) -> Option<SymbolItem> {
-        token(&node, SyntaxKind::IDENT)
-            .map(|ident| SymbolItem {
-                key: node.clone().into(),
-                green: node.green().into(),
-                region: region.clone(),
-                kind: kind.clone(),
-                idx: Idx {
-                    num: None,
-                    name: Some(db.ident(ident.text().to_string())),
-                },
-            })
-            .or_else(|| {
-                node.children_with_tokens()
-                    .filter_map(|it| it.into_token())
-                    .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| parse_index(token.text()))
-                    .map(|num| SymbolItem {
-                        green: node.green().into(),
-                        key: node.into(),
-                        region,
-                        kind,
-                        idx: Idx {
-                            num: Some(num),
-                            name: None,
-                        },
-                    })
-            })
+        create_named_ref_symbol(db, node.clone(), region.clone(), kind.clone()).or_else(|| {
+            node.children_with_tokens()
+                .filter_map(|it| it.into_token())
+                .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
+                .and_then(|token| parse_index(token.text()))
+                .map(|num| SymbolItem {
+                    green: node.green().into(),
+                    key: node.into(),
+                    region,
+                    kind,
+                    idx: Idx {
+                        num: Some(num),
+                        name: None,
+                    },
+                })
+        })
     }
     fn create_import_desc_symbol(
         db: &dyn SymbolTablesCtx,
@@ -315,9 +321,24 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
-                        let mut children = node.children();
-                        if let Some(symbol) = children.next().and_then(|node| {
+                        // table is optional, and the last one is always the elem segment
+                        let mut indexes = node.children().filter_map(|node| {
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
+                        });
+                        if let Some((symbol, _)) = indexes.next().zip(indexes.next()) {
+                            symbols.push(symbol);
+                        }
+                    }
+                    Some("call_indirect" | "return_call_indirect") => {
+                        let Some(region) = node
+                            .ancestors()
+                            .find(|node| node.kind() == SyntaxKind::MODULE)
+                            .map(SymbolItemKey::from)
+                        else {
+                            continue;
+                        };
+                        if let Some(symbol) = node.children().next().and_then(|node| {
+                            create_named_ref_symbol(db, node, region, SymbolItemKind::TableRef)
                         }) {
                             symbols.push(symbol);
                         }
@@ -351,6 +372,38 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
+            SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => {
+                let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                else {
+                    continue;
+                };
+                symbols.extend(
+                    node.children()
+                        .filter(|child| child.kind() == SyntaxKind::INDEX)
+                        .filter_map(|index| {
+                            create_named_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                        }),
+                );
+            }
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_named_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
             SyntaxKind::TYPE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
@@ -405,6 +458,22 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
+            SyntaxKind::TABLE_USE => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_named_ref_symbol(db, index, region, SymbolItemKind::TableRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
             SyntaxKind::EXPORT_DESC_TABLE => {
                 if let Some(symbol) = node
                     .ancestors()
-- 
2.43.0


From 80e1fb4baaadce2fc10ea261e00a6bf6cc526ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:19 +0000
Subject: [PATCH 20/47] fix: only list branches that target the block as its
 references

---
 crates/service/src/features/references.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..0d5c5cd 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -370,14 +370,11 @@ fn get_block_refs(
     }
     locations.extend(
         symbol_table
-            .blocks
+            .symbols
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
-            .filter_map(|(ref_key, _, _)| {
-                symbol_table
-                    .symbols
-                    .iter()
-                    .find(|symbol| &symbol.key == ref_key)
+            .filter(|symbol| {
+                symbol.kind == SymbolItemKind::BlockRef
+                    && symbol_table.find_block_def(&symbol.key) == Some(def_symbol)
             })
             .map(|symbol| create_location_by_symbol(params, line_index, symbol, root)),
     );
-- 
2.43.0


From e9e6849941ae7b215cd862014a434a956829a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 21/47] fix: only rename symbols that have the same name

---
 crates/service/src/features/rename.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..855358f 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,6 +71,11 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def = match symbol.kind {
+            SymbolItemKind::BlockDef => Some(symbol),
+            SymbolItemKind::BlockRef => symbol_table.find_block_def(&symbol_key),
+            _ => None,
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -88,27 +93,12 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                    symbol.region == sym.region && sym.idx.name.is_some_and(|name| name == old_name)
                 }
+                SymbolItemKind::BlockDef => block_def == Some(*sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
-                        })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
+                        || block_def.is_some() && symbol_table.find_block_def(&sym.key) == block_def
                 }
                 SymbolItemKind::Module => false,
             })
-- 
2.43.0


From 849b407a37cd52ba1a15ccc5eb743c016e7e0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 22/47] fix: rename labels after else and end along with the
 block

---
 crates/service/src/features/rename.rs | 37 ++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 855358f..40150cc 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -10,9 +10,9 @@ use lsp_types::{
     PrepareRenameResponse, RenameParams, TextDocumentPositionParams, TextEdit, WorkspaceEdit,
 };
 use rowan::ast::support;
-use std::collections::HashMap;
+use std::{collections::HashMap, iter};
 use wat_parser::is_id_char;
-use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
 
 const ERR_INVALID_IDENTIFIER: &str = "not a valid identifier";
 const ERR_CANT_BE_RENAMED: &str = "This can't be renamed.";
@@ -66,7 +66,14 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let symbol_key = ident_token
+            .parent()
+            .and_then(|parent| match parent.kind() {
+                // label of the `if` block
+                SyntaxKind::BLOCK_IF_ELSE => parent.parent(),
+                _ => Some(parent),
+            })?
+            .into();
         let symbol = symbol_table
             .symbols
             .iter()
@@ -102,7 +109,29 @@ impl LanguageService {
                 }
                 SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| {
+                let node = sym.key.ptr.to_node(&root);
+                let mut tokens = support::token(&node, SyntaxKind::IDENT)
+                    .into_iter()
+                    .collect::<Vec<_>>();
+                if sym.kind == SymbolItemKind::BlockDef {
+                    // label can be repeated after `else` and `end`
+                    tokens.extend(
+                        node.children()
+                            .filter(|child| child.kind() == SyntaxKind::BLOCK_IF_ELSE)
+                            .chain(iter::once(node.clone()))
+                            .flat_map(|node| node.children_with_tokens())
+                            .filter_map(SyntaxElement::into_token)
+                            .filter(|token| {
+                                token.kind() == SyntaxKind::IDENT
+                                    && Some(token) != tokens.first()
+                                    && self.ident(token.text().to_string()) == old_name
+                            })
+                            .collect::<Vec<_>>(),
+                    );
+                }
+                tokens
+            })
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
-- 
2.43.0


From caae9649e73fc309caffbee308edd2dfb2ac9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 23/47] fix: report duplicated names of tables

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From e61130ed09b2cae1019f88c4fb35ee230c0eea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 24/47] fix: don't rename locals when renaming a label

---
 crates/service/src/features/rename.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index 40150cc..eacdee2 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -100,7 +100,9 @@ impl LanguageService {
                 | SymbolItemKind::MemoryRef
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region && sym.idx.name.is_some_and(|name| name == old_name)
+                    block_def.is_none()
+                        && symbol.region == sym.region
+                        && sym.idx.name.is_some_and(|name| name == old_name)
                 }
                 SymbolItemKind::BlockDef => block_def == Some(*sym),
                 SymbolItemKind::BlockRef => {
-- 
2.43.0


From d037435906e2ae9f7f75d0f98140c28bfc8f6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:34 +0000
Subject: [PATCH 25/47] fix: don't report errors when optional immediates are
 omitted or repeated

---
 crates/service/src/checker/literal_operands.rs |  2 ++
 crates/service/src/checker/typeck.rs           | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..89bdba9 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -17,6 +17,8 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         ($kind:pat, $msg:literal) => {
             if let Some(operand) = operands
                 .next()
+                // it's an argument from the stack, and the immediate is omitted
+                .filter(|operand| operand.instr().is_none())
                 .and_then(|operand| operand.syntax().first_token())
             {
                 if !matches!(operand.kind(), $kind) {
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..445d362 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -42,6 +42,11 @@ pub fn check_folded(
 
     let skipped_count = if is_call {
         1
+    } else if has_variable_immediates(instr_name.text()) {
+        instr
+            .operands()
+            .take_while(|operand| operand.instr().is_none())
+            .count()
     } else {
         meta.map(|meta| meta.operands_count).unwrap_or_default()
     };
@@ -224,6 +229,19 @@ pub fn check_stacked(
     });
 }
 
+/// Some immediates can be omitted or can be more than one.
+fn has_variable_immediates(instr_name: &str) -> bool {
+    match instr_name.split_once('.') {
+        Some(("table", _)) => true,
+        Some((_, name)) => {
+            name.starts_with("load")
+                || name.starts_with("store")
+                || matches!(instr_name, "i8x16.shuffle" | "v128.const")
+        }
+        None => instr_name == "select",
+    }
+}
+
 fn resolve_type(
     service: &LanguageService,
     uri: InternUri,
-- 
2.43.0


From 254d2ae08dc0cd425639d996bf54dd0d87668308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 26/47] fix: check calls of imported functions and functions
 with type uses

---
 crates/service/src/checker/typeck.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 445d362..4cd0fb9 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -317,7 +318,9 @@ fn resolve_expected_types(
                     symbol.key.ptr.text_range(),
                     "parameter originally defined here".into(),
                 ))
-            });
+            })
+            // parameters may come from the referenced type, or belong to an imported function
+            .chain(iter::repeat(None));
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
-- 
2.43.0


From 9b088ada876c82f8c00dff7dd91c177b7cb586a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:41 +0000
Subject: [PATCH 27/47] fix: don't check operands when the values on the stack
 are unknown

---
 crates/service/src/checker/typeck.rs | 160 ++++++++++++++-------------
 1 file changed, 84 insertions(+), 76 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 4cd0fb9..2e23bb5 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -51,14 +51,20 @@ pub fn check_folded(
     } else {
         meta.map(|meta| meta.operands_count).unwrap_or_default()
     };
+    let mut has_unknown = false;
     let received_types =
         instr
             .operands()
             .skip(skipped_count)
             .fold(vec![], |mut received, operand| {
                 if let Some(instr) = operand.instr() {
-                    if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                        received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                    match resolve_type(service, uri, symbol_table, &instr) {
+                        // positions of values after the unknown one are unknown, too
+                        _ if has_unknown => {}
+                        Some(types) => {
+                            received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                        }
+                        None => has_unknown = true,
                     }
                 } else if meta.is_some() {
                     diags.push(Diagnostic {
@@ -84,7 +90,7 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    if !has_unknown && expected_count != received_count {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
@@ -152,82 +158,84 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
-    children::<Instr>(node).for_each(|instr| {
-        if let Instr::Plain(plain_instr) = &instr {
-            let Some(instr_name) = plain_instr.instr_name() else {
-                return;
-            };
-            let meta = data_set::INSTR_METAS.get(instr_name.text());
-            let Some(params) =
-                resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
-            else {
-                return;
-            };
-            let expected_count = if plain_instr.l_paren_token().is_some() {
-                0
-            } else {
-                params.len()
-            };
-            let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
-                count
-            } else {
-                diags.push(Diagnostic {
-                    range: helpers::rowan_range_to_lsp_range(
-                        line_index,
-                        instr.syntax().text_range(),
-                    ),
-                    severity: Some(DiagnosticSeverity::ERROR),
-                    source: Some("wat".into()),
-                    message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
-                    ..Default::default()
-                });
-                0
-            };
-            let type_mismatches = params
-                .iter()
-                .zip(types_stack.drain(pop_count..))
-                .filter_map(|pair| {
-                    if let (
-                        (OperandType::Val(expected), related),
-                        (OperandType::Val(received), related_instr),
-                    ) = pair
-                    {
-                        if expected == &received {
-                            None
-                        } else {
-                            Some(Diagnostic {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    line_index,
-                                    related_instr.syntax().text_range(),
-                                ),
-                                severity: Some(DiagnosticSeverity::ERROR),
-                                source: Some("wat".into()),
-                                message: format!("expected type `{expected}`, found `{received}`"),
-                                related_information: related.as_ref().map(|(range, message)| {
-                                    vec![DiagnosticRelatedInformation {
-                                        location: Location {
-                                            uri: service.lookup_uri(uri),
-                                            range: helpers::rowan_range_to_lsp_range(
-                                                line_index, *range,
-                                            ),
-                                        },
-                                        message: message.clone(),
-                                    }]
-                                }),
-                                ..Default::default()
-                            })
-                        }
-                    } else {
+    for instr in children::<Instr>(node) {
+        // Once values on the stack are unknown, we can't check the rest of instructions.
+        let Instr::Plain(plain_instr) = &instr else {
+            return;
+        };
+        let Some(instr_name) = plain_instr.instr_name() else {
+            return;
+        };
+        if instr_name.text() == "nop" {
+            continue;
+        }
+        let meta = data_set::INSTR_METAS.get(instr_name.text());
+        let Some(params) = resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
+        else {
+            return;
+        };
+        let expected_count = if plain_instr.l_paren_token().is_some() {
+            0
+        } else {
+            params.len()
+        };
+        let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
+            count
+        } else {
+            diags.push(Diagnostic {
+                range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
+                severity: Some(DiagnosticSeverity::ERROR),
+                source: Some("wat".into()),
+                message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
+                ..Default::default()
+            });
+            0
+        };
+        let type_mismatches = params
+            .iter()
+            .zip(types_stack.drain(pop_count..))
+            .filter_map(|pair| {
+                if let (
+                    (OperandType::Val(expected), related),
+                    (OperandType::Val(received), related_instr),
+                ) = pair
+                {
+                    if expected == &received {
                         None
+                    } else {
+                        Some(Diagnostic {
+                            range: helpers::rowan_range_to_lsp_range(
+                                line_index,
+                                related_instr.syntax().text_range(),
+                            ),
+                            severity: Some(DiagnosticSeverity::ERROR),
+                            source: Some("wat".into()),
+                            message: format!("expected type `{expected}`, found `{received}`"),
+                            related_information: related.as_ref().map(|(range, message)| {
+                                vec![DiagnosticRelatedInformation {
+                                    location: Location {
+                                        uri: service.lookup_uri(uri),
+                                        range: helpers::rowan_range_to_lsp_range(
+                                            line_index, *range,
+                                        ),
+                                    },
+                                    message: message.clone(),
+                                }]
+                            }),
+                            ..Default::default()
+                        })
                     }
-                });
-            diags.extend(type_mismatches);
+                } else {
+                    None
+                }
+            });
+        diags.extend(type_mismatches);
 
-            if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
-            }
-        }
-    });
+        let Some(types) = resolve_type(service, uri, symbol_table, &instr) else {
+            return;
+        };
+        types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+    }
 }
 
 /// Some immediates can be omitted or can be more than one.
-- 
2.43.0


From ba7d3fb4571e58289e561d350db4a82b30fe330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:19 +0000
Subject: [PATCH 28/47] fix: count columns in UTF-16 code units and tolerate
 positions outside of the document

---
 .../service/src/features/semantic_tokens.rs   | 15 +++---
 crates/service/src/files.rs                   | 17 +++----
 crates/service/src/helpers.rs                 | 49 +++++++++++++------
 3 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..34d8c1a 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -86,8 +85,8 @@ impl LanguageService {
                 } else {
                     None
                 };
-                let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let col = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start())
+                    .character;
                 Some(SemanticToken {
                     delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
                     delta_start: col
@@ -99,7 +98,7 @@ impl LanguageService {
                                 col
                             },
                         ),
-                    length: range.len().into(),
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..bf9b838 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,7 +1,7 @@
-use crate::InternUri;
-use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
-use rowan::GreenNode;
+use crate::{helpers, InternUri};
+use line_index::LineIndex;
+use lsp_types::{Diagnostic, DiagnosticSeverity, Uri};
+use rowan::{GreenNode, TextRange, TextSize};
 use std::rc::Rc;
 use wat_parser::Parser;
 
@@ -38,13 +38,10 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
+            let start = TextSize::new(error.start as u32);
+            let end = TextSize::new(error.end as u32);
             Diagnostic {
-                range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
-                ),
+                range: helpers::rowan_range_to_lsp_range(&line_index, TextRange::new(start, end)),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
                 message: format!("syntax error: {}", error.message),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..9282b3e 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    // columns are counted in UTF-16 code units by default in LSP
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |line_col| line_col.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -15,23 +19,36 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
-        line: pos.line,
-        col: pos.character,
-    })
+    let line_col = line_index.to_utf8(
+        WideEncoding::Utf16,
+        WideLineCol {
+            line: pos.line,
+            col: pos.character,
+        },
+    )?;
+    let line_start = line_index.offset(LineCol {
+        line: line_col.line,
+        col: 0,
+    })?;
+    // position after the end of the line refers to the end of the line
+    let line_end = line_index
+        .offset(LineCol {
+            line: line_col.line + 1,
+            col: 0,
+        })
+        .map_or(line_index.len(), |next_line| next_line - TextSize::new(1));
+    let offset = u32::from(line_start)
+        .saturating_add(line_col.col)
+        .min(line_end.into())
+        .into();
+    line_index.try_line_col(offset).map(|_| offset)
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From f1cdf9a622dba92d3a4f23d7ea666b2bbbaf0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 29/47] fix: list document symbols in source order

---
 crates/service/src/features/document_symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/document_symbol.rs b/crates/service/src/features/document_symbol.rs
index bade8e2..b38e4a9 100644
--- a/crates/service/src/features/document_symbol.rs
+++ b/crates/service/src/features/document_symbol.rs
@@ -171,7 +171,7 @@ impl LanguageService {
                 }
             })
             .collect::<Vec<_>>();
-        lsp_symbols.reverse();
+        lsp_symbols.sort_unstable_by_key(|symbol| symbol.range.start);
         Some(DocumentSymbolResponse::Nested(lsp_symbols))
     }
 }
-- 
2.43.0


From d3fdb653231e6f1ca4b6bbe685fc41f3c051ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 30/47] fix: keep positions of semantic tokens after comments
 that client doesn't highlight

---
 crates/service/src/features/semantic_tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 34d8c1a..4970ac8 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -71,15 +71,15 @@ impl LanguageService {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
+                let token_type = self.token_type(uri, &token);
+                if token_type.is_none() {
                     let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
                     if lines > 0 {
                         *delta_line += lines;
                         *prev_start = 0;
                     }
-                    return None;
                 }
-                let token_type = self.token_type(uri, &token)?;
+                let token_type = token_type?;
                 let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
                     Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
                 } else {
-- 
2.43.0


From 611c7f683a087918e84c7050a83984d9acb9019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:06 +0000
Subject: [PATCH 31/47] fix: don't report labels that share the name with
 siblings or locals as duplicated

---
 crates/service/src/checker/dup_names.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index 2ad1a1c..f591c5a 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -33,7 +33,6 @@ pub fn check(
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
                         | SymbolItemKind::TableDef
-                        | SymbolItemKind::BlockDef
                 )
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
-- 
2.43.0


From d7e4b273571b9c6c0d0312b8c35e396e90f93220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 32/47] fix: report literals passed as arguments of calls

---
 crates/service/src/checker/typeck.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 2e23bb5..5886189 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -66,7 +66,7 @@ pub fn check_folded(
                         }
                         None => has_unknown = true,
                     }
-                } else if meta.is_some() {
+                } else if is_call || meta.is_some() {
                     diags.push(Diagnostic {
                         range: helpers::rowan_range_to_lsp_range(
                             line_index,
-- 
2.43.0


From f73cdc2c07243018f35904ba18bfaf9fd8dcc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:47 +0000
Subject: [PATCH 33/47] fix: check calls of functions without parameters and
 results

---
 crates/service/src/types_analyzer.rs | 49 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..e016726 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,30 +83,31 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
-    symbol
-        .green
-        .children()
-        .find_map(|child| match child {
-            NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
-            _ => None,
-        })
-        .and_then(|type_use| {
-            if type_use.children().any(|child| {
-                let kind = child.kind();
-                kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
-            }) {
-                Some(db.extract_sig(type_use.to_owned()))
-            } else {
-                let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
-                let symbol_table = db.symbol_table(uri);
-                child::<TypeUse>(&node)
-                    .and_then(|type_use| type_use.index())
-                    .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
-                    .and_then(|mut symbols| symbols.next())
-                    .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
-                    .map(|func_type| db.extract_sig(func_type))
-            }
-        })
+    let Some(type_use) = symbol.green.children().find_map(|child| match child {
+        NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
+        _ => None,
+    }) else {
+        // neither parameters nor results
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    };
+    if type_use.children().any(|child| {
+        let kind = child.kind();
+        kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
+    }) {
+        Some(db.extract_sig(type_use.to_owned()))
+    } else {
+        let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
+        let symbol_table = db.symbol_table(uri);
+        child::<TypeUse>(&node)
+            .and_then(|type_use| type_use.index())
+            .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
+            .and_then(|mut symbols| symbols.next())
+            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+            .map(|func_type| db.extract_sig(func_type))
+    }
 }
 
 fn render_func_header(
-- 
2.43.0


From 9ca3d799916756d9a07167b609053193c2fcd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:21 +0000
Subject: [PATCH 34/47] fix: report identifiers after folded blocks

---
 crates/parser/src/parser/instr.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 52d30f7..c12f55d 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -80,10 +80,9 @@ fn block_block(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -99,9 +98,6 @@ fn block_block(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_BLOCK, children)
                 },
             ),
@@ -150,10 +146,9 @@ fn block_loop(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
             r_paren,
-            opt(trivias_prefixed(ident)),
         )
             .map(
-                |(l_paren, mut keyword, label, block_type, instrs, r_paren, id)| {
+                |(l_paren, mut keyword, label, block_type, instrs, r_paren)| {
                     let mut children = Vec::with_capacity(6);
                     children.push(l_paren);
                     children.append(&mut keyword);
@@ -169,9 +164,6 @@ fn block_loop(input: &mut Input) -> GreenResult {
                     if let Some(mut r_paren) = r_paren {
                         children.append(&mut r_paren);
                     }
-                    if let Some(mut id) = id {
-                        children.append(&mut id);
-                    }
                     node(BLOCK_LOOP, children)
                 },
             ),
-- 
2.43.0


From 6fd52ff48291bda2eaab6078d88da456ac43d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 35/47] fix: keep lane index when fixing invalid memory
 argument

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..b48a5a1 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,25 +31,27 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
-                        .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
+                    let token =
+                        children
+                            .next()
+                            .and_then(SyntaxElement::into_token)
+                            .filter(|token| {
                                 token.kind() == SyntaxKind::ERROR
                                     && token.text().strip_prefix('=').is_some_and(|rest| {
                                         rest.chars().all(|c| c.is_ascii_digit())
                                     })
-                            } else {
-                                false
-                            }
-                        })
-                        .and(range)
-                    {
+                            });
+                    if let Some((token, range)) = token.zip(range) {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
+                        let range = if token.text() == "=" {
+                            check_after_eq(&mut children)
+                        } else {
+                            None
+                        };
+                        if let Some(range) = range {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
-- 
2.43.0


From 530344b7901aec43543f67310c66e5a435e0c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 36/47] fix: keep comments when splitting or joining parameters

---
 crates/service/src/helpers.rs                 | 14 +++++
 .../src/refactorings/func_header_split.rs     | 55 +++++++++++++------
 .../service/src/refactorings/params_join.rs   | 54 +++++++++++-------
 3 files changed, 86 insertions(+), 37 deletions(-)

diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 9282b3e..f41c52a 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,6 +1,7 @@
 use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
+use wat_syntax::{SyntaxElement, SyntaxKind};
 
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
@@ -51,6 +52,19 @@ pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<
         .map(|(start, end)| TextRange::new(start, end))
 }
 
+/// Print trivias that should be kept as is when moving code around,
+/// unless they consist of whitespaces only.
+pub(crate) fn print_trivias(trivias: &[SyntaxElement], default: &str) -> String {
+    if trivias
+        .iter()
+        .all(|element| element.kind() == SyntaxKind::WHITESPACE)
+    {
+        default.into()
+    } else {
+        trivias.iter().map(ToString::to_string).collect()
+    }
+}
+
 pub(crate) mod ast {
     use rowan::{GreenNode, NodeOrToken};
     use wat_syntax::SyntaxKind;
diff --git a/crates/service/src/refactorings/func_header_split.rs b/crates/service/src/refactorings/func_header_split.rs
index ed7a23a..6c0c612 100644
--- a/crates/service/src/refactorings/func_header_split.rs
+++ b/crates/service/src/refactorings/func_header_split.rs
@@ -2,7 +2,7 @@ use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
 use std::collections::HashMap;
-use wat_syntax::{SyntaxKind, SyntaxNode};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
 
 pub fn act(
     service: &LanguageService,
@@ -11,14 +11,12 @@ pub fn act(
     node: &SyntaxNode,
     kind: SyntaxKind,
 ) -> Option<CodeAction> {
-    let types = node
+    if node
         .children()
         .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .count()
+        < 2
+    {
         return None;
     }
 
@@ -28,16 +26,39 @@ pub fn act(
         SyntaxKind::LOCAL => "local",
         _ => return None,
     };
-    let new_text = rest
-        .iter()
-        .fold(format!("({keyword} {first})"), |mut new_text, ty| {
-            new_text.push_str(" (");
-            new_text.push_str(keyword);
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text.push(')');
-            new_text
-        });
+    let mut new_text = String::new();
+    let mut trivias = vec![];
+    let mut has_type = false;
+    for element in node.children_with_tokens() {
+        match element {
+            SyntaxElement::Node(ty) if ty.kind() == SyntaxKind::VAL_TYPE => {
+                if has_type {
+                    new_text.push(')');
+                    new_text.push_str(&helpers::print_trivias(&trivias, " "));
+                    new_text.push('(');
+                    new_text.push_str(keyword);
+                    new_text.push(' ');
+                } else {
+                    new_text.push_str(&helpers::print_trivias(&trivias, " "));
+                }
+                new_text.push_str(&ty.to_string());
+                trivias.clear();
+                has_type = true;
+            }
+            SyntaxElement::Token(token)
+                if matches!(
+                    token.kind(),
+                    SyntaxKind::L_PAREN | SyntaxKind::R_PAREN | SyntaxKind::KEYWORD
+                ) =>
+            {
+                new_text.push_str(&helpers::print_trivias(&trivias, ""));
+                new_text.push_str(token.text());
+                trivias.clear();
+            }
+            element => trivias.push(element),
+        }
+    }
+    new_text.push_str(&helpers::print_trivias(&trivias, ""));
 
     #[expect(clippy::mutable_key_type)]
     let mut changes = HashMap::with_capacity(1);
diff --git a/crates/service/src/refactorings/params_join.rs b/crates/service/src/refactorings/params_join.rs
index bfd66af..6fe2877 100644
--- a/crates/service/src/refactorings/params_join.rs
+++ b/crates/service/src/refactorings/params_join.rs
@@ -1,9 +1,9 @@
 use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
-use rowan::TextRange;
+use rowan::{Direction, TextRange};
 use std::collections::HashMap;
-use wat_syntax::{SyntaxKind, SyntaxNode};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
 
 pub fn act(
     service: &LanguageService,
@@ -20,28 +20,42 @@ pub fn act(
     let [first_node, ..] = &params[..] else {
         return None;
     };
-    let types = params
+    let last_node = params.last().unwrap_or(first_node);
+    if params
         .iter()
-        .flat_map(|param| {
-            param
-                .children()
-                .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
-        })
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .flat_map(|param| param.children())
+        .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
+        .count()
+        < 2
+    {
         return None;
     }
 
-    let mut new_text = rest
-        .iter()
-        .fold(format!("(param {first}"), |mut new_text, ty| {
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text
+    let mut new_text = "(param".to_string();
+    let mut trivias = vec![];
+    first_node
+        .siblings_with_tokens(Direction::Next)
+        .take_while(|element| element.text_range().end() <= last_node.text_range().end())
+        .flat_map(|element| match element {
+            SyntaxElement::Node(node) if node.kind() == SyntaxKind::PARAM => {
+                node.children_with_tokens().collect()
+            }
+            element => vec![element],
+        })
+        .for_each(|element| match element {
+            SyntaxElement::Node(ty) if ty.kind() == SyntaxKind::VAL_TYPE => {
+                new_text.push_str(&helpers::print_trivias(&trivias, " "));
+                new_text.push_str(&ty.to_string());
+                trivias.clear();
+            }
+            SyntaxElement::Token(token)
+                if matches!(
+                    token.kind(),
+                    SyntaxKind::L_PAREN | SyntaxKind::R_PAREN | SyntaxKind::KEYWORD
+                ) => {}
+            element => trivias.push(element),
         });
+    new_text.push_str(&helpers::print_trivias(&trivias, ""));
     new_text.push(')');
 
     #[expect(clippy::mutable_key_type)]
@@ -53,7 +67,7 @@ pub fn act(
                 line_index,
                 TextRange::new(
                     first_node.text_range().start(),
-                    params.last().unwrap_or(first_node).text_range().end(),
+                    last_node.text_range().end(),
                 ),
             ),
             new_text,
-- 
2.43.0


From ff90b723f17d52b479d8f168e51dff45bfaba239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:49 +0000
Subject: [PATCH 37/47] fix: offer rewrites when refactors are requested

---
 crates/service/src/features/code_action.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/code_action.rs b/crates/service/src/features/code_action.rs
index 8dab998..179575b 100644
--- a/crates/service/src/features/code_action.rs
+++ b/crates/service/src/features/code_action.rs
@@ -13,7 +13,7 @@ impl LanguageService {
         params.context.only.into_iter().flatten().for_each(|kind| {
             if kind == CodeActionKind::QUICKFIX {
                 quickfix = true;
-            } else if kind == CodeActionKind::REFACTOR_REWRITE {
+            } else if kind == CodeActionKind::REFACTOR || kind == CodeActionKind::REFACTOR_REWRITE {
                 rewrite = true;
             }
         });
-- 
2.43.0


From 0732901ee2c80d9227ca0ea5133899ba8548e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 38/47] fix: accept several results in block types

---
 crates/parser/src/parser/instr.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index c12f55d..99ddf6d 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -33,7 +33,21 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        (
+            result,
+            repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(result)),
+        )
+            .map(|(first, rest)| {
+                if rest.is_empty() {
+                    node(BLOCK_TYPE, [first])
+                } else {
+                    let mut children = Vec::with_capacity(3);
+                    children.push(first);
+                    rest.into_iter()
+                        .for_each(|mut result| children.append(&mut result));
+                    node(BLOCK_TYPE, [node(TYPE_USE, children)])
+                }
+            }),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From 250751b24c5715913a6f3a8cf411f25d279fc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:07 +0000
Subject: [PATCH 39/47] fix: use the last content change of document

---
 crates/server/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..a076d80 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -400,7 +400,8 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        // only the last one matters since each of them is the full text
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From 2b19bdc76f72212d9b5874344b1295efcc300e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:26 +0000
Subject: [PATCH 40/47] fix: respond to requests of unknown methods or with
 invalid parameters

---
 crates/server/src/server.rs | 133 +++++++++++++++++++++++++++++-------
 1 file changed, 110 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index a076d80..3408fb9 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,6 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+    ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +49,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +62,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +79,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +96,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +113,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +130,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +147,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +164,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +181,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +198,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +215,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +232,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +249,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +264,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +281,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +298,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +315,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +341,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +358,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +375,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +392,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +408,19 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(r)) => {
+                            respond_error(
+                                &conn,
+                                id,
+                                ErrorCode::MethodNotFound,
+                                format!("unknown request method `{}`", r.method),
+                            )?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -436,6 +509,20 @@ impl Server {
     }
 }
 
+fn respond_error(
+    conn: &Connection,
+    id: RequestId,
+    code: ErrorCode,
+    message: String,
+) -> anyhow::Result<()> {
+    conn.sender.send(Message::Response(Response::new_err(
+        id,
+        code as i32,
+        message,
+    )))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 886b0d689078ca9bcbddbf08440dd4b48a7a69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:12 +0000
Subject: [PATCH 41/47] fix: only complete labels that are visible

---
 crates/service/src/binder.rs              |  2 +-
 crates/service/src/features/completion.rs | 27 +++++++++--------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index ada50c2..e48c9c5 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -553,7 +553,7 @@ fn parse_index(text: &str) -> Option<u32> {
 }
 
 /// Blocks whose labels are visible at the given node, from innermost to outermost.
-fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
+pub(crate) fn get_label_scopes(node: &SyntaxNode) -> impl Iterator<Item = SyntaxNode> {
     node.ancestors()
         .zip(node.ancestors().skip(1))
         .filter_map(|(child, parent)| match parent.kind() {
diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..8dab7f0 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -1,5 +1,5 @@
 use crate::{
-    binder::{SymbolItemKind, SymbolTable, SymbolTablesCtx},
+    binder::{get_label_scopes, SymbolItemKind, SymbolTable, SymbolTablesCtx},
     data_set,
     files::FilesCtx,
     helpers,
@@ -584,25 +584,18 @@ fn get_cmp_list(
                     );
                 }
                 CmpCtx::Block => {
+                    let Some(parent) = token.parent() else {
+                        return items;
+                    };
                     let has_dollar = token.text().starts_with('$');
                     items.extend(
-                        symbol_table
-                            .symbols
-                            .iter()
-                            .filter(|symbol| {
-                                symbol.kind == SymbolItemKind::BlockDef
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(token.text_range())
-                            })
-                            .rev()
-                            .enumerate()
-                            .filter_map(|(num, symbol)| {
+                        get_label_scopes(&parent)
+                            .zip(0..)
+                            .filter_map(|(block, num)| {
                                 let idx = Idx {
-                                    num: Some(num as u32),
-                                    name: symbol.idx.name,
+                                    num: Some(num),
+                                    name: support::token(&block, SyntaxKind::IDENT)
+                                        .map(|token| service.ident(token.text().to_string())),
                                 };
                                 let (label, insert_text) =
                                     get_idx_cmp_text(service, &idx, has_dollar)?;
-- 
2.43.0


From 69046b7a32c45a32442f3891b6bca26c9eadf6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:19 +0000
Subject: [PATCH 42/47] fix: complete indexes in table uses, memory uses and
 elem lists

---
 crates/service/src/features/completion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 8dab7f0..055727b 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -175,8 +175,9 @@ fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
                 }
                 SyntaxKind::TYPE_USE => ctx.push(CmpCtx::FuncType),
                 SyntaxKind::EXPORT_DESC_GLOBAL => ctx.push(CmpCtx::Global),
-                SyntaxKind::EXPORT_DESC_MEMORY => ctx.push(CmpCtx::Memory),
-                SyntaxKind::EXPORT_DESC_TABLE => ctx.push(CmpCtx::Table),
+                SyntaxKind::EXPORT_DESC_MEMORY | SyntaxKind::MEM_USE => ctx.push(CmpCtx::Memory),
+                SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => ctx.push(CmpCtx::Table),
+                SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => ctx.push(CmpCtx::Func),
                 _ => {}
             }
         }
-- 
2.43.0


From 84f246da5e1f13d1cf135ebf616b3c660709220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 43/47] fix: wrong semantic tokens after multi-line strings

---
 .../service/src/features/semantic_tokens.rs   | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 4970ac8..028191b 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -80,24 +80,13 @@ impl LanguageService {
                     }
                 }
                 let token_type = token_type?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
-                };
+                // block comments and strings can be multi-line
+                let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
                 let col = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start())
                     .character;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
+                    delta_line: mem::replace(delta_line, lines),
+                    delta_start: col - mem::replace(prev_start, if lines > 0 { 0 } else { col }),
                     length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
-- 
2.43.0


From 8920bf898931196da6154901aa8fdf121f403e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 44/47] fix: report strings that are not closed

---
 crates/parser/src/parser/token.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index dbb0b1b..41c28f9 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -1,4 +1,4 @@
-use super::{tok, GreenElement, GreenResult, Input};
+use super::{must, tok, GreenElement, GreenResult, Input};
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
@@ -173,14 +173,20 @@ pub fn is_id_char(c: char) -> bool {
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-    string_impl
-        .context(StrContext::Expected(StrContextValue::Description(
+    (
+        string_content.context(StrContext::Expected(StrContextValue::Description(
             "string literal",
-        )))
+        ))),
+        must('"'.context(StrContext::Expected(StrContextValue::CharLiteral('"')))),
+    )
+        .take()
         .parse_next(input)
         .map(|text| tok(STRING, text))
 }
 fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+    (string_content, opt('"')).take().parse_next(input)
+}
+fn string_content<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     (
         '"',
         take_escaped(
@@ -191,7 +197,7 @@ fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
                 _ => empty,
             },
         ),
-        alt(("\"", peek(line_ending), eof)),
+        peek(alt(("\"", line_ending, eof))),
     )
         .take()
         .parse_next(input)
-- 
2.43.0


From 64dc01165108b0664214fc1b33715e344f1737d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:08 +0000
Subject: [PATCH 45/47] fix: report numbers that run into the next word

---
 crates/parser/src/parser/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 41c28f9..800f4cb 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -217,7 +217,8 @@ fn int_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 }
 
 pub(super) fn unsigned_int(input: &mut Input) -> GreenResult {
-    unsigned_int_impl
+    (unsigned_int_impl, not(one_of(is_id_char)))
+        .take()
         .parse_next(input)
         .map(|text| tok(UNSIGNED_INT, text))
 }
-- 
2.43.0


From 13a57a3d4a4ba2a7990edf276083954a89771a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 46/47] fix: don't parse blocks that are never closed again and
 again

---
 crates/parser/src/parser/instr.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 99ddf6d..720bfc6 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, not, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -62,7 +62,10 @@ fn block_block(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((
+                    trivias,
+                    alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                )),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -128,7 +131,10 @@ fn block_loop(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((
+                    trivias,
+                    alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                )),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -196,7 +202,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 retry_once(instr, []),
                 peek((
                     trivias,
-                    alt((word.verify(|word| matches!(word, "end" | "else")), ")")),
+                    alt((word.verify(|word| matches!(word, "end" | "else")), ")", eof)),
                 )),
             ),
             opt((
@@ -206,7 +212,10 @@ fn block_if(input: &mut Input) -> GreenResult {
                 repeat_till::<_, _, Vec<_>, _, _, _, _>(
                     0..,
                     retry_once(instr, []),
-                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                    peek((
+                        trivias,
+                        alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                    )),
                 ),
             )),
             must(trivias_prefixed(keyword("end"))),
-- 
2.43.0


From afe97fa0e1dc8746bfca1658692062b6e8c9b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 47/47] fix: fix invalid memory arguments only if there are
 numbers, and hex numbers as well

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index b48a5a1..997a3d2 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -2,7 +2,7 @@ use crate::{files::FilesCtx, helpers, InternUri, LanguageService};
 use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
 use rowan::{ast::AstNode, SyntaxElementChildren, TextRange};
-use std::collections::HashMap;
+use std::{collections::HashMap, iter};
 use wat_syntax::{ast::Operand, SyntaxElement, SyntaxKind, SyntaxNode, WatLanguage};
 
 pub fn act(
@@ -38,20 +38,20 @@ pub fn act(
                             .filter(|token| {
                                 token.kind() == SyntaxKind::ERROR
                                     && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
+                                        rest.is_empty() || is_unsigned_int(rest)
                                     })
                             });
                     if let Some((token, range)) = token.zip(range) {
-                        text_edits.push(TextEdit {
-                            range: helpers::rowan_range_to_lsp_range(line_index, range),
-                            new_text: String::new(),
-                        });
-                        let range = if token.text() == "=" {
-                            check_after_eq(&mut children)
+                        let after_eq = if token.text() == "=" {
+                            // it won't be a memory argument without a number
+                            let Some(range) = check_after_eq(&mut children) else {
+                                continue;
+                            };
+                            Some(range)
                         } else {
                             None
                         };
-                        if let Some(range) = range {
+                        for range in iter::once(range).chain(after_eq) {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
@@ -105,5 +105,16 @@ fn check_after_eq(children: &mut SyntaxElementChildren<WatLanguage>) -> Option<T
         .and_then(SyntaxElement::into_node)
         .and_then(Operand::cast)
         .and_then(|operand| operand.int())
+        .filter(|int| is_unsigned_int(int.text()))
         .and(range)
 }
+
+fn is_unsigned_int(text: &str) -> bool {
+    let (digits, radix) = match text.strip_prefix("0x") {
+        Some(digits) => (digits, 16),
+        None => (text, 10),
+    };
+    digits
+        .split('_')
+        .all(|digits| !digits.is_empty() && digits.chars().all(|c| c.is_digit(radix)))
+}
-- 
2.43.0

