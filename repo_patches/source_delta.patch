From 31da0981b61a08b261f190b05e18c77c77e84d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/18] fix: attach a same-line block comment to the preceding
 declaration

A block comment that follows a declaration on the same line and is followed
by a newline belongs to that declaration, like a line comment does. It was
left in the leading buffer instead, so the next declaration claimed it.
---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..f7577fd 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1198,6 +1198,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 4395626e14d1ce4837926ad66669da9d852e7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 02/18] fix: accept options on a single-number extension range

'extensions 100 [...];' was rejected with "expected 'to', ',' or ';'" although
the options list is allowed after every form of extension range.
---
 protox-parse/src/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index f7577fd..c230bfc 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -846,7 +846,9 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma | Token::Semicolon | Token::LeftBracket, _)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From b11f3013c88e5b97214d9dba8be77a87bbd7d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/18] fix: keep blank lines inside block comments

Stripping the indentation of the next line also consumed following newlines,
so paragraphs separated by an unstarred blank line were joined.
---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..9a17e0a 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -398,7 +398,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches(['\t', '\x0b', '\x0c', '\r', ' ']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From 0305694e8d18637c8e763bd9609ab67bbf759eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 04/18] fix: keep synthetic oneof names unique within the
 message

A proto3 optional field 'foo' next to a oneof or field named '_foo' produced two
members with the same name, so a valid file could not be compiled. Follow protoc
and prepend 'X' until the name does not conflict.
---
 protox-parse/src/generate/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..751b841 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use logos::Span;
 use prost_types::{
     descriptor_proto, enum_descriptor_proto, field_descriptor_proto, source_code_info::Location,
@@ -258,6 +260,25 @@ impl Context {
             }
         }
 
+        // Synthetic oneofs may not conflict with any other field or oneof of the message
+        let mut names: HashSet<String> = field
+            .iter()
+            .flat_map(|f| f.name.clone())
+            .chain(
+                oneof_decl[..real_oneof_count]
+                    .iter()
+                    .flat_map(|o| o.name.clone()),
+            )
+            .collect();
+        for name in oneof_decl[real_oneof_count..]
+            .iter_mut()
+            .flat_map(|o| o.name.as_mut())
+        {
+            while !names.insert(name.clone()) {
+                name.insert(0, 'X');
+            }
+        }
+
         let is_message_set = match ast
             .options
             .iter()
-- 
2.43.0


From 64d5c8cb046160950d7a596b4ce5dda28e789b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 05/18] fix: bound message nesting instead of overflowing the
 stack

Deeply nested messages or groups overflowed the stack and aborted the process.
Report an error past 100 levels, which is more than prost is able to decode.
---
 protox-parse/src/error.rs     |  8 +++++++-
 protox-parse/src/lib.rs       |  3 +++
 protox-parse/src/parse/mod.rs | 23 ++++++++++++++++++++---
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..5335405 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -4,7 +4,7 @@ use logos::Span;
 use miette::{Diagnostic, NamedSource, SourceCode};
 use thiserror::Error;
 
-use crate::MAX_MESSAGE_FIELD_NUMBER;
+use crate::{MAX_MESSAGE_DEPTH, MAX_MESSAGE_FIELD_NUMBER};
 
 /// An error that may occur while parsing a protobuf source file.
 #[derive(Error, Diagnostic)]
@@ -210,6 +210,11 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
+    #[error("messages may not be nested more than {} levels deep", MAX_MESSAGE_DEPTH)]
+    MessageNestingTooDeep {
+        #[label("defined here")]
+        span: Span,
+    },
     #[error("file is too large")]
     #[diagnostic(help("the maximum file length is 2,147,483,647 bytes"))]
     FileTooLarge,
@@ -274,6 +279,7 @@ impl ParseError {
             ParseErrorKind::ValueInvalidType { span, .. } => Some(span.clone()),
             ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),
             ParseErrorKind::EmptyOneof { span } => Some(span.clone()),
+            ParseErrorKind::MessageNestingTooDeep { span } => Some(span.clone()),
             ParseErrorKind::FileTooLarge => None,
         }
     }
diff --git a/protox-parse/src/lib.rs b/protox-parse/src/lib.rs
index 290dc35..da62ec0 100644
--- a/protox-parse/src/lib.rs
+++ b/protox-parse/src/lib.rs
@@ -21,6 +21,9 @@ mod tag;
 mod tests;
 
 const MAX_MESSAGE_FIELD_NUMBER: i32 = 536_870_911;
+/// Bounds the recursion of the parser. A descriptor nested more deeply than this could not be
+/// decoded by `prost`.
+const MAX_MESSAGE_DEPTH: usize = 100;
 
 /// Parses a single protobuf source file into a [`FileDescriptorProto`].
 ///
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index c230bfc..436786a 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -13,6 +13,7 @@ use crate::{
     error::ParseErrorKind,
     join_span,
     lex::{EqFloat, Token},
+    MAX_MESSAGE_DEPTH,
 };
 
 mod comments;
@@ -31,6 +32,7 @@ struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    message_depth: usize,
 }
 
 #[derive(Debug, Clone)]
@@ -56,6 +58,7 @@ impl<'a> Parser<'a> {
             lexer: Token::lexer(source),
             comments: Comments::new(),
             peek: None,
+            message_depth: 0,
         }
     }
 
@@ -250,7 +253,7 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::LeftBrace)?;
         let comments = self.parse_trailing_comment(leading_comments);
 
-        let (body, end) = self.parse_message_body()?;
+        let (body, end) = self.parse_message_body(&name)?;
 
         Ok(ast::Message {
             name,
@@ -260,7 +263,21 @@ impl<'a> Parser<'a> {
         })
     }
 
-    fn parse_message_body(&mut self) -> Result<(ast::MessageBody, Span), ()> {
+    fn parse_message_body(&mut self, name: &ast::Ident) -> Result<(ast::MessageBody, Span), ()> {
+        if self.message_depth == MAX_MESSAGE_DEPTH {
+            self.add_error(ParseErrorKind::MessageNestingTooDeep {
+                span: name.span.clone(),
+            });
+            return Err(());
+        }
+
+        self.message_depth += 1;
+        let result = self.parse_message_body_items();
+        self.message_depth -= 1;
+        result
+    }
+
+    fn parse_message_body_items(&mut self) -> Result<(ast::MessageBody, Span), ()> {
         let mut items = Vec::new();
         let mut options = Vec::new();
         let mut reserved = Vec::new();
@@ -407,7 +424,7 @@ impl<'a> Parser<'a> {
 
         let comments = self.parse_trailing_comment(leading_comments);
 
-        let (body, end) = self.parse_message_body()?;
+        let (body, end) = self.parse_message_body(&name)?;
 
         Ok(ast::Field {
             label,
-- 
2.43.0


From 7ce981df151a5e885cd4a270ba928ffdd6d9b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/18] fix: reject decimal digits in octal integer literals

'08' was read as 0, and '018' panicked in debug builds (and was reported as too
large in release builds), since the lexer falls back to a shorter match while
keeping the longer span.
---
 protox-parse/src/error.rs   | 6 ++++++
 protox-parse/src/lex/mod.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index 5335405..48f4cbd 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -30,6 +30,11 @@ pub(crate) enum ParseErrorKind {
         #[label("integer defined here")]
         span: Span,
     },
+    #[error("integers starting with '0' must be octal")]
+    InvalidOctalInteger {
+        #[label("integer defined here")]
+        span: Span,
+    },
     #[error("invalid string character")]
     InvalidStringCharacters {
         #[label("invalid characters")]
@@ -247,6 +252,7 @@ impl ParseError {
         match &*self.kind {
             ParseErrorKind::InvalidToken { span } => Some(span.clone()),
             ParseErrorKind::IntegerOutOfRange { span } => Some(span.clone()),
+            ParseErrorKind::InvalidOctalInteger { span } => Some(span.clone()),
             ParseErrorKind::InvalidStringCharacters { span } => Some(span.clone()),
             ParseErrorKind::UnterminatedString { span } => Some(span.clone()),
             ParseErrorKind::InvalidStringEscape { span } => Some(span.clone()),
diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 9a17e0a..af1c61c 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -15,7 +15,7 @@ pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
     #[regex("0", |_| 0)]
-    #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
+    #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
     IntLiteral(u64),
@@ -187,6 +187,12 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
 
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
+        Err(err) if err.kind() == &IntErrorKind::InvalidDigit => {
+            lex.extras
+                .errors
+                .push(ParseErrorKind::InvalidOctalInteger { span: lex.span() });
+            Ok(Default::default())
+        }
         Err(err) => {
             debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
             lex.extras
-- 
2.43.0


From a255aaf8d050b6615279ec4a612707e9214d6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 07/18] fix: report an identifier directly after the literal 0

'0b', '0_1' and '0x' were read as 0 and an identifier, and so accepted in an
aggregate option value, while '1b' is rejected.
---
 protox-parse/src/lex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index af1c61c..0a4150d 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", |lex| int(lex, 10, 0))]
     #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
-- 
2.43.0


From b62eaae215a5dfb7b0bc07cbbaff4cf8aa4e5cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 08/18] fix: accept reserved names that start with an
 underscore

An identifier may start with an underscore, so such a field name can be
written but could not be reserved.
---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From 326a2dd7b51e00775babace9045140aa5914cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 09/18] fix: report an error in the options of several
 extension ranges once

---
 protox-parse/src/generate/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 751b841..edce857 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -317,14 +317,21 @@ impl Context {
         for extensions in ast.extensions {
             self.add_comments(extensions.span.clone(), extensions.comments);
 
+            let mut options = extensions.options;
             for range in extensions.ranges {
+                let error_count = self.errors.len();
                 self.path.push(index_to_i32(extension_range.len()));
                 extension_range.push(self.generate_message_extension_range(
                     range,
                     is_message_set,
-                    extensions.options.clone(),
+                    options.clone(),
                 ));
                 self.path.pop();
+
+                // Errors in the options are reported for the first range only
+                if self.errors.len() != error_count {
+                    options = None;
+                }
             }
         }
         self.path.pop();
-- 
2.43.0


From 9d732507c31354cdba358bbe04ee0cbc26f906a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 10/18] fix: leave text format mode when recovering from a
 syntax error

---
 protox-parse/src/parse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 436786a..3060d5a 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1177,6 +1177,8 @@ impl<'a> Parser<'a> {
     }
 
     fn skip_until(&mut self, tokens: &[Token]) {
+        // The error may have been inside of an aggregate option value
+        self.lexer.extras.text_format_mode = false;
         loop {
             match self.peek() {
                 Ok(None) => return,
-- 
2.43.0


From a0c4b3383b2a15e0db1f7f39e69b129fda08a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 11/18] fix: locate imports by byte column, also when they span
 several lines

---
 protox/src/error.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..42bf6f7 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -174,25 +174,34 @@ impl Error {
 }
 
 fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
-    if let Some(sci) = &file.descriptor.source_code_info {
-        if let Some(source) = file.source() {
-            for location in &sci.location {
-                if location.path == [3, import_idx as i32] {
-                    if location.span.len() != 3 {
-                        continue;
-                    }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
-                    return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
-                        end_col - start_col,
-                    ));
-                }
-            }
+    let source = file.source()?;
+    let sci = file.descriptor.source_code_info.as_ref()?;
+    let location = sci
+        .location
+        .iter()
+        .find(|location| location.path == [3, import_idx as i32])?;
+    let (start, end) = match location.span[..] {
+        [line, start_col, end_col] => ((line, start_col), (line, end_col)),
+        [start_line, start_col, end_line, end_col] => {
+            ((start_line, start_col), (end_line, end_col))
         }
-    }
-    None
+        _ => return None,
+    };
+    let start = byte_offset(source, start)?;
+    let end = byte_offset(source, end)?;
+    Some(SourceSpan::new(
+        SourceOffset::from(start),
+        end.checked_sub(start)?,
+    ))
+}
+
+/// Converts a zero-based line and byte column, as used by source code info, to a byte offset.
+fn byte_offset(source: &str, (line, col): (i32, i32)) -> Option<usize> {
+    let line_start = match usize::try_from(line).ok()?.checked_sub(1) {
+        None => 0,
+        Some(prev) => source.match_indices('\n').nth(prev)?.0 + 1,
+    };
+    Some(line_start + usize::try_from(col).ok()?)
 }
 
 impl From<DescriptorError> for Error {
-- 
2.43.0


From e146a9700ce42d84eab06e90ab609bcc9f5f834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 12/18] fix: never open a file outside the include path

---
 protox/src/file/include.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protox/src/file/include.rs b/protox/src/file/include.rs
index cc99382..b60e004 100644
--- a/protox/src/file/include.rs
+++ b/protox/src/file/include.rs
@@ -65,6 +65,11 @@ impl FileResolver for IncludeFileResolver {
     /// assert_eq!(file.source(), Some("/* hello! */"));
     /// ```
     fn open_file(&self, name: &str) -> Result<File, Error> {
+        // A name which is absolute or contains '..' could refer to a file outside the include path.
+        if path_to_file_name(Path::new(name)).as_deref() != Some(name) {
+            return Err(Error::file_not_found(name));
+        }
+
         File::open(name, &self.include.join(name))
     }
 }
-- 
2.43.0


From 3cefe628545b38b9563b25d0ce5bb97d1a674a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 13/18] fix: restore the descriptor pool when a file is
 rejected

---
 protox/src/compile/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 6df5edc..9a4c581 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -310,6 +310,7 @@ impl Compiler {
             self.pool.add_file_descriptor_proto(descriptor)
         }
         .map_err(|mut err| {
+            self.restore_pool();
             if let Some(source) = source {
                 err = err.with_source_code(&source);
             }
@@ -318,6 +319,18 @@ impl Compiler {
 
         Ok(path)
     }
+
+    /// Rebuilds the pool from the files in it.
+    ///
+    /// When a file is rejected, messages in the pool may be left with references to extensions it declared.
+    fn restore_pool(&mut self) {
+        let mut pool = DescriptorPool::new();
+        for file in self.pool.files() {
+            pool.decode_file_descriptor_proto(file.encode_to_vec().as_slice())
+                .expect("file has been accepted before");
+        }
+        self.pool = pool;
+    }
 }
 
 impl fmt::Debug for Compiler {
-- 
2.43.0


From 0a1af7a42eea078d8bc2daa350131e11e86802a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 14/18] fix: say that an import path is invalid, not a group
 name

---
 protox-parse/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index 48f4cbd..4b51241 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -81,7 +81,7 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
-    #[error("invalid group name")]
+    #[error("invalid import path")]
     #[diagnostic(help(
         "imports may not contain backslashes, repeated forward slashes, '.' or '..' components"
     ))]
-- 
2.43.0


From 2efe07fba4289ff591352d4f610eea498ee240e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:30 +0000
Subject: [PATCH 15/18] fix: do not panic if the descriptor pool cannot be
 rebuilt

---
 protox/src/compile/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 9a4c581..aff19b2 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -326,8 +326,13 @@ impl Compiler {
     fn restore_pool(&mut self) {
         let mut pool = DescriptorPool::new();
         for file in self.pool.files() {
-            pool.decode_file_descriptor_proto(file.encode_to_vec().as_slice())
-                .expect("file has been accepted before");
+            if pool
+                .decode_file_descriptor_proto(file.encode_to_vec().as_slice())
+                .is_err()
+            {
+                // Options are not interpreted twice the same if 'descriptor.proto' was replaced.
+                return;
+            }
         }
         self.pool = pool;
     }
-- 
2.43.0


From 7b277ae27b574257379b65aa90a7fc19457f82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:30 +0000
Subject: [PATCH 16/18] fix: reject a file of unknown length which is too large

---
 protox/src/file/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protox/src/file/mod.rs b/protox/src/file/mod.rs
index f8bd0a5..f0da11a 100644
--- a/protox/src/file/mod.rs
+++ b/protox/src/file/mod.rs
@@ -140,8 +140,9 @@ impl File {
             }));
         }
 
+        // The length is not always known (e.g. of a pipe), but a longer file is rejected by the parser.
         let mut buf = String::with_capacity(metadata.len() as usize);
-        file.take(MAX_FILE_LEN)
+        file.take(MAX_FILE_LEN + 1)
             .read_to_string(&mut buf)
             .map_err(map_io_err)?;
 
-- 
2.43.0


From ef6e8c99dcafe966a3bd5ddfe13406b10ba0bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:20 +0000
Subject: [PATCH 17/18] fix: rebuild the descriptor pool from the files as they
 were added

---
 protox/src/compile/mod.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index aff19b2..56b258c 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -4,6 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
+use bytes::Bytes;
 use prost::Message;
 use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
 use prost_types::{FileDescriptorProto, FileDescriptorSet};
@@ -47,6 +48,8 @@ mod tests;
 /// ```
 pub struct Compiler {
     pool: DescriptorPool,
+    /// The files in the pool as they were added to it.
+    added: Vec<Bytes>,
     resolver: Box<dyn FileResolver>,
     files: HashMap<String, FileMetadata>,
     include_imports: bool,
@@ -83,6 +86,7 @@ impl Compiler {
     {
         Compiler {
             pool: DescriptorPool::new(),
+            added: Vec::new(),
             resolver: Box::new(resolver),
             files: HashMap::new(),
             include_imports: false,
@@ -304,18 +308,17 @@ impl Compiler {
             encoded,
         }: File,
     ) -> Result<Option<PathBuf>, Error> {
-        if let Some(encoded) = &encoded {
-            self.pool.decode_file_descriptor_proto(encoded.clone())
-        } else {
-            self.pool.add_file_descriptor_proto(descriptor)
-        }
-        .map_err(|mut err| {
-            self.restore_pool();
-            if let Some(source) = source {
-                err = err.with_source_code(&source);
-            }
-            err
-        })?;
+        let encoded = encoded.unwrap_or_else(|| descriptor.encode_to_vec().into());
+        self.pool
+            .decode_file_descriptor_proto(encoded.clone())
+            .map_err(|mut err| {
+                self.restore_pool();
+                if let Some(source) = source {
+                    err = err.with_source_code(&source);
+                }
+                err
+            })?;
+        self.added.push(encoded);
 
         Ok(path)
     }
@@ -325,14 +328,9 @@ impl Compiler {
     /// When a file is rejected, messages in the pool may be left with references to extensions it declared.
     fn restore_pool(&mut self) {
         let mut pool = DescriptorPool::new();
-        for file in self.pool.files() {
-            if pool
-                .decode_file_descriptor_proto(file.encode_to_vec().as_slice())
-                .is_err()
-            {
-                // Options are not interpreted twice the same if 'descriptor.proto' was replaced.
-                return;
-            }
+        for file in &self.added {
+            pool.decode_file_descriptor_proto(file.clone())
+                .expect("file has been accepted before");
         }
         self.pool = pool;
     }
-- 
2.43.0


From e9e97f3b0432f0f1b2170f498a38da4b84128f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:20 +0000
Subject: [PATCH 18/18] fix: reject messages nested too deeply to be decoded
 from a descriptor set

---
 protox-parse/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protox-parse/src/lib.rs b/protox-parse/src/lib.rs
index da62ec0..57b0834 100644
--- a/protox-parse/src/lib.rs
+++ b/protox-parse/src/lib.rs
@@ -21,9 +21,9 @@ mod tag;
 mod tests;
 
 const MAX_MESSAGE_FIELD_NUMBER: i32 = 536_870_911;
-/// Bounds the recursion of the parser. A descriptor nested more deeply than this could not be
-/// decoded by `prost`.
-const MAX_MESSAGE_DEPTH: usize = 100;
+/// Bounds the recursion of the parser. In a descriptor set, the options of an enum value in a message
+/// nested more deeply than this could not be decoded by `prost`.
+const MAX_MESSAGE_DEPTH: usize = 94;
 
 /// Parses a single protobuf source file into a [`FileDescriptorProto`].
 ///
-- 
2.43.0

