From 9961260cc50a08b8577813ab4c14888d7d359b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 01/66] fix: count the line break that ends a comment inside
 \begin{..}/\end{..}

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From e69e6ae652ba44820dc551b4420e982b33348c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 02/66] fix: do not panic on a macro definition that ends with
 a hash

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..1a2574c 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -954,7 +954,10 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                // A hash at the end of the definition has nothing to grab
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From 42fea693549a55001efc9241879b935297e59a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 03/66] fix: skip a nested \if..\else..\fi as a whole in a
 branch that is not taken

---
 crates/mitex-lexer/src/macro_engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 1a2574c..fed257e 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,6 +454,10 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
+                // an \else of a nested if does not close that if
+                Token::CommandName(CommandName::Else) if nested > 0 => {
+                    ctx.next_token();
+                }
                 Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
                     if nested == 0 {
                         break;
-- 
2.43.0


From 4bbaff978f8f7029448c23fa1e1acdcab2e42146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 04/66] fix: skip blanks between the parts of a macro
 definition

---
 crates/mitex-lexer/src/macro_engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index fed257e..6593786 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -693,7 +693,8 @@ impl<'a> MacroEngine<'a> {
         let mut opt = None;
         let def;
         'match_loop: loop {
-            let nx = ctx.peek()?;
+            // Blanks between the parts of a definition are insignificant
+            let nx = ctx.peek_not_trivia()?;
 
             match (state, nx) {
                 (MatchState::NArgs, Token::Left(BraceKind::Bracket)) => {
@@ -734,7 +735,7 @@ impl<'a> MacroEngine<'a> {
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
 
-                if matches!(ctx.peek()?, Token::Left(BraceKind::Curly)) {
+                if matches!(ctx.peek_not_trivia()?, Token::Left(BraceKind::Curly)) {
                     ctx.next_token();
                     end_def = Some(ctx.read_until_balanced(BraceKind::Curly));
                 }
-- 
2.43.0


From fa3f1f206ed63ce4fa53c5c1eab86433a828daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 05/66] fix: take the optional argument of a macro from the
 first place

---
 crates/mitex-lexer/src/macro_engine.rs | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 6593786..68c1b23 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -784,6 +784,21 @@ impl<'a> MacroEngine<'a> {
         }
 
         let mut num_of_read: u8 = 0;
+
+        // A macro with a default value takes its first argument optionally
+        if let Some(opt) = opt {
+            if ctx.peek_not_trivia() == Some(Token::Left(BraceKind::Bracket)) {
+                ctx.next_token();
+                args.push(ctx.read_until_balanced(BraceKind::Bracket));
+            } else {
+                args.push(opt);
+            }
+            num_of_read += 1;
+            if num_of_read == num_args {
+                return Some(args);
+            }
+        }
+
         loop {
             match ctx.peek_not_trivia() {
                 Some(Token::Left(BraceKind::Curly)) => {
@@ -826,18 +841,8 @@ impl<'a> MacroEngine<'a> {
         }
 
         if num_of_read != num_args {
-            let mut ok = false;
-            if num_args - num_of_read == 1 {
-                if let Some(opt) = opt {
-                    args.push(opt);
-                    ok = true;
-                }
-            }
-
-            if !ok {
-                ctx.push_outer((Token::Error, "invalid number of arguments"));
-                return None;
-            }
+            ctx.push_outer((Token::Error, "invalid number of arguments"));
+            return None;
         }
 
         Some(args)
-- 
2.43.0


From 71880bea22df5797532cb88a6399d4aa9b8f7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 06/66] fix: neither define nor expand macros inside of
 \iffalse

---
 crates/mitex-lexer/src/macro_engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 68c1b23..001b924 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -419,6 +419,13 @@ impl<'a> MacroEngine<'a> {
                 Token::CommandName(CommandName::EndIf) => {
                     self.trapped_by_endif(ctx, token);
                 }
+                // Nothing is defined or expanded inside of a block comment
+                Token::CommandName(CommandName::Generic | CommandName::BeginEnvironment)
+                    if self.reading_if.contains(&Some(IfState::LitFalse)) =>
+                {
+                    ctx.push_outer(token);
+                    ctx.next_token();
+                }
                 // a generic command token traps stream into a macro checking
                 //
                 // If it is a real macro, it will be expanded into tokens so parser is unaware of
-- 
2.43.0


From f35f8423c744be18ab760c6d8de539c16fcce991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 07/66] fix: report missing or unclosed arguments of \label,
 \includegraphics, \caption and tabular as errors instead of panicking

---
 crates/mitex/src/converter.rs | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..308533b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -495,10 +495,9 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
-        let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
+        let label = group_body(&arg)?;
         let label = label.trim();
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -523,28 +522,26 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
             matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
+                arg.first_child().map(|child| child.kind()),
+                Some(LatexSyntaxKind::ItemBracket)
             )
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
                 matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
+                    arg.first_child().map(|child| child.kind()),
+                    Some(LatexSyntaxKind::ItemCurly)
                 )
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
-        let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
+        let body = group_body(&arg)?;
         let body = body.trim();
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
-            let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
+            let arg_text = group_body(&opt_arg)?;
             let arg_text = arg_text.trim();
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
@@ -1016,7 +1013,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,10 +1059,9 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
-        let arg = arg.text().to_string();
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
+        let arg = group_body(&arg)?;
         let arg = arg.trim();
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
@@ -1190,6 +1186,18 @@ impl Converter {
     }
 }
 
+/// The text of an argument without its pair of delimiters (if it has some)
+fn group_body(arg: &SyntaxNode) -> Result<String, ConvertError> {
+    let text = arg.text().to_string();
+    let body = match text.chars().next() {
+        Some('{') => text.strip_prefix('{').and_then(|t| t.strip_suffix('}')),
+        Some('[') => text.strip_prefix('[').and_then(|t| t.strip_suffix(']')),
+        _ => Some(text.as_str()),
+    };
+    body.map(str::to_owned)
+        .ok_or_else(|| ConvertError::Str(format!("unclosed argument: {text}")))
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From c97bb5f9d750b22778b273a1a48148ec4935b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 08/66] fix: close the last cell of a tabular without a
 trailing newline

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 308533b..503769b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1180,6 +1180,10 @@ impl Converter {
                 }
             }
         }
+        // the last row does not have to end with a newline
+        if !exterior {
+            f.write_char(']')?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From cdb44861e88340c74ac3f3fab2ecd3edcf396199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 09/66] fix: write to the input's name with .typ by default, as
 documented, not over the input

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From dfac02b4afeaa770f51463d387b21e562195e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 10/66] fix: confine infix commands and scripts in an
 environment to their cell

---
 crates/mitex-parser/src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..9ea98bc 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -91,6 +91,13 @@ mod list_state {
             self.last = Some(current);
         }
 
+        /// Start a new cell or row of the list: what follows does not attach to
+        /// what precedes
+        pub fn restart(&mut self, current: Checkpoint) {
+            self.start = Some(current);
+            self.last = None;
+        }
+
         /// Store the last position of the list
         pub fn may_store_start(&mut self, current: Option<Checkpoint>) {
             self.start = current;
@@ -316,7 +323,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.list_state = ListState::new(scope);
         self.list_state.store_start(current);
 
-        while self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+        while let Some(kind) = self.peek() {
+            if self.stop_by_scope(kind) {
+                break;
+            }
             let attachable = self.content(true);
 
             // If the item is not attachable, then we should
@@ -325,6 +335,11 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.list_state.store_last(current);
             }
             current = self.builder.checkpoint();
+
+            // An alignment mark or a row break separates the items of an environment
+            if self.inside_env() && matches!(kind, Token::Ampersand | Token::NewLine) {
+                self.list_state.restart(current);
+            }
         }
 
         self.list_state = parent_state;
-- 
2.43.0


From 2a62ebd82bc0c749aaad666a772938f095d32423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 11/66] fix: escape words in text mode that are markup in typst

---
 crates/mitex/src/converter.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 503769b..d158449 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -170,8 +170,8 @@ impl Converter {
                         f.write_char(' ')?;
                     }
                 } else {
-                    // write the word directly in text mode
-                    f.write_str(elem.as_token().unwrap().text())?;
+                    // write the word in text mode, as it is
+                    write_text_word(f, elem.as_token().unwrap().text())?;
                 }
             }
             // do nothing
@@ -1202,6 +1202,25 @@ fn group_body(arg: &SyntaxNode) -> Result<String, ConvertError> {
         .ok_or_else(|| ConvertError::Str(format!("unclosed argument: {text}")))
 }
 
+/// Writes a word in text mode with the characters escaped that are markup in
+/// typst
+fn write_text_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
+    // a word that may start a heading or a list item, like `=`, `-` or `1.`
+    let is_marker = matches!(word, "-" | "+")
+        || word.chars().all(|c| c == '=')
+        || word
+            .strip_suffix('.')
+            .is_some_and(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()));
+    let marker = is_marker.then(|| word.len() - 1);
+    for (i, c) in word.char_indices() {
+        if matches!(c, '`' | '<') || marker == Some(i) {
+            f.write_char('\\')?;
+        }
+        f.write_char(c)?;
+    }
+    Ok(())
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From f200d358309b4ae41692f70c6eb744e0efcd409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 12/66] fix: keep escaped characters and ties as they are in
 text mode

---
 crates/mitex/src/converter.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d158449..564da7b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -241,7 +241,8 @@ impl Converter {
                 if matches!(self.mode, LaTeXMode::Math) {
                     f.write_str("space.nobreak ")?;
                 } else {
-                    f.write_str("\\~")?;
+                    // a non-breaking space in typst as well
+                    f.write_char('~')?;
                 }
             }
             TokenAmpersand => match self.env {
@@ -740,6 +741,11 @@ impl Converter {
 
         // hack for textbf and textit
         if matches!(self.mode, LaTeXMode::Text) {
+            // escaped characters stand for themselves
+            if let Some(text) = escaped_char_in_text(name) {
+                f.write_str(text)?;
+                return Ok(());
+            }
             if name == "textbf" {
                 typst_name = "#strong";
             } else if name == "textit" {
@@ -1202,6 +1208,22 @@ fn group_body(arg: &SyntaxNode) -> Result<String, ConvertError> {
         .ok_or_else(|| ConvertError::Str(format!("unclosed argument: {text}")))
 }
 
+/// The typst markup of an escaped character like `\&` in text mode
+fn escaped_char_in_text(name: &str) -> Option<&'static str> {
+    Some(match name {
+        "&" => "&",
+        "%" => "%",
+        "#" => "\\#",
+        "$" => "\\$",
+        "_" => "\\_",
+        "{" => "\\{",
+        "}" => "\\}",
+        // a control space, the space itself follows
+        "" => "",
+        _ => return None,
+    })
+}
+
 /// Writes a word in text mode with the characters escaped that are markup in
 /// typst
 fn write_text_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
-- 
2.43.0


From 761270b569dd9159b3863558bd423344f8110c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 13/66] fix: attach a label to the environment it is written
 in, not to one nested after it

---
 crates/mitex/src/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 564da7b..29e25fa 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -284,7 +284,10 @@ impl Converter {
                 }
             }
             ItemEnv => {
+                // a label seen before belongs to the enclosing environment
+                let outer_label = self.label.take();
                 self.convert_env(f, elem, spec)?;
+                self.label = self.label.take().or(outer_label);
             }
             ItemTypstCode => {
                 write!(f, "{}", elem.as_node().unwrap().text())?;
-- 
2.43.0


From 7d5012bf9f9b74b7f5c560b3db95aa43285bc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 14/66] fix: a script after a command in a script attaches to
 the same base

---
 crates/mitex-parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 9ea98bc..060bfe7 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -796,8 +796,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
     #[inline]
     fn match_arguments<const GREEDY: bool>(&mut self, searcher: ArgMatcher) {
+        // what follows an argument of a script (`a_\hat x^y`) still attaches to the
+        // base, but nothing attaches over a greedy command
+        let last = self.list_last().filter(|_| !GREEDY);
         self.list_state.may_store_last(None);
-        let last = self.list_last();
         let start = self.list_start();
         self.list_state
             .may_store_start(GREEDY.then(|| self.builder.checkpoint()));
-- 
2.43.0


From 770be2eef43d55dd9c61d12f145636532449b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 15/66] fix: a script after a row break outside of an
 environment has no base

---
 crates/mitex-parser/src/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 060bfe7..bff7cf5 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -336,9 +336,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             }
             current = self.builder.checkpoint();
 
-            // An alignment mark or a row break separates the items of an environment
-            if self.inside_env() && matches!(kind, Token::Ampersand | Token::NewLine) {
-                self.list_state.restart(current);
+            if matches!(kind, Token::Ampersand | Token::NewLine) {
+                if self.inside_env() {
+                    // separates the items of an environment
+                    self.list_state.restart(current);
+                } else {
+                    // nothing attaches over it, e.g. `\substack{a \\ _b}`
+                    self.list_state.may_store_last(None);
+                }
             }
         }
 
@@ -789,6 +794,9 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
+                    if GREEDY && kind == Token::NewLine {
+                        self.list_state.may_store_last(None);
+                    }
                 }
             }
         }
-- 
2.43.0


From 28e82b8d0fb05f225fd7d23a207e4b06fa619afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 16/66] fix: a group with nothing but comments is an empty
 group

---
 crates/mitex/src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 29e25fa..39a1deb 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -350,7 +350,8 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment | TokenLBrace
+                | TokenRBrace => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From d36b5a38ba01de6fc90cae4bdebf3289b0bb4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 17/66] fix: the line break that ends a comment is part of the
 comment in text mode

---
 crates/mitex/src/converter.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 39a1deb..f2c3bc3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -9,6 +9,7 @@ use mitex_parser::syntax::CmdItem;
 use mitex_parser::syntax::EnvItem;
 use mitex_parser::syntax::FormulaItem;
 use mitex_parser::syntax::SyntaxNode;
+use mitex_parser::syntax::SyntaxToken;
 use mitex_spec_gen::DEFAULT_SPEC;
 use rowan::ast::AstNode;
 
@@ -187,6 +188,10 @@ impl Converter {
                 write!(f, "{}", elem.as_token().unwrap().text())?;
             }
             TokenLineBreak => {
+                if matches!(self.mode, LaTeXMode::Text) && ends_comment(&elem) {
+                    self.skip_next_space = true;
+                    return Ok(());
+                }
                 write!(f, "{}", elem.as_token().unwrap().text())?;
                 // indent for itemize and enumerate
                 for _ in 0..self.indent {
@@ -1200,6 +1205,25 @@ impl Converter {
     }
 }
 
+/// Whether a line break only ends a comment, i.e. is part of it, which is not
+/// so if a blank line follows
+fn ends_comment(line_break: &LatexSyntaxElem) -> bool {
+    let Some(token) = line_break.as_token() else {
+        return false;
+    };
+    let is_comment = |t: &SyntaxToken| t.kind() == LatexSyntaxKind::TokenComment;
+    if !matches!(token.text(), "\n" | "\r" | "\r\n")
+        || !token.prev_token().as_ref().is_some_and(is_comment)
+    {
+        return false;
+    }
+    let mut next = token.next_token();
+    while let Some(t) = next.as_ref().filter(|t| t.kind() == LatexSyntaxKind::TokenWhiteSpace) {
+        next = t.next_token();
+    }
+    !next.is_some_and(|t| t.kind() == LatexSyntaxKind::TokenLineBreak)
+}
+
 /// The text of an argument without its pair of delimiters (if it has some)
 fn group_body(arg: &SyntaxNode) -> Result<String, ConvertError> {
     let text = arg.text().to_string();
-- 
2.43.0


From 25dfe7df4fd9167cde095bd60f8519f0b1616a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 18/66] fix: escape delimiters in the aliases of symbols

---
 packages/mitex/specs/latex/standard.typ | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/packages/mitex/specs/latex/standard.typ b/packages/mitex/specs/latex/standard.typ
index 5b76bae..b80c7c1 100644
--- a/packages/mitex/specs/latex/standard.typ
+++ b/packages/mitex/specs/latex/standard.typ
@@ -168,10 +168,10 @@
   rVert: of-sym(math.class("closing", "||")),
   lparen: define-sym("paren.l"),
   rparen: define-sym("paren.r"),
-  lceil: define-sym("⌈"),
-  rceil: define-sym("⌉"),
-  lfloor: define-sym("⌊"),
-  rfloor: define-sym("⌋"),
+  lceil: define-sym("\\⌈"),
+  rceil: define-sym("\\⌉"),
+  lfloor: define-sym("\\⌊"),
+  rfloor: define-sym("\\⌋"),
   // Sizes and styles
   displaystyle: greedy-handle("mitexdisplay", math.display),
   textstyle: greedy-handle("mitexinline", math.inline),
@@ -479,8 +479,8 @@
   infty: define-sym("oo"),
   lbrack: define-sym("bracket.l"),
   rbrack: define-sym("bracket.r"),
-  lgroup: define-sym("⟮"),
-  rgroup: define-sym("⟯"),
+  lgroup: define-sym("\\⟮"),
+  rgroup: define-sym("\\⟯"),
   llbracket: define-sym("bracket.stroked.l"),
   rrbracket: define-sym("bracket.stroked.r"),
   angle: define-sym("angle"),
@@ -869,16 +869,16 @@
   infin: define-sym("infinity"),
   intercal: define-sym("⊺"),
   intop: define-sym("integral"),
-  lBrace: define-sym("⦃"),
+  lBrace: define-sym("\\⦃"),
   ldotp: define-sym("."),
   leadsto: define-sym("arrow.r.squiggly"),
   lessapprox: define-sym("⪅"),
   lesseqqgtr: define-sym("⪋"),
-  llcorner: define-sym("⌞"),
+  llcorner: define-sym("\\⌞"),
   llless: define-sym("<<<"),
   lnapprox: define-sym("⪉"),
   lneq: define-sym("⪇"),
-  lrcorner: define-sym("⌟"),
+  lrcorner: define-sym("\\⌟"),
   lq: define-sym("quote.l.single"),
   Lsh: define-sym("↰"),
   maltese: define-sym("maltese"),
@@ -898,13 +898,13 @@
   owns: define-sym("in.rev"),
   pitchfork: define-sym("⋔"),
   ratio: define-sym(":"),
-  rBrace: define-sym("⦄"),
+  rBrace: define-sym("\\⦄"),
   real: define-sym("Re"),
   Reals: define-sym("RR"),
   reals: define-sym("RR"),
   restriction: define-sym("harpoon.tr"),
   risingdotseq: define-sym("≓"),
-  rmoustache: define-sym("⎱"),
+  rmoustache: define-sym("\\⎱"),
   rq: define-sym("'"),
   Rsh: define-sym("↱"),
   simcolon: define-sym("tilde.op:"),
@@ -919,13 +919,13 @@
   supe: define-sym("supset.eq"),
   supseteqq: define-sym("⫆"),
   supsetneqq: define-sym("⫌"),
-  textasciitilde: define-sym("~"),
+  textasciitilde: define-sym("\\~"),
   textasciicircum: define-sym("\\^"),
   textbackslash: define-sym("\\\\"),
   textbar: define-sym("\\|"),
   textbardbl: define-sym("‖"),
-  textbraceleft: define-sym("{"),
-  textbraceright: define-sym("}"),
+  textbraceleft: define-sym("\\{"),
+  textbraceright: define-sym("\\}"),
   textdagger: define-sym("dagger"),
   textdaggerdbl: define-sym("dagger.double"),
   textdegree: define-sym("degree"),
@@ -947,10 +947,10 @@
   Uarr: define-sym("arrow.t.double"),
   uArr: define-sym("arrow.t.double"),
   uarr: define-sym("arrow.t"),
-  ulcorner: define-sym("⌜"),
+  ulcorner: define-sym("\\⌜"),
   unlhd: define-sym("lt.tri.eq"),
   unrhd: define-sym("gt.tri.eq"),
-  urcorner: define-sym("⌝"),
+  urcorner: define-sym("\\⌝"),
   varpropto: define-sym("prop"),
   varsubsetneq: define-sym("subset.neq"),
   varsubsetneqq: define-sym("⫋"),
-- 
2.43.0


From e72d13913fe105e277f6672aadcb86028abd4552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 19/66] fix: a line with nothing but a macro definition,
 comments or braces is no blank line

---
 crates/mitex/src/converter.rs | 48 +++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index f2c3bc3..af27859 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -188,7 +188,7 @@ impl Converter {
                 write!(f, "{}", elem.as_token().unwrap().text())?;
             }
             TokenLineBreak => {
-                if matches!(self.mode, LaTeXMode::Text) && ends_comment(&elem) {
+                if matches!(self.mode, LaTeXMode::Text) && is_dropped_break(&elem) {
                     self.skip_next_space = true;
                     return Ok(());
                 }
@@ -1205,23 +1205,51 @@ impl Converter {
     }
 }
 
-/// Whether a line break only ends a comment, i.e. is part of it, which is not
-/// so if a blank line follows
-fn ends_comment(line_break: &LatexSyntaxElem) -> bool {
+/// Whether a line break has no meaning in text mode: it ends a comment, or a
+/// line with nothing but comments, braces or macro definitions.  If a blank
+/// line follows, it is a paragraph break nevertheless.
+fn is_dropped_break(line_break: &LatexSyntaxElem) -> bool {
+    use LatexSyntaxKind::*;
     let Some(token) = line_break.as_token() else {
         return false;
     };
-    let is_comment = |t: &SyntaxToken| t.kind() == LatexSyntaxKind::TokenComment;
-    if !matches!(token.text(), "\n" | "\r" | "\r\n")
-        || !token.prev_token().as_ref().is_some_and(is_comment)
-    {
+    if !matches!(token.text(), "\n" | "\r" | "\r\n") {
+        return false;
+    }
+    // the braces of a command's argument are not dropped
+    let is_argument = |group: SyntaxNode| {
+        let arg = group.parent().filter(|arg| arg.kind() == ClauseArgument);
+        arg.and_then(|arg| arg.parent())
+            .is_some_and(|cmd| cmd.kind() != ItemAttachComponent)
+    };
+    let is_dropped = |t: &SyntaxToken| match t.kind() {
+        TokenComment => true,
+        TokenLBrace | TokenRBrace => !t.parent().is_some_and(is_argument),
+        _ => false,
+    };
+    let prev = token.prev_token();
+    let mut dropped = prev.as_ref().is_some_and(|t| t.kind() == TokenLineBreak);
+    let ends_comment = prev.as_ref().is_some_and(|t| t.kind() == TokenComment);
+    let mut line = prev;
+    while let Some(t) = line.as_ref() {
+        match t.kind() {
+            TokenWhiteSpace => {}
+            // a line that ends with a comment goes on in the next one
+            TokenLineBreak if t.prev_token().is_some_and(|t| t.kind() == TokenComment) => {}
+            _ if is_dropped(t) => dropped = true,
+            _ => break,
+        }
+        line = t.prev_token();
+    }
+    let whole_line = dropped && line.is_some_and(|t| t.kind() == TokenLineBreak);
+    if !ends_comment && !whole_line {
         return false;
     }
     let mut next = token.next_token();
-    while let Some(t) = next.as_ref().filter(|t| t.kind() == LatexSyntaxKind::TokenWhiteSpace) {
+    while let Some(t) = next.as_ref().filter(|t| t.kind() == TokenWhiteSpace) {
         next = t.next_token();
     }
-    !next.is_some_and(|t| t.kind() == LatexSyntaxKind::TokenLineBreak)
+    !next.is_some_and(|t| t.kind() == TokenLineBreak)
 }
 
 /// The text of an argument without its pair of delimiters (if it has some)
-- 
2.43.0


From 7fe8e307f8431eacd1c71a43e49aa12db902de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 20/66] fix: comments before a cell or rule of a tabular are no
 content

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index af27859..34b5eeb 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1134,7 +1134,9 @@ impl Converter {
             // preprocess if exterior
             if exterior {
                 match child.kind() {
-                    LatexSyntaxKind::TokenWhiteSpace | LatexSyntaxKind::TokenLineBreak => {}
+                    LatexSyntaxKind::TokenWhiteSpace
+                    | LatexSyntaxKind::TokenLineBreak
+                    | LatexSyntaxKind::TokenComment => {}
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
-- 
2.43.0


From c0a4df1580e404899c136fd7f566dbba410bc3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 21/66] fix: text after a list in the same line does not belong
 to its last item

---
 crates/mitex/src/converter.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 34b5eeb..baac1a4 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -888,6 +888,28 @@ impl Converter {
 
             self.exit_env(prev);
 
+            // what follows in the same line is not part of the last item
+            let mut next = elem.as_node().unwrap().last_token();
+            loop {
+                next = next.and_then(|t| t.next_token());
+                match next.as_ref().map(|t| t.kind()) {
+                    Some(LatexSyntaxKind::TokenWhiteSpace) => {}
+                    None
+                    | Some(LatexSyntaxKind::TokenLineBreak | LatexSyntaxKind::TokenRBrace) => break,
+                    Some(_) => {
+                        let next = next.unwrap();
+                        if !matches!(next.text(), "\\item" | "\\end") {
+                            f.write_char('\n')?;
+                            for _ in 0..self.indent {
+                                f.write_char(' ')?;
+                            }
+                            self.skip_next_space = true;
+                        }
+                        break;
+                    }
+                }
+            }
+
             return Ok(());
         }
 
-- 
2.43.0


From b182e338134cbac3e5e9953b9bba72aadcc0dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 22/66] fix: an image as wide as \textwidth has a width of 100%

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index baac1a4..eabf7a4 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -572,7 +572,9 @@ impl Converter {
                     f.write_str(key)?;
                     f.write_char(':')?;
                     f.write_char(' ')?;
-                    if value.ends_with("\\textwidth") {
+                    if matches!(*value, "\\textwidth" | "\\textheight") {
+                        f.write_str("100%")?;
+                    } else if value.ends_with("\\textwidth") {
                         let value = value.trim_end_matches("\\textwidth");
                         f.write_str(value)?;
                         f.write_str(" * 100%")?;
-- 
2.43.0


From c89a5d6bf1dbf51ceb9144b5c10a84eb0c7345d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 23/66] fix: convert with the given specification, not only
 parse with it

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index eabf7a4..8ec7d20 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1350,7 +1350,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1359,7 +1360,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From 46c5215a1fba78150097edb2db4853177fe92279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 24/66] fix: blanks in the column specification of a tabular
 have no meaning

---
 crates/mitex/src/converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8ec7d20..cd76119 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1115,6 +1115,8 @@ impl Converter {
                 '|' => {
                     vlines.push(index);
                 }
+                // blanks between the columns have no meaning
+                ch if ch.is_whitespace() => {}
                 _ => {
                     // unknown character
                     Err(format!("unknown alignment: {}", ch))?;
-- 
2.43.0


From d930e197e92751f1cf816cf88e7a3de889186cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 25/66] fix: fill up rows of a tabular that have fewer cells
 than columns

---
 crates/mitex/src/converter.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index cd76119..77895c3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1123,6 +1123,7 @@ impl Converter {
                 }
             }
         }
+        let columns = alignments.len();
         // convert to #figure
         let prev = self.enter_env(env_kind);
         f.write_char('#')?;
@@ -1149,6 +1150,8 @@ impl Converter {
         }
         f.write_str("\n")?;
         let mut exterior = true;
+        // the number of finished cells in the row
+        let mut cells = 0;
         for child in elem.as_node().unwrap().children_with_tokens() {
             // skip \begin and \end commands
             if matches!(
@@ -1166,10 +1169,16 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
+                        cells += 1;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` for empty exterior when encountering //
-                        f.write_str("[],\n")?;
+                        f.write_str("[]")?;
+                        for _ in cells + 1..columns {
+                            f.write_str(", []")?;
+                        }
+                        f.write_str(",\n")?;
+                        cells = 0;
                     }
                     LatexSyntaxKind::ItemCmd => {
                         let cmd_name = CmdItem::cast(child.as_node().unwrap().clone())
@@ -1211,11 +1220,18 @@ impl Converter {
                         // write `[],` when encountering &
                         f.write_str("], ")?;
                         exterior = true;
+                        cells += 1;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` when encountering //
-                        f.write_str("],\n")?;
+                        f.write_str("]")?;
+                        // the remaining cells of a short row are empty
+                        for _ in cells + 1..columns {
+                            f.write_str(", []")?;
+                        }
+                        f.write_str(",\n")?;
                         exterior = true;
+                        cells = 0;
                     }
                     _ => {
                         self.convert(f, child, spec)?;
-- 
2.43.0


From 42fd9b6d2040aadbe3b9742f68688bef99125faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 26/66] fix: a prime after a formula does not attach to what is
 before the formula

---
 crates/mitex-parser/src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index bff7cf5..629988c 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -336,6 +336,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             }
             current = self.builder.checkpoint();
 
+            // a prime after a formula is not the prime of what is before the formula
+            if matches!(
+                kind,
+                Token::Dollar | Token::CommandName(CommandName::BeginMath)
+            ) {
+                self.list_state.may_store_last(None);
+            }
+
             if matches!(kind, Token::Ampersand | Token::NewLine) {
                 if self.inside_env() {
                     // separates the items of an environment
@@ -794,7 +802,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
-                    if GREEDY && kind == Token::NewLine {
+                    if GREEDY
+                        && matches!(
+                            kind,
+                            Token::NewLine
+                                | Token::Dollar
+                                | Token::CommandName(CommandName::BeginMath)
+                        )
+                    {
                         self.list_state.may_store_last(None);
                     }
                 }
-- 
2.43.0


From 63c6d9cc1f213690ed77e10d41ec7764c125bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 27/66] fix: a line with nothing but braces after \color is no
 blank line

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 77895c3..cc2f706 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1263,7 +1263,9 @@ fn is_dropped_break(line_break: &LatexSyntaxElem) -> bool {
     // the braces of a command's argument are not dropped
     let is_argument = |group: SyntaxNode| {
         let arg = group.parent().filter(|arg| arg.kind() == ClauseArgument);
-        arg.and_then(|arg| arg.parent())
+        // (the argument of a greedy command has more than a group)
+        arg.filter(|arg| arg.children_with_tokens().count() == 1)
+            .and_then(|arg| arg.parent())
             .is_some_and(|cmd| cmd.kind() != ItemAttachComponent)
     };
     let is_dropped = |t: &SyntaxToken| match t.kind() {
-- 
2.43.0


From 052447ca880c858d4f039648455f11479fad356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 28/66] fix: neither take in nor attach to the name of a \color
 command

---
 crates/mitex-parser/src/parser.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 629988c..c4763cf 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -545,11 +545,15 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         };
         let searcher = self.arg_matchers.start_match(right_pat);
         let is_greedy = searcher.is_greedy();
+        let is_color = is_greedy && cmd_name == "color";
 
         self.eat();
 
         if is_greedy {
             self.builder.start_node(ClauseArgument.into());
+            if is_color {
+                self.color_name();
+            }
             self.match_arguments::<true>(searcher);
             self.builder.finish_node();
         } else {
@@ -563,6 +567,29 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         !is_greedy
     }
 
+    /// Clause parsers
+    /// Parse the `[model]{color}` of a `\color` command. They are not among the
+    /// colored items, hence nothing attaches to them or takes them in.
+    fn color_name(&mut self) {
+        self.list_state.may_store_last(None);
+        self.trivia();
+        if self.peek() == Some(Token::Left(BraceKind::Bracket)) {
+            while let Some(kind) = self.peek() {
+                if self.stop_by_scope(kind) {
+                    return;
+                }
+                self.content(true);
+                if kind == Token::Right(BraceKind::Bracket) {
+                    break;
+                }
+            }
+            self.trivia();
+        }
+        if self.peek() == Some(Token::Left(BraceKind::Curly)) {
+            self.item_group(ParseScope::CurlyItem);
+        }
+    }
+
     /// Item parsers
     /// Parse an environment
     fn environment(&mut self) {
-- 
2.43.0


From 59ca3a96b04cbbd7082a660359daf8fe0e48303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 29/66] fix: an infix command in a script or in the name of a
 \color does not reach outside (panic)

---
 crates/mitex-parser/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index c4763cf..eb19925 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -571,7 +571,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// Parse the `[model]{color}` of a `\color` command. They are not among the
     /// colored items, hence nothing attaches to them or takes them in.
     fn color_name(&mut self) {
-        self.list_state.may_store_last(None);
+        let state = self.list_state;
+        self.list_state = ListState::new(state.scope);
+        self.color_name_items();
+        self.list_state = state;
+    }
+
+    fn color_name_items(&mut self) {
         self.trivia();
         if self.peek() == Some(Token::Left(BraceKind::Bracket)) {
             while let Some(kind) = self.peek() {
@@ -879,7 +885,11 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+            // the script itself has nothing before it to wrap, e.g. `a b_\over c`
+            let state = self.list_state;
+            self.list_state = ListState::new(state.scope);
             self.content(false);
+            self.list_state = state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From 3ff7ed5d57c0a8a79516b0e49eece04cd35e9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 30/66] fix: do not panic on a macro definition whose name is
 an environment marker

---
 crates/mitex-lexer/src/macro_engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 001b924..28cf11d 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -681,10 +681,10 @@ impl<'a> MacroEngine<'a> {
         let name = if matches!(c, DeclareCmdOrEnv::NewEnvironment { .. }) {
             ctx.peek_word_opt(BraceKind::Curly)?.1
         } else {
+            // The text of an environment marker is the name of the environment
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From 35944048ee7b1f542e1470a0dcad2abff262b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 31/66] fix: report a \color without arguments under another
 specification as an error instead of panicking

---
 crates/mitex/src/converter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index cc2f706..7bbf1ff 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -616,7 +616,11 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            // The specification may declare another shape
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "expect the color of \\color".to_string())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0


From 6b3fd96209b43e227db6c2137815e53165b6e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 32/66] fix: a symbol alias that ends with a colon names no
 argument

---
 packages/mitex/specs/latex/standard.typ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/mitex/specs/latex/standard.typ b/packages/mitex/specs/latex/standard.typ
index b80c7c1..0b3a908 100644
--- a/packages/mitex/specs/latex/standard.typ
+++ b/packages/mitex/specs/latex/standard.typ
@@ -792,8 +792,8 @@
   ngeqslant: define-sym("gt.eq.not"),
   precneqq: define-sym("prec.nequiv"),
   gneq: define-sym("⪈"),
-  approxcolon: define-sym("approx:"),
-  approxcoloncolon: define-sym("approx::"),
+  approxcolon: define-sym("approx\\:"),
+  approxcoloncolon: define-sym("approx\\::"),
   backepsilon: define-sym("in.rev.small"),
   barwedge: define-sym("⊼"),
   beth: define-sym("beth"),
-- 
2.43.0


From 48a8cb4c779e0f0b4104519bc87cf6e5c2237fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 33/66] Revert "fix: a symbol alias that ends with a colon
 names no argument"

This reverts commit 6b3fd96209b43e227db6c2137815e53165b6e335.
---
 packages/mitex/specs/latex/standard.typ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/mitex/specs/latex/standard.typ b/packages/mitex/specs/latex/standard.typ
index 0b3a908..b80c7c1 100644
--- a/packages/mitex/specs/latex/standard.typ
+++ b/packages/mitex/specs/latex/standard.typ
@@ -792,8 +792,8 @@
   ngeqslant: define-sym("gt.eq.not"),
   precneqq: define-sym("prec.nequiv"),
   gneq: define-sym("⪈"),
-  approxcolon: define-sym("approx\\:"),
-  approxcoloncolon: define-sym("approx\\::"),
+  approxcolon: define-sym("approx:"),
+  approxcoloncolon: define-sym("approx::"),
   backepsilon: define-sym("in.rev.small"),
   barwedge: define-sym("⊼"),
   beth: define-sym("beth"),
-- 
2.43.0


From a358a640d8758a4bc710f803074d0bd125d9ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 34/66] Revert "fix: escape delimiters in the aliases of
 symbols"

This reverts commit 25dfe7df4fd9167cde095bd60f8519f0b1616a46.
---
 packages/mitex/specs/latex/standard.typ | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/packages/mitex/specs/latex/standard.typ b/packages/mitex/specs/latex/standard.typ
index b80c7c1..5b76bae 100644
--- a/packages/mitex/specs/latex/standard.typ
+++ b/packages/mitex/specs/latex/standard.typ
@@ -168,10 +168,10 @@
   rVert: of-sym(math.class("closing", "||")),
   lparen: define-sym("paren.l"),
   rparen: define-sym("paren.r"),
-  lceil: define-sym("\\⌈"),
-  rceil: define-sym("\\⌉"),
-  lfloor: define-sym("\\⌊"),
-  rfloor: define-sym("\\⌋"),
+  lceil: define-sym("⌈"),
+  rceil: define-sym("⌉"),
+  lfloor: define-sym("⌊"),
+  rfloor: define-sym("⌋"),
   // Sizes and styles
   displaystyle: greedy-handle("mitexdisplay", math.display),
   textstyle: greedy-handle("mitexinline", math.inline),
@@ -479,8 +479,8 @@
   infty: define-sym("oo"),
   lbrack: define-sym("bracket.l"),
   rbrack: define-sym("bracket.r"),
-  lgroup: define-sym("\\⟮"),
-  rgroup: define-sym("\\⟯"),
+  lgroup: define-sym("⟮"),
+  rgroup: define-sym("⟯"),
   llbracket: define-sym("bracket.stroked.l"),
   rrbracket: define-sym("bracket.stroked.r"),
   angle: define-sym("angle"),
@@ -869,16 +869,16 @@
   infin: define-sym("infinity"),
   intercal: define-sym("⊺"),
   intop: define-sym("integral"),
-  lBrace: define-sym("\\⦃"),
+  lBrace: define-sym("⦃"),
   ldotp: define-sym("."),
   leadsto: define-sym("arrow.r.squiggly"),
   lessapprox: define-sym("⪅"),
   lesseqqgtr: define-sym("⪋"),
-  llcorner: define-sym("\\⌞"),
+  llcorner: define-sym("⌞"),
   llless: define-sym("<<<"),
   lnapprox: define-sym("⪉"),
   lneq: define-sym("⪇"),
-  lrcorner: define-sym("\\⌟"),
+  lrcorner: define-sym("⌟"),
   lq: define-sym("quote.l.single"),
   Lsh: define-sym("↰"),
   maltese: define-sym("maltese"),
@@ -898,13 +898,13 @@
   owns: define-sym("in.rev"),
   pitchfork: define-sym("⋔"),
   ratio: define-sym(":"),
-  rBrace: define-sym("\\⦄"),
+  rBrace: define-sym("⦄"),
   real: define-sym("Re"),
   Reals: define-sym("RR"),
   reals: define-sym("RR"),
   restriction: define-sym("harpoon.tr"),
   risingdotseq: define-sym("≓"),
-  rmoustache: define-sym("\\⎱"),
+  rmoustache: define-sym("⎱"),
   rq: define-sym("'"),
   Rsh: define-sym("↱"),
   simcolon: define-sym("tilde.op:"),
@@ -919,13 +919,13 @@
   supe: define-sym("supset.eq"),
   supseteqq: define-sym("⫆"),
   supsetneqq: define-sym("⫌"),
-  textasciitilde: define-sym("\\~"),
+  textasciitilde: define-sym("~"),
   textasciicircum: define-sym("\\^"),
   textbackslash: define-sym("\\\\"),
   textbar: define-sym("\\|"),
   textbardbl: define-sym("‖"),
-  textbraceleft: define-sym("\\{"),
-  textbraceright: define-sym("\\}"),
+  textbraceleft: define-sym("{"),
+  textbraceright: define-sym("}"),
   textdagger: define-sym("dagger"),
   textdaggerdbl: define-sym("dagger.double"),
   textdegree: define-sym("degree"),
@@ -947,10 +947,10 @@
   Uarr: define-sym("arrow.t.double"),
   uArr: define-sym("arrow.t.double"),
   uarr: define-sym("arrow.t"),
-  ulcorner: define-sym("\\⌜"),
+  ulcorner: define-sym("⌜"),
   unlhd: define-sym("lt.tri.eq"),
   unrhd: define-sym("gt.tri.eq"),
-  urcorner: define-sym("\\⌝"),
+  urcorner: define-sym("⌝"),
   varpropto: define-sym("prop"),
   varsubsetneq: define-sym("subset.neq"),
   varsubsetneqq: define-sym("⫋"),
-- 
2.43.0


From 602ee8e785b105f3e6c9704385e5b72a6c4c916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 35/66] fix: match prefixes that end inside a brace alternative
 of a glob

---
 crates/mitex-glob/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index 0721bd7..cffc05c 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -73,6 +73,11 @@ fn glob_match_internal<'a>(
   }
 
   while state.glob_index < glob.len() || state.path_index < path.len() {
+    // The whole path is matched by a prefix of the glob
+    if is_prefix && state.path_index == path.len() {
+      return !negated;
+    }
+
     if state.glob_index < glob.len() {
       match glob[state.glob_index] {
         b'*' => {
-- 
2.43.0


From 139ff1cd613f81c0fa63de086bb81b33e7e168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 36/66] fix: the end of an environment is no argument of its
 beginning

---
 crates/mitex-parser/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index eb19925..4e26935 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -761,6 +761,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 Token::Caret | Token::Underscore if k_wrap_args!() => {
                     return;
                 }
+                // the end of an environment is no argument, e.g. of its own beginning
+                Token::CommandName(CommandName::EndEnvironment) => return,
                 // prefer rob characters from words as arguments
                 Token::Word if !GREEDY => {
                     // Split the word into single characters for term matching
-- 
2.43.0


From 53d3fd0d8ca3949834000b2905659966b39b9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 37/66] fix: a macro with one of its arguments in a word, like
 \f x{y}, took one argument too few

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 28cf11d..dee32e3 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -831,6 +831,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // the arguments in the word are already counted
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From f5855b882d2caa2a036bda8a168079654a365d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 38/66] fix: a macro without its arguments at the end of a
 group took the closing brace

---
 crates/mitex-lexer/src/macro_engine.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index dee32e3..6a09af1 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -834,13 +834,14 @@ impl<'a> MacroEngine<'a> {
                     // the arguments in the word are already counted
                     continue;
                 }
+                // The end of the group that the macro is in is not an argument
+                Some(Token::Right(BraceKind::Curly)) | None => {
+                    break;
+                }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
                     ctx.next_token();
                 }
-                None => {
-                    break;
-                }
             }
 
             num_of_read += 1;
-- 
2.43.0


From fcbf77fa702ccbc48a11a71023bd9981d073f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 39/66] fix: \renewcommand of a catalogued command was an error

---
 crates/mitex-lexer/src/macro_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 6a09af1..9d59c66 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -590,7 +590,8 @@ impl<'a> MacroEngine<'a> {
                         self.add_macro(name, m);
                     }
                     UpdateAction::Renew => {
-                        if self.get_macro(name).is_none() {
+                        // a catalogued command or environment can be redefined, too
+                        if self.get_macro(name).is_none() && self.spec.get(name).is_none() {
                             ctx.push_outer((Token::Error, name));
                         }
 
-- 
2.43.0


From 2a11425a0c75b812ba0e7c95cc0ef866a39948bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 40/66] fix: everything after the \begin of a macro environment
 without an \end was dropped silently

---
 crates/mitex-lexer/src/macro_engine.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 9d59c66..0493907 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -863,7 +863,10 @@ impl<'a> MacroEngine<'a> {
         let mut bc = 0;
         let mut body = Vec::new();
         loop {
-            let e = ctx.peek_full()?;
+            let Some(e) = ctx.peek_full() else {
+                ctx.push_outer((Token::Error, "invalid environment"));
+                return None;
+            };
             if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                 if bc == 0 {
                     if e.1 != name {
@@ -886,11 +889,6 @@ impl<'a> MacroEngine<'a> {
             ctx.next_token();
         }
 
-        if bc != 0 {
-            ctx.push_outer((Token::Error, "invalid environment"));
-            return None;
-        }
-
         Some(body)
     }
 
-- 
2.43.0


From 124e0d4e241d36068f598c58ea78489155221634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 41/66] fix: committing a snapshot of a map with entries from
 before the snapshot panicked

---
 crates/mitex-lexer/src/snapshot_map.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/snapshot_map.rs b/crates/mitex-lexer/src/snapshot_map.rs
index 60134a0..87fc4f4 100644
--- a/crates/mitex-lexer/src/snapshot_map.rs
+++ b/crates/mitex-lexer/src/snapshot_map.rs
@@ -65,6 +65,13 @@ where
     M: BorrowMut<FxHashMap<K, V>> + Borrow<FxHashMap<K, V>>,
     L: UndoLogs<UndoLog<K, V>>,
 {
+    /// There is nothing to undo outside of snapshots
+    fn log(&mut self, undo: impl FnOnce() -> UndoLog<K, V>) {
+        if self.undo_log.in_snapshot() {
+            self.undo_log.push(undo());
+        }
+    }
+
     pub fn clear(&mut self) {
         self.map.borrow_mut().clear();
         self.undo_log.clear();
@@ -73,11 +80,11 @@ where
     pub fn insert(&mut self, key: K, value: V) -> bool {
         match self.map.borrow_mut().insert(key.clone(), value) {
             None => {
-                self.undo_log.push(UndoLog::Inserted(key));
+                self.log(|| UndoLog::Inserted(key));
                 true
             }
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.log(|| UndoLog::Overwrite(key, old_value));
                 false
             }
         }
@@ -86,7 +93,7 @@ where
     pub fn remove(&mut self, key: K) -> bool {
         match self.map.borrow_mut().remove(&key) {
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.log(|| UndoLog::Overwrite(key, old_value));
                 true
             }
             None => false,
-- 
2.43.0


From 9d5a3e113c36bf2a5d3101d428ab546f9a6994be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 42/66] fix: a block comment (\iffalse..\fi) was taken as an
 argument, a script or the base of a script

---
 crates/mitex-parser/src/parser.rs | 56 +++++++++++++++++++++++++++++--
 crates/mitex-parser/src/syntax.rs |  1 +
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 4e26935..514af92 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -230,6 +230,23 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.trivia_buffer.push(self.lexer.eat().unwrap());
     }
 
+    /// Lexer Interface
+    /// Hold the next block comment
+    fn hold_block_comment(&mut self) {
+        let mut nested = 0;
+        while let Some(kind) = self.peek() {
+            self.hold_trivia();
+            match kind {
+                Token::CommandName(CommandName::If(..)) => nested += 1,
+                Token::CommandName(CommandName::EndIf) => nested -= 1,
+                _ => {}
+            }
+            if nested == 0 {
+                break;
+            }
+        }
+    }
+
     /// Lexer Interface
     fn ignore_holding_trivia(&mut self) {
         self.trivia_buffer.clear();
@@ -237,10 +254,32 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
     /// Lexer Interface
     fn extract_holding_trivia(&mut self) {
+        // the depth of conditionals in a block comment
+        let mut nested = 0;
         for (kind, text) in self.trivia_buffer.drain(..) {
+            match kind {
+                Token::CommandName(CommandName::If(..)) => {
+                    nested += 1;
+                    if nested == 1 {
+                        self.builder.start_node(ItemBlockComment.into());
+                        continue;
+                    }
+                }
+                Token::CommandName(CommandName::EndIf) => {
+                    nested -= 1;
+                    if nested == 0 {
+                        self.builder.finish_node();
+                        continue;
+                    }
+                }
+                _ => {}
+            }
             let kind: SyntaxKind = kind.into();
             self.builder.token(kind.into(), text);
         }
+        if nested > 0 {
+            self.builder.finish_node();
+        }
     }
 
     /// Lexer Interface
@@ -256,8 +295,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// Lexer Interface
     /// Consume tokens until the next non-trivia token
     fn trivia(&mut self) {
-        while self.peek().as_ref().is_some_and(Token::is_trivia) {
-            self.eat();
+        while let Some(kind) = self.peek() {
+            match kind {
+                Token::CommandName(CommandName::If(IfCommandName::IfFalse)) => self.block_comment(),
+                kind if kind.is_trivia() => self.eat(),
+                _ => break,
+            }
         }
     }
 
@@ -451,7 +494,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.item_group(ParseScope::CmdFormula);
                     return false;
                 }
-                CommandName::If(IfCommandName::IfFalse) => self.block_comment(),
+                CommandName::If(IfCommandName::IfFalse) => {
+                    self.block_comment();
+                    return false;
+                }
                 CommandName::If(IfCommandName::IfTypst) => self.typst_code(),
                 CommandName::If(..) | CommandName::Else | CommandName::EndIf => {
                     return self.command()
@@ -741,6 +787,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         self.hold_trivia();
                     }
                 }
+                // a block comment is no argument
+                Token::CommandName(CommandName::If(IfCommandName::IfFalse)) if !GREEDY => {
+                    self.hold_block_comment();
+                }
                 // Argument matches is stopped on these tokens
                 // However, newline is also a command (with name `\`), hence this is different from
                 // mark and (`&`)
diff --git a/crates/mitex-parser/src/syntax.rs b/crates/mitex-parser/src/syntax.rs
index 445c768..e61d789 100644
--- a/crates/mitex-parser/src/syntax.rs
+++ b/crates/mitex-parser/src/syntax.rs
@@ -154,6 +154,7 @@ impl SyntaxKind {
             SyntaxKind::TokenLineBreak
                 | SyntaxKind::TokenWhiteSpace
                 | SyntaxKind::TokenComment
+                | SyntaxKind::ItemBlockComment
                 | SyntaxKind::ItemNewLine
         )
     }
-- 
2.43.0


From d775f092b4a58ccb3b8e02b28738ac479475659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 43/66] fix: a comma as an argument or script took in the text
 after it

---
 crates/mitex-parser/src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 514af92..582f44e 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -482,7 +482,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.single_char();
                 }
             }
-            Token::Comma => self.text(),
+            Token::Comma => {
+                if not_prefer_single_char {
+                    self.text()
+                } else {
+                    self.eat();
+                }
+            }
             Token::Dollar => {
                 self.item_group(ParseScope::DollarFormula);
                 return false;
@@ -883,7 +889,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         // Otherwise, whether it is right does not matter
                         current = Some(self.builder.checkpoint());
                     }
-                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(true));
+                    let attachable = arg::<GREEDY, _, _>(self, |this| {
+                        // the text after a comma is not part of the argument
+                        this.content(GREEDY || kind != Token::Comma)
+                    });
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
-- 
2.43.0


From 3c61345fcbb8b5a060adfa463ae27bde1e852e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 44/66] fix: read back specifications with an empty glob
 pattern

---
 crates/mitex-spec/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-spec/src/lib.rs b/crates/mitex-spec/src/lib.rs
index d3ad1aa..c2144a7 100644
--- a/crates/mitex-spec/src/lib.rs
+++ b/crates/mitex-spec/src/lib.rs
@@ -174,10 +174,19 @@ pub mod argument_kind {
 
 /// A shared string that represents a glob pattern.
 #[derive(Debug, Clone)]
-#[cfg_attr(feature = "rkyv", derive(Archive, rDeser, rSer))]
+#[cfg_attr(feature = "rkyv", derive(Archive, rSer))]
 #[cfg_attr(feature = "rkyv-validation", archive(check_bytes))]
 pub struct GlobStr(pub Arc<str>);
 
+/// Written by hand as the shared pointer support of rkyv allocates memory of
+/// zero size for an empty string, which is undefined behavior.
+#[cfg(feature = "rkyv")]
+impl<D: rkyv::Fallible + ?Sized> rDeser<GlobStr, D> for ArchivedGlobStr {
+    fn deserialize(&self, _: &mut D) -> Result<GlobStr, D::Error> {
+        Ok(GlobStr(Arc::from(&*self.0)))
+    }
+}
+
 impl From<&str> for GlobStr {
     fn from(s: &str) -> Self {
         Self(s.into())
-- 
2.43.0


From 28205b2bf4928b3c5d42f0b43dfb2dffff74d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 45/66] fix: report the cause of an error in the CLI

---
 crates/mitex-cli/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/utils.rs b/crates/mitex-cli/src/utils.rs
index 8fd0bdb..1218300 100644
--- a/crates/mitex-cli/src/utils.rs
+++ b/crates/mitex-cli/src/utils.rs
@@ -31,7 +31,8 @@ impl From<&str> for Error {
 
 impl From<anyhow::Error> for Error {
     fn from(err: anyhow::Error) -> Self {
-        Self(err.to_string().into_boxed_str())
+        // with its causes
+        Self(format!("{err:#}").into_boxed_str())
     }
 }
 
-- 
2.43.0


From 2de56515a338143e6b149dd3db2eae2e20ad59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 46/66] fix: do not overwrite an input file named .typ by
 default

---
 crates/mitex-cli/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index e51b134..0ff50f2 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -236,6 +236,12 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
                     )
                 })?
                 .clone_into(&mut args.output);
+            if std::path::Path::new(&args.input) == std::path::Path::new(&args.output) {
+                Err(clap::Error::raw(
+                    clap::error::ErrorKind::ValueValidation,
+                    "Output file is required as the default one would overwrite the input file.",
+                ))?;
+            }
         }
     }
 
-- 
2.43.0


From d01b553ff77b38432a839f562805a1119d6fced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 47/66] fix: arguments and bases that convert to nothing, as in
 \sqrt[]{x} and \hat{\nonumber}, made invalid code

---
 crates/mitex/src/converter.rs | 56 ++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 7bbf1ff..dffae51 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -123,6 +123,32 @@ impl From<String> for ConvertError {
     }
 }
 
+/// Whether an element converts to nothing (in math mode, where empty groups
+/// are not nothing)
+fn leaves_nothing(elem: &LatexSyntaxElem, spec: &CommandSpec) -> bool {
+    use LatexSyntaxKind::*;
+    match elem.kind() {
+        TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment => true,
+        ClauseArgument => elem
+            .as_node()
+            .is_some_and(|n| n.children_with_tokens().all(|c| leaves_nothing(&c, spec))),
+        ItemCmd => elem
+            .as_node()
+            .and_then(|n| CmdItem::cast(n.clone()))
+            .and_then(|cmd| spec.get_cmd(&cmd.name_tok()?.text()[1..]).cloned())
+            .is_some_and(|shape| {
+                shape.alias.as_deref() == Some("")
+                    && matches!(
+                        shape.args,
+                        ArgShape::Right {
+                            pattern: ArgPattern::None
+                        }
+                    )
+            }),
+        _ => false,
+    }
+}
+
 impl Converter {
     fn convert(
         &mut self,
@@ -143,11 +169,23 @@ impl Converter {
                 LatexSyntaxElem::Node(node) => format!("error unexpected: {:?}", node.text()),
                 LatexSyntaxElem::Token(token) => format!("error unexpected: {:?}", token.text()),
             })?,
-            ItemLR | ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen => {
+            ItemLR | ClauseArgument | ScopeRoot | ItemText | ItemParen => {
                 for child in elem.as_node().unwrap().children_with_tokens() {
                     self.convert(f, child, spec)?;
                 }
             }
+            ItemBracket => {
+                // deal with case like `\sqrt[]{x}`
+                let mut zws = matches!(self.mode, LaTeXMode::Math);
+                for child in elem.as_node().unwrap().children_with_tokens() {
+                    match child.kind() {
+                        TokenLBracket => {}
+                        TokenRBracket if zws => f.write_str("zws ")?,
+                        _ => zws &= leaves_nothing(&child, spec),
+                    }
+                    self.convert(f, child, spec)?;
+                }
+            }
             ItemFormula => {
                 self.convert_formula(f, elem, spec)?;
             }
@@ -355,11 +393,8 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment | TokenLBrace
-                | TokenRBrace => {}
-                _ => {
-                    zws = false;
-                }
+                TokenLBrace | TokenRBrace => {}
+                _ => zws &= leaves_nothing(&child, spec),
             }
             self.convert(f, child, spec)?;
         }
@@ -439,7 +474,7 @@ impl Converter {
                         write!(f, "{}(", child.as_token().unwrap().text())?;
                         first = false;
                         continue;
-                    } else if !matches!(kind, Some(LatexSyntaxKind::TokenWhiteSpace)) {
+                    } else if !leaves_nothing(&child, spec) {
                         based = true;
                     }
                 }
@@ -815,7 +850,14 @@ impl Converter {
             for arg in args {
                 cnt += 1;
                 let kind = arg.kind();
+                // deal with case like `\hat\nonumber`
+                let zws = matches!(kind, LatexSyntaxKind::ClauseArgument)
+                    && arg.as_node().is_some_and(|n| n.first_child().is_some())
+                    && leaves_nothing(&arg, spec);
                 self.convert(f, arg, spec)?;
+                if zws {
+                    f.write_str("zws ")?;
+                }
                 if matches!(kind, LatexSyntaxKind::ClauseArgument) && cnt != args_len {
                     f.write_char(',')?;
                 }
-- 
2.43.0


From ceb02421e81e4aceaa836011087c999638c95d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 48/66] fix: an empty right side of an infix command, as in
 {a\over}, made invalid code

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index dffae51..37a2ea4 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -850,9 +850,10 @@ impl Converter {
             for arg in args {
                 cnt += 1;
                 let kind = arg.kind();
-                // deal with case like `\hat\nonumber`
+                // deal with case like `\hat\nonumber` and `{a\over}`
                 let zws = matches!(kind, LatexSyntaxKind::ClauseArgument)
-                    && arg.as_node().is_some_and(|n| n.first_child().is_some())
+                    && (cnt == args_len && cnt > 1
+                        || arg.as_node().is_some_and(|n| n.first_child().is_some()))
                     && leaves_nothing(&arg, spec);
                 self.convert(f, arg, spec)?;
                 if zws {
-- 
2.43.0


From 21459a71a9fe132c4631b9046dbca6d0d1c0d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 49/66] fix: a label is nothing to take as an argument

---
 crates/mitex/src/converter.rs | 38 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 37a2ea4..b19f4c7 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -132,19 +132,25 @@ fn leaves_nothing(elem: &LatexSyntaxElem, spec: &CommandSpec) -> bool {
         ClauseArgument => elem
             .as_node()
             .is_some_and(|n| n.children_with_tokens().all(|c| leaves_nothing(&c, spec))),
-        ItemCmd => elem
-            .as_node()
-            .and_then(|n| CmdItem::cast(n.clone()))
-            .and_then(|cmd| spec.get_cmd(&cmd.name_tok()?.text()[1..]).cloned())
-            .is_some_and(|shape| {
-                shape.alias.as_deref() == Some("")
-                    && matches!(
-                        shape.args,
-                        ArgShape::Right {
-                            pattern: ArgPattern::None
-                        }
-                    )
-            }),
+        ItemCmd => {
+            let Some(name) = elem
+                .as_node()
+                .and_then(|n| CmdItem::cast(n.clone())?.name_tok())
+            else {
+                return false;
+            };
+            let name = &name.text()[1..];
+            name == "label"
+                || spec.get_cmd(name).is_some_and(|shape| {
+                    shape.alias.as_deref() == Some("")
+                        && matches!(
+                            shape.args,
+                            ArgShape::Right {
+                                pattern: ArgPattern::None
+                            }
+                        )
+                })
+        }
         _ => false,
     }
 }
@@ -852,8 +858,10 @@ impl Converter {
                 let kind = arg.kind();
                 // deal with case like `\hat\nonumber` and `{a\over}`
                 let zws = matches!(kind, LatexSyntaxKind::ClauseArgument)
-                    && (cnt == args_len && cnt > 1
-                        || arg.as_node().is_some_and(|n| n.first_child().is_some()))
+                    && match arg_shape {
+                        ArgShape::InfixGreedy => cnt == args_len,
+                        _ => arg.as_node().is_some_and(|n| n.first_child().is_some()),
+                    }
                     && leaves_nothing(&arg, spec);
                 self.convert(f, arg, spec)?;
                 if zws {
-- 
2.43.0


From bd0383280a058febeeffc86aec6fdecb1f66f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 50/66] fix: a blank group after a list made what follows part
 of the last item

---
 crates/mitex/src/converter.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b19f4c7..4d7583a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -46,6 +46,8 @@ pub struct Converter {
     label: Option<String>,
     // skip the space at the beginning of the line
     skip_next_space: bool,
+    // nothing is written in the current line yet
+    new_line: bool,
 }
 
 impl Converter {
@@ -56,6 +58,7 @@ impl Converter {
             indent: 0,
             label: None,
             skip_next_space: true,
+            new_line: true,
         }
     }
 
@@ -155,6 +158,16 @@ fn leaves_nothing(elem: &LatexSyntaxElem, spec: &CommandSpec) -> bool {
     }
 }
 
+/// Whether an element is a group of blanks within a line, like `{ }`
+fn is_blank_group(elem: &LatexSyntaxElem) -> bool {
+    use LatexSyntaxKind::*;
+    matches!(elem.kind(), ItemCurly)
+        && elem.as_node().unwrap().children_with_tokens().all(|child| {
+            matches!(child.kind(), TokenLBrace | TokenRBrace | TokenWhiteSpace)
+                || is_blank_group(&child)
+        })
+}
+
 impl Converter {
     fn convert(
         &mut self,
@@ -164,10 +177,15 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         use LatexSyntaxKind::*;
 
+        if self.new_line && matches!(self.mode, LaTeXMode::Text) && is_blank_group(&elem) {
+            // nothing that could start a line
+            return Ok(());
+        }
         match elem.kind() {
             TokenWhiteSpace => {}
             _ => {
                 self.skip_next_space = false;
+                self.new_line = false;
             }
         }
         match elem.kind() {
@@ -226,7 +244,7 @@ impl Converter {
             TokenWhiteSpace => {
                 // indent for itemize and enumerate
                 if self.skip_next_space {
-                    self.skip_next_space = false;
+                    self.skip_next_space = self.new_line;
                     return Ok(());
                 }
                 write!(f, "{}", elem.as_token().unwrap().text())?;
@@ -242,6 +260,7 @@ impl Converter {
                     f.write_char(' ')?;
                 }
                 self.skip_next_space = true;
+                self.new_line = true;
             }
             // escapes
             TokenApostrophe => {
@@ -961,6 +980,7 @@ impl Converter {
                                 f.write_char(' ')?;
                             }
                             self.skip_next_space = true;
+                            self.new_line = true;
                         }
                         break;
                     }
-- 
2.43.0


From 4134dce670f21ee9fd0bcc3a7a5ae92c2412bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:08 +0000
Subject: [PATCH 51/66] fix: the preview kept every second of the pages that a
 shorter document no longer has

---
 packages/typst-dom/src/typst-doc.mts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 9ef09e7..da56545 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -848,7 +848,7 @@ class TypstDocumentImpl {
     if (this.isMixinOutline && this.outline) {
       console.log("render with outline", this.outline);
       patchOutlineEntry(docDiv as any, pagesInfo, this.outline.items);
-      for (const ch of docDiv.children) {
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
@@ -864,7 +864,7 @@ class TypstDocumentImpl {
         pagesInfo[pageNumber].elem = ch.firstElementChild as HTMLDivElement;
       }
     } else {
-      for (const ch of docDiv.children) {
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
-- 
2.43.0


From 9503b9f563d676a470d26d21a265eab0117b1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:08 +0000
Subject: [PATCH 52/66] fix: a page of the preview that changed its height only
 kept the old height

---
 packages/typst-dom/src/typst-doc.mts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index da56545..70a1537 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -372,13 +372,17 @@ class TypstDocumentImpl {
       // apply scale
       const appliedScale = (scale / this.pixelPerPt).toString();
 
+      const scaledWidth = Math.ceil(canvasWidth * scale);
+      const scaledHeight = Math.ceil(canvasHeight * scale);
+
       // set data applied width and height to memoize change
-      if (elem.getAttribute("data-applied-scale") !== appliedScale) {
+      // Note: a page can change its height without changing its scale
+      if (
+        elem.getAttribute("data-applied-scale") !== appliedScale ||
+        elem.style.height !== `${scaledHeight}px`
+      ) {
         elem.setAttribute("data-applied-scale", appliedScale);
         // apply translate
-        const scaledWidth = Math.ceil(canvasWidth * scale);
-        const scaledHeight = Math.ceil(canvasHeight * scale);
-
         elem.style.width = `${scaledWidth}px`;
         elem.style.height = `${scaledHeight}px`;
         elem.style.transform = `scale(${appliedScale})`;
-- 
2.43.0


From 04b9ef3788955b1d8c51554f9ec3ddc74e933477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 53/66] fix: titles of the outline that are kept in an update
 stayed (not) clickable, or folded nothing

---
 packages/typst-dom/src/typst-outline.mts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/typst-dom/src/typst-outline.mts b/packages/typst-dom/src/typst-outline.mts
index 53487a4..7db4942 100644
--- a/packages/typst-dom/src/typst-outline.mts
+++ b/packages/typst-dom/src/typst-outline.mts
@@ -188,15 +188,23 @@ export function patchOutlineEntry(
   for (const elem of ctx.allElemList) {
     // apply clickable behavior to node containing children
     if (elem.children.some(isDataNode)) {
-      const titleContentSpan = elem.additions!.title!.additions!
-        .content as HTMLSpanElement;
+      const title = elem.additions!.title as GenElem;
+      const titleContentSpan = title.additions!.content as HTMLSpanElement;
+
+      // a clickable title is not patched from (or to) one that is not clickable
+      tagPatchId(
+        title.container,
+        title.container.getAttribute(TypstPatchAttrs.Tid) + ",clickable"
+      );
 
       titleContentSpan.style.textDecoration = "underline";
       titleContentSpan.style.cursor = "pointer";
 
-      const c = elem.container;
       titleContentSpan.addEventListener("click", () => {
-        c.classList.toggle("collapsed");
+        // `elem.container` is not shown if it is patched to an existing one
+        titleContentSpan
+          .closest(".typst-outline")
+          ?.classList.toggle("collapsed");
       });
     }
   }
-- 
2.43.0


From 46bd5c40b4f4038f7e118480d22476d4b5a5d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 54/66] fix: a page of the preview drawn as an image kept the
 frame of its former size

---
 packages/typst-dom/src/typst-doc.mts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 70a1537..5ebe762 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -725,6 +725,9 @@ class TypstDocumentImpl {
           if (pageInfo) {
             pageInfo.container = canvasDiv as HTMLDivElement;
             pageInfo.elem = canvasDiv.firstElementChild as HTMLDivElement;
+            // the page may have got another size
+            ch.setAttribute("width", `${pageInfo.width}`);
+            ch.setAttribute("height", `${pageInfo.height}`);
           }
         }
       }
-- 
2.43.0


From ad02051b2d5b7e45b40cbae86ea62ae8ee78843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 55/66] fix: the playground never showed a preview when the
 compiler was loaded after it

---
 packages/mitex-web/src/main.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index 15b7232..194b07d 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -20,6 +20,8 @@ const App = () => {
   let compilerLoaded = van.state(false);
   let fontLoaded = van.state(false);
   window.$typst$script.then(async () => {
+    // the script that defines it may be loaded after this module
+    $typst = window.$typst;
     compilerLoaded.val = true;
     await $typst.svg({ mainContent: "" });
     fontLoaded.val = true;
-- 
2.43.0


From 121abb5953e015a5d6ceb8ee683b574c7ca0f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 56/66] fix: the playground's preview of an older formula could
 replace that of a newer one

---
 packages/mitex-web/src/main.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index 194b07d..fe6ab2b 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -57,9 +57,12 @@ const App = () => {
   /// The preview component
   const Preview = (output: State<string>) => {
     const svgData = van.state("");
+    // the number of compilations started, as only the last one is shown
+    let compilations = 0;
     van.derive(async () => {
+      const compilation = ++compilations;
       if (fontLoaded.val) {
-        svgData.val = await $typst.svg({
+        const svg = await $typst.svg({
           mainContent: `#import "@preview/mitex:0.2.7": *
         #set page(width: auto, height: auto, margin: 1em);
         #set text(size: 24pt);
@@ -67,6 +70,9 @@ const App = () => {
         #math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)
         `,
         });
+        if (compilation === compilations) {
+          svgData.val = svg;
+        }
       } else {
         svgData.val = "";
       }
-- 
2.43.0


From 6dc967e454ac02b5cc5fab0b266cafe78381608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 57/66] fix: the playground's code of a formula with a backtick
 was broken

---
 packages/mitex-web/src/main.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index fe6ab2b..cefdd79 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -54,6 +54,13 @@ const App = () => {
     }
   });
 
+  /// The Typst code of a string with the converted code in it. It is raw text,
+  /// which cannot contain backticks, if possible.
+  const outputCode = () =>
+    output.val.includes("`")
+      ? `"${output.val.replace(/["\\]/g, "\\$&")}"`
+      : `\`${output.val}\`.text`;
+
   /// The preview component
   const Preview = (output: State<string>) => {
     const svgData = van.state("");
@@ -67,7 +74,7 @@ const App = () => {
         #set page(width: auto, height: auto, margin: 1em);
         #set text(size: 24pt);
         ${darkModeStyle.val}
-        #math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)
+        #math.equation(eval("$" + ${outputCode()} + "$", mode: "markup", scope: mitex-scope), block: true)
         `,
         });
         if (compilation === compilations) {
@@ -130,14 +137,14 @@ const App = () => {
       "Copy with template",
       van.derive(
         () =>
-          `#math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)`
+          `#math.equation(eval("$" + ${outputCode()} + "$", mode: "markup", scope: mitex-scope), block: true)`
       )
     ),
     CopyButton(
       "Copy with template and imports",
       van.derive(
         () => `#import "@preview/mitex:0.2.7": *\n
-#math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)`
+#math.equation(eval("$" + ${outputCode()} + "$", mode: "markup", scope: mitex-scope), block: true)`
       )
     ),
     Preview(output),
-- 
2.43.0


From 552ac5c159ab11ec1aa05f3d40c30889bce0f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 58/66] fix: row breaks and marks in the text of a formula were
 those of the environment around it, or were lost in braces

---
 crates/mitex/src/converter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 4d7583a..5f5b0e1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -898,9 +898,16 @@ impl Converter {
                 let kind = arg.kind();
                 if matches!(kind, LatexSyntaxKind::ClauseArgument) {
                     f.write_char('[')?;
+                    // marks and breaks in the text of a formula are none of the
+                    // environment around it
+                    let prev_env = matches!(self.mode, LaTeXMode::Math)
+                        .then(|| self.enter_env(LaTeXEnv::None));
                     let prev_mode = self.enter_mode(LaTeXMode::Text);
                     self.convert(f, arg, spec)?;
                     self.exit_mode(prev_mode);
+                    if let Some(prev_env) = prev_env {
+                        self.exit_env(prev_env);
+                    }
                     f.write_char(']')?;
                 }
             }
-- 
2.43.0


From 4369be67f7f85b3e66d5efabf82791ff59937b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 59/66] fix: scripts and delimiters do not take what ends their
 group

---
 crates/mitex-parser/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 582f44e..9237a61 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -949,7 +949,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             // the script itself has nothing before it to wrap, e.g. `a b_\over c`
             let state = self.list_state;
             self.list_state = ListState::new(state.scope);
-            self.content(false);
+            // a script does not take what ends its scope, e.g. `{a_}`
+            if self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+                self.content(false);
+            }
             self.list_state = state;
         }
 
@@ -968,7 +971,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.eat_as(TokenCommandSym);
             }
             // invalid syntax
-            Some(Token::CommandName(..) | Token::Dollar) | None => {}
+            Some(Token::CommandName(..) | Token::Dollar | Token::Right(BraceKind::Curly))
+            | None => {}
             Some(Token::Word) => {
                 self.single_char();
             }
-- 
2.43.0


From b45b2fc9962c74651fc8e5af4245f2caa0b301d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 60/66] fix: match braces inside of braces in globs

---
 crates/mitex-glob/src/lib.rs | 56 ++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index cffc05c..8f9e14b 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -72,7 +72,7 @@ fn glob_match_internal<'a>(
     state.glob_index += 1;
   }
 
-  while state.glob_index < glob.len() || state.path_index < path.len() {
+  'matching: while state.glob_index < glob.len() || state.path_index < path.len() {
     // The whole path is matched by a prefix of the glob
     if is_prefix && state.path_index == path.len() {
       return !negated;
@@ -159,6 +159,7 @@ fn glob_match_internal<'a>(
               // invalid pattern!
               return false;
             }
+            brace_stack.left_at[brace_stack.length as usize - 1] = state.glob_index;
           }
 
           continue;
@@ -241,8 +242,8 @@ fn glob_match_internal<'a>(
         }
         b'}' if brace_stack.length > 0 => {
           // If we hit the end of the braces, we matched the last option.
-          brace_stack.longest_brace_match =
-            brace_stack.longest_brace_match.max(state.path_index as i32);
+          let longest = brace_stack.longest_brace_match();
+          *longest = (*longest).max(state.path_index as i32);
           state.glob_index += 1;
           state = brace_stack.pop(&state, &mut captures);
           continue;
@@ -250,8 +251,8 @@ fn glob_match_internal<'a>(
         b',' if brace_stack.length > 0 => {
           // If we hit a comma, we matched one of the options!
           // But we still need to check the others in case there is a longer match.
-          brace_stack.longest_brace_match =
-            brace_stack.longest_brace_match.max(state.path_index as i32);
+          let longest = brace_stack.longest_brace_match();
+          *longest = (*longest).max(state.path_index as i32);
           state.path_index = brace_stack.last().path_index;
           state.glob_index += 1;
           state.wildcard = Wildcard::default();
@@ -274,9 +275,8 @@ fn glob_match_internal<'a>(
           if is_match {
             state.end_capture(&mut captures);
 
-            if brace_stack.length > 0 && state.glob_index > 0 && glob[state.glob_index - 1] == b'}'
-            {
-              brace_stack.longest_brace_match = state.path_index as i32;
+            if brace_stack.length > 0 && brace_stack.is_left(state.glob_index) {
+              *brace_stack.longest_brace_match() = state.path_index as i32;
               state = brace_stack.pop(&state, &mut captures);
             }
             state.glob_index += 1;
@@ -299,22 +299,23 @@ fn glob_match_internal<'a>(
       continue;
     }
 
-    if brace_stack.length > 0 {
+    // A brace that did not match may be in another one, whose next option is tried.
+    while brace_stack.length > 0 {
       // If in braces, find next option and reset path to index where we saw the '{'
       match state.skip_braces(glob, &mut captures, true) {
         BraceState::Invalid => return false,
         BraceState::Comma => {
           state.path_index = brace_stack.last().path_index;
-          continue;
+          continue 'matching;
         }
         BraceState::EndBrace => {}
       }
 
       // Hit the end. Pop the stack.
       // If we matched a previous option, use that.
-      if brace_stack.longest_brace_match >= 0 {
+      if *brace_stack.longest_brace_match() >= 0 {
         state = brace_stack.pop(&state, &mut captures);
-        continue;
+        continue 'matching;
       } else {
         // Didn't match. Restore state, and check if we need to jump back to a star pattern.
         state = *brace_stack.last();
@@ -324,7 +325,7 @@ fn glob_match_internal<'a>(
         }
         if state.wildcard.path_index > 0 && state.wildcard.path_index as usize <= path.len() {
           state.backtrack();
-          continue;
+          continue 'matching;
         }
       }
     }
@@ -340,8 +341,8 @@ fn glob_match_internal<'a>(
     }
   }
 
-  if brace_stack.length > 0 && state.glob_index > 0 && glob[state.glob_index - 1] == b'}' {
-    brace_stack.longest_brace_match = state.path_index as i32;
+  if brace_stack.length > 0 && brace_stack.is_left(state.glob_index) {
+    *brace_stack.longest_brace_match() = state.path_index as i32;
     brace_stack.pop(&state, &mut captures);
   }
 
@@ -486,7 +487,9 @@ fn skip_globstars(glob: &[u8], mut glob_index: usize) -> usize {
 struct BraceStack {
   stack: [State; 10],
   length: u32,
-  longest_brace_match: i32,
+  longest_brace_match: [i32; 10],
+  /// Where the pattern goes on after an option that ended with a star
+  left_at: [usize; 10],
 }
 
 impl Default for BraceStack {
@@ -496,7 +499,8 @@ impl Default for BraceStack {
     BraceStack {
       stack: [State::default(); 10],
       length: 0,
-      longest_brace_match: -1,
+      longest_brace_match: [-1; 10],
+      left_at: [0; 10],
     }
   }
 }
@@ -506,6 +510,8 @@ impl BraceStack {
   fn push(&mut self, state: &State) -> State {
     // Push old state to the stack, and reset current state.
     self.stack[self.length as usize] = *state;
+    self.longest_brace_match[self.length as usize] = -1;
+    self.left_at[self.length as usize] = 0;
     self.length += 1;
     State {
       path_index: state.path_index,
@@ -519,16 +525,13 @@ impl BraceStack {
   fn pop(&mut self, state: &State, captures: &mut Option<&mut Vec<Capture>>) -> State {
     self.length -= 1;
     let mut state = State {
-      path_index: self.longest_brace_match as usize,
+      path_index: self.longest_brace_match[self.length as usize] as usize,
       glob_index: state.glob_index,
       // But restore star state if needed later.
       wildcard: self.stack[self.length as usize].wildcard,
       globstar: self.stack[self.length as usize].globstar,
       capture_index: self.stack[self.length as usize].capture_index,
     };
-    if self.length == 0 {
-      self.longest_brace_match = -1;
-    }
     state.extend_capture(captures);
     if let Some(captures) = captures {
       state.capture_index = captures.len();
@@ -537,6 +540,17 @@ impl BraceStack {
     state
   }
 
+  /// The end of the longest option of the innermost brace that matched so far
+  #[inline(always)]
+  fn longest_brace_match(&mut self) -> &mut i32 {
+    &mut self.longest_brace_match[self.length as usize - 1]
+  }
+
+  #[inline(always)]
+  fn is_left(&self, glob_index: usize) -> bool {
+    self.left_at[self.length as usize - 1] == glob_index
+  }
+
   #[inline(always)]
   fn last(&self) -> &State {
     &self.stack[self.length as usize - 1]
-- 
2.43.0


From df1cb2a3a74c267df09ebd13739659323d2afdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 61/66] fix: text after a list in braces or after a comment
 does not join its last item

---
 crates/mitex/src/converter.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 5f5b0e1..de5d421 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -158,6 +158,14 @@ fn leaves_nothing(elem: &LatexSyntaxElem, spec: &CommandSpec) -> bool {
     }
 }
 
+/// Whether a brace ends an argument of a command
+fn ends_argument(brace: &SyntaxToken) -> bool {
+    let group = brace.parent();
+    group
+        .and_then(|group| group.parent())
+        .is_some_and(|arg| arg.kind() == LatexSyntaxKind::ClauseArgument)
+}
+
 /// Whether an element is a group of blanks within a line, like `{ }`
 fn is_blank_group(elem: &LatexSyntaxElem) -> bool {
     use LatexSyntaxKind::*;
@@ -183,6 +191,13 @@ impl Converter {
         }
         match elem.kind() {
             TokenWhiteSpace => {}
+            // these write nothing, hence what follows is still at the start of the line
+            ItemCurly | TokenLBrace | TokenComment | ItemBlockComment | TokenLineBreak
+                if self.new_line && matches!(self.mode, LaTeXMode::Text) => {}
+            TokenRBrace
+                if self.new_line
+                    && matches!(self.mode, LaTeXMode::Text)
+                    && !ends_argument(elem.as_token().unwrap()) => {}
             _ => {
                 self.skip_next_space = false;
                 self.new_line = false;
@@ -977,8 +992,12 @@ impl Converter {
                 next = next.and_then(|t| t.next_token());
                 match next.as_ref().map(|t| t.kind()) {
                     Some(LatexSyntaxKind::TokenWhiteSpace) => {}
-                    None
-                    | Some(LatexSyntaxKind::TokenLineBreak | LatexSyntaxKind::TokenRBrace) => break,
+                    // braces that are no argument write nothing
+                    Some(LatexSyntaxKind::TokenRBrace)
+                        if !next.as_ref().is_some_and(ends_argument) => {}
+                    None | Some(LatexSyntaxKind::TokenLineBreak | LatexSyntaxKind::TokenRBrace) => {
+                        break
+                    }
                     Some(_) => {
                         let next = next.unwrap();
                         if !matches!(next.text(), "\\item" | "\\end") {
-- 
2.43.0


From 8c719a2c2de64211e38db69d170bec19881aeffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:51 +0000
Subject: [PATCH 62/66] fix: the end of a formula inside of a formula did not
 count as its own

---
 crates/mitex-parser/src/syntax.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/syntax.rs b/crates/mitex-parser/src/syntax.rs
index e61d789..832dd85 100644
--- a/crates/mitex-parser/src/syntax.rs
+++ b/crates/mitex-parser/src/syntax.rs
@@ -256,8 +256,13 @@ impl FormulaItem {
 
     /// Checks whether the formula is valid
     pub fn is_valid(&self) -> bool {
-        self.syntax().first_token().is_some_and(|first_node| {
-            self.syntax().last_token().is_some_and(|last_node| {
+        // the delimiters of the formula itself, not those of a formula inside of it
+        let first = self.syntax().first_child_or_token();
+        let last = self.syntax().last_child_or_token();
+        let first = first.and_then(|e| e.into_token());
+        let last = last.and_then(|e| e.into_token());
+        first.is_some_and(|first_node| {
+            last.is_some_and(|last_node| {
                 if first_node.kind() == TokenDollar && last_node.kind() == TokenDollar {
                     return (first_node.text() == "$" && last_node.text() == "$")
                         || (first_node.text() == "$$" && last_node.text() == "$$");
-- 
2.43.0


From 4a31c2781706d9f13c553b934c710a0f0c3211b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 63/66] fix: the CLI panicked when it could not write the main
 manual page

---
 crates/mitex-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..8072e78 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -208,7 +208,7 @@ fn generate_manual(cmd: clap::Command, out: &Path) -> Result<(), Box<dyn std::er
 
     create_dir_all(out)?;
 
-    Man::new(cmd.clone()).render(&mut File::create(out.join("mitex-cli.1")).unwrap())?;
+    Man::new(cmd.clone()).render(&mut File::create(out.join("mitex-cli.1"))?)?;
 
     for subcmd in cmd.get_subcommands() {
         let name = format!("mitex-cli-{}", subcmd.get_name());
-- 
2.43.0


From b1dfa7e6dffa9043558c90a0da44ce22ebe32f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 64/66] fix: the document editor went on to show the old text
 after files were loaded again

---
 .../mitex-web/src/tools/underleaf-editor.ts   | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/packages/mitex-web/src/tools/underleaf-editor.ts b/packages/mitex-web/src/tools/underleaf-editor.ts
index e2c05f4..4411da9 100644
--- a/packages/mitex-web/src/tools/underleaf-editor.ts
+++ b/packages/mitex-web/src/tools/underleaf-editor.ts
@@ -2,11 +2,7 @@
 import van, { State } from "vanjs-core";
 const { div } = van.tags;
 
-import {
-  ChangeSet,
-  EditorState,
-  Range as EditorRange,
-} from "@codemirror/state";
+import { EditorState, Range as EditorRange } from "@codemirror/state";
 import { EditorView } from "@codemirror/view";
 import {
   syntaxHighlighting,
@@ -117,7 +113,7 @@ export const Editor = (
     });
   });
 
-  const vs = van.derive(() => {
+  const focusText = () => {
     // console.log("focusFile.val", changeFocusFile.val);
     const path = changeFocusFile.val?.path;
     if (!changeFocusFile.val || !path) {
@@ -128,16 +124,14 @@ export const Editor = (
     }
     const data = changeFocusFile.val.data.val;
     return data ? decoder.decode(data) : "";
-  });
+  };
   van.derive(() => {
     view.dispatch({
-      changes: [
-        ChangeSet.empty(0),
-        {
-          from: 0,
-          insert: vs.val,
-        },
-      ],
+      changes: {
+        from: 0,
+        to: view.state.doc.length,
+        insert: focusText(),
+      },
     });
   });
 
-- 
2.43.0


From 2482cb3da38bb05a57879524b12c8520bec827f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:35 +0000
Subject: [PATCH 65/66] fix: many comment lines took quadratic time to convert

---
 crates/mitex/src/converter.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index de5d421..b555100 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1365,7 +1365,7 @@ fn is_dropped_break(line_break: &LatexSyntaxElem) -> bool {
     let is_argument = |group: SyntaxNode| {
         let arg = group.parent().filter(|arg| arg.kind() == ClauseArgument);
         // (the argument of a greedy command has more than a group)
-        arg.filter(|arg| arg.children_with_tokens().count() == 1)
+        arg.filter(|arg| arg.children_with_tokens().nth(1).is_none())
             .and_then(|arg| arg.parent())
             .is_some_and(|cmd| cmd.kind() != ItemAttachComponent)
     };
@@ -1375,22 +1375,23 @@ fn is_dropped_break(line_break: &LatexSyntaxElem) -> bool {
         _ => false,
     };
     let prev = token.prev_token();
-    let mut dropped = prev.as_ref().is_some_and(|t| t.kind() == TokenLineBreak);
     let ends_comment = prev.as_ref().is_some_and(|t| t.kind() == TokenComment);
-    let mut line = prev;
-    while let Some(t) = line.as_ref() {
-        match t.kind() {
-            TokenWhiteSpace => {}
-            // a line that ends with a comment goes on in the next one
-            TokenLineBreak if t.prev_token().is_some_and(|t| t.kind() == TokenComment) => {}
-            _ if is_dropped(t) => dropped = true,
-            _ => break,
+    if !ends_comment {
+        let mut dropped = prev.as_ref().is_some_and(|t| t.kind() == TokenLineBreak);
+        let mut line = prev;
+        while let Some(t) = line.as_ref() {
+            match t.kind() {
+                TokenWhiteSpace => {}
+                // a line that ends with a comment goes on in the next one
+                TokenLineBreak if t.prev_token().is_some_and(|t| t.kind() == TokenComment) => {}
+                _ if is_dropped(t) => dropped = true,
+                _ => break,
+            }
+            line = t.prev_token();
+        }
+        if !dropped || !line.is_some_and(|t| t.kind() == TokenLineBreak) {
+            return false;
         }
-        line = t.prev_token();
-    }
-    let whole_line = dropped && line.is_some_and(|t| t.kind() == TokenLineBreak);
-    if !ends_comment && !whole_line {
-        return false;
     }
     let mut next = token.next_token();
     while let Some(t) = next.as_ref().filter(|t| t.kind() == TokenWhiteSpace) {
-- 
2.43.0


From ada2298ac361836bc15dae132368782052a56c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:25 +0000
Subject: [PATCH 66/66] fix: quotes and backslashes in the path of an image
 were not escaped

---
 crates/mitex/src/converter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b555100..d165fbd 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -667,7 +667,12 @@ impl Converter {
         }
         // image path
         f.write_char('"')?;
-        f.write_str(body)?;
+        for c in body.chars() {
+            if matches!(c, '"' | '\\') {
+                f.write_char('\\')?;
+            }
+            f.write_char(c)?;
+        }
         f.write_char('"')?;
         f.write_char(')')?;
         Ok(())
-- 
2.43.0

