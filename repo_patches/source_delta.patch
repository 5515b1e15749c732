From 8fa4d4a6add0e0e86cbfd6c15532a9341a7adbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 01/25] fix: successor of the largest character, not of
 U+10FFF, is None

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From c547421d981a99a044c678dbb4427deb2e4beaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 02/25] fix: neighbours of byte symbols 0x00 and 0xFF no longer
 overflow

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..0842d32 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -571,10 +571,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From 57612201be35d7a5581aa90f5e5cb4c7ed63a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 03/25] fix: Kleene closures no longer loop back through their
 initial state

---
 laps_regex/src/nfa.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..600bd5e 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -51,11 +51,20 @@ where
         // create NFA and normalize
         let mut nfa = Self::new(*k);
         let id = nfa.normalize();
-        // create a edge to the initial state
+        // create a new initial state and a new final state, so that the loop
+        // will never re-enter edges that are added to the initial state later
+        let mut fa = MultiFA::new();
+        let fs = fa.add_final_state();
         let init = nfa.fa.init_id();
-        nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
+        fa.init_mut().add(None, init);
+        fa.init_mut().add(None, fs);
+        // create edges for repeating and leaving
+        let last = nfa.fa.state_mut(id).unwrap();
+        last.add(None, init);
+        last.add(None, fs);
+        // union states of two NFAs
+        fa.union(nfa.fa);
+        nfa.fa = fa;
         nfa
       }
     }
-- 
2.43.0


From b9cc452d567a9ccc6b0fc0329bee51121c6702c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 04/25] fix: equivalent expressions keep the smallest of their
 tags

---
 laps_regex/src/mir.rs | 11 +++++++----
 laps_regex/src/re.rs  |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 0842d32..c922744 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -352,10 +352,13 @@ where
       return Err(Error::MatchesNothing);
     }
     // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
+    // if there are duplicates, the leftmost tag is preferred
+    let mut tagged_exps = HashMap::new();
+    for (e, t) in &a {
+      if let Some(t) = t {
+        tagged_exps.entry(e.clone()).or_insert_with(|| t.clone());
+      }
+    }
     // optimize all sub-expressions, flatten nested alternations
     // and remove duplicate expressions
     let mut new_a = Vec::new();
diff --git a/laps_regex/src/re.rs b/laps_regex/src/re.rs
index 5d33ab0..0e7d2b7 100644
--- a/laps_regex/src/re.rs
+++ b/laps_regex/src/re.rs
@@ -71,7 +71,7 @@ where
   }
 
   /// Implementation of all building methods.
-  fn build_impl<R, S>(self, re_parse: R) -> Result<RegexMatcher<S, T>, Error<T>>
+  fn build_impl<R, S>(mut self, re_parse: R) -> Result<RegexMatcher<S, T>, Error<T>>
   where
     R: Fn(&str) -> Result<Hir, RegexError>,
     S: Hash + Eq + Clone + Ord + SymbolOp + Sync + Send,
@@ -80,6 +80,8 @@ where
     if self.re_tags.is_empty() {
       Err(Error::EmptyBuilder)
     } else {
+      // smaller tags have higher precedence
+      self.re_tags.sort_by(|(_, l), (_, r)| l.cmp(r));
       Mir::Alter(
         self
           .re_tags
-- 
2.43.0


From 681b9d9688b766656615ac741519d60be92ba620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 05/25] fix: automata without transitions can be tabulated

---
 laps_regex/src/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..d15491b 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,10 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
+    let temp_table = TempTable::new(dfa);
     // get number of states
-    let num_states = trans_table[0].len();
+    let num_states = temp_table.num_states;
+    let (equivs, trans_table, init_id, tags) = temp_table.into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -139,6 +140,7 @@ struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
   tags: HashMap<usize, T>,
   init_id: usize,
+  num_states: usize,
 }
 
 impl<S, T> TempTable<S, T> {
@@ -176,6 +178,7 @@ impl<S, T> TempTable<S, T> {
       table,
       tags,
       init_id: ids[&fa.init_id()],
+      num_states,
     }
   }
 
-- 
2.43.0


From 89ca3781ce1c0ee716cee19a323319b27cae6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 06/25] fix: build without the logger feature

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From 01b916a78927f6e3edc892be179cb5a3157b1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 07/25] fix: diagnostics of reversed, zero-width, wide or
 missing text neither panic nor point elsewhere

---
 src/span.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..bf7a2d1 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -130,14 +130,14 @@ macro_rules! get_line_str {
       _ => c.width().unwrap_or(0),
     });
     let mut count1 = 0;
-    for _ in 0..col1 {
+    for _ in 1..col1 {
       count1 += match iter.next() {
         Some(n) => n,
         None => break,
       };
     }
     let mut count2 = count1;
-    for _ in col1..col2 {
+    for _ in col1..=std::cmp::max(col1, col2) {
       count2 += match iter.next() {
         Some(n) => n,
         None => break,
@@ -433,7 +433,7 @@ impl Span {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
           let mut lines = BufReader::new(file).lines();
-          if self.start.line == self.end.line {
+          if self.start.line >= self.end.line {
             self.print_single_line_info(&mut lines, color)
           } else {
             self.print_multi_line_info(&mut lines, color)
@@ -454,10 +454,20 @@ impl Span {
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let end_col = if self.start.line == self.end.line {
+      self.end.col
+    } else {
+      self.start.col
+    };
+    let line_str = lines.nth(line_num.saturating_sub(1));
+    let (line, c1, c2) = get_line_str!(line_str, self.start.col, end_col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    // characters without width are marked at the previous one
+    let (leading, len) = if c1 < c2 {
+      (c1, c2 - c1)
+    } else {
+      (c1.saturating_sub(1), 1)
+    };
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
@@ -477,11 +487,11 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = (self.end.line as f32 + 1.0).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-    let mut lines = lines.skip(line_num - 1);
+    let mut lines = lines.skip(line_num.saturating_sub(1));
     let (line, start) = get_line_str!(lines.next(), self.start.col);
     writeln!(buf, "{:width$} {}", "", "|".blue())?;
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
-- 
2.43.0


From 924a96f9bce6d8b11b995071ec926f757ac804f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 08/25] fix: diagnostics in lines wider than 65535 columns no
 longer panic

---
 src/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index bf7a2d1..aba390b 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -472,8 +472,8 @@ impl Span {
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -497,7 +497,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", ("_".repeat(start) + "^").color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -528,7 +528,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", ("_".repeat(end) + "^").color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From 986e24a22b6e49fffd16b765751af93dabb6f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 09/25] fix: braces in documentation comments and prompts are
 not format specifiers

---
 laps_macros/src/token_ast.rs  | 2 +-
 laps_macros/src/token_kind.rs | 9 ++++-----
 laps_macros/src/tokenize.rs   | 4 ++--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..a332079 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -175,7 +175,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           match &token.kind {
             #[allow(unused_parens)]
             #pat #if_guard => std::result::Result::Ok(Self(token)),
-            _ => laps::return_error!(token.span, std::concat!("expected ", #prompt, ", found {}"), token),
+            _ => laps::return_error!(token.span, "expected {}, found {}", #prompt, token),
           }
         },
         None => match if_guard {
diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..33c271d 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -83,12 +83,11 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
     );
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
-        let prompt = prompt + " `{}`";
-        quote!(Self::#ident(v) => std::write!(f, #prompt, v),)
+        quote!(Self::#ident(v) => std::write!(f, "{} `{}`", #prompt, v),)
       }
-      Fields::Named(_) => quote!(Self::#ident { .. } => std::write!(f, #prompt),),
-      Fields::Unnamed(_) => quote!(Self::#ident(..) => std::write!(f, #prompt),),
-      Fields::Unit => quote!(Self::#ident => std::write!(f, #prompt),),
+      Fields::Named(_) => quote!(Self::#ident { .. } => f.write_str(#prompt),),
+      Fields::Unnamed(_) => quote!(Self::#ident(..) => f.write_str(#prompt),),
+      Fields::Unit => quote!(Self::#ident => f.write_str(#prompt),),
     });
   }
   quote! {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..919b1b3 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -473,10 +473,10 @@ impl RegexImpls {
           let err = &v.err;
           let field = match parser {
             Some(e) => quote! {
-              (#e)(buf).ok_or_else(|| return_error!(span, std::concat!("invalid ", #err)))?
+              (#e)(buf).ok_or_else(|| return_error!(span, "invalid {}", #err))?
             },
             None => quote! {
-              buf.parse().map_err(|_| return_error!(span, std::concat!("invalid ", #err)))?
+              buf.parse().map_err(|_| return_error!(span, "invalid {}", #err))?
             },
           };
           let ident = &v.ident;
-- 
2.43.0


From 2218cd20061daa4942c9b8523c189907b3e974b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 10/25] fix: doc comments and other attributes may follow
 `regex`/`skip`/`eof`

---
 laps_macros/src/tokenize.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 919b1b3..4a3f1fd 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,23 +135,19 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let cur_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
         )
       }
+      attr = Some(cur_attr);
     }
     // check attribute
     match &attr {
-- 
2.43.0


From dc62ae95262a2feee7c5a7aac46fa68de9293d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 11/25] fix: lexers with exactly 256 or 65536 states reject
 unacceptable characters

---
 laps_macros/src/tokenize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 4a3f1fd..1c8eed1 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -406,7 +406,8 @@ impl RegexImpls {
     if self.num_states <= 1 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // `num_states` itself is used to represent invalid transitions
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From c05e45ae0fa76fac7f09e336140559b9c1328ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 12/25] fix: byte lexers accept regexes matching arbitrary
 bytes

---
 laps_macros/src/tokenize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 1c8eed1..ee8b747 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -257,8 +257,8 @@ struct RegexImpls {
 impl RegexImpls {
   fn new(info: &EnumInfo) -> Result<Self> {
     macro_rules! new {
-      ($t:ty) => {{
-        let tt: StateTransTable<$t, usize> = gen_trans_table(info, RegexBuilder::build)?;
+      ($t:ty, $build:expr) => {{
+        let tt: StateTransTable<$t, usize> = gen_trans_table(info, $build)?;
         let sym_map = tt
           .sym_map()
           .iter()
@@ -276,9 +276,9 @@ impl RegexImpls {
       }};
     }
     Ok(if info.bytes_mode {
-      new!(u8)
+      new!(u8, RegexBuilder::build_bytes)
     } else {
-      new!(char)
+      new!(char, RegexBuilder::build)
     })
   }
 
-- 
2.43.0


From adec846be03c1f6c07ada3973e56575e36567c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 13/25] fix: characters split across short reads are not
 invalid UTF-8

---
 src/reader.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..823c7dd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,24 +60,30 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    let (s, end, count) = loop {
+      // read bytes to buffer
+      let len = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      let count = self.byte_buf_offset + len;
+      // handle EOF
+      if count == 0 {
+        return Ok((None, loc));
+      }
+      // converts bytes to UTF-8 string
+      match from_utf8(&self.byte_buf[..count]) {
+        Ok(s) => break (s, None, count),
+        // the only character in buffer is incomplete, read more bytes
+        Err(e) if e.valid_up_to() == 0 && e.error_len().is_none() && len != 0 => {
+          self.byte_buf_offset = count;
+        }
+        Err(e) => {
+          let end = e.valid_up_to();
+          // safe due to the above check
+          let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
+          break (s, Some(end), count);
+        }
       }
     };
     // get the character and fill the char buffer
-- 
2.43.0


From 0501aa1ed33628d950c8c2840dd3b3e7300f5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/25] fix: signed integer literals include the minimum of
 signed types

---
 src/lexer.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..f90cb38 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,7 +99,14 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
-  // check if is a valid integer literal
+  let (digits, radix) = int_literal_digits(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Returns digits and the radix of the given integer literal,
+/// or [`None`] if the string is not a valid integer literal.
+fn int_literal_digits(s: &str) -> Option<(&str, u32)> {
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
     (Some('0'), Some(c)) if "box".contains(c) => (
@@ -118,8 +125,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((&s[starts_from..], radix))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -148,8 +154,15 @@ where
   T: IntLiteral,
 {
   let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
+  if first == '+' {
+    int_literal(&s[1..])
+  } else if first == '-' {
+    let (digits, radix) = int_literal_digits(&s[1..])?;
+    match T::from_str_radix(digits, radix) {
+      Ok(n) => Some(n.wrapping_neg()),
+      // the minimum value of signed types fits only after negation
+      Err(_) => T::from_str_radix(&format!("-{digits}"), radix).ok(),
+    }
   } else {
     int_literal(s)
   }
-- 
2.43.0


From 1e582edc19affd6b7e41ca21f4b8475a9d3150f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 15/25] fix: reject unicode escapes without digits

---
 src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index f90cb38..963329f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -338,13 +338,17 @@ where
         }
         // get hex value
         let mut hex = 0u32;
+        let mut is_empty = true;
         for c in iter {
           match c.to_digit(16) {
             Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+              Some(h16) => {
+                hex = h16 + h;
+                is_empty = false;
+              }
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' && !is_empty => match char::from_u32(hex) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From 1d108e14365d97d87ba72d77167dd2bafe823c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 16/25] fix: token prefixes put the peeked prefix back on
 errors

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From 1a180c8ad12fdadd51e02e541defb1d43051cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 17/25] fix: peeking several tokens puts them back on errors

---
 src/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..4df4047 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,10 +157,9 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
-    self.unread(token2.clone());
+    let token2 = self.peek();
     self.unread(token1.clone());
-    Ok((token1, token2))
+    Ok((token1, token2?))
   }
 
   /// Peeks the next N tokens from the token stream.
@@ -170,11 +169,10 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| self.next_token().map(|t| v.push(t)));
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From 50a2ca282d65046ccc51aefe0a4bdc7b7faf75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 18/25] fix: accept ASCII classes in byte mode

The syntax parser turns alternations such as `a|b` into Unicode classes, so
they (and `[0-9]`) failed to build in byte mode.
---
 laps_regex/src/mir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index c922744..17e6fd0 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -505,7 +505,11 @@ impl<T> MirBuilder for Mir<u8, T> {
       Class::Bytes(b) => Ok(Self::Ranges(
         b.ranges().iter().map(|r| (r.start(), r.end())).collect(),
       )),
-      Class::Unicode(_) => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      // the parser may represent ASCII alternations and classes as Unicode
+      Class::Unicode(u) => match u.to_byte_class() {
+        Some(b) => Self::new_from_class(Class::Bytes(b)),
+        None => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      },
     }
   }
 }
-- 
2.43.0


From e70407ccffd38b74801fc1343c864b614f649b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 19/25] fix: accept raw identifiers as fields in
 derive(Spanned)

---
 laps_macros/src/spanned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..c2514d1 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -1,7 +1,7 @@
 use crate::utils::{error, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
-use quote::quote;
+use quote::{format_ident, quote};
 use syn::{
   punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
   Field, Fields, Meta, Result, Token, Variant,
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = format_ident!("_{}", id, span = span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From eee4c23a4f14347ece9a40ed3ed5b5657d1bb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 20/25] fix: token ASTs accept token kinds with one-letter
 names

---
 laps_macros/src/token_ast.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a332079..cf33561 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -192,11 +192,11 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           /// # Panics
           ///
           /// Panics if the inner token kind does not contain a value of
-          /// the type `T`.
-          #field_vis fn unwrap<T, E>(self) -> T
+          /// the requested type.
+          #field_vis fn unwrap<__LapsT, __LapsE>(self) -> __LapsT
           where
-            T: std::convert::TryFrom<#kind, Error = E>,
-            E: std::fmt::Debug,
+            __LapsT: std::convert::TryFrom<#kind, Error = __LapsE>,
+            __LapsE: std::fmt::Debug,
           {
             self.0.kind.try_into().unwrap()
           }
@@ -206,23 +206,23 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           /// # Panics
           ///
           /// Panics if the inner token kind does not contain a value of
-          /// the type `T`.
-          #field_vis fn unwrap_ref<'a, T, E>(&'a self) -> T
+          /// the requested type.
+          #field_vis fn unwrap_ref<'a, __LapsT, __LapsE>(&'a self) -> __LapsT
           where
-            T: std::convert::TryFrom<&'a #kind, Error = E>,
-            E: std::fmt::Debug,
+            __LapsT: std::convert::TryFrom<&'a #kind, Error = __LapsE>,
+            __LapsE: std::fmt::Debug,
           {
             self.0.as_ref().try_into().unwrap()
           }
         }
-        impl<TS> laps::parse::Parse<TS> for #name
+        impl<__LapsTS> laps::parse::Parse<__LapsTS> for #name
         where
-          TS: laps::token::TokenStream<Token = #token>
+          __LapsTS: laps::token::TokenStream<Token = #token>
         {
-          fn parse(tokens: &mut TS) -> laps::span::Result<Self> {
+          fn parse(tokens: &mut __LapsTS) -> laps::span::Result<Self> {
             #parse_body
           }
-          fn maybe(tokens: &mut TS) -> laps::span::Result<bool> {
+          fn maybe(tokens: &mut __LapsTS) -> laps::span::Result<bool> {
             #[allow(unused_parens)]
             std::result::Result::Ok(matches!(&tokens.peek()?.kind, #pat #if_guard))
           }
-- 
2.43.0


From 2613962ac0f465d39a0e7632cf11173d06b1e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 21/25] fix: names used inside derived lexers no longer clash
 with the user's

---
 laps_macros/src/tokenize.rs | 128 ++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 63 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index ee8b747..135b561 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -43,9 +43,9 @@ pub fn derive_tokenize(item: TokenStream) -> Result<TokenStream> {
     for #name #ty_generics #where_clause {
       type CharType = #char_type;
 
-      fn next_token<I>(input: &mut I) -> laps::span::Result<laps::token::Token<Self>>
+      fn next_token<__LapsInput>(input: &mut __LapsInput) -> laps::span::Result<laps::token::Token<Self>>
       where
-        I: laps::input::InputStream<CharType = #char_type>,
+        __LapsInput: laps::input::InputStream<CharType = #char_type>,
       {
         #body
       }
@@ -303,60 +303,52 @@ impl RegexImpls {
     let buf_def = Self::buf_def(&info);
     let eof_token = Self::eof_token(&info);
     Ok(quote! {
-      use std::option::Option::{self, *};
-      use std::result::Result::*;
-      use std::{string::String, vec::Vec};
-      use laps::input::InputStream;
-      use laps::return_error;
-      use laps::span::{Result, Span};
+      type __LapsKind #impl_generics = #name #ty_generics;
 
-      type Kind #impl_generics = #name #ty_generics;
-      type Token #impl_generics = laps::token::Token<Kind #ty_generics>;
-
-      struct LexerResult {
+      struct __LapsLexerResult {
         last_state: usize,
         buf: #buf_ty,
-        span: Span,
+        span: laps::span::Span,
         is_eof: bool,
       }
 
-      enum TokenResult #impl_generics #where_clause {
-        Token(Token #ty_generics),
+      enum __LapsTokenResult #impl_generics #where_clause {
+        Token(laps::token::Token<__LapsKind #ty_generics>),
         Skip,
         Unknown,
       }
 
-      fn table() -> &'static [#table_ty] { #table_def }
+      fn __laps_table() -> &'static [#table_ty] { #table_def }
 
       #[allow(clippy::manual_is_ascii_check)]
-      fn equiv_id(c: #char_type) -> Option<usize> { #equiv_id }
+      fn __laps_equiv_id(c: #char_type) -> std::option::Option<usize> { #equiv_id }
 
-      fn is_accept(state: &mut usize, c: #char_type) -> bool {
-        let equiv = match equiv_id(c) {
-          Some(id) => id,
-          None => return false,
+      fn __laps_is_accept(state: &mut usize, c: #char_type) -> bool {
+        let equiv = match __laps_equiv_id(c) {
+          std::option::Option::Some(id) => id,
+          std::option::Option::None => return false,
         };
-        *state = table()[equiv * #num_states + *state] as usize;
+        *state = __laps_table()[equiv * #num_states + *state] as usize;
         *state < #num_states
       }
 
       #[allow(clippy::ptr_arg)]
-      fn token_result #impl_generics (
-        tag: usize, buf: &#buf_ty, span: &Span
-      ) -> Result<TokenResult #ty_generics> #where_clause {
+      fn __laps_token_result #impl_generics (
+        tag: usize, buf: &#buf_ty, span: &laps::span::Span
+      ) -> laps::span::Result<__LapsTokenResult #ty_generics> #where_clause {
         #token_result
       }
 
       #[allow(clippy::ptr_arg)]
-      fn is_final #impl_generics (
-        state: usize, buf: &#buf_ty, span: &Span
-      ) -> Result<TokenResult #ty_generics> #where_clause {
+      fn __laps_is_final #impl_generics (
+        state: usize, buf: &#buf_ty, span: &laps::span::Span
+      ) -> laps::span::Result<__LapsTokenResult #ty_generics> #where_clause {
         #is_final
       }
 
-      fn next_token_impl<I>(input: &mut I) -> Result<LexerResult>
+      fn __laps_next_token_impl<__LapsInput>(input: &mut __LapsInput) -> laps::span::Result<__LapsLexerResult>
       where
-        I: InputStream<CharType = #char_type>,
+        __LapsInput: laps::input::InputStream<CharType = #char_type>,
       {
         let mut state = #init_id;
         let mut last_state;
@@ -365,9 +357,9 @@ impl RegexImpls {
         let is_eof = loop {
           let (c, loc) = input.next_char_loc()?;
           last_state = state;
-          if let Some(c) = c {
-            if !is_accept(&mut state, c) {
-              input.unread((Some(c), loc));
+          if let std::option::Option::Some(c) = c {
+            if !__laps_is_accept(&mut state, c) {
+              input.unread((std::option::Option::Some(c), loc));
               break false;
             }
             buf.push(c);
@@ -376,17 +368,17 @@ impl RegexImpls {
             break true;
           }
         };
-        Ok(LexerResult { last_state, buf, span, is_eof })
+        std::result::Result::Ok(__LapsLexerResult { last_state, buf, span, is_eof })
       }
 
       loop {
-        let LexerResult { last_state, buf, span, is_eof } = next_token_impl(input)?;
-        match is_final(last_state, &buf, &span)? {
-          TokenResult::Token(t) => return Ok(t),
-          TokenResult::Skip => continue,
-          TokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
-          TokenResult::Unknown if is_eof => return_error!(span, "unexpected end-of-file"),
-          TokenResult::Unknown => return_error!(span, "unrecognized token"),
+        let __LapsLexerResult { last_state, buf, span, is_eof } = __laps_next_token_impl(input)?;
+        match __laps_is_final(last_state, &buf, &span)? {
+          __LapsTokenResult::Token(t) => return std::result::Result::Ok(t),
+          __LapsTokenResult::Skip => continue,
+          __LapsTokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
+          __LapsTokenResult::Unknown if is_eof => laps::return_error!(span, "unexpected end-of-file"),
+          __LapsTokenResult::Unknown => laps::return_error!(span, "unrecognized token"),
         }
       }
     })
@@ -395,9 +387,9 @@ impl RegexImpls {
   /// Generate buffer type.
   fn buf_ty(info: &EnumInfo) -> TokenStream2 {
     if info.bytes_mode {
-      quote!(Vec<u8>)
+      quote!(std::vec::Vec<u8>)
     } else {
-      quote!(String)
+      quote!(std::string::String)
     }
   }
 
@@ -450,12 +442,12 @@ impl RegexImpls {
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
       let r = bound(r);
-      quote!(if (#l..=#r).contains(&c) { return Some(#id) })
+      quote!(if (#l..=#r).contains(&c) { return std::option::Option::Some(#id) })
     });
     quote! {
-      if !(#l..=#r).contains(&c) { return None }
+      if !(#l..=#r).contains(&c) { return std::option::Option::None }
       #(#equivs)*
-      None
+      std::option::Option::None
     }
   }
 
@@ -470,26 +462,32 @@ impl RegexImpls {
           let err = &v.err;
           let field = match parser {
             Some(e) => quote! {
-              (#e)(buf).ok_or_else(|| return_error!(span, "invalid {}", #err))?
+              (#e)(buf).ok_or_else(|| laps::return_error!(span, "invalid {}", #err))?
             },
             None => quote! {
-              buf.parse().map_err(|_| return_error!(span, "invalid {}", #err))?
+              buf.parse().map_err(|_| laps::return_error!(span, "invalid {}", #err))?
             },
           };
           let ident = &v.ident;
           let kind = match &v.fields {
-            FieldInfo::Unit => quote!(Kind::#ident),
-            FieldInfo::UnnamedUnit => quote!(Kind::#ident()),
-            FieldInfo::Unnamed => quote!(Kind::#ident(#field)),
+            FieldInfo::Unit => quote!(__LapsKind::#ident),
+            FieldInfo::UnnamedUnit => quote!(__LapsKind::#ident()),
+            FieldInfo::Unnamed => quote!(__LapsKind::#ident(#field)),
           };
           Some(
-            quote!(if tag == #i { return Ok(TokenResult::Token(Token::new(#kind, span.clone()))) }),
+            quote!(if tag == #i {
+              return std::result::Result::Ok(__LapsTokenResult::Token(
+                laps::token::Token::new(#kind, span.clone())
+              ))
+            }),
           )
         }
-        Some(VariantAttr::Skip(_)) => Some(quote!(if tag == #i { return Ok(TokenResult::Skip) })),
+        Some(VariantAttr::Skip(_)) => Some(quote!(if tag == #i {
+          return std::result::Result::Ok(__LapsTokenResult::Skip)
+        })),
         _ => None,
       });
-    quote!(#(#tokens)* Ok(TokenResult::Unknown))
+    quote!(#(#tokens)* std::result::Result::Ok(__LapsTokenResult::Unknown))
   }
 
   /// Generates state to token mappings.
@@ -501,20 +499,22 @@ impl RegexImpls {
     let tokens = self
       .tags
       .iter()
-      .map(|(id, tag)| quote!(if state == #id { return token_result(#tag, buf, span) }));
+      .map(|(id, tag)| quote!(if state == #id { return __laps_token_result(#tag, buf, span) }));
     quote! {
-      if !(#l..=#r).contains(&state) { return Ok(TokenResult::Unknown) }
+      if !(#l..=#r).contains(&state) {
+        return std::result::Result::Ok(__LapsTokenResult::Unknown)
+      }
       #(#tokens)*
-      Ok(TokenResult::Unknown)
+      std::result::Result::Ok(__LapsTokenResult::Unknown)
     }
   }
 
   /// Generate buffer definition.
   fn buf_def(info: &EnumInfo) -> TokenStream2 {
     if info.bytes_mode {
-      quote!(Vec::new())
+      quote!(std::vec::Vec::new())
     } else {
-      quote!(String::new())
+      quote!(std::string::String::new())
     }
   }
 
@@ -525,8 +525,8 @@ impl RegexImpls {
       Some(VariantAttr::Eof) => {
         let ident = &v.ident;
         match v.fields {
-          FieldInfo::Unit => Some(quote!(Kind::#ident)),
-          FieldInfo::UnnamedUnit => Some(quote!(Kind::#ident())),
+          FieldInfo::Unit => Some(quote!(__LapsKind::#ident)),
+          FieldInfo::UnnamedUnit => Some(quote!(__LapsKind::#ident())),
           _ => unreachable!(),
         }
       }
@@ -534,8 +534,10 @@ impl RegexImpls {
     });
     // generate token
     match eof {
-      Some(eof) => quote!(return Ok(Token::new(#eof, span))),
-      None => quote!(return_error!(span, "unexpected end-of-file")),
+      Some(eof) => quote! {
+        return std::result::Result::Ok(laps::token::Token::new(#eof, span))
+      },
+      None => quote!(laps::return_error!(span, "unexpected end-of-file")),
     }
   }
 }
-- 
2.43.0


From acfb564909ed0496a23c06150c97cd5aef612105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 22/25] fix: display raw identifiers of token kinds without the
 prefix

---
 laps_macros/src/token_kind.rs | 4 ++--
 laps_macros/src/tokenize.rs   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index 33c271d..02bf4eb 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -2,7 +2,7 @@ use crate::utils::{camel_to_lower, parse_doc_comments, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
-use syn::{Fields, ItemEnum, Result};
+use syn::{ext::IdentExt, Fields, ItemEnum, Result};
 
 /// Entry function of `#[token_kind]`.
 pub fn token_kind(attr: TokenStream, item: TokenStream) -> Result<TokenStream> {
@@ -72,7 +72,7 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
   for variant in &input.variants {
     let ident = &variant.ident;
     let prompt = parse_doc_comments(&variant.attrs).map_or_else(
-      || camel_to_lower(ident.to_string()),
+      || camel_to_lower(ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 135b561..14f32e1 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -5,6 +5,7 @@ use proc_macro::TokenStream;
 use proc_macro2::{Span, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
+  ext::IdentExt,
   parse::{Parse, ParseStream},
   spanned::Spanned,
   Data, DeriveInput, Expr, Fields, Ident, ImplGenerics, LitBool, LitStr, Meta, Result, Token, Type,
@@ -123,7 +124,7 @@ impl VariantInfo {
     let fields = FieldInfo::new(&v.fields)?;
     // collect error message
     let err = parse_doc_comments(&v.attrs).map_or_else(
-      || camel_to_lower(v.ident.to_string()),
+      || camel_to_lower(v.ident.unraw().to_string()),
       |mut p| {
         p.make_ascii_lowercase();
         if p.ends_with('.') {
-- 
2.43.0


From f2d9bb4b03575d6cd9697d33f546da47bfa60557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 23/25] fix: patterns of token ASTs may bind names that the
 expansion uses

---
 laps_macros/src/token_ast.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index cf33561..84f4829 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -171,16 +171,18 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
       let if_guard = guard.as_ref().map(|e| quote!(if #e));
       let parse_body = match prompt {
         Some(prompt) => quote! {
-          let token = tokens.next_token()?;
-          match &token.kind {
+          let __laps_token = __laps_tokens.next_token()?;
+          match &__laps_token.kind {
             #[allow(unused_parens)]
-            #pat #if_guard => std::result::Result::Ok(Self(token)),
-            _ => laps::return_error!(token.span, "expected {}, found {}", #prompt, token),
+            #pat #if_guard => std::result::Result::Ok(Self(__laps_token)),
+            _ => laps::return_error!(
+              __laps_token.span, "expected {}, found {}", #prompt, __laps_token
+            ),
           }
         },
         None => match if_guard {
           Some(e) => return_error!(e.span(), "if-guard must be used with `prompt`"),
-          None => quote!(tokens.expect(#pat).map(Self)),
+          None => quote!(__laps_tokens.expect(#pat).map(Self)),
         },
       };
       Ok(quote! {
@@ -219,12 +221,12 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
         where
           __LapsTS: laps::token::TokenStream<Token = #token>
         {
-          fn parse(tokens: &mut __LapsTS) -> laps::span::Result<Self> {
+          fn parse(__laps_tokens: &mut __LapsTS) -> laps::span::Result<Self> {
             #parse_body
           }
-          fn maybe(tokens: &mut __LapsTS) -> laps::span::Result<bool> {
+          fn maybe(__laps_tokens: &mut __LapsTS) -> laps::span::Result<bool> {
             #[allow(unused_parens)]
-            std::result::Result::Ok(matches!(&tokens.peek()?.kind, #pat #if_guard))
+            std::result::Result::Ok(matches!(&__laps_tokens.peek()?.kind, #pat #if_guard))
           }
         }
         impl laps::span::Spanned for #name {
-- 
2.43.0


From 660987bbb76c2dbaf2c08e76938f26e335899b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 24/25] fix: collect_with_span_until asks its predicate once
 about the first character

---
 src/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 4a6521b..1aeb4f0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -135,7 +135,11 @@ pub trait InputStream {
   {
     let mut v = Vec::new();
     let mut span = match self.peek_with_span()? {
-      (Some(c), span) if !f(&c) => span,
+      (Some(c), span) if !f(&c) => {
+        v.push(c);
+        self.next_char()?;
+        span
+      }
       (_, span) => return Ok((v, span)),
     };
     while let Some(c) = self.peek()? {
-- 
2.43.0


From 6f9b30ee46cc939ebceba98eaaf4e3d74bc33c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 25/25] fix: derive(Tokenize) accepts rules that match only the
 empty string

---
 laps_macros/src/tokenize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 14f32e1..0a171c2 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -437,8 +437,11 @@ impl RegexImpls {
       }
     };
     // generate boundary check
-    let l = bound(&self.sym_map.first().unwrap().0);
-    let r = bound(&self.sym_map.last().unwrap().1);
+    let (l, r) = match (self.sym_map.first(), self.sym_map.last()) {
+      (Some((l, ..)), Some((_, r, _))) => (bound(l), bound(r)),
+      // no symbol can be accepted
+      _ => return quote!(std::option::Option::None),
+    };
     // generate equivalent IDs
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
-- 
2.43.0

