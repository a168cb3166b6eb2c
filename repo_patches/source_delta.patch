From d598421bfcaa0af1f5c5785807d895e62094a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 01/20] fix: keep a markdown requirement that is ended by a
 plain heading

A heading that starts no requirement ends the current one, but the requirement
under construction was only committed when another requirement followed; at the
end of the file it was dropped without any error.
---
 src/parsers/markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..1bc9761 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -119,7 +119,12 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
 fn parse_states(state: State, context: &mut Context<'_>, evt: &Event<'_>) -> State {
     match evt {
         Event::Req(req_line) => parse_state_req(state, context, req_line),
-        Event::Heading => parse_state_heading(state, context),
+        Event::Heading => {
+            let state = parse_state_heading(state, context);
+            // a heading that does not start a requirement ends the current one
+            maybe_commit_req(context);
+            state
+        }
         Event::Eof => parse_state_eof(state, context),
         Event::Line(line) => parse_state_line(state, line, context),
         Event::Empty => parse_state_empty(state, context),
-- 
2.43.0


From 0946bbdd719708d88b061e82d4f80b051aedbe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 02/20] fix: keep the first line of later markdown description
 paragraphs

The line that follows an empty line in a description was dropped.
---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 1bc9761..758e815 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -169,11 +169,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From d6bed4bc9868bd89397913a4c0d299b0379751db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 03/20] fix: treat every blank markdown line as empty

A last line of one byte without a line ending failed the assertion and crashed
the tool. Blank lines of files with Windows line endings (or with trailing
blanks) were not seen as empty, so the attributes after a description, with
their Covers and Depends references, became part of the description.
---
 src/parsers/markdown.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 758e815..bf586be 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,10 +90,9 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(_) if line.trim().is_empty() => {
                 evt = Event::Empty;
-            } /* TODO: Win line Endings */
+            }
             Ok(_) => {
                 if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
-- 
2.43.0


From f7f6335989428c1a0ecb7b2f5c74e93d21d7d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 04/20] fix: only read bullet points as markdown references

The unescaped `*` made the anchor optional, so any line that ends with a word
was taken as a reference to that word, for example prose or the `Depends: X`
line below a `Covers:` list, instead of being reported as a format error.
---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index bf586be..ffdccd3 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From 2f9a82e6a3d10e4001198cc8315e995c01899989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 05/20] fix: keep the line break after the first line of a
 markdown attribute

The text behind `Comment:` was joined with the next line without a separator.
---
 src/parsers/markdown.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index ffdccd3..d10a48f 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -144,6 +144,7 @@ fn parse_state_empty(state: State, context: &mut Context<'_>) -> State {
         }
         State::LookForAttr => state,
         State::CollectTextAttr(attr, mut val) => {
+            end_first_line(&mut val);
             val.push('\n');
             State::CollectTextAttr(attr, val)
         }
@@ -195,6 +196,7 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
                 commit_attr(context, attr, val);
                 start_attribute(context, &attr_line)
             } else {
+                end_first_line(&mut val);
                 val.push_str(line);
                 State::CollectTextAttr(attr, val)
             }
@@ -309,6 +311,13 @@ fn commit_attr(context: &mut Context<'_>, attr: String, val: String) {
         .insert(attr, val);
 }
 
+/// The text behind `Attribute:` has no line ending yet, add it before more lines follow
+fn end_first_line(val: &mut String) {
+    if !val.is_empty() && !val.ends_with('\n') {
+        val.push('\n');
+    }
+}
+
 fn commit_link_attr(context: &mut Context<'_>, attr: String, vec: Vec<Reference>) {
     if attr == ATTR_COVERS {
         context.req_under_construction.as_mut().unwrap().covers = vec;
-- 
2.43.0


From baf9b9b42b5f1932a87ac66c943ec959a64bccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 06/20] fix: report unreadable mono requirement files instead
 of crashing

A line that is not valid UTF-8 (or a directory as path) hit a todo!().
---
 src/parsers/monoreq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..84326d9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -42,7 +42,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 8d9c5e9c6614ebed339d68cca8a6fbb5ab9bf4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 07/20] fix: take the mono requirement title from the first
 line with words

FMT_IMPORT_MONO_REQ: the title is the first line containing word characters with
all non-word characters trimmed. The very first line was used as it is, so a
README starting with an empty line or a `#` heading had a title of `` or `# ...`.
---
 src/parsers/monoreq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 84326d9..e787964 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -12,6 +12,7 @@ use crate::models::Reference;
 use crate::models::Requirement;
 
 lazy_static! {
+    static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
         Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
 }
@@ -27,7 +28,7 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
         match line {
             Ok(line) => {
                 if title.is_none() {
-                    title = Some(line);
+                    title = TITLE.find(&line).map(|m| m.as_str().to_owned());
                 } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
-- 
2.43.0


From 061ce6b38d51ccfe12252efb494c7818396bd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 08/20] fix: report coverage marks outside of any item instead
 of crashing

`const C: () = { requirement_covered!(X); };` at the top level of a file
panicked because there is no surrounding item.
---
 src/parsers/rust.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..1fd6d34 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -157,6 +157,17 @@ impl Parser<'_> {
                 location: macro_location,
             };
 
+            let Some(item_location) = self.locations.last() else {
+                let err = Error::Format(
+                    reference.location,
+                    "requirement_covered!() is not inside a module, impl, trait or function"
+                        .to_owned(),
+                );
+                log::info!("found problem {:#?}", &err);
+                self.errors.push(err);
+                return true;
+            };
+
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
@@ -168,7 +179,7 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: item_location.clone(),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From e408926eca864b423259cdb104b98a566b09c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 09/20] fix: keep coverage marks that follow a nested item in
 rust code

A mark after a nested function with marks of its own started a second
requirement for the outer function, which was then discarded as duplicate, so
that its coverage was lost.
---
 src/parsers/rust.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 1fd6d34..b0548cd 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -171,11 +171,11 @@ impl Parser<'_> {
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().rev().find(|r| r.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From 9c78756453a8232cd0fb8a5612679d7a961ab867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 10/20] fix: unescape titles and ids in rust coverage marks

A title with an escaped character, like a quote, never matched the title of the
requirement because only the quotes were removed from the literal.
---
 src/parsers/rust.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index b0548cd..f23c9bc 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -93,10 +93,8 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
+                    if let Some(id) = string_literal(&tokens[0]) {
                         // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
                         Some((id, None))
                     } else {
                         let err = Error::Format(
@@ -114,9 +112,7 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -270,6 +266,13 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+/// Value of a string literal token
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    syn::parse2::<syn::LitStr>(token.to_token_stream())
+        .ok()
+        .map(|s| s.value())
+}
+
 fn location_from_span(path: &Path, span: &Span) -> Location {
     let start = span.start();
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
-- 
2.43.0


From 1641594d1aa84736a159ea90cbe97a6a8045df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 11/20] fix: do not expand glob characters of the base
 directory

With a base directory like `work[1]` no file was found, without any error.
---
 src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..5bba01a 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -39,7 +39,8 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 5dcc0b25f2dd432d90a62cfbe875c46905c01dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 12/20] fix: report unsupported query and format combinations
 instead of crashing

A job with such a combination now is a fatal error, exit code 2.
---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..0810cbb 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,7 +34,7 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format)),
     }
 }
 
@@ -52,6 +52,13 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format)),
     }
 }
+
+fn unsupported(format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("format {format:?} does not support this query"),
+    )
+}
-- 
2.43.0


From feab6415e66cbfe258c933b594ba6cafb6fbb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 13/20] fix: reject configs with duplicate or unknown artefact
 ids

Two artefacts with the same id silently replaced each other, which lost all the
requirements of the first. A relation with an unknown artefact crashed in a
todo!() with exit code 101. Both now are fatal errors, exit code 2.
---
 src/main.rs   |  4 ++++
 src/models.rs | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e9f7a56..090235c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,10 @@ fn get_config(opt: &Arguments) -> Result<Config, Box<dyn std::error::Error>> {
         }
     }
 
+    config
+        .validate()
+        .map_err(|e| format!("{}: {}", opt.config_file.display(), e))?;
+
     Ok(config)
 }
 
diff --git a/src/models.rs b/src/models.rs
index fd65980..61d048e 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -3,6 +3,7 @@
 use core::fmt;
 use std::cmp::Ordering;
 use std::collections::BTreeMap;
+use std::collections::BTreeSet;
 use std::io;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -83,6 +84,26 @@ pub struct Config {
     pub default_jobs: Option<Vec<String>>,
 }
 
+impl Config {
+    /// Check that artefact ids are unique, and that relations only use ids of existing artefacts
+    pub fn validate(&self) -> Result<(), Error> {
+        let mut ids = BTreeSet::new();
+        for artefact in &self.artefacts {
+            if !ids.insert(&artefact.id) {
+                return Err(Error::DuplicateArtefact(artefact.id.to_string()));
+            }
+        }
+        for relation in &self.relations {
+            for id in std::iter::once(&relation.upper).chain(&relation.lower) {
+                if !ids.contains(id) {
+                    return Err(Error::UnknownArtefact(id.clone()));
+                }
+            }
+        }
+        Ok(())
+    }
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub enum Query {
     /// Parse all Artefacts
-- 
2.43.0


From fce690e97d0d399dd2c516f96351caffd6b02caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 14/20] fix: report paths of an artefact that match no file

A missing source file (or a pattern that matches nothing) was ignored and the
job succeeded, although DSG_CLI_RETURN_CODE asks for `1` if a file is not found.
---
 src/controller.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 5bba01a..595be12 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -45,10 +45,15 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
             glob::glob(path)
         };
         let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
+        let files_before = result.len();
         for entry in glob {
             let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
             result.push(entry);
         }
+        if result.len() == files_before {
+            // opening it will report the missing file
+            result.push(base_dir.join(path));
+        }
     }
 
     Ok(result)
-- 
2.43.0


From ee73079dc64dd5d2e843f523d7d3f510545245aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 15/20] fix: do not read blanks behind the colon of a markdown
 id as its title

---
 src/parsers/markdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index d10a48f..bc91144 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -15,10 +15,10 @@ use crate::models::Requirement;
 lazy_static! {
     static ref HEADING_LINE: Regex = Regex::new(r"^(#+)").unwrap();
     static ref REQUIREMENT_LINE: Regex =
-        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
+        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(\S.*?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From 4d67fb59a48d101ef252dae36b22668aac8e1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:46 +0000
Subject: [PATCH 16/20] fix: do not read blanks behind the colon of a mono
 requirement arrow as a title

---
 src/parsers/monoreq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index e787964..570d658 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -14,7 +14,7 @@ use crate::models::Requirement;
 lazy_static! {
     static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?))?\s*$").unwrap();
 }
 
 pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
-- 
2.43.0


From 3445a7692a6878068fff9b5ae1f0ab05e10ea4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:16 +0000
Subject: [PATCH 17/20] fix: an unreadable directory or bad pattern no longer
 drops the other files of an artefact

---
 src/controller.rs | 72 +++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 595be12..939e5bc 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -44,19 +45,27 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
-        let files_before = result.len();
+        let glob = match glob {
+            Ok(glob) => glob,
+            Err(e) => {
+                errors.push(Error::Io(PathBuf::from(path), e.to_string()));
+                continue;
+            }
+        };
+        let found_before = result.len() + errors.len();
         for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+            match entry {
+                Ok(entry) => result.push(entry),
+                Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+            }
         }
-        if result.len() == files_before {
+        if result.len() + errors.len() == found_before {
             // opening it will report the missing file
             result.push(base_dir.join(path));
         }
     }
 
-    Ok(result)
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -113,38 +122,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From 7d8337ab96ef005bfcfcfff548ffb4c35bbe2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:05 +0000
Subject: [PATCH 18/20] fix: errors about coverage marks do not depend on the
 files read before

---
 src/parsers/rust.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index f23c9bc..17be73f 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -139,7 +139,8 @@ impl Parser<'_> {
                 let err = Error::Format(
                     macro_location.clone(),
                     format!(
-                        "requirement_covered!() called with more than 2 argument/token {tokens:?}"
+                        "requirement_covered!() called with more than 2 argument/token {:?}",
+                        node.mac.tokens.to_string()
                     ),
                 );
                 log::info!("found problem {:#?}", &err);
-- 
2.43.0


From c3b5642356f39202fb1148f627bc4574569fd5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 19/20] fix: links to requirements whose titles or ids are not
 ASCII lead nowhere

Headings keep letters of all alphabets in their anchors.
---
 src/formatters/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatters/markdown.rs b/src/formatters/markdown.rs
index cb11ef6..cd12eca 100644
--- a/src/formatters/markdown.rs
+++ b/src/formatters/markdown.rs
@@ -16,7 +16,7 @@ use crate::models::*;
 
 lazy_static! {
     static ref REPLACE_WITH_DASH: Regex = Regex::new(r"[ ]").unwrap(); // TODO: is this defined somewhere?
-    static ref REMOVE: Regex = Regex::new(r"[^A-Za-z0-9_-]").unwrap(); // TODO: is this defined somewhere?
+    static ref REMOVE: Regex = Regex::new(r"[^\w-]").unwrap(); // TODO: is this defined somewhere?
 }
 
 /// requirement Id as markdown link
-- 
2.43.0


From df3d27b32927c248259f961f29f3afcfd6eee752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 20/20] fix: titles with quotes or backslashes break the links
 to their requirements

---
 src/formatters/markdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/formatters/markdown.rs b/src/formatters/markdown.rs
index cd12eca..59f8489 100644
--- a/src/formatters/markdown.rs
+++ b/src/formatters/markdown.rs
@@ -27,6 +27,7 @@ fn requirement_link(req: &Requirement) -> String {
         let replaced = REPLACE_WITH_DASH.replace_all(&replaced, "-");
         let replaced = REMOVE.replace_all(&replaced, "");
 
+        let title = title.replace('\\', r"\\").replace('"', "\\\"");
         format!("[{}](#{} \"{}\")", req.id, replaced, title)
     } else {
         let replaced = &req.id;
-- 
2.43.0

