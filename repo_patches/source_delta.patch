From 6c2ec9ca258a77652f16581c280977fa79e3362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 01/63] fix: do not cut multi-byte whitespace when removing
 block indentation

Lines of an indented code or math block that start with multi-byte
whitespace (e.g. U+3000) made the parser slice inside a character and panic.
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 9 +++++----
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..ffef54f 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -37,10 +37,11 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
         let lines = lines
             .into_iter()
             .map(|mut line| {
-                // Figure out total bytes of leading whitespace so we know if
-                // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // Figure out total bytes of leading spaces and tabs (same as
+                // indentation of the block itself) so we know if the line is
+                // at the same level of indentation, further, or earlier
+                let cnt =
+                    line.len() - line.trim_start_matches([' ', '\t']).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..0c12925 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -38,10 +38,11 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
         let lines = lines
             .into_iter()
             .map(|mut line| {
-                // Figure out total bytes of leading whitespace so we know if
-                // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // Figure out total bytes of leading spaces and tabs (same as
+                // indentation of the block itself) so we know if the line is
+                // at the same level of indentation, further, or earlier
+                let cnt =
+                    line.len() - line.trim_start_matches([' ', '\t']).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From eb1b8caf4b530fad8e54a329bcf8cf7c1aaef728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 02/63] fix: do not panic on diary links whose anchor needs URI
 encoding

[[diary:2021-01-01#a b]] unwrapped an invalid URI fragment.
---
 .../elements/blocks/inline/links/anchor.rs    | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..85c9384 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -2,10 +2,28 @@ use crate::StrictEq;
 use derive_more::{
     Constructor, Deref, DerefMut, Index, IndexMut, IntoIterator,
 };
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use serde::{Deserialize, Serialize};
 use std::{borrow::Cow, convert::TryFrom, fmt};
 use uriparse::{Fragment, FragmentError};
 
+/// Characters that cannot be placed within the fragment of a URI as they are
+const NOT_IN_FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'#')
+    .add(b'%')
+    .add(b'<')
+    .add(b'>')
+    .add(b'[')
+    .add(b'\\')
+    .add(b']')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
+
 /// Represents an anchor
 #[derive(
     Constructor,
@@ -58,15 +76,24 @@ impl Anchor<'_> {
 impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
     /// if the anchor has any elements, otherwise yields an empty string
+    ///
+    /// Characters that are not allowed within a fragment are percent-encoded
     pub fn to_encoded_uri_fragment(&self) -> String {
-        use std::fmt::Write;
-        let mut fragment = String::new();
-        if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
-                "Anchor encoded_uri_fragment returned error unexpectedly",
-            );
+        if self.is_empty() {
+            return String::new();
         }
-        fragment
+
+        let fragment = format!("#{}", self.0.join("%23"));
+        if Fragment::try_from(&fragment[1..]).is_ok() {
+            return fragment;
+        }
+
+        let pieces = self
+            .0
+            .iter()
+            .map(|s| utf8_percent_encode(s, NOT_IN_FRAGMENT).to_string())
+            .collect::<Vec<String>>();
+        format!("#{}", pieces.join("%23"))
     }
 
     // NOTE: Cannot use FromStr due to conflicting lifetimes of impl and trait
-- 
2.43.0


From 702794fd0a78b64a82405d0b012ba5281f668679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 03/63] fix: forget deeper headers when a new section starts in
 HTML ids

After '= A =', '== B ==', '= C =' the ids of bold text and tags below C still
contained B, so anchors like #C#bold led nowhere.
---
 vimwiki-core/src/lang/output/html/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/formatter.rs b/vimwiki-core/src/lang/output/html/formatter.rs
index 460864c..b48c1ce 100644
--- a/vimwiki-core/src/lang/output/html/formatter.rs
+++ b/vimwiki-core/src/lang/output/html/formatter.rs
@@ -63,12 +63,14 @@ impl HtmlFormatter {
     }
 
     /// Inserts text for the header at the given level to be remembered when
-    /// keeping track of the last header seen at a given level
+    /// keeping track of the last header seen at a given level; headers of
+    /// deeper levels belonged to an earlier section and are forgotten
     pub fn insert_header_text<Text: Into<String>>(
         &mut self,
         level: usize,
         text: Text,
     ) {
+        self.last_seen_headers.retain(|l, _| *l < level);
         self.last_seen_headers.insert(level, text.into());
     }
 
-- 
2.43.0


From 55690209b2188e3331c0885f6ba8f114b3bed141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 04/63] fix: make anchors of links equal the ids they refer to

Ids are lowercased with whitespace replaced by dashes, while fragments of
links kept the text as written, and local anchors kept their # separators.
---
 vimwiki-core/src/lang/output/html/utils.rs | 71 ++++++++++++++++++----
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..ba71972 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -1,7 +1,8 @@
 use super::{HtmlConfig, HtmlWikiConfig};
-use crate::Link;
+use crate::{Anchor, Link, LinkData};
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -15,6 +16,24 @@ use uriparse::{
 };
 use voca_rs::escape;
 
+/// Characters that cannot be placed within the fragment of a URI as they are
+const NOT_IN_FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'#')
+    .add(b'%')
+    .add(b'&')
+    .add(b'<')
+    .add(b'>')
+    .add(b'[')
+    .add(b'\\')
+    .add(b']')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
+
 /// For use with serde's deserialize_with when deseriaizing to a path that
 /// we also want to validate is an absolute path
 pub fn deserialize_absolute_path<'de, D>(d: D) -> Result<PathBuf, D::Error>
@@ -52,14 +71,16 @@ where
 /// Normalizes text as an id by replacing whitespace with dashes and then
 /// escaping common html
 pub fn normalize_id(id: &str) -> String {
-    escape::escape_html(
-        id.to_lowercase()
-            .split(|c: char| c.is_whitespace())
-            .filter(|s| !s.is_empty())
-            .collect::<Vec<&str>>()
-            .join("-")
-            .as_str(),
-    )
+    escape::escape_html(normalize_id_text(id).as_str())
+}
+
+/// Normalizes text as an id without escaping common html
+fn normalize_id_text(id: &str) -> String {
+    id.to_lowercase()
+        .split(|c: char| c.is_whitespace())
+        .filter(|s| !s.is_empty())
+        .collect::<Vec<&str>>()
+        .join("-")
 }
 
 /// Normalize a path, removing things like `.` and `..`.
@@ -205,7 +226,15 @@ pub fn resolve_link(
                     })?;
 
                 if let Some(anchor) = data.to_anchor() {
-                    uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                    uri_ref.map_fragment(|_| make_anchor_fragment(&anchor));
+                }
+
+                uri_ref
+            } else if data.is_local_anchor() {
+                let mut uri_ref = data.uri_ref.clone();
+
+                if let Some(anchor) = data.to_anchor() {
+                    uri_ref.map_fragment(|_| make_anchor_fragment(&anchor));
                 }
 
                 uri_ref
@@ -240,7 +269,7 @@ pub fn resolve_link(
                 })?;
 
             if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                uri_ref.map_fragment(|_| make_anchor_fragment(&anchor));
             }
 
             uri_ref
@@ -273,7 +302,7 @@ pub fn resolve_link(
                 })?;
 
             if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                uri_ref.map_fragment(|_| make_anchor_fragment(&anchor));
             }
 
             uri_ref
@@ -289,7 +318,7 @@ pub fn resolve_link(
                 })?;
 
             if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                uri_ref.map_fragment(|_| make_anchor_fragment(&anchor));
             }
 
             uri_ref
@@ -341,6 +370,22 @@ pub fn resolve_link(
     Ok(uri_ref.into_owned())
 }
 
+/// Produces the fragment that refers to the id of the element that the anchor
+/// is for, where ids are normalized and nested ids are separated by dashes
+fn make_anchor_fragment(anchor: &Anchor<'_>) -> Option<Fragment<'static>> {
+    let id = anchor
+        .iter()
+        .map(|piece| normalize_id_text(&LinkData::decode_uri(piece.as_bytes())))
+        .collect::<Vec<String>>()
+        .join("-");
+
+    Fragment::try_from(
+        utf8_percent_encode(&id, NOT_IN_FRAGMENT).to_string().as_str(),
+    )
+    .map(Fragment::into_owned)
+    .ok()
+}
+
 /// Produces an output path for a diary file
 fn make_diary_absolute_output_path(
     config: &HtmlWikiConfig,
-- 
2.43.0


From 6c5818d99b2a751ed0003ae93131c4fefccafda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 05/63] fix: escape all user text in HTML and order attributes

The environment of math blocks, the language and metadata of code blocks,
names of properties and included comments were written unescaped, so text of
a page could introduce elements or end a comment. Attributes came in the
random order of a hash map.
---
 vimwiki-core/src/lang/output/html/mod.rs | 44 +++++++++++++++++-------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..1a7f5d5 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
@@ -575,13 +576,11 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
-                    write!(f, r#" {}="{}""#, attr, value)?;
-                }
+                write_attributes(f, &self.metadata)?;
 
                 // NOTE: We do NOT include a newline here because it results
                 //       in the output having a newline at the beginning of
@@ -1074,9 +1073,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
-                    }
+                    write_attributes(f, properties)?;
                 }
 
                 write!(f, " />")?;
@@ -1084,9 +1081,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
-                    }
+                    write_attributes(f, properties)?;
                 }
 
                 write!(f, ">")?;
@@ -1221,7 +1216,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape::escape_html(self.as_str()))?;
         }
         Ok(())
     }
@@ -1246,7 +1241,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape::escape_html(line))?;
             }
             write!(f, "-->")?;
         }
@@ -1254,6 +1249,31 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Writes user-provided assignments as HTML attributes ordered by name, leaving
+/// out those whose name cannot be the name of an attribute
+fn write_attributes(
+    f: &mut HtmlFormatter,
+    attributes: &HashMap<Cow<'_, str>, Cow<'_, str>>,
+) -> HtmlOutputResult {
+    let mut attributes: Vec<(&str, &str)> = attributes
+        .iter()
+        .map(|(name, value)| (name.as_ref(), value.as_ref()))
+        .filter(|(name, _)| {
+            !name.is_empty()
+                && !name.contains(|c: char| {
+                    c.is_whitespace() || c.is_control() || "\"'<>/=`".contains(c)
+                })
+        })
+        .collect();
+    attributes.sort_unstable();
+
+    for (name, value) in attributes {
+        write!(f, " {}=\"{}\"", name, escape::escape_html(value))?;
+    }
+
+    Ok(())
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From c17b31c128e0a22c37f59aaf38807c115b0c849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 06/63] fix: resolve links to where their target page or file
 is written

Links were resolved on percent-encoded text mixed with plain file system
paths: output directories with spaces or non-ASCII names made conversion fail,
names containing dots lost their tail, directories of other wikis did not
lead to their index and [[file:...]] and [[local:...]] became pages.
---
 vimwiki-core/src/lang/output/html/utils.rs | 186 ++++++++++++++-------
 1 file changed, 125 insertions(+), 61 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index ba71972..4076d46 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -12,7 +12,7 @@ use std::{
     path::{Component, Path, PathBuf},
 };
 use uriparse::{
-    Fragment, RelativeReference, RelativeReferenceError, URIReference,
+    Fragment, RelativeReference, RelativeReferenceError, Scheme, URIReference,
 };
 use voca_rs::escape;
 
@@ -34,6 +34,11 @@ const NOT_IN_FRAGMENT: &AsciiSet = &CONTROLS
     .add(b'|')
     .add(b'}');
 
+/// Characters that cannot be placed within a segment of the path of a URI as
+/// they are, including : as it can be mistaken for the end of a scheme
+const NOT_IN_PATH_SEGMENT: &AsciiSet =
+    &NOT_IN_FRAGMENT.add(b'/').add(b':').add(b'?');
+
 /// For use with serde's deserialize_with when deseriaizing to a path that
 /// we also want to validate is an absolute path
 pub fn deserialize_absolute_path<'de, D>(d: D) -> Result<PathBuf, D::Error>
@@ -190,12 +195,15 @@ pub fn resolve_link(
 
     // First, build our raw uri WITHOUT anchors
     let uri_ref = match target {
+        Link::Wiki { data } if is_local_file_uri(&data.uri_ref) => {
+            resolve_local_file(src_wiki, src, src_out, data)?
+        }
         Link::Wiki { data } => {
             if data.is_local() && !data.is_local_anchor() {
                 // TODO: Support alternative directory file name
-                // NOTE: Don't need to provide extension as will be replaced in
+                // NOTE: Don't need to provide extension as will be added in
                 //       the absolute output path anyway
-                let mut path = data.to_path_buf();
+                let mut path = to_decoded_path_buf(data);
                 if target_is_dir {
                     path.push("index");
                 }
@@ -207,9 +215,10 @@ pub fn resolve_link(
                 // 2. If relative, then we want to place the path relative to
                 //    the current file's directory
                 let target_out = if data.uri_ref.path().is_absolute() {
-                    src_wiki.make_output_path(path.as_path(), ext)
+                    make_page_output_path(src_wiki, path.as_path(), ext)
                 } else {
-                    src_wiki.make_output_path(
+                    make_page_output_path(
+                        src_wiki,
                         src.parent()
                             .map(Path::to_path_buf)
                             .unwrap_or_default()
@@ -249,9 +258,9 @@ pub fn resolve_link(
             })?;
 
             // TODO: Support alternative directory file name
-            // NOTE: Don't need to provide extension as will be replaced in
+            // NOTE: Don't need to provide extension as will be added in
             //       the absolute output path anyway
-            let mut path = data.to_path_buf();
+            let mut path = to_decoded_path_buf(data);
             if target_is_dir {
                 path.push("index");
             }
@@ -259,8 +268,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = make_page_output_path(wiki, path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -282,9 +290,9 @@ pub fn resolve_link(
             })?;
 
             // TODO: Support alternative directory file name
-            // NOTE: Don't need to provide extension as will be replaced in
+            // NOTE: Don't need to provide extension as will be added in
             //       the absolute output path anyway
-            let mut path = data.to_path_buf();
+            let mut path = to_decoded_path_buf(data);
             if target_is_dir {
                 path.push("index");
             }
@@ -292,8 +300,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = make_page_output_path(wiki, path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -328,37 +335,7 @@ pub fn resolve_link(
             // If target is a local link, then we need to process it the same
             // as any wiki link
             if data.is_local() {
-                let path = data.to_path_buf();
-
-                // We want to reuse the extension if there is one rather than
-                // modifying it, so pull out the extension
-                let ext =
-                    path.extension().and_then(OsStr::to_str).unwrap_or("");
-
-                // Build our output path
-                //
-                // 1. If absolute (starts with /), then we want to place the
-                //    path relative to the root of the current wiki
-                // 2. If relative, then we want to place the path relative to
-                //    the current file's directory
-                let target_out = if data.uri_ref.path().is_absolute() {
-                    src_wiki.make_output_path(path.as_path(), ext)
-                } else {
-                    src_wiki.make_output_path(
-                        src.parent()
-                            .map(Path::to_path_buf)
-                            .unwrap_or_default()
-                            .join(path.as_path())
-                            .as_path(),
-                        ext,
-                    )
-                };
-
-                make_relative_link(src_out, target_out)
-                    .map(URIReference::from)
-                    .map_err(|source| {
-                        LinkResolutionError::RelativeReference { source }
-                    })?
+                resolve_local_file(src_wiki, src, src_out, data)?
 
             // Otherwise, we can just pass back the link as-is
             } else {
@@ -370,6 +347,85 @@ pub fn resolve_link(
     Ok(uri_ref.into_owned())
 }
 
+/// Resolves a link to a local file that is not a page, where the file is placed
+/// within the output of the wiki like pages are but keeps its extension
+fn resolve_local_file(
+    src_wiki: &HtmlWikiConfig,
+    src: &Path,
+    src_out: PathBuf,
+    data: &LinkData<'_>,
+) -> Result<URIReference<'static>, LinkResolutionError> {
+    // file:... refers to a specific place in the file system
+    if matches!(data.scheme(), Some(Scheme::File)) {
+        return Ok(data.uri_ref.clone().into_owned());
+    }
+
+    let path = to_decoded_path_buf(data);
+
+    // We want to reuse the extension if there is one rather than
+    // modifying it, so pull out the extension
+    let ext = path.extension().and_then(OsStr::to_str).unwrap_or("");
+
+    // Build our output path
+    //
+    // 1. If absolute (starts with /), then we want to place the
+    //    path relative to the root of the current wiki
+    // 2. If relative, then we want to place the path relative to
+    //    the current file's directory
+    let target_out = if data.uri_ref.path().is_absolute() {
+        src_wiki.make_output_path(path.as_path(), ext)
+    } else {
+        src_wiki.make_output_path(
+            src.parent()
+                .map(Path::to_path_buf)
+                .unwrap_or_default()
+                .join(path.as_path())
+                .as_path(),
+            ext,
+        )
+    };
+
+    make_relative_link(src_out, target_out)
+        .map(URIReference::from)
+        .map_err(|source| LinkResolutionError::RelativeReference { source })
+}
+
+/// Checks if a URI reference explicitly names a file rather than a page
+fn is_local_file_uri(uri_ref: &URIReference<'_>) -> bool {
+    match uri_ref.scheme() {
+        Some(Scheme::File) => true,
+        Some(Scheme::Unregistered(x)) => x == "local",
+        _ => false,
+    }
+}
+
+/// Produces the path of the link's uri with percent-encoded characters decoded,
+/// which is how the path appears in the file system
+fn to_decoded_path_buf(data: &LinkData<'_>) -> PathBuf {
+    PathBuf::from(LinkData::decode_uri(
+        data.to_path_buf().to_string_lossy().as_bytes(),
+    ))
+}
+
+/// Produces the output path of the page with the given path, which does not need
+/// to include the extension of the wiki's files
+fn make_page_output_path(
+    wiki: &HtmlWikiConfig,
+    path: &Path,
+    ext: &str,
+) -> PathBuf {
+    if path.extension() == Some(OsStr::new(&wiki.ext)) {
+        return wiki.make_output_path(path, ext);
+    }
+
+    // NOTE: The name of a page can contain a dot, which must not be mistaken
+    //       for the extension that will be replaced
+    let mut path = path.as_os_str().to_os_string();
+    path.push(".");
+    path.push(&wiki.ext);
+    wiki.make_output_path(Path::new(&path), ext)
+}
+
 /// Produces the fragment that refers to the id of the element that the anchor
 /// is for, where ids are normalized and nested ids are separated by dashes
 fn make_anchor_fragment(anchor: &Anchor<'_>) -> Option<Fragment<'static>> {
@@ -411,23 +467,31 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     src: P1,
     target: P2,
 ) -> Result<RelativeReference<'static>, RelativeReferenceError> {
-    let src_rel = RelativePathBuf::from_path(make_path_relative(src))
-        .expect("Impossible: relative path should always succeed");
-    let target_rel = RelativePathBuf::from_path(make_path_relative(target))
-        .expect("Impossible: relative path should always succeed");
-
-    // NOTE: a relative path of a/b -> a/c would yield ../c, but in the case
-    //       of the web, we just want c as referencing from the same directory
-    //       is fine; this means that we remove the first .. in the path
-    let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
-        relative_path
-            .strip_prefix("..")
-            .unwrap_or(&relative_path)
-            .as_str(),
-    )
-    .map(RelativeReference::into_owned);
-    res
+    let src_rel = to_relative_path_buf(src.as_ref());
+    let target_rel = to_relative_path_buf(target.as_ref());
+
+    // NOTE: a link is resolved from the directory containing the source
+    let relative_path = src_rel
+        .parent()
+        .map(|dir| dir.relative(&target_rel))
+        .unwrap_or(target_rel);
+
+    let uri_string = relative_path
+        .components()
+        .map(|c| {
+            utf8_percent_encode(c.as_str(), NOT_IN_PATH_SEGMENT).to_string()
+        })
+        .collect::<Vec<String>>()
+        .join("/");
+
+    RelativeReference::try_from(uri_string.as_str())
+        .map(RelativeReference::into_owned)
+}
+
+/// Converts a path into a normalized, relative path with / as the separator
+fn to_relative_path_buf(path: &Path) -> RelativePathBuf {
+    RelativePathBuf::from(path_to_uri_string(&make_path_relative(path)))
+        .normalize()
 }
 
 /// Makes a path relative by stripping it of absolute/root starting elements
-- 
2.43.0


From f1a851bb3d9d7ae31a56686f5e24fd72c433cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 07/63] fix: show tags in HTML as they are written

The lowercased id of a tag was shown instead of its text.
---
 vimwiki-core/src/lang/output/html/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 1a7f5d5..0b066f9 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1158,7 +1158,8 @@ impl<'a> Output<HtmlFormatter> for Tags<'a> {
             write!(
                 f,
                 "<span class=\"tag\" id=\"{}\">{}</span>",
-                unique_id, id
+                unique_id,
+                escape::escape_html(tag.as_str())
             )?;
         }
 
-- 
2.43.0


From 9c1d8980e1341a6ec92d88d01eb96e6dd6f4d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 08/63] fix: fill in page templates in one pass with an escaped
 title

A title containing e.g. %date% was itself expanded, and its special
characters were inserted into the page as markup.
---
 vimwiki-core/src/lang/output/html/convert.rs | 94 +++++++++++++-------
 1 file changed, 60 insertions(+), 34 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..5435348 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -65,47 +66,72 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
+        // NOTE: All variables are filled in using a single pass over the
+        //       template so we don't replace parts of the title, content, etc.
         //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
+        //       apply to the template itself
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let template = fill_in_template(
+            &template,
+            &[
+                ("%title%", &escape::escape_html(&title)),
+                ("%date%", &date.to_string()),
+                ("%root_path%", &root_path),
+                (
+                    "%wiki_path%",
+                    &utils::path_to_uri_string(
+                        formatter.config().as_active_page_path_within_wiki(),
+                    ),
                 ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
+                ("%css%", formatter.config().to_current_wiki().css_name.as_str()),
+                ("%encoding%", "utf-8"),
+                ("%content%", formatter.get_content()),
+            ],
+        );
 
         Ok(template)
     }
 }
 
+/// Replaces each variable within the template by its value without looking
+/// for variables within the values
+fn fill_in_template(template: &str, variables: &[(&str, &str)]) -> String {
+    let mut output = String::with_capacity(template.len());
+    let mut remaining = template;
+
+    while let Some(start) = remaining.find('%') {
+        let (text, tail) = remaining.split_at(start);
+        output.push_str(text);
+
+        match variables.iter().find(|(name, _)| tail.starts_with(name)) {
+            Some((name, value)) => {
+                output.push_str(value);
+                remaining = &tail[name.len()..];
+            }
+            None => {
+                output.push('%');
+                remaining = &tail[1..];
+            }
+        }
+    }
+
+    output.push_str(remaining);
+    output
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 39a24caa2556f2255b8bd76385d86cce9f4bd398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 09/63] fix: iterate over all cells of ragged tables

Iterators over columns and over all cells stopped at the first missing cell,
so later cells were skipped and row spans and column alignments of such
tables were wrong.
---
 .../src/lang/elements/blocks/tables.rs        | 181 ++++++++++--------
 1 file changed, 104 insertions(+), 77 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..7f237e1 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -291,19 +291,19 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
+        (row + 1..self.row_cnt())
+            .take_while(|row| {
+                let span = self.get_cell(*row, col).and_then(|c| c.get_span());
+                matches!(span, Some(CellSpan::FromAbove))
+            })
+            .count()
             + 1
     }
 
@@ -314,21 +314,63 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_colspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.row(row).skip(col);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
-        })
-        .count()
+        (col + 1..self.col_cnt())
+            .take_while(|col| {
+                let span = self.get_cell(row, *col).and_then(|c| c.get_span());
+                matches!(span, Some(CellSpan::FromLeft))
+            })
+            .count()
             + 1
     }
+
+    /// Returns true if there is a cell at the specified row and column
+    fn has_cell(&self, row: usize, col: usize) -> bool {
+        self.cells.contains_key(&CellPos { row, col })
+    }
+
+    /// Finds the column of the first cell in the row that is at the specified
+    /// column or after it, as cells of a table can be missing. Returns the
+    /// total columns if there is none
+    fn find_col_in_row(&self, row: usize, col: usize) -> usize {
+        (col..self.col_cnt())
+            .find(|col| self.has_cell(row, *col))
+            .unwrap_or_else(|| self.col_cnt())
+    }
+
+    /// Finds the row of the first cell in the column that is at the specified
+    /// row or after it, as cells of a table can be missing. Returns the total
+    /// rows if there is none
+    fn find_row_in_column(&self, row: usize, col: usize) -> usize {
+        (row..self.row_cnt())
+            .find(|row| self.has_cell(*row, col))
+            .unwrap_or_else(|| self.row_cnt())
+    }
+
+    /// Finds the position of the first cell that is at the specified position
+    /// or after it going row by row, as cells of a table can be missing.
+    /// Returns a position past the end of the table if there is none
+    fn find_pos(&self, row: usize, col: usize) -> CellPos {
+        let mut start = col;
+        for row in row..self.row_cnt() {
+            let col = self.find_col_in_row(row, start);
+            if col < self.col_cnt() {
+                return CellPos { row, col };
+            }
+            start = 0;
+        }
+
+        CellPos {
+            row: self.row_cnt(),
+            col: self.col_cnt(),
+        }
+    }
 }
 
 impl<'a> IntoChildren for Table<'a> {
@@ -717,6 +759,7 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.col = self.col();
             let cell = self.table.get_cell(self.row, self.col);
             if cell.is_some() {
                 self.col += 1;
@@ -725,7 +768,9 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.has_cell(self.row, *col))
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -736,7 +781,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.find_col_in_row(self.row, self.col)
         }
     }
 
@@ -777,6 +822,7 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.col = self.col();
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
             if cell.is_some() {
@@ -786,7 +832,9 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.has_cell(self.row, *col))
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -797,7 +845,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.find_col_in_row(self.row, self.col)
         }
     }
 
@@ -879,6 +927,7 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.row = self.row();
             let cell = self.table.get_cell(self.row, self.col);
             if cell.is_some() {
                 self.row += 1;
@@ -887,14 +936,16 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.has_cell(*row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Column<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.find_row_in_column(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -931,6 +982,7 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.row = self.row();
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
             if cell.is_some() {
@@ -940,14 +992,16 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.has_cell(*row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoColumn<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.find_row_in_column(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -988,48 +1042,35 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
+            let CellPos { row, col } = self.table.find_pos(self.row, self.col);
+            let cell = self.table.get_cell(row, col);
 
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            // Advance past the cell, where the end of the row is skipped when
+            // looking for the next cell
+            self.row = row;
+            self.col = if cell.is_some() { col + 1 } else { col };
 
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| (pos.row, pos.col) >= (self.row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Cells<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.find_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.find_pos(self.row, self.col).col
         }
     }
 
@@ -1070,49 +1111,35 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
+            let CellPos { row, col } = self.table.find_pos(self.row, self.col);
+            let cell = self.table.cells.remove(&CellPos::new(row, col));
 
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            // Advance past the cell, where the end of the row is skipped when
+            // looking for the next cell
+            self.row = row;
+            self.col = if cell.is_some() { col + 1 } else { col };
 
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| (pos.row, pos.col) >= (self.row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoCells<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.find_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.find_pos(self.row, self.col).col
         }
     }
 }
-- 
2.43.0


From a3f8c19ed295c49f9815816d41796d28def9e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 10/63] fix: decompose tables into children in the order of the
 cells

The children came in the random order of a hash map.
---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 7f237e1..f54d775 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -377,9 +377,8 @@ impl<'a> IntoChildren for Table<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.cells
-            .into_iter()
-            .flat_map(|(_, x)| x.into_inner().into_children())
+        self.into_cells()
+            .flat_map(|x| x.into_inner().into_children())
             .collect()
     }
 }
-- 
2.43.0


From 48023e3a64d6ba9ca8208e1ee31676a07bc2550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 11/63] fix: do not mistake the start of a table cell for a
 divider or span

A cell like |-5| or |>x| made the whole table a paragraph, and a dash in a row
with other content made the row a divider whose content was lost.
---
 .../src/lang/parsers/vimwiki/blocks/tables.rs | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..1273af7 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -16,7 +16,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{char, space0},
-    combinator::{map, map_parser, opt, value, verify},
+    combinator::{map, map_parser, opt, peek, value, verify},
     multi::{many0, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -79,16 +79,24 @@ fn row(input: Span) -> IResult<Vec<Located<Cell>>> {
     context(
         "Row",
         terminated(
-            delimited(
-                char('|'),
-                separated_list1(char('|'), deeper(cell)),
-                char('|'),
-            ),
+            alt((cells(align_cell), cells(content_cell))),
             end_of_line_or_input,
         ),
     )(input)
 }
 
+/// Parses |...|...| where each cell between is parsed by the given parser
+#[inline]
+fn cells<'a>(
+    cell: impl FnMut(Span<'a>) -> IResult<Located<Cell<'a>>>,
+) -> impl FnMut(Span<'a>) -> IResult<Vec<Located<Cell<'a>>>> {
+    delimited(
+        char('|'),
+        separated_list1(char('|'), deeper(cell)),
+        char('|'),
+    )
+}
+
 #[inline]
 fn column_align(input: Span) -> IResult<ColumnAlign> {
     let (input, maybe_start_colon) = opt(char(':'))(input)?;
@@ -105,13 +113,24 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
     Ok((input, col))
 }
 
+/// Parses a cell of a divider row
+#[inline]
+fn align_cell(input: Span) -> IResult<Located<Cell>> {
+    context(
+        "Align Cell",
+        locate(capture(map(column_align, Cell::Align))),
+    )(input)
+}
+
+/// Parses a cell of any row that is not a divider row
 #[inline]
-fn cell(input: Span) -> IResult<Located<Cell>> {
+fn content_cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
         alt((
-            map(cell_span_above, Cell::Span),
-            map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
+            // NOTE: A span takes up the entire cell, otherwise its characters
+            //       are part of the cell's content
+            map(terminated(cell_span_above, peek(char('|'))), Cell::Span),
+            map(terminated(cell_span_left, peek(char('|'))), Cell::Span),
             map(
                 map_parser(take_line_until1("|"), inline_element_container),
                 |l: Located<InlineElementContainer>| {
-- 
2.43.0


From bdfc28f7d66e00da4574c669b61deb4bd69b730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 12/63] fix: format tables without losing or inventing cells

Columns holding nothing but alignments made the formatter panic and rows
shorter than others were filled up with cells that did not exist.
---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..436e727 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,9 +469,10 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
+        for col in 0..self.col_cnt() {
+            let size = max_column_sizes.entry(col).or_default();
             let min_align_size = self
-                .column(*col)
+                .column(col)
                 .map(|x| match x.as_inner() {
                     Cell::Align(ColumnAlign::None) => 1,  /* - */
                     Cell::Align(ColumnAlign::Left) => 2,  /* :- */
@@ -497,8 +498,15 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
                 write!(f, "    ")?;
             }
 
+            // NOTE: Rows can have different lengths, so we only write up to
+            //       the last cell of the row
+            let row_len = (0..self.col_cnt())
+                .rev()
+                .find(|col| self.get_cell(row, *col).is_some())
+                .map_or(0, |col| col + 1);
+
             write!(f, "|")?;
-            for col in 0..self.col_cnt() {
+            for col in 0..row_len {
                 // Get the max size, using 0 if nothing with a fixed size is
                 // in the column
                 let max_size =
-- 
2.43.0


From 7d249bbf3460e5f273c3ac9f0c201d8472c4f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 13/63] fix: format links so that they are read back as the
 same link

Decoding the uri turned e.g. [[a%2Fb]] into another link and [[a%25b]] into
plain text, and properties of wiki links were dropped.
---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 162 ++++++++++----------
 1 file changed, 81 insertions(+), 81 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 436e727..2e7c728 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -14,7 +14,8 @@ use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
 };
-use std::{collections::HashMap, fmt::Write};
+use std::{collections::HashMap, convert::TryFrom, fmt::Write};
+use uriparse::URIReference;
 
 impl<'a> Output<VimwikiFormatter> for Page<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
@@ -648,44 +649,18 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         match self {
             Self::Wiki { data } => {
-                write!(f, "[[")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "[[{}", to_readable_uri_string(data))?;
+                write_link_details(f, data)?;
                 write!(f, "]]")?;
             }
             Self::IndexedInterWiki { index, data } => {
-                write!(f, "[[")?;
-                write!(f, "wiki{}:", index)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "[[wiki{}:{}", index, to_readable_uri_string(data))?;
+                write_link_details(f, data)?;
                 write!(f, "]]")?;
             }
             Self::NamedInterWiki { name, data } => {
-                write!(f, "[[")?;
-                write!(f, "wn.{}:", name)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "[[wn.{}:{}", name, to_readable_uri_string(data))?;
+                write_link_details(f, data)?;
                 write!(f, "]]")?;
             }
             Self::Diary { date, data } => {
@@ -694,60 +669,15 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                 if let Some(anchor) = data.to_anchor() {
                     write!(f, "{}", anchor)?;
                 }
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write_link_details(f, data)?;
                 write!(f, "]]")?;
             }
             Self::Raw { data } => {
                 write!(f, "{}", data.uri_ref)?;
             }
             Self::Transclusion { data } => {
-                write!(f, "{{{{")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
-                if let Some(properties) = data.properties.as_ref() {
-                    // Transclusion requires a description prior to properties,
-                    // so we make sure there is one, even if empty
-                    if data.description.is_none() {
-                        write!(f, "|")?;
-                    }
-
-                    // Start property section
-                    write!(f, "|")?;
-
-                    // NOTE: We provide specific ordering by key to ensure consitent output,
-                    //       otherwise the properties can move around with each output
-                    let mut sorted_properties = properties
-                        .iter()
-                        .map(|(key, value)| (key.as_ref(), value.as_ref()))
-                        .collect::<Vec<(&str, &str)>>();
-                    sorted_properties
-                        .sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
-
-                    for (idx, (key, value)) in
-                        sorted_properties.into_iter().enumerate()
-                    {
-                        // Add space separator if not first property
-                        if idx != 0 {
-                            write!(f, " ")?;
-                        }
-
-                        write!(f, "{}=\"{}\"", key, value)?;
-                    }
-                }
+                write!(f, "{{{{{}", to_readable_uri_string(data))?;
+                write_link_details(f, data)?;
                 write!(f, "}}}}")?;
             }
         }
@@ -756,6 +686,76 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Produces the uri of a link as it would be written by a user, which means with
+/// percent-encoded characters decoded unless that would name something else
+fn to_readable_uri_string(data: &LinkData<'_>) -> String {
+    let decoded = data.to_decoded_uri_string();
+
+    let is_same_uri = || {
+        let encoded = LinkData::encode_uri(&decoded);
+        URIReference::try_from(decoded.as_str())
+            .or_else(|_| URIReference::try_from(encoded.as_str()))
+            .map_or(false, |uri_ref| uri_ref == data.uri_ref)
+    };
+
+    // NOTE: Some characters have a meaning within the notation of a link
+    let is_plain = |s: &str| {
+        !["|", "]]", "}}", "%%"].iter().any(|x| s.contains(x))
+            && !s.contains(char::is_control)
+    };
+
+    if is_plain(&decoded) && is_same_uri() {
+        decoded
+    } else {
+        data.uri_ref.to_string()
+    }
+}
+
+/// Writes description and properties of a link if it has any
+fn write_link_details(
+    f: &mut VimwikiFormatter,
+    data: &LinkData<'_>,
+) -> VimwikiOutputResult {
+    match data.description.as_ref() {
+        Some(Description::Text(x)) => write!(f, "|{}", x)?,
+        Some(Description::TransclusionLink(x)) => {
+            write!(f, "|")?;
+            Link::Transclusion { data: *x.clone() }.fmt(f)?;
+        }
+        _ => {}
+    }
+
+    if let Some(properties) = data.properties.as_ref() {
+        // Properties require a description prior to them, so we make sure
+        // there is one, even if empty
+        if data.description.is_none() {
+            write!(f, "|")?;
+        }
+
+        // Start property section
+        write!(f, "|")?;
+
+        // NOTE: We provide specific ordering by key to ensure consitent output,
+        //       otherwise the properties can move around with each output
+        let mut sorted_properties = properties
+            .iter()
+            .map(|(key, value)| (key.as_ref(), value.as_ref()))
+            .collect::<Vec<(&str, &str)>>();
+        sorted_properties.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
+
+        for (idx, (key, value)) in sorted_properties.into_iter().enumerate() {
+            // Add space separator if not first property
+            if idx != 0 {
+                write!(f, " ")?;
+            }
+
+            write!(f, "{}=\"{}\"", key, value)?;
+        }
+    }
+
+    Ok(())
+}
+
 impl<'a> Output<VimwikiFormatter> for Tags<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         write!(f, ":")?;
-- 
2.43.0


From b1400c778f81552d618b716ff29167cc88a09aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 14/63] fix: keep all of a link's embedded description

---
 .../vimwiki/blocks/inline/links/mod.rs        | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index 3ae553d..c2b6d11 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -12,9 +12,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::space1,
-    combinator::{map, map_opt, map_parser, opt, rest},
+    combinator::{eof, map, map_opt, map_parser, opt, peek},
     multi::separated_list1,
-    sequence::{delimited, separated_pair},
+    sequence::{delimited, separated_pair, terminated},
 };
 use std::{borrow::Cow, collections::HashMap, convert::TryFrom};
 use uriparse::URIReference;
@@ -131,16 +131,18 @@ fn link_description<'a>(input: Span<'a>) -> IResult<Description<'a>> {
     let (input, _) = tag("|")(input)?;
 
     // Second, continue taking characters until we encounter the next | or
-    // we reach the end of the link
-    map_parser(
-        take_line_until("|"),
-        alt((
-            map(transclusion::transclusion_link, |l| {
-                Description::from(l.into_inner().into_data())
-            }),
-            map(rest, |s: Span| Description::Text(s.into())),
-        )),
-    )(input)
+    // we reach the end of the link, unless the description is an embedded link
+    // as it can contain | itself
+    alt((
+        map(
+            terminated(
+                transclusion::transclusion_link,
+                peek(alt((tag("|"), eof))),
+            ),
+            |l| Description::from(l.into_inner().into_data()),
+        ),
+        map(take_line_until("|"), |s: Span| Description::Text(s.into())),
+    ))(input)
 }
 
 fn link_anchor<'a>(input: Span<'a>) -> IResult<Anchor<'a>> {
-- 
2.43.0


From 68e75bbcdea1c31bf8d177d31d9f26ee8dea6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 15/63] fix: resolve relative file links within the output of
 the wiki

---
 vimwiki-core/src/lang/output/html/convert.rs |  5 ++++-
 vimwiki-core/src/lang/output/html/mod.rs     |  4 +++-
 vimwiki-core/src/lang/output/html/utils.rs   | 10 +++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index 5435348..598f010 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -96,7 +96,10 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
                         formatter.config().as_active_page_path_within_wiki(),
                     ),
                 ),
-                ("%css%", formatter.config().to_current_wiki().css_name.as_str()),
+                (
+                    "%css%",
+                    formatter.config().to_current_wiki().css_name.as_str(),
+                ),
                 ("%encoding%", "utf-8"),
                 ("%content%", formatter.get_content()),
             ],
diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 0b066f9..252a400 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1262,7 +1262,9 @@ fn write_attributes(
         .filter(|(name, _)| {
             !name.is_empty()
                 && !name.contains(|c: char| {
-                    c.is_whitespace() || c.is_control() || "\"'<>/=`".contains(c)
+                    c.is_whitespace()
+                        || c.is_control()
+                        || "\"'<>/=`".contains(c)
                 })
         })
         .collect();
diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 4076d46..8b8cc5a 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -355,8 +355,10 @@ fn resolve_local_file(
     src_out: PathBuf,
     data: &LinkData<'_>,
 ) -> Result<URIReference<'static>, LinkResolutionError> {
-    // file:... refers to a specific place in the file system
-    if matches!(data.scheme(), Some(Scheme::File)) {
+    // file:/... refers to a specific place in the file system
+    if matches!(data.scheme(), Some(Scheme::File))
+        && data.uri_ref.path().is_absolute()
+    {
         return Ok(data.uri_ref.clone().into_owned());
     }
 
@@ -436,7 +438,9 @@ fn make_anchor_fragment(anchor: &Anchor<'_>) -> Option<Fragment<'static>> {
         .join("-");
 
     Fragment::try_from(
-        utf8_percent_encode(&id, NOT_IN_FRAGMENT).to_string().as_str(),
+        utf8_percent_encode(&id, NOT_IN_FRAGMENT)
+            .to_string()
+            .as_str(),
     )
     .map(Fragment::into_owned)
     .ok()
-- 
2.43.0


From ec00a791f62e8f94b34c302b59d9325fe35fcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 16/63] fix: select wikis to include by their place in the
 configuration

---
 vimwiki-cli/src/ast.rs   |  2 +-
 vimwiki-cli/src/utils.rs | 21 ++-------------------
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..4de4a93 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..e721ac9 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -22,17 +22,11 @@ pub fn load_html_config(
     opt: &CommonOpt,
     extra_paths: &[PathBuf],
 ) -> io::Result<HtmlConfig> {
-    let CommonOpt {
-        config,
-        merge,
-        include,
-        ..
-    } = opt;
+    let CommonOpt { config, merge, .. } = opt;
 
     trace!(
-        "load_html_config(path = {:?}, include = {:?}, merge = {}, extra_paths = {:?})",
+        "load_html_config(path = {:?}, merge = {}, extra_paths = {:?})",
         config,
-        include,
         merge,
         extra_paths
     );
@@ -84,17 +78,6 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
     Ok(config)
 }
 
-- 
2.43.0


From c9d556c2039144997b789f82de081845535c139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 17/63] fix: do not write to the cache when told to not use it

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 4de4a93..ac4d044 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From 9b7b55adb9b08c435657217abe1bce5067ff8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 18/63] fix: create the directory of the included css file

---
 vimwiki-cli/src/subcommand/convert.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..d9694d8 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -33,8 +33,7 @@ pub fn convert(
             if !cmd.stdout && cmd.include_vimwiki_css {
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
-                debug!("Writing css to {:?}", css_path);
-                std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+                write_css(css_path.as_path())?;
             }
         }
     }
@@ -65,14 +64,21 @@ pub fn convert(
         if !cmd.stdout && cmd.include_vimwiki_css {
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
-            debug!("Writing css to {:?}", css_path);
-            std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+            write_css(css_path.as_path())?;
         }
     }
 
     Ok(())
 }
 
+fn write_css(path: &Path) -> io::Result<()> {
+    debug!("Writing css to {:?}", path);
+    if let Some(parent) = path.parent() {
+        std::fs::create_dir_all(parent)?;
+    }
+    std::fs::write(path, css::DEFAULT_STYLE_FILE)
+}
+
 fn process_path(
     config: HtmlConfig,
     ast: &mut Ast,
-- 
2.43.0


From 2a0c48fc9d1c2a1b2bd39bed983d207e0ec2c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 19/63] fix: detect lines with one character as not being blank

---
 vimwiki-core/src/lang/parsers/span.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..736af43 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,9 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining()
+            .iter()
+            .all(|b| matches!(b, b' ' | b'\t'))
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From 7a88cf0b9cfe42836bf5dbcecce9f966c856a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 20/63] fix: support converting definition lists into JSON

---
 .../src/lang/elements/blocks/definitions.rs      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..e7d3f85 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -151,7 +151,9 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Deserialize,
 )]
 #[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +177,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +220,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +228,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From bd6c5cca0a0d9696cba294f0bcbd9a1dbc02f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 21/63] fix: locate definitions from the first one to the last
 one

---
 .../src/lang/elements/blocks/definitions.rs   | 12 +++++----
 .../parsers/vimwiki/blocks/definitions.rs     | 27 +++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index e7d3f85..c833a99 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -379,12 +379,14 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         let mut dl = Self::default();
 
         for (term, def_bundle) in iter.into_iter() {
-            // TODO: Should we perform more checks? Right now, we assume that these
-            //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            // Definitions may not immediately follow the term, so the region
+            // spans from the start of the term to the end of its definitions
+            let start = term.region().offset();
+            let end = std::cmp::max(
+                start + term.region().len(),
+                def_bundle.region().offset() + def_bundle.region().len(),
             );
+            let region = Region::new(start, end - start);
 
             dl.items.push(Located::new(
                 TermAndDefinitions::new(term, def_bundle),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..22a809c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -38,16 +38,33 @@ fn term_and_definitions<'a>(
     input: Span<'a>,
 ) -> IResult<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)> {
     let (input, (term, maybe_def)) = term_line(input)?;
-    let (input, mut bundle) = locate(capture(map(
+    let (input, bundle) = locate(capture(map(
         verify(many0(definition_line), |defs: &Vec<Located<Definition>>| {
             maybe_def.is_some() || !defs.is_empty()
         }),
         DefinitionBundle::new,
     )))(input)?;
 
-    if let Some(def) = maybe_def {
-        bundle.as_mut_inner().as_mut().insert(0, def);
-    }
+    // If the line of the term has a definition, then the bundle starts there
+    let bundle = match maybe_def {
+        Some(def) => {
+            let start = def.region().offset();
+            let end = if bundle.is_empty() {
+                start + def.region().len()
+            } else {
+                bundle.region().offset() + bundle.region().len()
+            };
+            let region = Region::new_at_depth(
+                start,
+                end - start,
+                bundle.region().depth(),
+            );
+            let mut definitions = bundle.into_inner().into_definitions();
+            definitions.insert(0, def);
+            Located::new(DefinitionBundle::new(definitions), region)
+        }
+        None => bundle,
+    };
 
     Ok((input, (term, bundle)))
 }
-- 
2.43.0


From d765a638895a3701751a9fa7fed551f51d39e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 22/63] fix: parse nested lists in polynomial time

---
 .../lang/parsers/vimwiki/blocks/paragraphs.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
index 1f913a1..0f97a9e 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
@@ -7,13 +7,16 @@ use super::{
 use crate::lang::{
     elements::{InlineElementContainer, Located, Paragraph},
     parsers::{
-        utils::{blank_line, capture, context, end_of_line_or_input, locate},
+        utils::{
+            blank_line, capture, context, end_of_line_or_input, locate,
+            take_until_end_of_line_or_input,
+        },
         IResult, Span,
     },
 };
 use nom::{
     character::complete::space0,
-    combinator::{map, not},
+    combinator::{map, map_parser, not, value},
     multi::many1,
     sequence::delimited,
 };
@@ -57,7 +60,7 @@ fn paragraph_line(input: Span) -> IResult<InlineElementContainer> {
 fn continue_paragraph(input: Span) -> IResult<()> {
     let (input, _) = not(header)(input)?;
     let (input, _) = not(definition_list)(input)?;
-    let (input, _) = not(list)(input)?;
+    let (input, _) = not(list_start)(input)?;
     let (input, _) = not(table)(input)?;
     let (input, _) = not(code_block)(input)?;
     let (input, _) = not(math_block)(input)?;
@@ -68,6 +71,16 @@ fn continue_paragraph(input: Span) -> IResult<()> {
     Ok((input, ()))
 }
 
+/// Checks if a list starts on the current line, which only depends on that line
+///
+/// Going through the entire list would mean that all of its sublists are
+/// parsed twice: once here and another time as what comes after the paragraph.
+/// With that being true for each sublist, too, time would be exponential in how
+/// deep lists are nested.
+fn list_start(input: Span) -> IResult<()> {
+    value((), map_parser(take_until_end_of_line_or_input, list))(input)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4acc4843ae050a21648c41757cf9fadaaf2b701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 23/63] Add monitoring hooks guarded by --cfg vimwiki_monitor

---
 vimwiki-core/src/lang/parsers/span.rs | 15 +++++++
 vimwiki-core/src/lib.rs               |  5 +++
 vimwiki-core/src/monitor.rs           | 62 +++++++++++++++++++++++++++
 3 files changed, 82 insertions(+)
 create mode 100644 vimwiki-core/src/monitor.rs

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 736af43..b01adeb 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -31,6 +31,9 @@ impl<'a> Span<'a> {
     /// provided byte slice, and depth describing how deep some input is
     /// relative to other input overlaying similar regions of bytes
     pub fn new(inner: &'a [u8], start: usize, end: usize, depth: u16) -> Self {
+        #[cfg(vimwiki_monitor)]
+        crate::monitor::on_span(start, end, inner.len());
+
         Self {
             inner,
             start,
@@ -147,6 +150,9 @@ impl<'a> Span<'a> {
     ///
     /// This will have undefined behavior if the inner bytes are not UTF-8
     pub fn as_unsafe_inner_str(&self) -> &str {
+        #[cfg(vimwiki_monitor)]
+        crate::monitor::on_unchecked_str(self.as_inner());
+
         unsafe { std::str::from_utf8_unchecked(self.as_inner()) }
     }
 
@@ -172,6 +178,9 @@ impl<'a> Span<'a> {
     ///
     /// This will have undefined behavior if the consumed bytes are not UTF-8
     pub fn as_unsafe_consumed_str(&self) -> &str {
+        #[cfg(vimwiki_monitor)]
+        crate::monitor::on_unchecked_str(self.as_consumed());
+
         unsafe { std::str::from_utf8_unchecked(self.as_consumed()) }
     }
 
@@ -190,6 +199,9 @@ impl<'a> Span<'a> {
     ///
     /// This will have undefined behavior if the remaining bytes are not UTF-8
     pub fn as_unsafe_remaining_str(&self) -> &str {
+        #[cfg(vimwiki_monitor)]
+        crate::monitor::on_unchecked_str(self.as_remaining());
+
         unsafe { std::str::from_utf8_unchecked(self.as_remaining()) }
     }
 
@@ -205,6 +217,9 @@ impl<'a> Span<'a> {
         self,
         f: F,
     ) -> R {
+        #[cfg(vimwiki_monitor)]
+        crate::monitor::on_unchecked_str(&self.inner[self.start..self.end]);
+
         f(unsafe {
             std::str::from_utf8_unchecked(&self.inner[self.start..self.end])
         })
diff --git a/vimwiki-core/src/lib.rs b/vimwiki-core/src/lib.rs
index 550e1f6..6a8ffb0 100644
--- a/vimwiki-core/src/lib.rs
+++ b/vimwiki-core/src/lib.rs
@@ -25,3 +25,8 @@ pub mod vendor {
 
 #[cfg(feature = "timekeeper")]
 pub mod timekeeper;
+
+/// Hooks for runtime monitoring, only available when compiled with
+/// `--cfg vimwiki_monitor`
+#[cfg(vimwiki_monitor)]
+pub mod monitor;
diff --git a/vimwiki-core/src/monitor.rs b/vimwiki-core/src/monitor.rs
new file mode 100644
index 0000000..4c5e817
--- /dev/null
+++ b/vimwiki-core/src/monitor.rs
@@ -0,0 +1,62 @@
+//! Observation points used by external runtime monitors. This module is only
+//! compiled with `--cfg vimwiki_monitor` and keeps its state per thread.
+
+use std::cell::RefCell;
+
+/// What has been observed on the current thread since the last reset
+#[derive(Clone, Debug, Default)]
+pub struct Observed {
+    /// Total spans created, which is a logical measure of work during parsing
+    pub spans: u64,
+
+    /// Total conversions of bytes to str without checking for UTF-8
+    pub unchecked_strs: u64,
+
+    /// Total of the above conversions where the bytes were not ASCII
+    pub unchecked_non_ascii: u64,
+
+    /// Description of the first conversion of bytes that are not UTF-8
+    pub bad_str: Option<String>,
+
+    /// Description of the first span that goes outside of its input
+    pub bad_span: Option<String>,
+}
+
+thread_local! {
+    static OBSERVED: RefCell<Observed> = RefCell::new(Observed::default());
+}
+
+/// Forgets everything observed on the current thread
+pub fn reset() {
+    OBSERVED.with(|o| *o.borrow_mut() = Observed::default());
+}
+
+/// Returns a copy of what has been observed on the current thread
+pub fn observed() -> Observed {
+    OBSERVED.with(|o| o.borrow().clone())
+}
+
+pub(crate) fn on_span(start: usize, end: usize, len: usize) {
+    OBSERVED.with(|o| {
+        let mut o = o.borrow_mut();
+        o.spans += 1;
+        if o.bad_span.is_none() && (start > end || end > len) {
+            o.bad_span = Some(format!("{}..{} of {}", start, end, len));
+        }
+    });
+}
+
+pub(crate) fn on_unchecked_str(bytes: &[u8]) {
+    OBSERVED.with(|o| {
+        let mut o = o.borrow_mut();
+        o.unchecked_strs += 1;
+        if !bytes.is_ascii() {
+            o.unchecked_non_ascii += 1;
+            if o.bad_str.is_none() {
+                if let Err(x) = std::str::from_utf8(bytes) {
+                    o.bad_str = Some(format!("{}: {:?}", x, bytes));
+                }
+            }
+        }
+    });
+}
-- 
2.43.0


From e957df5e3811f7e31a0532f466b27cfc8bb0386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 24/63] fix: do not lose the rest of decorated text after code,
 math or tags

---
 .../src/lang/parsers/vimwiki/blocks/inline/typefaces.rs  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..c41de11 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -23,7 +23,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::char,
-    combinator::{map, map_parser, peek},
+    combinator::{all_consuming, map, map_parser, peek},
     multi::many1,
     sequence::preceded,
 };
@@ -210,7 +210,10 @@ fn decorated_text_contents<'a>(
     input: Span<'a>,
 ) -> IResult<Vec<Located<DecoratedTextContent<'a>>>> {
     fn inner(input: Span) -> IResult<Vec<Located<DecoratedTextContent>>> {
-        many1(alt((
+        // NOTE: If there is an inline element that cannot be within decorated
+        //       text such as code, we cannot stop there as the rest would
+        //       be lost
+        all_consuming(many1(alt((
             map(link, |l: Located<Link>| l.map(DecoratedTextContent::from)),
             map(keyword, |l: Located<Keyword>| {
                 l.map(DecoratedTextContent::from)
@@ -219,7 +222,7 @@ fn decorated_text_contents<'a>(
                 l.map(DecoratedTextContent::from)
             }),
             map(text, |l: Located<Text>| l.map(DecoratedTextContent::from)),
-        )))(input)
+        ))))(input)
     }
 
     context("Decorated Text Contents", inner)(input)
-- 
2.43.0


From 62a9ddc18ee78a14c8c8d37a60d2159c4df1b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 25/63] Let monitors limit the work of parsing
 (vimwiki_monitor)

---
 vimwiki-core/src/monitor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/monitor.rs b/vimwiki-core/src/monitor.rs
index 4c5e817..c3b43ce 100644
--- a/vimwiki-core/src/monitor.rs
+++ b/vimwiki-core/src/monitor.rs
@@ -1,7 +1,7 @@
 //! Observation points used by external runtime monitors. This module is only
 //! compiled with `--cfg vimwiki_monitor` and keeps its state per thread.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 /// What has been observed on the current thread since the last reset
 #[derive(Clone, Debug, Default)]
@@ -23,6 +23,7 @@ pub struct Observed {
 }
 
 thread_local! {
+    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
     static OBSERVED: RefCell<Observed> = RefCell::new(Observed::default());
 }
 
@@ -36,10 +37,19 @@ pub fn observed() -> Observed {
     OBSERVED.with(|o| o.borrow().clone())
 }
 
+/// Panics on the current thread once more spans than this are created between
+/// resets, which turns parsing without an end into an observable failure
+pub fn set_span_limit(limit: u64) {
+    LIMIT.with(|l| l.set(limit));
+}
+
 pub(crate) fn on_span(start: usize, end: usize, len: usize) {
     OBSERVED.with(|o| {
         let mut o = o.borrow_mut();
         o.spans += 1;
+        if o.spans > LIMIT.with(Cell::get) {
+            panic!("Created more spans than allowed");
+        }
         if o.bad_span.is_none() && (start > end || end > len) {
             o.bad_span = Some(format!("{}..{} of {}", start, end, len));
         }
-- 
2.43.0


From 4bd9794bee7083a2d925810a0c3d34e001360248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 26/63] fix: do not lose the rest of a word that starts like
 tags

---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..be2644d 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,12 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    // NOTE: Tags make up the entire word, otherwise what follows the last colon
+    //       would be lost
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From e469e8a899242f3cc0b839f36c2d0c1266e4f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 27/63] fix: read back blockquotes as they are formatted

Blank lines are written as a lone > and indented blockquotes cannot be
within another element nor have blank lines.
---
 vimwiki-core/src/lang/output/vimwiki/mod.rs           |  8 +++++++-
 .../src/lang/parsers/vimwiki/blocks/blockquotes.rs    | 11 ++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 2e7c728..ae0fd95 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -82,6 +82,12 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             trim_lines,
         } = f.config().blockquote;
 
+        // NOTE: Indented blockquotes end with a blank line and cannot be used
+        //       within another element
+        let use_indented = prefer_indented_blockquote
+            && f.indent_level == 0
+            && self.lines.iter().all(|line| !line.trim().is_empty());
+
         for line in self {
             f.write_indent()?;
 
@@ -89,7 +95,7 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             //       as default instead of forcing one type or another
             // TODO: Support spacing on multiple >>> for nested blockquotes
             //       once those are implemented
-            if prefer_indented_blockquote {
+            if use_indented {
                 write!(f, "    ")?;
             } else {
                 write!(f, "> ")?;
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..6d769ac 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, terminated},
 };
 use std::borrow::Cow;
 
@@ -77,7 +77,12 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
+
+    // NOTE: A line without text does not need the space after >
+    let (input, _) =
+        alt((tag("> "), terminated(tag(">"), peek(end_of_line_or_input))))(
+            input,
+        )?;
     let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
-- 
2.43.0


From 03e2838360a4ed5c7c96c830ef1e8d829c1c7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 28/63] fix: remove indentation of code and math blocks
 starting after a list marker

---
 .../src/lang/parsers/vimwiki/blocks/code.rs       | 15 ++++++++++++---
 .../src/lang/parsers/vimwiki/blocks/math.rs       | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index ffef54f..e534b31 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -2,8 +2,9 @@ use crate::lang::{
     elements::{CodeBlock, Located},
     parsers::{
         utils::{
-            any_line, capture, context, count_remaining_bytes, cow_str,
-            end_of_line_or_input, locate, take_line_until, take_line_until1,
+            any_line, beginning_of_line, capture, context,
+            count_remaining_bytes, cow_str, end_of_line_or_input, locate,
+            take_line_until, take_line_until1,
         },
         IResult, Span,
     },
@@ -23,6 +24,7 @@ type Metadata<'a> = HashMap<Cow<'a, str>, Cow<'a, str>>;
 #[inline]
 pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
     fn inner(input: Span) -> IResult<CodeBlock> {
+        let is_start_of_line = beginning_of_line(input).is_ok();
         let (input, (start_indent_size, maybe_lang, metadata)) =
             code_block_start(input)?;
         let (input, lines) = many0(preceded(
@@ -33,7 +35,14 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
 
         // We need to adjust the start of each line based on the indentation
         // of the code block start/end and the space at the beginning of a line
-        let indent_size = std::cmp::min(start_indent_size, end_indent_size);
+        //
+        // NOTE: If the block starts in the middle of a line such as after the
+        //       prefix of a list item, its start says nothing about indentation
+        let indent_size = if is_start_of_line {
+            std::cmp::min(start_indent_size, end_indent_size)
+        } else {
+            end_indent_size
+        };
         let lines = lines
             .into_iter()
             .map(|mut line| {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 0c12925..0c62e78 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -2,8 +2,9 @@ use crate::lang::{
     elements::{Located, MathBlock},
     parsers::{
         utils::{
-            any_line, capture, context, count_remaining_bytes, cow_str,
-            end_of_line_or_input, locate, take_line_until1,
+            any_line, beginning_of_line, capture, context,
+            count_remaining_bytes, cow_str, end_of_line_or_input, locate,
+            take_line_until1,
         },
         IResult, Span,
     },
@@ -20,6 +21,7 @@ use std::borrow::Cow;
 pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
     fn inner(input: Span) -> IResult<MathBlock> {
         // First, look for the beginning section including an optional environment
+        let is_start_of_line = beginning_of_line(input).is_ok();
         let (input, (start_indent_size, environment)) =
             beginning_of_math_block(input)?;
 
@@ -34,7 +36,14 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
 
         // We need to adjust the start of each line based on the indentation
         // of the code block start/end and the space at the beginning of a line
-        let indent_size = std::cmp::min(start_indent_size, end_indent_size);
+        //
+        // NOTE: If the block starts in the middle of a line such as after the
+        //       prefix of a list item, its start says nothing about indentation
+        let indent_size = if is_start_of_line {
+            std::cmp::min(start_indent_size, end_indent_size)
+        } else {
+            end_indent_size
+        };
         let lines = lines
             .into_iter()
             .map(|mut line| {
-- 
2.43.0


From 11e92bf5a0aaf5dd958c113f7edda4ef625cbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 29/63] fix: recognize all roman and alphabetic markers of list
 items

C instead of E is a roman numeral, and alphabetic markers may start with
letters that are roman numerals.
---
 .../src/lang/parsers/vimwiki/blocks/lists.rs  | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..9b7bbf5 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -240,17 +240,19 @@ fn ordered_list_item_prefix(
     input: Span,
 ) -> IResult<(OrderedListItemType, ListItemSuffix)> {
     // NOTE: Roman numeral check comes before alphabetic as alphabetic would
-    //       also match roman numerals
+    //       also match roman numerals; the suffix is part of each alternative
+    //       as an alphabetic marker can start like a roman numeral such as ca)
     let (input, (item_type, item_suffix)) = alt((
+        pair(ordered_list_item_type_number, ordered_list_item_suffix),
+        pair(ordered_list_item_type_lower_roman, ordered_list_item_suffix),
+        pair(ordered_list_item_type_upper_roman, ordered_list_item_suffix),
         pair(
-            alt((
-                ordered_list_item_type_number,
-                ordered_list_item_type_lower_roman,
-                ordered_list_item_type_upper_roman,
-                ordered_list_item_type_lower_alphabet,
-                ordered_list_item_type_upper_alphabet,
-            )),
-            alt((list_item_suffix_period, list_item_suffix_paren)),
+            ordered_list_item_type_lower_alphabet,
+            ordered_list_item_suffix,
+        ),
+        pair(
+            ordered_list_item_type_upper_alphabet,
+            ordered_list_item_suffix,
         ),
         pair(ordered_list_item_type_pound, list_item_suffix_none),
     ))(input)?;
@@ -324,10 +326,15 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
+#[inline]
+fn ordered_list_item_suffix(input: Span) -> IResult<ListItemSuffix> {
+    alt((list_item_suffix_period, list_item_suffix_paren))(input)
+}
+
 #[inline]
 fn list_item_suffix_paren(input: Span) -> IResult<ListItemSuffix> {
     value(ListItemSuffix::Paren, tag(") "))(input)
-- 
2.43.0


From aa6ddd4d56d7026afc4d0b26d60ba358eaf9c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 30/63] fix: give items of a list with mixed markers a matching
 suffix

Otherwise they are formatted as markers that are not recognized anymore.
---
 vimwiki-core/src/lang/elements/blocks/lists/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
index 49c144a..c48e3df 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@@ -118,6 +118,14 @@ impl<'a> List<'a> {
             //       on to other letters like j and k
             for item in tail {
                 item.ty = head.ty.clone();
+
+                // NOTE: Types either always or never have a suffix, so an item
+                //       whose type changed may need the suffix to change, too
+                if (item.suffix == ListItemSuffix::None)
+                    != (head.suffix == ListItemSuffix::None)
+                {
+                    item.suffix = head.suffix;
+                }
             }
         }
 
-- 
2.43.0


From f0d8266b16e6e2c57598359f3f056d342ae2f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 31/63] fix: do not take words for alphabetic list markers

A line such as 'Hello. World' became a list item and lost its first word.
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 9b7bbf5..49a2a7e 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -14,13 +14,17 @@ use crate::lang::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_while1},
+    bytes::complete::{tag, take_while_m_n},
     character::complete::{digit1, one_of, space0},
     combinator::{map, opt, peek, recognize, value, verify},
     multi::{fold_many0, many0, many1},
     sequence::{pair, preceded},
 };
 
+/// Maximum letters of an alphabetic marker such as aaa), which keeps words at
+/// the end of a sentence or within parentheses from being taken as markers
+const MAX_ALPHABET_MARKER_LEN: usize = 3;
+
 #[inline]
 pub fn list(input: Span) -> IResult<Located<List>> {
     fn inner(input: Span) -> IResult<List> {
@@ -290,7 +294,7 @@ fn ordered_list_item_type_lower_alphabet(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::LowercaseAlphabet,
-        take_while1(|b: u8| {
+        take_while_m_n(1, MAX_ALPHABET_MARKER_LEN, |b: u8| {
             let c = char::from(b);
             c.is_ascii_alphabetic() && c.is_ascii_lowercase()
         }),
@@ -303,7 +307,7 @@ fn ordered_list_item_type_upper_alphabet(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseAlphabet,
-        take_while1(|b: u8| {
+        take_while_m_n(1, MAX_ALPHABET_MARKER_LEN, |b: u8| {
             let c = char::from(b);
             c.is_ascii_alphabetic() && c.is_ascii_uppercase()
         }),
-- 
2.43.0


From cfdd5ca35920adf9c81dcdd0ef67504024dc460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 32/63] fix: do not lose text of a link after brackets of
 another kind

---
 .../src/lang/parsers/vimwiki/blocks/inline/links/mod.rs       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index c2b6d11..3310007 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -3,7 +3,6 @@ use crate::lang::{
     parsers::{
         utils::{
             context, cow_str, take_line_until, take_line_until1,
-            take_line_until_one_of_three1,
         },
         Error, IResult, Span,
     },
@@ -97,8 +96,7 @@ fn link_data<'a>(input: Span<'a>) -> IResult<LinkData<'a>> {
 ///
 /// Can either be a text description OR an embeded {{...}} transclusion link
 fn link_uri_ref<'a>(input: Span<'a>) -> IResult<URIReference<'a>> {
-    let (input, uri_span) =
-        take_line_until_one_of_three1("|", "]]", "}}")(input)?;
+    let (input, uri_span) = take_line_until1("|")(input)?;
 
     match URIReference::try_from(uri_span) {
         Ok(uri_ref) => Ok((input, uri_ref)),
-- 
2.43.0


From 13471564151b8935a21b0f68417fbed690a31d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 33/63] fix: only trim whitespace without a meaning when
 formatting

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index 784fc28..d7619ce 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -1,6 +1,12 @@
 use super::{OutputFormatter, VimwikiConfig, VimwikiOutputError};
 use std::fmt::{self, Write};
 
+/// Whitespace without a meaning, which is what the parser skips, too; others such
+/// as a non-breaking space are content
+fn is_whitespace(c: char) -> bool {
+    c.is_ascii_whitespace()
+}
+
 /// Represents the formatter to use to write ivimwiki output that includes various
 /// options that can be set as well as a context for use when writing output
 #[derive(Clone, Default)]
@@ -29,7 +35,7 @@ impl Write for VimwikiFormatter {
         // If flagged to skip whitespace, we want to skip all whitespace
         // until we see the first non-whitespace character
         let s = if self.skip_whitespace {
-            let tmp = s.trim_start();
+            let tmp = s.trim_start_matches(is_whitespace);
             if !tmp.is_empty() {
                 self.skip_whitespace = false;
             }
@@ -114,8 +120,8 @@ impl VimwikiFormatter {
 
     /// Removes whitespace from end of current output content
     pub fn trim_end(&mut self) {
-        let diff = self.content.len() - self.content.trim_end().len();
-        self.content.truncate(self.content.len() - diff);
+        let len = self.content.trim_end_matches(is_whitespace).len();
+        self.content.truncate(len);
     }
 
     /// Represents the config contained within the formatter
-- 
2.43.0


From 89f851126dc5d8988e602be26dc03d207eb61ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 34/63] fix: separate elements that would be read back as one

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 38 +++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index ae0fd95..a4ee5d4 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -29,8 +29,12 @@ impl<'a> Output<VimwikiFormatter> for Page<'a> {
 
             // If specified, add an additional linefeed after each element
             // except for the very last one
-            if separate_block_elements && idx < self.elements.len() - 1 {
-                writeln!(f)?;
+            if let Some(next) = self.elements.get(idx + 1) {
+                if separate_block_elements
+                    || requires_separation(element.as_inner(), next.as_inner())
+                {
+                    writeln!(f)?;
+                }
             }
         }
 
@@ -38,6 +42,36 @@ impl<'a> Output<VimwikiFormatter> for Page<'a> {
     }
 }
 
+/// Checks if a blank line is needed between two elements as they would
+/// otherwise not be read back as two elements
+fn requires_separation(
+    element: &BlockElement<'_>,
+    next: &BlockElement<'_>,
+) -> bool {
+    use BlockElement::*;
+
+    // NOTE: These do not have an end of their own, so they continue with
+    //       whatever looks like a part of them
+    let is_open_ended = |x: &BlockElement<'_>| {
+        matches!(
+            x,
+            Blockquote(_) | DefinitionList(_) | List(_) | Paragraph(_) | Table(_)
+        )
+    };
+
+    // NOTE: Any of these might be indented
+    let is_maybe_indented = match next {
+        Blockquote(_) => true,
+        Header(x) => x.centered,
+        Table(x) => x.centered,
+        _ => false,
+    };
+
+    is_open_ended(element)
+        && (is_maybe_indented
+            || std::mem::discriminant(element) == std::mem::discriminant(next))
+}
+
 impl<'a> Output<VimwikiFormatter> for Element<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         match self {
-- 
2.43.0


From cccf39984574a01e807ff63d5e2b0173c82f76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 35/63] fix: separate the colon of a term's tags from the
 definition

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index a4ee5d4..91ee375 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -164,6 +164,13 @@ impl<'a> Output<VimwikiFormatter> for DefinitionList<'a> {
             } else {
                 bundle.term.fmt(f)?;
             }
+
+            // NOTE: Keep a colon at the end of the term, such as that of tags,
+            //       from being taken for the first one of the separator
+            if f.get_content().ends_with(':') {
+                write!(f, " ")?;
+            }
+
             write!(f, "::")?;
 
             if term_on_line_by_itself || bundle.definitions.is_empty() {
-- 
2.43.0


From d8eac3cd91df775e65d2049e9d3d2fb8d1f3d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 36/63] fix: pad headers starting with tags

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 91ee375..e24504e 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -228,8 +228,13 @@ impl<'a> Output<VimwikiFormatter> for Header<'a> {
             write!(f, "=")?;
         }
 
+        // NOTE: Without padding, tags at the start would not be tags anymore
+        let needs_padding = self.content.iter().next().map_or(false, |x| {
+            matches!(x.as_inner(), InlineElement::Tags(_))
+        });
+
         // Padding after beginning portion of header
-        if !no_padding {
+        if !no_padding || needs_padding {
             write!(f, " ")?;
         }
 
-- 
2.43.0


From 90438c685ee6b6bab00b8f7bca079363b8edb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 37/63] fix: keep indented text that looks like a placeholder
 or divider

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index e24504e..07dcd23 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -429,6 +429,19 @@ impl<'a> Output<VimwikiFormatter> for Paragraph<'a> {
         for line in self {
             f.write_indent()?;
 
+            // NOTE: Text that looks like a placeholder or divider is only
+            //       kept as such if it does not start in the first column
+            if f.get_content().is_empty() || f.get_content().ends_with('\n') {
+                let mut tmp = f.clone_without_content();
+                line.fmt(&mut tmp)?;
+                let text = tmp.get_content().trim();
+                if (text.starts_with('%') && !text.starts_with("%%"))
+                    || (text.len() >= 4 && text.chars().all(|c| c == '-'))
+                {
+                    write!(f, " ")?;
+                }
+            }
+
             if trim_lines {
                 f.and_trim(|f| line.fmt(f))?;
             } else {
-- 
2.43.0


From 19365d79296c1ae6b65de6870a7bcada4ad9aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 38/63] fix: do not panic on a colon within decorated text
 after text with a colon

---
 .../lang/parsers/vimwiki/blocks/inline/typefaces.rs    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index c41de11..5543aa6 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -106,10 +106,14 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             // sure that we backtrack our length and then we're done
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start < text_input.start_offset() {
-                    len -= text_input.start_offset() - non_text_start;
+                let backtrack_len =
+                    text_input.start_offset().saturating_sub(non_text_start);
+
+                // NOTE: What starts prior to our text is part of something else
+                if backtrack_len <= len {
+                    len -= backtrack_len;
+                    break;
                 }
-                break;
             }
 
             text_input = text_input.advance_start_by(1);
-- 
2.43.0


From a70097b649134d87e9d193a0dfb70ad001fecb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 39/63] fix: only indent blockquotes that are read back as such

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 07dcd23..82ad156 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -13,6 +13,7 @@ pub use error::{VimwikiOutputError, VimwikiOutputResult};
 use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
+    Language,
 };
 use std::{collections::HashMap, convert::TryFrom, fmt::Write};
 use uriparse::URIReference;
@@ -120,7 +121,7 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
         //       within another element
         let use_indented = prefer_indented_blockquote
             && f.indent_level == 0
-            && self.lines.iter().all(|line| !line.trim().is_empty());
+            && is_indented_blockquote(self, trim_lines);
 
         for line in self {
             f.write_indent()?;
@@ -149,6 +150,32 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
     }
 }
 
+/// Checks if a blockquote can be written using indentation, which is not the case
+/// if its lines would be read back as something else such as a list
+fn is_indented_blockquote(
+    blockquote: &Blockquote<'_>,
+    trim_lines: bool,
+) -> bool {
+    let lines: Vec<&str> = blockquote
+        .lines
+        .iter()
+        .map(|line| if trim_lines { line.trim() } else { line.as_ref() })
+        .collect();
+    let text: String =
+        lines.iter().map(|line| format!("    {}\n", line)).collect();
+
+    match Language::from_vimwiki_str(&text).parse::<Page>() {
+        Ok(page) => match page.elements.as_slice() {
+            [x] => matches!(
+                x.as_inner(),
+                BlockElement::Blockquote(x) if x.lines == lines
+            ),
+            _ => false,
+        },
+        Err(_) => false,
+    }
+}
+
 impl<'a> Output<VimwikiFormatter> for DefinitionList<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         let VimwikiDefinitionListConfig {
-- 
2.43.0


From 3a636186c595df220c372f793fa9911a0cb504cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 40/63] fix: detect to-do items regardless of the amount of
 whitespace

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 49a2a7e..6afe297 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -6,7 +6,8 @@ use crate::lang::{
     },
     parsers::{
         utils::{
-            beginning_of_line, capture, context, deeper, locate, rest_of_line,
+            beginning_of_line, capture, context, deeper, end_of_line_or_input,
+            locate, rest_of_line,
         },
         vimwiki::blocks::nested_block_element,
         IResult, Span,
@@ -16,7 +17,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while_m_n},
     character::complete::{digit1, one_of, space0},
-    combinator::{map, opt, peek, recognize, value, verify},
+    combinator::{map, not, opt, peek, recognize, value, verify},
     multi::{fold_many0, many0, many1},
     sequence::{pair, preceded},
 };
@@ -174,6 +175,7 @@ fn indentation_level(consume: bool) -> impl Fn(Span) -> IResult<usize> {
 
 #[inline]
 fn todo_status(input: Span) -> IResult<ListItemTodoStatus> {
+    let (input, _) = space0(input)?;
     let (input, _) = tag("[")(input)?;
     let (input, attr) = alt((
         value(ListItemTodoStatus::Incomplete, tag(" ")),
@@ -184,6 +186,11 @@ fn todo_status(input: Span) -> IResult<ListItemTodoStatus> {
         value(ListItemTodoStatus::Rejected, tag("-")),
     ))(input)?;
     let (input, _) = tag("] ")(input)?;
+
+    // NOTE: Without anything to do, this is the text of the item, regardless of
+    //       whether there is whitespace at the end of the line
+    let (input, _) = not(pair(space0, end_of_line_or_input))(input)?;
+
     Ok((input, attr))
 }
 
-- 
2.43.0


From e9267478ff4eb62c518ae8f9245abf147453f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 41/63] fix: escape the addresses of links in HTML

---
 vimwiki-core/src/lang/output/html/mod.rs | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 252a400..139b9a5 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1061,6 +1061,9 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
             properties: Option<&HashMap<Cow<'_, str>, Cow<'_, str>>>,
             use_img_tag: bool,
         ) -> HtmlOutputResult {
+            let text = href.to_string();
+            let href = escape_uri(&text);
+
             if use_img_tag {
                 write!(f, "<img src=\"{}\"", href)?;
 
@@ -1100,7 +1103,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                         }
                         .fmt(f)?
                     }
-                    None => write!(f, "{}", href)?,
+                    None => write!(f, "{}", escape::escape_html(&text))?,
                 }
 
                 write!(f, "</a>")?;
@@ -1277,6 +1280,27 @@ fn write_attributes(
     Ok(())
 }
 
+/// Escapes a uri to be used as the value of an attribute, where & is kept when
+/// followed by the name of a parameter as HTML does not mistake that for a
+/// character reference
+fn escape_uri(uri: &str) -> String {
+    uri.split('&')
+        .enumerate()
+        .map(|(idx, part)| {
+            let tail =
+                part.trim_start_matches(|c: char| c.is_ascii_alphanumeric());
+            let separator = if idx == 0 {
+                ""
+            } else if tail.len() < part.len() && tail.starts_with('=') {
+                "&"
+            } else {
+                "&amp;"
+            };
+            format!("{}{}", separator, escape::escape_html(part))
+        })
+        .collect()
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From cc32dd29a5c33a80cc2c1f19cf5d69fdd85edf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 42/63] fix: write no attribute of an HTML element twice

---
 vimwiki-core/src/lang/output/html/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 139b9a5..55e4c0b 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -580,7 +580,9 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                write_attributes(f, &self.metadata)?;
+                let written: &[&str] =
+                    if self.language.is_some() { &["class"] } else { &[] };
+                write_attributes(f, &self.metadata, written)?;
 
                 // NOTE: We do NOT include a newline here because it results
                 //       in the output having a newline at the beginning of
@@ -1067,7 +1069,9 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
             if use_img_tag {
                 write!(f, "<img src=\"{}\"", href)?;
 
+                let mut written = vec!["src"];
                 if let Some(desc) = description {
+                    written.push("alt");
                     write!(
                         f,
                         " alt=\"{}\"",
@@ -1076,7 +1080,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    write_attributes(f, properties)?;
+                    write_attributes(f, properties, &written)?;
                 }
 
                 write!(f, " />")?;
@@ -1084,7 +1088,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    write_attributes(f, properties)?;
+                    write_attributes(f, properties, &["href"])?;
                 }
 
                 write!(f, ">")?;
@@ -1254,10 +1258,12 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
 }
 
 /// Writes user-provided assignments as HTML attributes ordered by name, leaving
-/// out those whose name cannot be the name of an attribute
+/// out those whose name cannot be the name of an attribute as well as those of
+/// which the element has one already
 fn write_attributes(
     f: &mut HtmlFormatter,
     attributes: &HashMap<Cow<'_, str>, Cow<'_, str>>,
+    written: &[&str],
 ) -> HtmlOutputResult {
     let mut attributes: Vec<(&str, &str)> = attributes
         .iter()
@@ -1273,7 +1279,17 @@ fn write_attributes(
         .collect();
     attributes.sort_unstable();
 
+    // NOTE: Names of attributes are the same regardless of their case
+    let mut written: Vec<String> =
+        written.iter().map(ToString::to_string).collect();
+
     for (name, value) in attributes {
+        let lowercase_name = name.to_ascii_lowercase();
+        if written.contains(&lowercase_name) {
+            continue;
+        }
+        written.push(lowercase_name);
+
         write!(f, " {}=\"{}\"", name, escape::escape_html(value))?;
     }
 
-- 
2.43.0


From 06f0f97a30f578205d4eb08ed11bb5a21a24b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 43/63] fix: keep encoded pound signs of links with other
 characters to encode

---
 .../src/lang/elements/blocks/inline/links/data.rs    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index eab64e5..02580dc 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -89,11 +89,13 @@ impl<'a> LinkData<'a> {
             .add(b'`')
             .add(b'#');
 
-        // NOTE: We encode our string, but need to repair the first #
-        //       which signals the fragment
-        percent_encode(uri.as_ref(), FRAGMENT)
-            .to_string()
-            .replacen("%23", "#", 1)
+        // NOTE: The first # signals the fragment and must not be encoded,
+        //       whereas any %23 is a pound sign that was encoded on purpose
+        uri.as_ref()
+            .splitn(2, |b| *b == b'#')
+            .map(|part| percent_encode(part, FRAGMENT).to_string())
+            .collect::<Vec<String>>()
+            .join("#")
     }
 
     /// Allocates a new string with percent-encoded characters decoded
-- 
2.43.0


From 6a49a2114520ba638148ddee54d78e64d37b110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 44/63] fix: keep the fragment of links to local files

---
 vimwiki-core/src/lang/output/html/utils.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 8b8cc5a..3b4ea59 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -387,9 +387,20 @@ fn resolve_local_file(
         )
     };
 
-    make_relative_link(src_out, target_out)
+    let mut uri_ref = make_relative_link(src_out, target_out)
         .map(URIReference::from)
-        .map_err(|source| LinkResolutionError::RelativeReference { source })
+        .map_err(|source| LinkResolutionError::RelativeReference { source })?;
+
+    // NOTE: What a fragment means depends on the kind of file, so unlike the
+    //       anchor of a page it is used as it is
+    uri_ref.map_fragment(|_| {
+        data.uri_ref
+            .fragment()
+            .cloned()
+            .map(Fragment::into_owned)
+    });
+
+    Ok(uri_ref)
 }
 
 /// Checks if a URI reference explicitly names a file rather than a page
-- 
2.43.0


From 7cf00a56c13c18fe313f8b6c38525cd9454d4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 45/63] fix: do not encode anchors of diary links twice

---
 .../lang/elements/blocks/inline/links/anchor.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 85c9384..bd52dab 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -12,7 +12,6 @@ const NOT_IN_FRAGMENT: &AsciiSet = &CONTROLS
     .add(b' ')
     .add(b'"')
     .add(b'#')
-    .add(b'%')
     .add(b'<')
     .add(b'>')
     .add(b'[')
@@ -77,21 +76,25 @@ impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
     /// if the anchor has any elements, otherwise yields an empty string
     ///
-    /// Characters that are not allowed within a fragment are percent-encoded
+    /// Characters that are not allowed within a fragment are percent-encoded,
+    /// which leaves those alone that are percent-encoded already
     pub fn to_encoded_uri_fragment(&self) -> String {
         if self.is_empty() {
             return String::new();
         }
 
-        let fragment = format!("#{}", self.0.join("%23"));
-        if Fragment::try_from(&fragment[1..]).is_ok() {
-            return fragment;
-        }
+        let encode =
+            |s: &str| utf8_percent_encode(s, NOT_IN_FRAGMENT).to_string();
 
         let pieces = self
             .0
             .iter()
-            .map(|s| utf8_percent_encode(s, NOT_IN_FRAGMENT).to_string())
+            .map(|s| {
+                // A percent sign that encodes nothing has to be encoded, too
+                Some(encode(s))
+                    .filter(|s| Fragment::try_from(s.as_str()).is_ok())
+                    .unwrap_or_else(|| encode(&s.replace('%', "%25")))
+            })
             .collect::<Vec<String>>();
         format!("#{}", pieces.join("%23"))
     }
-- 
2.43.0


From 974493f93de0c7159a36ce39735712f491c6bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 46/63] fix: tell links to the root apart from relative ones

---
 .../src/lang/elements/blocks/inline/links/data.rs  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index 02580dc..6adc13a 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -15,7 +15,7 @@ use uriparse::{Fragment, Scheme, URIReference, URIReferenceError};
 
 /// Represents data for a link to some content, described through a combination
 /// of a URI reference and some arbitrary description
-#[derive(Constructor, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Constructor, Clone, Debug, Eq, Serialize, Deserialize)]
 pub struct LinkData<'a> {
     pub uri_ref: URIReference<'a>,
     pub description: Option<Description<'a>>,
@@ -268,6 +268,18 @@ impl<'a> From<LinkData<'a>> for PathBuf {
     }
 }
 
+impl<'a> PartialEq for LinkData<'a> {
+    /// NOTE: The paths of `uriparse` are equal regardless of whether or not
+    ///       they start at the root, which links have to be told apart by
+    fn eq(&self, other: &Self) -> bool {
+        self.uri_ref == other.uri_ref
+            && self.uri_ref.path().is_absolute()
+                == other.uri_ref.path().is_absolute()
+            && self.description == other.description
+            && self.properties == other.properties
+    }
+}
+
 impl<'a> StrictEq for LinkData<'a> {
     /// Same as PartialEq
     #[inline]
-- 
2.43.0


From e842f9f87184a25550855f32c6f6f7f4bfbd5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 47/63] fix: keep percent signs of links that encode no text

[[50%fest]] was shown as 50\u{fffd}st and led to a page of that name, as any
percent sign followed by two hexadecimal digits was decoded to a byte, which
was then replaced if the bytes were not UTF-8.
---
 .../lang/elements/blocks/inline/links/data.rs | 38 ++++++++++++++++++-
 .../lang/elements/blocks/inline/links/mod.rs  |  5 +--
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index 6adc13a..495937d 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -98,9 +98,43 @@ impl<'a> LinkData<'a> {
             .join("#")
     }
 
-    /// Allocates a new string with percent-encoded characters decoded
+    /// Allocates a new string with percent-encoded characters decoded,
+    /// keeping those that do not represent valid UTF-8 as they are
     pub fn decode_uri<U: AsRef<[u8]>>(uri: U) -> String {
-        percent_decode(uri.as_ref()).decode_utf8_lossy().to_string()
+        let decoded: Vec<u8> = percent_decode(uri.as_ref()).collect();
+        if let Ok(decoded) = String::from_utf8(decoded) {
+            return decoded;
+        }
+
+        // NOTE: %fe and similar represent no text on their own, so we decode
+        //       each sequence of percent-encoded bytes as far as it is valid
+        let uri = String::from_utf8_lossy(uri.as_ref());
+        let is_encoded = |s: &str| {
+            s.starts_with('%')
+                && s.len() > 2
+                && s.as_bytes()[1..3].iter().all(u8::is_ascii_hexdigit)
+        };
+
+        let mut output = String::new();
+        let mut rest = uri.as_ref();
+        while let Some(c) = rest.chars().next() {
+            // One character is encoded as up to four bytes
+            let max = (0..4)
+                .take_while(|i| is_encoded(rest.get(i * 3..).unwrap_or("")))
+                .count();
+            let decoded = (1..=max).find_map(|n| {
+                let bytes: Vec<u8> =
+                    percent_decode(rest[..n * 3].as_bytes()).collect();
+                String::from_utf8(bytes).ok().map(|s| (n * 3, s))
+            });
+
+            let (len, piece) =
+                decoded.unwrap_or_else(|| (c.len_utf8(), c.to_string()));
+            output.push_str(&piece);
+            rest = &rest[len..];
+        }
+
+        output
     }
 
     /// Retrieves a property by name, returning it as a str slice
diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
index 315bcab..4c29997 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@@ -1,7 +1,6 @@
 use crate::{ElementLike, StrictEq};
 use chrono::NaiveDate;
 use derive_more::{Display, IsVariant};
-use percent_encoding::percent_decode;
 use serde::{Deserialize, Serialize};
 use std::{
     borrow::Cow,
@@ -286,9 +285,7 @@ impl<'a> Link<'a> {
             // If not a raw link, we want to make sure to clean up %20 and
             // other percent encoded pieces
             Some(Description::from(
-                percent_decode(self.data().uri_ref.to_string().as_bytes())
-                    .decode_utf8_lossy()
-                    .to_string(),
+                self.data().to_decoded_uri_string(),
             ))
         }
     }
-- 
2.43.0


From 4654e34b7e248db669ea9407f34c251439f7abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 48/63] fix: escape dollar signs of wiki paths when writing
 configurations

They were read back as variables, so that a path such as /a/$b, given as
/a/$$b, was rejected or led elsewhere.
---
 vimwiki-core/src/lang/output/html/config.rs |  6 +++++-
 vimwiki-core/src/lang/output/html/utils.rs  | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/config.rs b/vimwiki-core/src/lang/output/html/config.rs
index 2711ab7..307978a 100644
--- a/vimwiki-core/src/lang/output/html/config.rs
+++ b/vimwiki-core/src/lang/output/html/config.rs
@@ -1,4 +1,6 @@
-use super::utils::{deserialize_absolute_path, make_path_relative};
+use super::utils::{
+    deserialize_absolute_path, make_path_relative, serialize_absolute_path,
+};
 use derive_more::{AsMut, AsRef, Deref, DerefMut};
 use serde::{Deserialize, Serialize};
 use std::{
@@ -307,6 +309,7 @@ pub struct HtmlWikiConfig {
     /// Path to the wiki on the local machine (must be absolute path)
     #[serde(
         default = "HtmlWikiConfig::default_path",
+        serialize_with = "serialize_absolute_path",
         deserialize_with = "deserialize_absolute_path"
     )]
     pub path: PathBuf,
@@ -314,6 +317,7 @@ pub struct HtmlWikiConfig {
     /// Path to the html output of the wiki on the local machine (must be absolute path)
     #[serde(
         default = "HtmlWikiConfig::default_path_html",
+        serialize_with = "serialize_absolute_path",
         deserialize_with = "deserialize_absolute_path"
     )]
     pub path_html: PathBuf,
diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 3b4ea59..bb50c5b 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -4,7 +4,7 @@ use chrono::NaiveDate;
 use derive_more::{Display, Error};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use relative_path::RelativePathBuf;
-use serde::{de, Deserialize};
+use serde::{de, ser, Deserialize};
 use std::{
     borrow::Cow,
     convert::TryFrom,
@@ -73,6 +73,20 @@ where
     Ok(value)
 }
 
+/// For use with serde's serialize_with when serializing a path that will be
+/// deserialized using [`deserialize_absolute_path`]
+pub fn serialize_absolute_path<S>(path: &Path, s: S) -> Result<S::Ok, S::Error>
+where
+    S: ser::Serializer,
+{
+    let value = path.to_str().ok_or_else(|| {
+        ser::Error::custom("path contains invalid UTF-8 characters")
+    })?;
+
+    // Any dollar sign left in the path does not refer to a variable
+    s.serialize_str(&value.replace('$', "$$"))
+}
+
 /// Normalizes text as an id by replacing whitespace with dashes and then
 /// escaping common html
 pub fn normalize_id(id: &str) -> String {
-- 
2.43.0


From d48d169a858ad2af87408031fd63443dcd034188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 49/63] fix: reject invalid base urls in configurations instead
 of panicking

---
 vimwiki-core/src/lang/output/html/config.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/config.rs b/vimwiki-core/src/lang/output/html/config.rs
index 307978a..02b55be 100644
--- a/vimwiki-core/src/lang/output/html/config.rs
+++ b/vimwiki-core/src/lang/output/html/config.rs
@@ -551,7 +551,7 @@ pub struct HtmlLinkConfig {
 mod uri {
     use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
     use std::convert::TryFrom;
-    use uriparse::URI;
+    use uriparse::{URIReference, URI};
 
     pub fn serialize<S>(
         data: &URI<'_>,
@@ -570,12 +570,18 @@ mod uri {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        URI::try_from(s.as_str()).map(URI::into_owned).map_err(|x| {
-            de::Error::invalid_value(
-                de::Unexpected::Str(&s),
-                &x.to_string().as_str(),
-            )
-        })
+        let invalid_value = |x: &str| {
+            de::Error::invalid_value(de::Unexpected::Str(&s), &x)
+        };
+
+        // NOTE: Parsing directly as a URI panics for some text that is not
+        //       even a reference
+        URIReference::try_from(s.as_str())
+            .map_err(|x| invalid_value(&x.to_string()))
+            .and_then(|x| {
+                URI::try_from(x.into_owned())
+                    .map_err(|x| invalid_value(&x.to_string()))
+            })
     }
 }
 
-- 
2.43.0


From 155510f899ec68cbaae63cb849fa2466b193bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 50/63] Let monitors count the calls of parsers
 (vimwiki_monitor)

---
 vimwiki-core/src/monitor.rs    | 13 ++++++++++++-
 vimwiki-core/src/timekeeper.rs |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/monitor.rs b/vimwiki-core/src/monitor.rs
index c3b43ce..11eed03 100644
--- a/vimwiki-core/src/monitor.rs
+++ b/vimwiki-core/src/monitor.rs
@@ -1,7 +1,10 @@
 //! Observation points used by external runtime monitors. This module is only
 //! compiled with `--cfg vimwiki_monitor` and keeps its state per thread.
 
-use std::cell::{Cell, RefCell};
+use std::{
+    cell::{Cell, RefCell},
+    collections::HashMap,
+};
 
 /// What has been observed on the current thread since the last reset
 #[derive(Clone, Debug, Default)]
@@ -20,6 +23,9 @@ pub struct Observed {
 
     /// Description of the first span that goes outside of its input
     pub bad_span: Option<String>,
+
+    /// Calls of parsers by their context (only with the timekeeper feature)
+    pub contexts: HashMap<&'static str, u64>,
 }
 
 thread_local! {
@@ -56,6 +62,11 @@ pub(crate) fn on_span(start: usize, end: usize, len: usize) {
     });
 }
 
+#[cfg(feature = "timekeeper")]
+pub(crate) fn on_context(ctx: &'static str) {
+    OBSERVED.with(|o| *o.borrow_mut().contexts.entry(ctx).or_insert(0) += 1);
+}
+
 pub(crate) fn on_unchecked_str(bytes: &[u8]) {
     OBSERVED.with(|o| {
         let mut o = o.borrow_mut();
diff --git a/vimwiki-core/src/timekeeper.rs b/vimwiki-core/src/timekeeper.rs
index 329da88..ea259f2 100644
--- a/vimwiki-core/src/timekeeper.rs
+++ b/vimwiki-core/src/timekeeper.rs
@@ -96,6 +96,9 @@ pub mod parsers {
         mut f: impl FnMut(Span<'a>) -> IResult<T>,
     ) -> impl FnMut(Span<'a>) -> IResult<T> {
         move |input: Span| {
+            #[cfg(vimwiki_monitor)]
+            crate::monitor::on_context(ctx);
+
             let start = std::time::Instant::now();
 
             // NOTE: Following is the code found in nom's context parser, but due
-- 
2.43.0


From 79cb462b8fd748f5957e915a9efb7a773f6ad889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 51/63] fix: give macros the text that literals stand for

---
 vimwiki_macros/src/utils.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 9b75b44..a2b462b 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -1,5 +1,6 @@
 use crate::error::{Error, Result};
 use proc_macro2::{Span, TokenTree};
+use syn::Lit;
 
 /// Converts a token tree that is a string or byte string into a Rust string
 /// instance. Removes any blank lines (whitespace only) before and after
@@ -8,22 +9,18 @@ use proc_macro2::{Span, TokenTree};
 /// If `raw_mode` is specified, will leave lines unaltered, otherwise will
 /// find the minimum indentation level and remove that from all lines.
 pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
-    let repr = token.to_string();
-    let repr = repr.trim();
-    let is_string = repr.starts_with('"') || repr.starts_with('r');
-    let is_byte_string = repr.starts_with("b\"") || repr.starts_with("br");
+    let span = token.span();
+    let not_a_string =
+        || Error::new(span, "argument must be a single string literal");
 
-    if !is_string && !is_byte_string {
-        return Err(Error::new(
-            token.span(),
-            "argument must be a single string literal",
-        ));
-    }
-
-    // Get the raw string as it appears
-    let begin = repr.find('"').unwrap() + 1;
-    let end = repr.rfind('"').unwrap();
-    let s = repr[begin..end].to_string();
+    // Get the text that the literal stands for
+    let s = match syn::parse2::<Lit>(token.into()) {
+        Ok(Lit::Str(x)) => x.value(),
+        Ok(Lit::ByteStr(x)) => {
+            String::from_utf8(x.value()).map_err(|_| not_a_string())?
+        }
+        _ => return Err(not_a_string()),
+    };
 
     // Determine which lines in the macro are blank and what each line's
     // indentation level is, which will be used if not in raw mode
-- 
2.43.0


From 2c48b504e9fe07dc20096061a811964b0a997f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 52/63] fix: allow escaped braces in formats of macros

---
 vimwiki_macros/src/formatter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vimwiki_macros/src/formatter.rs b/vimwiki_macros/src/formatter.rs
index 6c07683..c6ce28c 100644
--- a/vimwiki_macros/src/formatter.rs
+++ b/vimwiki_macros/src/formatter.rs
@@ -33,7 +33,9 @@ impl Formatter {
     /// stream will yield an error instead
     pub fn quote_format_str(&self, input: &str) -> Result<TokenStream> {
         lazy_static::lazy_static! {
-            static ref FORMAT_RE: Regex = Regex::new(r"\{(?P<arg>[^:]*?)(?P<spec>:.*?)?\}").unwrap();
+            static ref FORMAT_RE: Regex = Regex::new(
+                r"\{\{|\}\}|\{(?P<arg>[^:]*?)(?P<spec>:.*?)?\}"
+            ).unwrap();
         }
 
         // First, we replace all {} and {:...} with an actual position while
@@ -41,7 +43,11 @@ impl Formatter {
         let mut positions = HashSet::new();
         let mut names = HashSet::new();
         let input = FORMAT_RE.replace_all(input, |caps: &Captures| {
-            let arg = caps["arg"].trim();
+            let arg = match caps.name("arg") {
+                Some(arg) => arg.as_str().trim(),
+                // Represents {{ or }}, which are braces and no argument
+                None => return caps[0].to_string(),
+            };
 
             // Represents {} or {:<SPEC>}
             if arg.is_empty() {
@@ -116,7 +122,11 @@ impl Formatter {
             .map(|(a, b)| (b, a))
             .collect::<HashMap<usize, usize>>();
         let input = FORMAT_RE.replace_all(&input, |caps: &Captures| {
-            let arg = caps["arg"].trim();
+            let arg = match caps.name("arg") {
+                Some(arg) => arg.as_str().trim(),
+                // Represents {{ or }}, which are braces and no argument
+                None => return caps[0].to_string(),
+            };
 
             // Transform 123 from {123} or {123:<SPEC>} into idx
             if let Ok(pos) = arg.parse::<usize>() {
-- 
2.43.0


From 2d89af774c4695ce9b88e5f97ea820119aec1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 53/63] fix: remove the indentation of macros by characters and
 despite blank lines

---
 vimwiki_macros/src/utils.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index a2b462b..c241751 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -28,7 +28,8 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
         .lines()
         .map(move |l| {
             let is_blank = l.trim().is_empty();
-            let indentation = l.len() - l.trim_start().len();
+            let indentation =
+                l.chars().take_while(|c| c.is_whitespace()).count();
             (is_blank, indentation, l)
         })
         .collect::<Vec<(bool, usize, &str)>>();
@@ -75,12 +76,20 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
                 .collect::<Vec<&str>>()
                 .join("\n")
         } else {
+            // Blank lines say nothing about the indentation
             let min_indentation = line_data
                 .iter()
-                .fold(usize::MAX, |acc, x| if x.1 < acc { x.1 } else { acc });
+                .filter(|x| !x.0)
+                .map(|x| x.1)
+                .min()
+                .unwrap_or_default();
             line_data
                 .iter()
-                .map(|x| &x.2[min_indentation..])
+                .map(|x| {
+                    let mut chars = x.2.chars();
+                    chars.by_ref().take(min_indentation).for_each(drop);
+                    chars.as_str()
+                })
                 .collect::<Vec<&str>>()
                 .join("\n")
         };
-- 
2.43.0


From 0763b10e23215bd3fe6fe207419692f3a23b5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 54/63] fix: number arguments of macros in tables in the order
 of their cells

---
 .../src/tokens/elements/blocks/tables.rs      | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vimwiki_macros/src/tokens/elements/blocks/tables.rs b/vimwiki_macros/src/tokens/elements/blocks/tables.rs
index 2938b4f..4ba4263 100644
--- a/vimwiki_macros/src/tokens/elements/blocks/tables.rs
+++ b/vimwiki_macros/src/tokens/elements/blocks/tables.rs
@@ -1,7 +1,4 @@
-use crate::tokens::{
-    utils::{root_crate, tokenize_hashmap},
-    Tokenize, TokenizeContext,
-};
+use crate::tokens::{utils::root_crate, Tokenize, TokenizeContext};
 use proc_macro2::TokenStream;
 use quote::quote;
 use vimwiki_core::{Cell, CellPos, CellSpan, ColumnAlign, Table};
@@ -10,17 +7,20 @@ impl_tokenize!(tokenize_table, Table<'a>, 'a);
 fn tokenize_table(ctx: &TokenizeContext, table: &Table) -> TokenStream {
     let root = root_crate();
     let centered = table.centered;
-    let cells = tokenize_hashmap(
-        table.as_data(),
-        quote!(#root::CellPos),
-        quote!(#root::Located<#root::Cell>),
-        |x| do_tokenize!(ctx, x),
-        |x| do_tokenize!(ctx, x),
-    );
+
+    // In the order of the text, as arguments without a position are numbered
+    // while tokenizing
+    let mut cells: Vec<_> = table.as_data().iter().collect();
+    cells.sort_unstable_by_key(|(pos, _)| (pos.row, pos.col));
+    let cells = cells.into_iter().map(|(pos, cell)| {
+        let pos = do_tokenize!(ctx, pos);
+        let cell = do_tokenize!(ctx, cell);
+        quote! { (#pos, #cell) }
+    });
 
     quote! {
         #root::Table::new(
-            #cells,
+            ::std::vec![#(#cells),*],
             #centered,
         )
     }
-- 
2.43.0


From 4618f836be3f9f1570b07dbf3d8612756af9c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 55/63] fix: keep the depth of regions in values built by
 macros

---
 vimwiki_macros/src/tokens/elements/location.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/tokens/elements/location.rs b/vimwiki_macros/src/tokens/elements/location.rs
index 4d5b57a..18bf07e 100644
--- a/vimwiki_macros/src/tokens/elements/location.rs
+++ b/vimwiki_macros/src/tokens/elements/location.rs
@@ -30,10 +30,12 @@ fn tokenize_region(_ctx: &TokenizeContext, region: &Region) -> TokenStream {
     let root = root_crate();
     let offset = region.offset();
     let len = region.len();
+    let depth = region.depth();
     quote! {
-        #root::Region::new(
+        #root::Region::new_at_depth(
             #offset,
             #len,
+            #depth,
         )
     }
 }
-- 
2.43.0


From 2b5eafb9fe634494e7cfb2d620fa250bf56f532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 56/63] fix: months of dates are counted from zero in
 JavaScript

---
 vimwiki-wasm/src/elements.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index 02070e7..04d675d 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -892,9 +892,10 @@ impl Placeholder {
         use chrono::Datelike;
         match self.0.as_inner() {
             v::Placeholder::Date(x) => {
+                // NOTE: Months start from zero in JavaScript
                 Some(js_sys::Date::new_with_year_month_day(
                     x.year() as u32,
-                    x.month() as i32,
+                    x.month0() as i32,
                     x.day() as i32,
                 ))
             }
@@ -1341,9 +1342,10 @@ impl Link {
     ) -> Link {
         Self(v::Located::new(
             v::Link::new_diary_link(
+                // NOTE: Months start from zero in JavaScript
                 chrono::NaiveDate::from_ymd(
                     date.get_utc_full_year() as i32,
-                    date.get_utc_month(),
+                    date.get_utc_month() + 1,
                     date.get_utc_date(),
                 ),
                 v::Description::try_from_uri_ref_str(description)
-- 
2.43.0


From 797e1861343cc6d47b86b497068c804ca9b69e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 57/63] fix: convert elements that are plain values to
 JavaScript

Text, inline code, inline math and tags are strings or arrays in
JavaScript, which have no place for a region beside their fields, so
to_js panicked for each of them.
---
 vimwiki-wasm/src/elements.rs | 37 +++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index 04d675d..69da27e 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -1728,25 +1728,40 @@ impl_from!(
     Placeholder -@Region
 );
 
-/// Provide conversion functions; use @ to not include html
+/// Provide conversion functions; use @ to not include html and # if the
+/// element is a plain value in JavaScript, which has no place for its region
 macro_rules! impl_convert {
     (@$name:ident $($tail:tt)*) => {
+        impl_convert!(js $name, |x| &x.0);
+        impl_convert!(debug $name);
+        impl_convert!($($tail)*);
+    };
+    (#$name:ident $($tail:tt)*) => {
+        impl_convert!(js $name, |x| x.0.as_inner());
+        impl_convert!(debug $name);
+        impl_convert!(html $name);
+        impl_convert!($($tail)*);
+    };
+    (js $name:ident, |$x:ident| $value:expr) => {
         #[wasm_bindgen]
         impl $name {
             /// Convert to a JavaScript value
             pub fn to_js(&self) -> JsValue {
-                JsValue::from_serde(&self.0).unwrap()
+                let $x = self;
+                JsValue::from_serde($value).unwrap()
             }
-
+        }
+    };
+    (debug $name:ident) => {
+        #[wasm_bindgen]
+        impl $name {
             /// Convert to a debug string
             pub fn to_debug_str(&self) -> String {
                 format!("{:?}", self.0)
             }
         }
-
-        impl_convert!($($tail)*);
     };
-    ($name:ident $($tail:tt)*) => {
+    (html $name:ident) => {
         #[wasm_bindgen]
         impl $name {
             /// Convert to an HTML string, optionally taking a config object
@@ -1764,8 +1779,12 @@ macro_rules! impl_convert {
                     .map_err(|x| x.to_string().into())
             }
         }
-
-        impl_convert!(@$name $($tail)*);
+    };
+    ($name:ident $($tail:tt)*) => {
+        impl_convert!(js $name, |x| &x.0);
+        impl_convert!(debug $name);
+        impl_convert!(html $name);
+        impl_convert!($($tail)*);
     };
     () => {};
 }
@@ -1773,7 +1792,7 @@ macro_rules! impl_convert {
 impl_convert!(
     Page Element BlockElement InlineBlockElement InlineElement Blockquote
     CodeBlock DefinitionList Divider Header List MathBlock Paragraph Table
-    DecoratedText Link Tags CodeInline MathInline Comment Text
+    DecoratedText Link #Tags #CodeInline #MathInline Comment #Text
     InlineElementContainer DecoratedTextContent ListItem
     Placeholder @Region
 );
-- 
2.43.0


From 04032dc99ebd082ec0ab73989ac89c67821d2668 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 58/63] fix: do not count skipped divider rows in the size hint
 of body rows

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index f54d775..227396c 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -720,7 +720,10 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.idx;
+            // NOTE: Divider rows are skipped, so they do not count
+            let remaining = (self.idx..self.table.row_cnt())
+                .filter(|row| !Row::new(self.table, *row, 0).is_divider_row())
+                .count();
             (remaining, Some(remaining))
         }
     }
-- 
2.43.0


From 70b788d6f04bdb2e8da014e61e078f77fb2d5938 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 59/63] fix: write roman numerals of any position in a list

---
 .../src/lang/elements/blocks/lists/item.rs    | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index 0119bd1..372a68a 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -428,14 +428,8 @@ impl OrderedListItemType {
             Self::Pound => String::from("#"),
             Self::LowercaseAlphabet => pos_to_alphabet(pos, true),
             Self::UppercaseAlphabet => pos_to_alphabet(pos, false),
-            // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::LowercaseRoman => {
-                format!("{:x}", Roman::from((pos + 1) as i16))
-            }
-            // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::UppercaseRoman => {
-                format!("{:X}", Roman::from((pos + 1) as i16))
-            }
+            Self::LowercaseRoman => pos_to_roman(pos, true),
+            Self::UppercaseRoman => pos_to_roman(pos, false),
         };
 
         if let Some(c) = suffix.as_char() {
@@ -481,6 +475,29 @@ fn pos_to_alphabet(pos: usize, to_lower: bool) -> String {
     s.chars().rev().collect()
 }
 
+/// Converts a position in a list (base 0) to a roman numeral where 0 == i,
+/// 1 == ii, and so on
+fn pos_to_roman(pos: usize, to_lower: bool) -> String {
+    // NOTE: Roman numerals start at 1, not 0, so use base 1
+    let number = pos + 1;
+
+    // Thousands are repeated as often as needed, so only what remains has to be
+    // in the range of numbers that are supported
+    let thousands = number / 1000;
+    let remaining = (number % 1000) as i16;
+
+    let mut s = "M".repeat(thousands);
+    if remaining > 0 {
+        s.push_str(&format!("{:X}", Roman::from(remaining)));
+    }
+
+    if to_lower {
+        s.to_ascii_lowercase()
+    } else {
+        s
+    }
+}
+
 impl StrictEq for OrderedListItemType {
     /// Same as PartialEq
     fn strict_eq(&self, other: &Self) -> bool {
-- 
2.43.0


From ad26a0c333d963b2f209245d82054b7d25e4d08d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 60/63] fix: write alphabetic markers that can be read back

---
 vimwiki-core/src/lang/elements/blocks/lists/item.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index 372a68a..0c5f599 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -449,8 +449,12 @@ impl Default for OrderedListItemType {
 /// Converts a position in a list (base 0) to an alphabetic representation
 /// where 0 == a, 25 == z, 26 == aa, and so on
 fn pos_to_alphabet(pos: usize, to_lower: bool) -> String {
+    // NOTE: Markers have no more than three letters as anything longer is read
+    //       as a word, so start over with a after zzz
+    const MAX_MARKERS: usize = 26 + 26 * 26 + 26 * 26 * 26;
+
     let mut s = String::new();
-    let mut i = pos as u32;
+    let mut i = (pos % MAX_MARKERS) as u32;
     let base = if to_lower { 97 } else { 65 };
 
     // Work our way backwards, starting with the last character and moving left
-- 
2.43.0


From b59d30931b14d5cb99c071a9ca1e9b6943236c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:50 +0000
Subject: [PATCH 61/63] fix: keep lists apart that follow each other within a
 list item

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 82ad156..6ea88cb 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -320,8 +320,19 @@ impl<'a> Output<VimwikiFormatter> for ListItem<'a> {
                 }
             }
 
-            // Write content at next indentation level
-            f.and_indent(|f| content.fmt(f))?;
+            // Write content at next indentation level, where a list that is
+            // followed by others needs to be further to the right than these
+            // as it would otherwise be read back as one list with them
+            let lists_after = self.contents[idx..]
+                .iter()
+                .take_while(|x| matches!(x.as_inner(), BlockElement::List(_)))
+                .count()
+                .saturating_sub(1);
+
+            f.indent_level += lists_after;
+            let result = f.and_indent(|f| content.fmt(f));
+            f.indent_level -= lists_after;
+            result?;
         }
 
         Ok(())
-- 
2.43.0


From 4be9a95fff716e50ad78a2fc9bae6f5ba07df8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:50 +0000
Subject: [PATCH 62/63] fix: do not write lines of a comment that cannot be
 read back

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 6ea88cb..fbb57fd 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -932,7 +932,14 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
             write!(f, " ")?;
         }
 
-        for (idx, line) in self.iter().enumerate() {
+        // NOTE: Lines at the end that are empty once trimmed would not be read
+        //       back as lines
+        let line_cnt = self
+            .iter()
+            .rposition(|line| !trim_content || !line.trim().is_empty())
+            .map_or(0, |idx| idx + 1);
+
+        for (idx, line) in self.iter().take(line_cnt).enumerate() {
             let content = if trim_content {
                 line.trim()
             } else {
@@ -940,7 +947,7 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
             };
 
             // Don't write newline on last line
-            if idx == self.len() - 1 {
+            if idx == line_cnt - 1 {
                 write!(f, "{}", content)?;
             } else {
                 writeln!(f, "{}", content)?;
-- 
2.43.0


From 427a829ec2e6d79db069b16b305f2525da3d80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 63/63] fix: do not take tabs for a part of the language of
 code blocks

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index e534b31..e565eff 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -4,7 +4,7 @@ use crate::lang::{
         utils::{
             any_line, beginning_of_line, capture, context,
             count_remaining_bytes, cow_str, end_of_line_or_input, locate,
-            take_line_until, take_line_until1,
+            take_line_until, take_line_until1, take_line_until_one_of_two1,
         },
         IResult, Span,
     },
@@ -83,7 +83,7 @@ fn code_block_start<'a>(
     //
     // e.g. {{{c++ -> Some("c++")
     let (input, maybe_lang) = opt(map_parser(
-        verify(take_line_until1(" "), |s: &Span| {
+        verify(take_line_until_one_of_two1(" ", "\t"), |s: &Span| {
             !s.as_remaining().contains(&b'=')
         }),
         cow_str,
-- 
2.43.0

