From e4eba373b3aa03f666a2d0380b4f69692f7b99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 01/47] fix: don't treat lines without a marker as section
 titles

An indented line inside a section underflowed the heading level.
---
 parser/src/blocks/section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..c59ec11 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,10 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From 90eb69bb50d3eb8f55fd38bf4fdb347c1020b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 02/47] fix: don't loop forever on literal block style with no
 content

---
 parser/src/blocks/block.rs | 50 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..780c36b 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,32 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
-- 
2.43.0


From 2e24b27c816b8f563d71eb501cd1e6322900fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 03/47] fix: don't loop forever on lines of non-ASCII or
 unusual white space

---
 parser/src/span/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/span/line.rs b/parser/src/span/line.rs
index 506a9a1..41e54db 100644
--- a/parser/src/span/line.rs
+++ b/parser/src/span/line.rs
@@ -57,7 +57,7 @@ impl<'src> Span<'src> {
     pub(crate) fn take_empty_line(self) -> Option<MatchedItem<'src, Self>> {
         let l = self.take_line();
 
-        if l.item.data().bytes().all(|b| b == b' ' || b == b'\t') {
+        if l.item.data().chars().all(char::is_whitespace) {
             Some(l)
         } else {
             None
-- 
2.43.0


From 511cd72e501aac2a99945e7dd02203ac7a6cfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:24 +0000
Subject: [PATCH 04/47] fix: inline image and icon macros require a target (one
 or more characters)

An empty target made the replacer panic; single-character targets were not recognized.
---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..db399d3 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:                         # Optional for single-character targets:
+                    [^\[\n]*?                 # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]                 # Last char: not whitespace, [, or newline
+                )?
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From a855e2d82fabe3a4512c7fe8f165c8bd3c24eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 05/47] fix: only match the <URL> form of an autolink after an
 opening angle bracket

A URL followed by '>' without a leading '<' made the replacer panic.
---
 parser/src/content/macros.rs | 65 ++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index db399d3..6666e67 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -212,15 +212,24 @@ static INLINE_LINK: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
     Regex::new(
         r#"(?msx)
-        ( ^ | link: | [\ \t] | \\?&lt;() | [>\(\)\[\];"'] )   # capture group 1: prefix
-                                                              # capture group 2: flag for prefix == "&lt;"
-        ( \\? (?: https? | file | ftp | irc ):// )            # capture group 3: scheme
         (?:
-            ( [^\s\[\]]+ )                                    # capture group 4: target
-            \[ ( | .*?[^\\] ) \]                              # capture group 5: attrlist
-          | ( [^\s]+? ) &gt;                                  # capture group 6: URL inside <>
-          | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )              # capture group 7: bare link,
-                                                              # capture group 8: trailing char
+            ( \\?&lt; )                                       # capture group 1: prefix "&lt;"
+            ( \\? (?: https? | file | ftp | irc ):// )        # capture group 2: scheme
+            (?:
+                ( [^\s\[\]]+ )                                # capture group 3: target
+                \[ ( | .*?[^\\] ) \]                          # capture group 4: attrlist
+              | ( [^\s]+? ) &gt;                              # capture group 5: URL inside <>
+              | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )          # capture group 6: bare link,
+                                                              # capture group 7: trailing char
+            )
+          | ( ^ | link: | [\ \t] | [>\(\)\[\];"'] )           # capture group 8: any other prefix
+            ( \\? (?: https? | file | ftp | irc ):// )        # capture group 9: scheme
+            (?:
+                ( [^\s\[\]]+ )                                # capture group 10: target
+                \[ ( | .*?[^\\] ) \]                          # capture group 11: attrlist
+              | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )          # capture group 12: bare link,
+                                                              # capture group 13: trailing char
+            )
         )
     "#,
     )
@@ -236,27 +245,38 @@ impl Replacer for InlineLinkReplacer<'_> {
             .item
             .item;
 
-        if caps.get(2).is_some() && caps.get(5).is_none() {
+        // The same element can be in either of two capture groups, depending on
+        // whether the prefix is `&lt;` or not.
+        let either = |a: usize, b: usize| {
+            caps.get(a)
+                .or_else(|| caps.get(b))
+                .map_or("", |m| m.as_str())
+        };
+
+        let prefix = either(1, 8);
+        let scheme = either(2, 9);
+        let formal_attrlist = caps.get(4).or_else(|| caps.get(11));
+
+        if caps.get(1).is_some() && formal_attrlist.is_none() {
             // Honor the escapes.
-            if caps[1].starts_with('\\') {
+            if prefix.starts_with('\\') {
                 dest.push_str(&caps[0][1..]);
                 return;
             }
 
-            if caps[3].starts_with('\\') {
-                dest.push_str(&caps[1]);
-                dest.push_str(&caps[0][caps[1].len() + 1..]);
+            if scheme.starts_with('\\') {
+                dest.push_str(prefix);
+                dest.push_str(&caps[0][prefix.len() + 1..]);
                 return;
             }
 
-            let Some(link_suffix) = caps.get(6) else {
+            let Some(link_suffix) = caps.get(5) else {
                 dest.push_str(&caps[0]);
                 return;
             };
 
             let target = format!(
                 "{scheme}{link_suffix}",
-                scheme = &caps[3],
                 link_suffix = link_suffix.as_str()
             );
 
@@ -284,8 +304,7 @@ impl Replacer for InlineLinkReplacer<'_> {
             return;
         }
 
-        let mut prefix = caps[1].to_string();
-        let scheme = &caps[3];
+        let mut prefix = prefix.to_string();
 
         // Honor the escape.
         if scheme.starts_with('\\') {
@@ -296,14 +315,18 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = if formal_attrlist.is_some() {
+                either(3, 10)
+            } else {
+                either(6, 12)
+            }
         );
 
         let mut suffix = "".to_owned();
         let mut link_text: Option<String> = None;
 
-        // NOTE: If capture group 5 exists (the attrlist), we're looking at a formal macro (e.g., https://example.org[]).
-        if let Some(attrlist) = caps.get(5) {
+        // NOTE: If the attrlist capture group exists, we're looking at a formal macro (e.g., https://example.org[]).
+        if let Some(attrlist) = formal_attrlist {
             if prefix == "link:" {
                 prefix = "".to_owned();
             }
@@ -324,7 +347,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
+            let tail = either(7, 13);
             if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
-- 
2.43.0


From d438caa63d38c0155ef614d3221910a09e7a9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:23 +0000
Subject: [PATCH 06/47] fix: link and mailto macros with an empty or
 single-character target made the replacer panic

---
 parser/src/content/macros.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 6666e67..a26a797 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -442,16 +442,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # Capture group 2: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -472,21 +469,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 679247373f9f70516c81bc8b43be11ab168b565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 07/47] fix: leave link: macros without brackets alone, as the
 comment says

---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index a26a797..ede6b2f 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -335,7 +335,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 link_text = Some(attrlist.as_str().to_owned());
             }
         } else {
-            if prefix == "link" || prefix == "\"" || prefix == "'" {
+            if prefix == "link:" || prefix == "\"" || prefix == "'" {
                 // Note from the Ruby implementation which also applies to this if clause:
 
                 // Invalid macro syntax (link: prefix w/o trailing square brackets or URL
-- 
2.43.0


From ac8234852fc4952e00819eb227e96a74752c5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:50 +0000
Subject: [PATCH 08/47] fix: keep text intact when retrying a rejected
 monospace match

After a retry the offset of the previous match referred to the old haystack,
and a multi-byte character before the backtick was cut in half.
---
 parser/src/content/substitution_step.rs | 6 +++++-
 parser/src/internal/regex.rs            | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..51cb98c 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let mut skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            while !caps[0].is_char_boundary(skip_ahead) {
+                skip_ahead += 1;
+            }
+
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From 77d6bac00459f35196819c4b05ccf75dcf4b2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 09/47] fix: render SVG images with the inline or interactive
 option instead of panicking

---
 .../parser/inline_substitution_renderer.rs    | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..96e48d3 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -520,21 +520,23 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
         let img = if format == Some("svg") || params.target.contains(".svg") {
             // NOTE: In the SVG case we may have to ignore the attrs list.
             if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
+                // TO DO: Embed the SVG contents. Until this crate can read the file, behave
+                // as if it couldn't be read.
+                alt_text_fallback(&params.alt)
             } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
+                let fallback = if let Some(fallback) = params.attrlist.named_attribute("fallback") {
+                    format!(
+                        r#"<img src="{fallback_src}" {attrs}>"#,
+                        fallback_src = self.image_uri(fallback.value(), params.parser, None),
+                        attrs = attrs[1..].join(" "),
+                    )
+                } else {
+                    alt_text_fallback(&params.alt)
+                };
+
+                // The `src` and `alt` attributes don't apply to `object`.
+                let attrs: String = attrs[2..].iter().map(|a| format!(" {a}")).collect();
+                format!(r#"<object type="image/svg+xml" data="{src}"{attrs}>{fallback}</object>"#)
             } else {
                 format!(
                     r#"<img {attrs}{void_element_slash}>"#,
@@ -723,6 +725,10 @@ fn wrap_body_in_html_tag(
     dest.push('>');
 }
 
+fn alt_text_fallback(alt: &str) -> String {
+    format!(r#"<span class="alt">{alt}</span>"#)
+}
+
 fn render_icon_or_image(
     attrlist: &Attrlist,
     img: &str,
-- 
2.43.0


From 8e4df39c03babe0b05379fc25fdb639191ba5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 10/47] fix: a passthrough can't contain itself

Text that looks like the internal placeholder of the enclosing passthrough
recursed until the stack overflowed.
---
 parser/src/content/passthroughs.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..244985f 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -67,7 +67,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, usize::MAX);
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,12 +431,24 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(
+    &'p Passthroughs,
+    &'p Parser,
+    /// Only passthroughs with a smaller index are restored. A passthrough's text
+    /// can contain only those that were extracted before it; anything else that
+    /// looks like a reference is part of the text (and could refer to itself).
+    usize,
+);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
+        if index >= self.2 {
+            dest.push_str(&caps[0]);
+            return;
+        }
+
         let Some(pass) = self.0.0.get(index) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
@@ -475,7 +487,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, index);
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 1874c7298c4e0bb11644c533a67d0dfc52d62588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:17 +0000
Subject: [PATCH 11/47] fix: map an unresolved include directive to the file it
 appears in

---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..060e38d 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -142,6 +142,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From 3c7009881e3bfd7d64ee88be9fa754fc2425f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 12/47] fix: limit the include depth

A file that includes itself overflowed the stack.
---
 parser/src/parser/preprocessor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 060e38d..ba9a2a5 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Includes that are nested more deeply than this are not resolved. (This is
+/// the default for `max-include-depth` in Asciidoctor.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -130,11 +134,16 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
+                // A file that (directly or indirectly) includes itself would be read forever.
+                let include_text = if self.include_depth > MAX_INCLUDE_DEPTH {
+                    None
+                } else {
                     self.parser.include_file_handler.as_ref().and_then(|ifh| {
                         ifh.resolve_target(file_name, &target, &attrlist, self.parser)
                     })
-                {
+                };
+
+                if let Some(include_text) = include_text {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
                     self.process_adoc_include(&include_text, Some(&target));
-- 
2.43.0


From 7f9244dc7e20f7203199f6ee32e747f6747411d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 13/47] fix: an attribute stays locked after it was changed
 where that is allowed

Setting an ApiOrHeader attribute in the header made it modifiable in the body.
---
 parser/src/parser/parser.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..29a1f82 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -386,6 +386,12 @@ impl Parser {
             return;
         }
 
+        // A change made by the document doesn't alter where the attribute can be
+        // changed.
+        let modification_context = existing_attr.map_or(ModificationContext::Anywhere, |av| {
+            av.modification_context.clone()
+        });
+
         let mut value = attr.value().clone();
 
         if let InterpretedValue::Set = value
@@ -396,7 +402,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value,
         };
 
@@ -434,8 +440,10 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(attr.name().data());
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -446,9 +454,15 @@ impl Parser {
             return;
         }
 
+        // A change made by the document doesn't alter where the attribute can be
+        // changed.
+        let modification_context = existing_attr.map_or(ModificationContext::Anywhere, |av| {
+            av.modification_context.clone()
+        });
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From 9e2b2f920ba7f6804ec76c37d3b107a8908105bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 14/47] fix: values derived from the header don't override
 attributes locked by the API

---
 parser/src/parser/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 29a1f82..da67ac8 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -420,9 +420,23 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        let modification_context = match self.attribute_values.get(&attr_name) {
+            // A value that the header isn't allowed to change takes precedence.
+            Some(existing_attr)
+                if existing_attr.modification_context == ModificationContext::ApiOnly
+                    || existing_attr.modification_context
+                        == ModificationContext::ApiOrDocumentBody =>
+            {
+                return;
+            }
+
+            Some(existing_attr) => existing_attr.modification_context.clone(),
+            None => ModificationContext::Anywhere,
+        };
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
-- 
2.43.0


From 6a4ce1ffac356d034716681d84340726f7d1bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 15/47] fix: reset appendix numbering for each new document

---
 parser/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index da67ac8..ebdc352 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,11 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number = SectionNumber {
+            section_type: SectionType::Appendix,
+            components: vec![],
+        };
+        self.topmost_section_type = SectionType::Normal;
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 2e4eae691726ed53e8eac1118e73338dbbe11e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 16/47] fix: recognize audio block macros

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 780c36b..bd7137d 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From faa3f30e54085b30ac0aa81be1565dedd8d6e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 17/47] fix: attribute references are not case-sensitive

---
 parser/src/content/substitution_step.rs | 7 ++++---
 parser/src/parser/preprocessor.rs       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 51cb98c..588678f 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -459,10 +459,11 @@ struct AttributeReplacer<'p>(&'p Parser);
 
 impl Replacer for AttributeReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        let attr_name = &caps[1];
+        // Attribute names are stored in lowercase.
+        let attr_name = caps[1].to_lowercase();
 
         // TO DO: Handle alternative responses ('skip', etc.) for missing attributes.
-        if !self.0.has_attribute(attr_name) {
+        if !self.0.has_attribute(&attr_name) {
             dest.push_str(&caps[0]);
             return;
         }
@@ -472,7 +473,7 @@ impl Replacer for AttributeReplacer<'_> {
             return;
         }
 
-        if let InterpretedValue::Value(value) = self.0.attribute_value(attr_name) {
+        if let InterpretedValue::Value(value) = self.0.attribute_value(&attr_name) {
             dest.push_str(value.as_ref());
         }
         // Language description is unclear as to what happens for "set" and
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index ba9a2a5..b31f3bc 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -204,9 +204,10 @@ impl<'p> PreprocessorState<'p> {
 
         impl Replacer for AttributeReplacer<'_> {
             fn replace_append(&mut self, caps: &regex::Captures<'_>, dest: &mut String) {
-                let attr_name = &caps[1];
+                // Attribute names are stored in lowercase.
+                let attr_name = caps[1].to_lowercase();
 
-                if !self.0.has_attribute(attr_name) {
+                if !self.0.has_attribute(&attr_name) {
                     dest.push_str(&caps[0]);
                     return;
                 }
@@ -216,7 +217,7 @@ impl<'p> PreprocessorState<'p> {
                     return;
                 }
 
-                if let InterpretedValue::Value(value) = self.0.attribute_value(attr_name) {
+                if let InterpretedValue::Value(value) = self.0.attribute_value(&attr_name) {
                     dest.push_str(value.as_ref());
                 }
             }
-- 
2.43.0


From a278ea0b982dbd1f5f317987624070a2ae594927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 18/47] fix: keep the reference text of a media block's anchor

---
 parser/src/blocks/media.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From ca6c63050b460567c8a3f4055837a259fc0d3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 19/47] fix: don't loop forever on a block anchor with no
 content

---
 parser/src/blocks/block.rs    | 1 +
 parser/src/blocks/metadata.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index bd7137d..927b019 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -308,6 +308,7 @@ impl<'src> Block<'src> {
             metadata.title_source = None;
             metadata.title = None;
             metadata.anchor = None;
+            metadata.anchor_reftext = None;
             metadata.attrlist = None;
             metadata.block_start = metadata.source;
         }
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..6a9d6b2 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
-- 
2.43.0


From e7841f26ed0935b9eb06e689b2467daf475f89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:03 +0000
Subject: [PATCH 20/47] fix: em dash without spaces must be followed by a word
 character or line end

\b{start-half} only looks behind, so it was always satisfied and `a--,` or
`a---b` were replaced as well.
---
 parser/src/content/substitution_step.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 588678f..1fbf17b 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -570,7 +570,8 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Em dash without spaces `--`
             type_: CharacterReplacementType::EmDashWithoutSpace,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"(\w)\\?--\b{start-half}"#).unwrap(),
+            // NB: `(?:\b{start}|$)` requires a word character or a line end to follow.
+            pattern: Regex::new(r#"(?m)(\w)\\?--(?:\b{start}|$)"#).unwrap(),
         },
         CharacterReplacement {
             // Ellipsis `...`
-- 
2.43.0


From 94f2253016489285d6d09747840a51f25149aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 21/47] fix: a line of tabs is blank and ends a paragraph

---
 parser/src/span/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/span/line.rs b/parser/src/span/line.rs
index 41e54db..bb342c2 100644
--- a/parser/src/span/line.rs
+++ b/parser/src/span/line.rs
@@ -45,7 +45,7 @@ impl<'src> Span<'src> {
                     .trim_item_end_matches('\r')
                     .trim_item_trailing_spaces()
             })
-            .filter(|line| !line.item.is_empty())
+            .filter(|line| !line.item.chars().all(char::is_whitespace))
     }
 
     /// Split the span, assuming the span begins with an empty line.
-- 
2.43.0


From c18531f4842cf1e83411583a298866f755d849fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 22/47] fix: recognize attribute entries after a delimited
 block and a blank line

---
 parser/src/blocks/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..5f825f6 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,7 +32,7 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         }
     }
-- 
2.43.0


From 0e690b289367f1c72a730477842d41c3b0be0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 23/47] fix: a leading comment line doesn't hide the delimited
 block or attribute list after it

---
 parser/src/blocks/simple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index 40bf845..12087ed 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -172,7 +172,7 @@ fn parse_lines<'src>(
         // "shouldn't" be encountered on the first line (we shouldn't be calling
         // `SimpleBlock::parse` in these conditions), but in case it is, we simply
         // ignore them on the first line.
-        if !filtered_lines.is_empty() {
+        if next != source {
             if line.data() == "+" {
                 break;
             }
-- 
2.43.0


From 16fefec0e05acef01a86373785ee99ec9726a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:16 +0000
Subject: [PATCH 24/47] fix: apply substitutions to the content of an
 unterminated delimited block

---
 parser/src/blocks/raw_delimited.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..aaf5250 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,14 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 1904079f18ae32174a938508eeecfbcb2d0cb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 25/47] fix: substitute a section's title before reading its
 content

---
 parser/src/blocks/section.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index c59ec11..3bd88b3 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,10 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // The title uses the attribute values that are in effect at the title.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,9 +96,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
         let manual_id = metadata
-- 
2.43.0


From 6a74a5cd3b1f67efb24aad1e1310281b1b68d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 26/47] fix: derive a section's ID from the attributes in
 effect at its title

---
 parser/src/blocks/section.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 3bd88b3..d38333f 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,10 +81,12 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
-        // The title uses the attribute values that are in effect at the title.
+        // The title and the base ID use the attribute values that are in effect at the title.
         let mut section_title = Content::from(level_and_title.item.1);
         SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
 
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -96,8 +98,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         let manual_id = metadata
             .attrlist
             .as_ref()
-- 
2.43.0


From d928d351236c66edc85168305ac5d8f7693f908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 27/47] fix: register a section under the ID it reports

---
 parser/src/blocks/section.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index d38333f..5c75d33 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -99,10 +99,10 @@ impl<'src> SectionBlock<'src> {
         let source = metadata.source.trim_remainder(blocks.after);
 
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From d42b926d00428330546a8d81d1095f2283a5299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 28/47] fix: register the ID of a thematic or page break

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 927b019..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
-- 
2.43.0


From 0ef74842c788b3263f28856ba1b6a31c94812d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 29/47] fix: only a plus sign of its own forces a line break in
 an attribute value

---
 parser/src/document/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..0c5a8d6 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -194,7 +194,7 @@ impl InterpretedValue {
                         .trim_end_matches('\\')
                         .trim_end_matches(' ');
 
-                    if line.ends_with('+') {
+                    if line == "+" || line.ends_with(" +") {
                         format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
                     } else if count < last_count {
                         format!("{line} ")
-- 
2.43.0


From 973ddbf002b56715d8fc86c58b2477ea183e0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 30/47] fix: drop a line continuation with nothing after it
 from an attribute value

---
 parser/src/document/attribute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 0c5a8d6..ba4feaf 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -205,6 +205,10 @@ impl InterpretedValue {
                 .collect();
 
             content.rendered = CowStr::Boxed(value.join("").into_boxed_str());
+        } else if data.ends_with('\\') {
+            // The line continuation isn't followed by another line.
+            let value = data.trim_end_matches('\\').trim_end_matches(' ');
+            content.rendered = CowStr::from(value.to_string());
         }
 
         SubstitutionGroup::Header.apply(&mut content, parser, None);
-- 
2.43.0


From 6b82a14618ae037578d316c3b5fc492a3f25f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 31/47] fix: a discrete style given by an attribute reference
 doesn't end the section

---
 parser/src/blocks/compound_delimited.rs |  2 +-
 parser/src/blocks/parse_utils.rs        |  4 ++--
 parser/src/blocks/section.rs            | 14 ++++++++------
 parser/src/document/document.rs         |  2 +-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/src/blocks/compound_delimited.rs b/parser/src/blocks/compound_delimited.rs
index ccd2da0..373114c 100644
--- a/parser/src/blocks/compound_delimited.rs
+++ b/parser/src/blocks/compound_delimited.rs
@@ -101,7 +101,7 @@ impl<'src> CompoundDelimitedBlock<'src> {
 
         let inside_delimiters = delimiter.after.trim_remainder(closing_delimiter);
 
-        let maw_blocks = parse_blocks_until(inside_delimiters, |_| false, parser);
+        let maw_blocks = parse_blocks_until(inside_delimiters, |_, _| false, parser);
 
         let blocks = maw_blocks.item;
         let source = metadata
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 5f825f6..0692137 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -13,7 +13,7 @@ pub(crate) fn parse_blocks_until<'src, F>(
     parser: &mut Parser,
 ) -> MatchAndWarnings<'src, MatchedItem<'src, Vec<Block<'src>>>>
 where
-    F: FnMut(&Span<'src>) -> bool,
+    F: FnMut(&Span<'src>, &mut Parser) -> bool,
 {
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
@@ -21,7 +21,7 @@ where
     source = source.discard_empty_lines();
 
     while !source.data().is_empty() {
-        if f(&source) {
+        if f(&source, parser) {
             break;
         }
 
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 5c75d33..bca4e31 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -91,7 +91,10 @@ impl<'src> SectionBlock<'src> {
 
         let mut maw_blocks = parse_blocks_until(
             level_and_title.after,
-            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
+            |i, parser| {
+                discrete
+                    || peer_or_ancestor_section(*i, level, &mut most_recent_level, parser, warnings)
+            },
             parser,
         );
 
@@ -327,14 +330,13 @@ fn peer_or_ancestor_section<'src>(
     source: Span<'src>,
     level: usize,
     most_recent_level: &mut usize,
+    parser: &mut Parser,
     warnings: &mut Vec<Warning<'src>>,
 ) -> bool {
     // Skip over any block metadata (title, anchor, attrlist) to find the actual
-    // section line. We create a temporary parser to avoid modifying the real
-    // parser state.
-    let mut temp_parser = Parser::default();
-
-    let block_metadata_maw = BlockMetadata::parse(source, &mut temp_parser);
+    // section line. The attribute list may refer to document attributes, so this
+    // needs the real parser; parsing block metadata doesn't modify its state.
+    let block_metadata_maw = BlockMetadata::parse(source, parser);
 
     let block_metadata = block_metadata_maw.item;
     if block_metadata.is_discrete() {
diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 0469b39..49e6c22 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -74,7 +74,7 @@ impl<'src> Document<'src> {
             let header = mi.item.item;
             let mut warnings = mi.warnings;
 
-            let mut maw_blocks = parse_blocks_until(after_header, |_| false, parser);
+            let mut maw_blocks = parse_blocks_until(after_header, |_, _| false, parser);
 
             if !maw_blocks.warnings.is_empty() {
                 warnings.append(&mut maw_blocks.warnings);
-- 
2.43.0


From df97b78e1fec3cfb7963647ace0cce998b368862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 32/47] fix: a line of tabs is blank and ends the document
 header

---
 parser/src/document/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/header.rs b/parser/src/document/header.rs
index 74157cd..7c01e4a 100644
--- a/parser/src/document/header.rs
+++ b/parser/src/document/header.rs
@@ -44,7 +44,7 @@ impl<'src> Header<'src> {
             let line = line_mi.item;
 
             // A blank line after the title ends the header.
-            if line.is_empty() {
+            if line.data().trim().is_empty() {
                 if title.is_some() {
                     break;
                 }
-- 
2.43.0


From b15ac178d9ab294bb48a437d32a12edb3a18497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 33/47] fix: resolve include targets with attributes the header
 may change

---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index b31f3bc..4275f12 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -102,8 +102,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 self.output.push_str(attr.item.span().data());
                 self.output.push('\n');
-- 
2.43.0


From 2358ee4dd6aecaf70f6fd75ca78805f4eaf5bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:00 +0000
Subject: [PATCH 34/47] fix: drop trailing tabs of a line like trailing spaces

---
 parser/src/document/attribute.rs | 12 +++++++-----
 parser/src/span/matched_item.rs  |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index ba4feaf..d024d0b 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -171,6 +171,8 @@ impl std::fmt::Debug for InterpretedValue {
 
 impl InterpretedValue {
     fn from_raw_value(raw_value: &Span<'_>, parser: &Parser) -> Self {
+        const BLANK: [char; 2] = [' ', '\t'];
+
         let data = raw_value.data();
         let mut content = Content::from(*raw_value);
 
@@ -183,19 +185,19 @@ impl InterpretedValue {
                 .enumerate()
                 .map(|(count, line)| {
                     let line = if count > 0 {
-                        line.trim_start_matches(' ')
+                        line.trim_start_matches(BLANK)
                     } else {
                         line
                     };
 
                     let line = line
                         .trim_start_matches('\r')
-                        .trim_end_matches(' ')
+                        .trim_end_matches(BLANK)
                         .trim_end_matches('\\')
-                        .trim_end_matches(' ');
+                        .trim_end_matches(BLANK);
 
                     if line == "+" || line.ends_with(" +") {
-                        format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
+                        format!("{}\n", line.trim_end_matches('+').trim_end_matches(BLANK))
                     } else if count < last_count {
                         format!("{line} ")
                     } else {
@@ -207,7 +209,7 @@ impl InterpretedValue {
             content.rendered = CowStr::Boxed(value.join("").into_boxed_str());
         } else if data.ends_with('\\') {
             // The line continuation isn't followed by another line.
-            let value = data.trim_end_matches('\\').trim_end_matches(' ');
+            let value = data.trim_end_matches('\\').trim_end_matches(BLANK);
             content.rendered = CowStr::from(value.to_string());
         }
 
diff --git a/parser/src/span/matched_item.rs b/parser/src/span/matched_item.rs
index 929828a..f5123d8 100644
--- a/parser/src/span/matched_item.rs
+++ b/parser/src/span/matched_item.rs
@@ -41,9 +41,9 @@ impl<'src> MatchedItem<'src, Span<'src>> {
         }
     }
 
-    /// Discard any trailing spaces from `self.item`.
+    /// Discard any trailing spaces and tabs from `self.item`.
     pub(crate) fn trim_item_trailing_spaces(&self) -> Self {
-        let source = self.item.trim_end_matches(' ');
+        let source = self.item.trim_end_matches([' ', '\t']);
         let source = self.item.slice(0..source.len());
         Self {
             item: source,
-- 
2.43.0


From 8a5ef87dc185a8b78629016cdf2452aa4fd32a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 35/47] fix: report a malformed section title once

---
 parser/src/blocks/section.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bca4e31..7653d17 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -345,7 +345,9 @@ fn peer_or_ancestor_section<'src>(
 
     let source_after_metadata = block_metadata.block_start;
 
-    if let Some(mi) = parse_title_line(source_after_metadata, warnings) {
+    // If this is a malformed title line, a warning is issued when the line itself is
+    // parsed.
+    if let Some(mi) = parse_title_line(source_after_metadata, &mut vec![]) {
         let found_level = mi.item.0;
 
         if found_level > *most_recent_level + 1 {
-- 
2.43.0


From 8d405444b2ad469dbef8ed2cd0474583e69aed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:45 +0000
Subject: [PATCH 36/47] fix: catalog the reference text of a block anchor

---
 parser/src/blocks/block.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57858b5..470ea6a 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -120,6 +120,7 @@ impl<'src> Block<'src> {
 
             Self::register_block_id(
                 block.id(),
+                block.anchor_reftext(),
                 block.title(),
                 block.span(),
                 parser,
@@ -171,6 +172,7 @@ impl<'src> Block<'src> {
 
                 Self::register_block_id(
                     block.id(),
+                    block.anchor_reftext(),
                     block.title(),
                     block.span(),
                     parser,
@@ -197,6 +199,7 @@ impl<'src> Block<'src> {
 
                 Self::register_block_id(
                     block.id(),
+                    block.anchor_reftext(),
                     block.title(),
                     block.span(),
                     parser,
@@ -233,6 +236,7 @@ impl<'src> Block<'src> {
 
                     Self::register_block_id(
                         block.id(),
+                        block.anchor_reftext(),
                         block.title(),
                         block.span(),
                         parser,
@@ -280,6 +284,7 @@ impl<'src> Block<'src> {
 
                 Self::register_block_id(
                     block.id(),
+                    block.anchor_reftext(),
                     block.title(),
                     block.span(),
                     parser,
@@ -335,6 +340,7 @@ impl<'src> Block<'src> {
         if let Some(ref matched_item) = result.item {
             Self::register_block_id(
                 matched_item.item.id(),
+                matched_item.item.anchor_reftext(),
                 matched_item.item.title(),
                 matched_item.item.span(),
                 parser,
@@ -351,6 +357,7 @@ impl<'src> Block<'src> {
     /// which handles its own catalog registration.
     fn register_block_id(
         id: Option<&str>,
+        anchor_reftext: Option<Span<'_>>,
         title: Option<&str>,
         span: Span<'src>,
         parser: &mut Parser,
@@ -360,7 +367,8 @@ impl<'src> Block<'src> {
             && let Some(catalog) = parser.catalog_mut()
             && let Err(_duplicate_error) = catalog.register_ref(
                 id,
-                title, // Use block title as reftext if available
+                // Use the block title as reftext unless the anchor provides one.
+                anchor_reftext.map(|reftext| reftext.data()).or(title),
                 RefType::Anchor,
             )
         {
-- 
2.43.0


From 75844c7445020b262533b0a1046a3ce4e13ef29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:50 +0000
Subject: [PATCH 37/47] fix: keep the reference text of an anchor on a break

---
 parser/src/blocks/break.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
-- 
2.43.0


From c0183f16720532b08adddffbf832284a5fee914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:54 +0000
Subject: [PATCH 38/47] fix: accept the hardbreaks alias for an intrinsic
 attribute

---
 parser/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index ebdc352..3b185e9 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -223,7 +223,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
@@ -318,7 +318,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
-- 
2.43.0


From eadbfe388ead1360d9c0a6aa479f85835ba19ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:58 +0000
Subject: [PATCH 39/47] fix: recognize an include directive with a
 one-character attribute list

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 4275f12..367713c 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -260,7 +260,7 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
-- 
2.43.0


From 14396a073cb873d306f80be3216cf85b8996bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:22 +0000
Subject: [PATCH 40/47] fix: require a blank between an attribute entry's name
 and value

---
 parser/src/document/attribute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index d024d0b..8a47d2b 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -60,6 +60,11 @@ impl<'src> Attribute<'src> {
 
         let line = line.take_prefix(":")?;
 
+        // A value must be separated from the name.
+        if !line.after.is_empty() && !line.after.starts_with([' ', '\t']) {
+            return None;
+        }
+
         let (value, value_source) = if unset {
             // Ensure line is now empty except for comment.
             (InterpretedValue::Unset, None)
-- 
2.43.0


From 628e8ab6ffa13ace2ecebf9b119625bf2d00b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 41/47] fix: don't end a section at a literal paragraph that
 looks like a title

---
 parser/src/blocks/block.rs    | 5 +----
 parser/src/blocks/metadata.rs | 7 +++++++
 parser/src/blocks/section.rs  | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 470ea6a..4e74060 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -157,10 +157,7 @@ impl<'src> Block<'src> {
             mut warnings,
         } = BlockMetadata::parse(source, parser);
 
-        let is_literal =
-            metadata.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal");
-
-        if !is_literal {
+        if !metadata.is_literal() {
             if let Some(mut rdb_maw) = RawDelimitedBlock::parse(&metadata, parser)
                 && let Some(rdb) = rdb_maw.item
             {
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index 6a9d6b2..24d7837 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -190,6 +190,13 @@ impl<'src> BlockMetadata<'src> {
             false
         }
     }
+
+    /// Return `true` if this block metadata has the `literal` block style.
+    ///
+    /// Text with this style is never anything but a paragraph.
+    pub(crate) fn is_literal(&self) -> bool {
+        self.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal")
+    }
 }
 
 fn parse_maybe_block_anchor(
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 7653d17..c4d6666 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -339,7 +339,7 @@ fn peer_or_ancestor_section<'src>(
     let block_metadata_maw = BlockMetadata::parse(source, parser);
 
     let block_metadata = block_metadata_maw.item;
-    if block_metadata.is_discrete() {
+    if block_metadata.is_discrete() || block_metadata.is_literal() {
         return false;
     }
 
-- 
2.43.0


From 43ffb6f461c1890f8e7160c0f934b70c6436e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:29 +0000
Subject: [PATCH 42/47] fix: apply verbatim substitutions to literal and source
 paragraphs

---
 parser/src/blocks/simple.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index 12087ed..fb4e14b 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -220,7 +220,7 @@ fn parse_lines<'src>(
     let filtered_lines = filtered_lines.join("\n");
     let mut content: Content<'src> = Content::from_filtered(source, filtered_lines);
 
-    SubstitutionGroup::Normal
+    default_substitution_group(style)
         .override_via_attrlist(attrlist.as_ref())
         .apply(&mut content, parser, attrlist.as_ref());
 
@@ -230,6 +230,13 @@ fn parse_lines<'src>(
     })
 }
 
+fn default_substitution_group(style: SimpleBlockStyle) -> SubstitutionGroup {
+    match style {
+        SimpleBlockStyle::Literal | SimpleBlockStyle::Source => SubstitutionGroup::Verbatim,
+        SimpleBlockStyle::Paragraph | SimpleBlockStyle::Listing => SubstitutionGroup::Normal,
+    }
+}
+
 impl<'src> IsBlock<'src> for SimpleBlock<'src> {
     fn content_model(&self) -> ContentModel {
         ContentModel::Simple
@@ -262,6 +269,10 @@ impl<'src> IsBlock<'src> for SimpleBlock<'src> {
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
         self.attrlist.as_ref()
     }
+
+    fn substitution_group(&'src self) -> SubstitutionGroup {
+        default_substitution_group(self.style)
+    }
 }
 
 impl<'src> HasSpan<'src> for SimpleBlock<'src> {
-- 
2.43.0


From 935d69a32bb8232acdd9735a82e7e41b3c10df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:44 +0000
Subject: [PATCH 43/47] fix: skip comment lines before a block and its metadata

---
 parser/src/blocks/metadata.rs     |  5 +++++
 parser/src/blocks/parse_utils.rs  | 37 ++++++++++++++++++++++++++++---
 parser/src/parser/preprocessor.rs |  4 +++-
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index 24d7837..be31b49 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -3,6 +3,7 @@ use std::ops::{RangeFrom, RangeTo};
 use crate::{
     Parser, Span,
     attributes::{Attrlist, AttrlistContext},
+    blocks::parse_utils::discard_comment_lines,
     content::{Content, SubstitutionGroup},
     span::MatchedItem,
     warnings::{MatchAndWarnings, Warning, WarningType},
@@ -62,6 +63,10 @@ impl<'src> BlockMetadata<'src> {
         let mut block_start = source;
 
         loop {
+            if block_start != source {
+                block_start = discard_comment_lines(block_start);
+            }
+
             let original_block_start = block_start;
 
             // Try to parse a title.
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 0692137..39483a9 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -20,12 +20,14 @@ where
 
     source = source.discard_empty_lines();
 
-    while !source.data().is_empty() {
-        if f(&source, parser) {
+    loop {
+        let block_start = discard_comments(source);
+
+        if block_start.is_empty() || f(&block_start, parser) {
             break;
         }
 
-        let mut maw = Block::parse(source, parser);
+        let mut maw = Block::parse(block_start, parser);
 
         if !maw.warnings.is_empty() {
             warnings.append(&mut maw.warnings);
@@ -45,3 +47,32 @@ where
         warnings,
     }
 }
+
+/// Skip any comment lines at the start of the input span.
+///
+/// A comment line before a block is not part of that block and doesn't affect
+/// how the block is parsed.
+pub(crate) fn discard_comment_lines(mut source: Span<'_>) -> Span<'_> {
+    loop {
+        let line = source.take_line();
+
+        if !line.item.starts_with("//") || line.item.starts_with("///") {
+            return source;
+        }
+
+        source = line.after;
+    }
+}
+
+/// Skip any comment lines and blank lines at the start of the input span.
+fn discard_comments(mut source: Span<'_>) -> Span<'_> {
+    loop {
+        let after = discard_comment_lines(source).discard_empty_lines();
+
+        if after == source {
+            return source;
+        }
+
+        source = after;
+    }
+}
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 367713c..b50950f 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -184,7 +184,9 @@ impl<'p> PreprocessorState<'p> {
                 if line.is_empty() {
                     self.in_document_header = false;
                     self.can_have_attribute = true;
-                } else if !self.in_document_header {
+                } else if !self.in_document_header
+                    && (!line.starts_with("//") || line.starts_with("///"))
+                {
                     self.can_have_attribute = false;
                 }
 
-- 
2.43.0


From 4cfc0ade77413da9ddcd7decba24d0050972a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:02 +0000
Subject: [PATCH 44/47] fix: accept a tab before an attribute entry's value in
 the body

---
 parser/src/blocks/block.rs        | 1 -
 parser/src/parser/preprocessor.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 4e74060..4cf131c 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -135,7 +135,6 @@ impl<'src> Block<'src> {
 
         // Look for document attributes first since these don't support block metadata.
         if first_line.item.starts_with(':')
-            && (first_line.item.ends_with(':') || first_line.item.contains(": "))
             && let Some(attr) = Attribute::parse(source, parser)
         {
             let mut warnings: Vec<Warning<'src>> = vec![];
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index b50950f..58c3ec7 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -86,7 +86,6 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
-- 
2.43.0


From 601b341858d8c523cd56eb51654926bac1632b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:06 +0000
Subject: [PATCH 45/47] fix: end the document header in the preprocessor where
 the parser ends it

---
 parser/src/parser/preprocessor.rs | 43 +++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 58c3ec7..91a23f7 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -50,6 +50,8 @@ const MAX_INCLUDE_DEPTH: usize = 64;
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
+    has_document_title: bool,
+    lines_after_document_title: usize,
     can_have_attribute: bool,
     include_depth: usize,
     output_line_number: usize,
@@ -62,6 +64,8 @@ impl<'p> PreprocessorState<'p> {
         Self {
             parser,
             in_document_header: true,
+            has_document_title: false,
+            lines_after_document_title: 0,
             can_have_attribute: true,
             include_depth: 0,
             output_line_number: 1,
@@ -163,6 +167,9 @@ impl<'p> PreprocessorState<'p> {
                         );
                     }
 
+                    // This line is replaced with a line of text.
+                    self.track_document_header(&line);
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
@@ -180,14 +187,7 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
-                    self.in_document_header = false;
-                    self.can_have_attribute = true;
-                } else if !self.in_document_header
-                    && (!line.starts_with("//") || line.starts_with("///"))
-                {
-                    self.can_have_attribute = false;
-                }
+                self.track_document_header(&line);
 
                 self.output_line_number += 1;
                 self.output.push_str(line.data());
@@ -198,6 +198,33 @@ impl<'p> PreprocessorState<'p> {
         self.include_depth -= 1;
     }
 
+    /// Update what we know about where an attribute entry can occur: The document
+    /// header ends where [`Header::parse`] would end it.
+    ///
+    /// [`Header::parse`]: crate::document::Header::parse
+    fn track_document_header(&mut self, line: &Span<'_>) {
+        if line.data().trim().is_empty() {
+            self.can_have_attribute = true;
+
+            if self.has_document_title {
+                self.in_document_header = false;
+            }
+        } else if line.starts_with("//") && !line.starts_with("///") {
+            // A comment line can occur anywhere.
+        } else if self.in_document_header && !self.has_document_title && line.starts_with("= ") {
+            self.has_document_title = true;
+        } else if self.in_document_header
+            && self.has_document_title
+            && self.lines_after_document_title < 2
+        {
+            // This is the author line or the revision line.
+            self.lines_after_document_title += 1;
+        } else {
+            self.in_document_header = false;
+            self.can_have_attribute = false;
+        }
+    }
+
     /// Apply attribute substitution to a string, replacing {attribute-name}
     /// patterns with their corresponding values from the parser.
     fn substitute_attributes(&self, input: &str) -> String {
-- 
2.43.0


From 51bab61ba5f03de69011045363628a14b6658def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 46/47] fix: a plus sign ending the last line of an attribute
 value is text

---
 parser/src/document/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 8a47d2b..84bfc72 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -201,7 +201,7 @@ impl InterpretedValue {
                         .trim_end_matches('\\')
                         .trim_end_matches(BLANK);
 
-                    if line == "+" || line.ends_with(" +") {
+                    if count < last_count && (line == "+" || line.ends_with(" +")) {
                         format!("{}\n", line.trim_end_matches('+').trim_end_matches(BLANK))
                     } else if count < last_count {
                         format!("{line} ")
-- 
2.43.0


From ed2151ffba9b55a180f95fcd2701f5091d83d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 47/47] fix: a discrete heading doesn't end the preamble

---
 parser/src/document/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 49e6c22..31b4fe8 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -7,7 +7,9 @@ use self_cell::self_cell;
 use crate::{
     Parser, Span,
     attributes::Attrlist,
-    blocks::{Block, ContentModel, IsBlock, Preamble, parse_utils::parse_blocks_until},
+    blocks::{
+        Block, ContentModel, IsBlock, Preamble, SectionType, parse_utils::parse_blocks_until,
+    },
     document::{Catalog, Header},
     internal::debug::DebugSliceReference,
     parser::SourceMap,
@@ -87,7 +89,7 @@ impl<'src> Document<'src> {
             for (index, block) in blocks.iter().enumerate() {
                 match block {
                     Block::DocumentAttribute(_) => (),
-                    Block::Section(_) => {
+                    Block::Section(section) if section.section_type() != SectionType::Discrete => {
                         if has_content_blocks {
                             preamble_split_index = Some(index);
                         }
-- 
2.43.0

