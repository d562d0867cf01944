From 820cddc72833b88e2d56d563d8c84623aea54ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 01/67] fix: always make progress between blocks

Blank lines after a delimited, media, or break block were left in place, which
made parsing loop forever at the end of the input and hid a following attribute
entry. Metadata (such as a lone block anchor or a literal style) without a block
and lines that consist of other Unicode whitespace looped forever, too.
---
 parser/src/blocks/block.rs       | 51 ++++++++++++++++----------------
 parser/src/blocks/metadata.rs    |  4 +--
 parser/src/blocks/parse_utils.rs |  7 ++++-
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..1f6f81a 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are all empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..7e8c990 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,8 +32,13 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
+        } else {
+            // Nothing that could be a block here: This line contains only characters that
+            // the block parsers trim as (Unicode) whitespace. Step over it so that we
+            // always make progress.
+            source = source.take_line().after.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From 5efada7425ac89306e6845fdb94c0404e8c03bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 02/67] fix: keep text when monospace lookahead is rejected

After a rejected lookahead the search restarted on a re-sliced haystack with
the stale end of the previous match: text was dropped, or slicing panicked
(also when a multi-byte character preceded the opening backtick).
---
 parser/src/content/substitution_step.rs |  6 ++-
 parser/src/internal/regex.rs            | 64 ++++++++++++++-----------
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..af1f2ec 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, char::len_utf8)
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..51ccc00 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -6,43 +6,51 @@ use regex::{Captures, Regex};
 /// which can look ahead after the match and potentially abort the replacement.
 pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
     regex: &Regex,
-    mut haystack: &'h str,
+    haystack: &'h str,
     mut rep: LR,
 ) -> Cow<'h, str> {
     let mut new = String::with_capacity(haystack.len());
     let mut last_match = 0;
-
-    'retry: loop {
-        // Optimization: If we don't have any matches, we can continue to borrow the
-        // source.
-        let mut it = regex.captures_iter(haystack).enumerate().peekable();
-
-        if new.is_empty() && it.peek().is_none() {
-            return Cow::Borrowed(haystack);
-        }
-
-        for (_i, cap) in it {
-            // unwrap on 0 is OK because captures only reports matches
-            #[allow(clippy::unwrap_used)]
-            let m = cap.get(0).unwrap();
-            new.push_str(&haystack[last_match..m.start()]);
-
-            let after = &haystack[m.end()..];
-
-            match rep.replace_append(&cap, &mut new, after) {
-                LookaheadResult::Continue => {
-                    last_match = m.end();
+    let mut found_match = false;
+
+    // NOTE: We search with `captures_at` rather than re-slicing `haystack` so that
+    // anchors and word boundaries in `regex` still see the text that precedes the
+    // point where we resume the search.
+    while let Some(cap) = regex.captures_at(haystack, last_match) {
+        found_match = true;
+
+        // unwrap on 0 is OK because captures only reports matches
+        #[allow(clippy::unwrap_used)]
+        let m = cap.get(0).unwrap();
+        new.push_str(&haystack[last_match..m.start()]);
+
+        let after = &haystack[m.end()..];
+
+        match rep.replace_append(&cap, &mut new, after) {
+            LookaheadResult::Continue => {
+                last_match = m.end();
+
+                if m.is_empty() {
+                    // Avoid reporting the same empty match again.
+                    let Some(next) = after.chars().next() else {
+                        break;
+                    };
+                    new.push(next);
+                    last_match += next.len_utf8();
                 }
+            }
 
-                LookaheadResult::SkipAheadAndRetry(n) => {
-                    assert!(n > 0);
-                    haystack = &haystack[m.start() + n..];
-                    continue 'retry;
-                }
+            LookaheadResult::SkipAheadAndRetry(n) => {
+                assert!(n > 0);
+                last_match = m.start() + n;
             }
         }
+    }
 
-        break;
+    if !found_match {
+        // Optimization: If we don't have any matches, we can continue to borrow the
+        // source.
+        return Cow::Borrowed(haystack);
     }
 
     new.push_str(&haystack[last_match..]);
-- 
2.43.0


From 2d0ec97aca694563fc2e6243458f4eaa325e3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 03/67] fix: don't panic on image, icon, or link macros with
 unusual targets

An image or icon macro without a target (image:[x]) and a link or mailto macro
with a one-character target (link:a[x]) panicked on a missing capture group.
A one-character image target (image:a[]) was not recognized at all.
---
 parser/src/content/macros.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..016a2f7 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]                   # Last char: not whitespace, [, or newline
+                )?
+            )
 
             \[                          # Opening square bracket
 
@@ -417,16 +419,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # capture group 2: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -447,21 +446,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 331ca8c919b731ed342b1edac403fcba033ce5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 04/67] fix: don't panic on a bare URL followed by &gt;

A URL that is followed by > but has no opening < panicked on a missing capture
group. It is a bare link followed by a greater-than sign.
---
 parser/src/content/macros.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 016a2f7..d41df25 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -227,6 +227,11 @@ static INLINE_LINK: LazyLock<Regex> = LazyLock::new(|| {
     .unwrap()
 });
 
+static BARE_LINK: LazyLock<Regex> = LazyLock::new(|| {
+    #[allow(clippy::unwrap_used)]
+    Regex::new(r#"^[^\s\[\]<]*([^\s,.?!\[\]<\)])"#).unwrap()
+});
+
 #[derive(Debug)]
 struct InlineLinkReplacer<'p>(&'p Parser);
 
@@ -294,12 +299,26 @@ impl Replacer for InlineLinkReplacer<'_> {
             return;
         }
 
-        let mut target = format!(
-            "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
-        );
-
         let mut suffix = "".to_owned();
+
+        let (path, tail) = if let Some(path) = caps.get(4) {
+            (path.as_str(), "")
+        } else if let Some(enclosed) = caps.get(6) {
+            // There was no matching `&lt;` before this URL, so this is a bare link that
+            // happens to be followed by `&gt;`.
+            let Some(bare) = BARE_LINK.captures(enclosed.as_str()) else {
+                dest.push_str(&caps[0]);
+                return;
+            };
+
+            let (path, tail) = bare.extract::<1>();
+            suffix = format!("{rem}&gt;", rem = &enclosed.as_str()[path.len()..]);
+            (path, tail[0])
+        } else {
+            (&caps[7], &caps[8])
+        };
+
+        let mut target = format!("{scheme}{path}");
         let mut link_text: Option<String> = None;
 
         // NOTE: If capture group 5 exists (the attrlist), we're looking at a formal macro (e.g., https://example.org[]).
@@ -324,12 +343,11 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
             if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
                 target.truncate(target.len() - 1);
-                suffix = tail.to_owned();
+                suffix = format!("{tail}{suffix}");
 
                 if target.ends_with(')') {
                     target.truncate(target.len() - 1);
-- 
2.43.0


From 0a030255a57a5469bfd6c831fec30f9b4ca0e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 05/67] fix: leave link: prefix without brackets alone

The check for the invalid link:https://... form compared the prefix without its
colon, so it never applied.
---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index d41df25..d18d0bf 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -331,7 +331,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 link_text = Some(attrlist.as_str().to_owned());
             }
         } else {
-            if prefix == "link" || prefix == "\"" || prefix == "'" {
+            if prefix == "link:" || prefix == "\"" || prefix == "'" {
                 // Note from the Ruby implementation which also applies to this if clause:
 
                 // Invalid macro syntax (link: prefix w/o trailing square brackets or URL
-- 
2.43.0


From 5aa09cf0700ee025ee4f6aa4143694b79ed29b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 06/67] fix: don't panic on inline or interactive SVG images

These options only have an effect outside of secure mode, which isn't supported
yet. Treat the image as secure mode would.
---
 .../parser/inline_substitution_renderer.rs    | 51 +++----------------
 1 file changed, 8 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..499f369 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,15 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // Outside of secure mode, Asciidoctor embeds SVG images that have the `inline`
+        // or `interactive` option. We always behave as secure mode does, which is to
+        // ignore those options.
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From 78b3f2582aad53a2a8f3fd4508e68afa6e4ad59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/67] fix: don't recurse forever when restoring passthroughs

Input that contains the internal passthrough placeholder characters could make a
passthrough appear to contain itself, which overflowed the stack.
---
 parser/src/content/passthroughs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..ee424b6 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -67,7 +67,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(&self.0, parser);
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,13 +431,13 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p [Passthrough], &'p Parser);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
-        let Some(pass) = self.0.0.get(index) else {
+        let Some(pass) = self.0.get(index) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
             ));
@@ -474,8 +474,9 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
         }
 
         if subbed_text.rendered().contains('\u{96}') {
-            // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            // Recursively apply passthrough replacement and write the result. A
+            // passthrough can only contain those that were extracted before it.
+            let replacer = PassthroughRestoreReplacer(&self.0[0..index], self.1);
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From f171718eb45cb3944dcf0302724d15df0d6990f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 08/67] fix: recognize block audio macros

The list of block media macro names had video:: twice and audio:: not at all.
---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..927b019 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From 54202bde0a3fbd1da871f268dd31fb1e6190cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 09/67] fix: don't overwrite locked attributes with implicit
 header values

The document title, author, and revision lines replaced the value of attributes
that the API had locked (for example, doctitle or author).
---
 parser/src/parser/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..9994f6d 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -414,6 +414,14 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        // Don't overwrite an attribute value that can't be changed from the header.
+        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
             modification_context: ModificationContext::Anywhere,
-- 
2.43.0


From 363c8ebd71819d2cc41969fe3125616b4507469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 10/67] fix: keep attribute restrictions when the document sets
 a value

Setting an attribute that is restricted to the API and header (or the API and
body) lifted that restriction, so that it could then be changed anywhere.
---
 parser/src/parser/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 9994f6d..1a58fa3 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -396,7 +396,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value,
         };
 
@@ -424,7 +424,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
@@ -456,7 +456,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value: attr.value().clone(),
         };
 
@@ -464,6 +464,16 @@ impl Parser {
     }
 
     /// Assign the next section number for a given level.
+    /// Returns the modification context for an attribute that is about to be
+    /// set by the document. (Setting it must not lift an existing restriction.)
+    fn modification_context(&self, attr_name: &str) -> ModificationContext {
+        self.attribute_values
+            .get(attr_name)
+            .map_or(ModificationContext::Anywhere, |av| {
+                av.modification_context.clone()
+            })
+    }
+
     pub(crate) fn assign_section_number(&mut self, level: usize) -> SectionNumber {
         match self.topmost_section_type {
             SectionType::Normal => {
-- 
2.43.0


From a6e0bd0a439c33da26ff143a7a242e11e176cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 11/67] fix: restart appendix numbering for each document

Only the normal section numbers were reset when a parser is used again.
---
 parser/src/parser/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 1a58fa3..0c7921f 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,8 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number.components.clear();
+        self.topmost_section_type = SectionType::Normal;
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 09302049e6444d4a7775e2f80e4a98a5e92bb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 12/67] fix: register the ID that a section reports

When a section had both a block anchor and an attribute list ID, the catalog
registered the latter while the section reported the former.
---
 parser/src/blocks/section.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..2b5b6b0 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -97,11 +97,13 @@ impl<'src> SectionBlock<'src> {
 
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
+        // NOTE: Keep this in sync with `SectionBlock::id` so that the ID in the catalog is
+        // the one that the section reports.
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From 3d6f83fa8f5144daccaf9810bf778f1faf5ded07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 13/67] fix: apply substitutions to unterminated verbatim
 blocks

When a raw delimited block ran to the end of its parent without a closing
delimiter, its content was left as it was: special characters weren't escaped
and the subs attribute was ignored.
---
 parser/src/blocks/raw_delimited.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..bdc4a95 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,16 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From c4cf68dc2056d02a600249286024147d330fae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 14/67] fix: keep the anchors of media and break blocks

Media and break blocks dropped the reference text of their block anchor, and the
ID of a break was not registered in the catalog.
---
 parser/src/blocks/block.rs | 12 +++++++++++-
 parser/src/blocks/break.rs |  4 +++-
 parser/src/blocks/media.rs |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 927b019..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From faee457aee9c7e989c529aaec885100b915d17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 15/67] fix: map the line of an unresolved include directive

When an unresolved include directive was the first line after an included file,
the source map attributed it to the included file.
---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..060e38d 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -142,6 +142,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From 125cb22c5c8ec7308123f76129fa8d54a04680ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 16/67] fix: apply header rules to header attributes in include
 targets

The preprocessor treated every attribute entry as if it were in the document
body, so that include targets saw different values than the rest of the
document for attributes that are restricted to the header or the body.
---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 060e38d..91062ef 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -98,8 +98,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 self.output.push_str(attr.item.span().data());
                 self.output.push('\n');
-- 
2.43.0


From 882363aafcbed70feff4f0228ac40f965f4f1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 17/67] fix: limit the depth of nested includes

A file that includes itself made the preprocessor recurse until it overflowed
the stack.
---
 parser/src/parser/preprocessor.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 91062ef..a9f2a7b 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Maximum number of nested includes. (This is the default value for
+/// `max-include-depth` in Ruby Asciidoctor.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -135,11 +139,17 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
-                {
+                // Don't follow includes that are nested too deeply (most likely a file that
+                // includes itself).
+                let include_file_handler = self
+                    .parser
+                    .include_file_handler
+                    .as_ref()
+                    .filter(|_| self.include_depth <= MAX_INCLUDE_DEPTH);
+
+                if let Some(include_text) = include_file_handler.and_then(|ifh| {
+                    ifh.resolve_target(file_name, &target, &attrlist, self.parser)
+                }) {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
                     self.process_adoc_include(&include_text, Some(&target));
-- 
2.43.0


From e2e8ca61c213533bc6d3690eda31b3c9372e3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 18/67] fix: ignore case when resolving attribute references

Attribute names are converted to lowercase when they are stored, but references
were looked up as written, so an attribute defined as :URL: couldn't be
referenced as {URL}.
---
 parser/src/content/substitution_step.rs | 3 ++-
 parser/src/parser/preprocessor.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index af1f2ec..100f8bf 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -459,7 +459,8 @@ struct AttributeReplacer<'p>(&'p Parser);
 
 impl Replacer for AttributeReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        let attr_name = &caps[1];
+        // Attribute names are converted to lowercase when they are stored.
+        let attr_name = &caps[1].to_lowercase();
 
         // TO DO: Handle alternative responses ('skip', etc.) for missing attributes.
         if !self.0.has_attribute(attr_name) {
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index a9f2a7b..26ad952 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -210,7 +210,8 @@ impl<'p> PreprocessorState<'p> {
 
         impl Replacer for AttributeReplacer<'_> {
             fn replace_append(&mut self, caps: &regex::Captures<'_>, dest: &mut String) {
-                let attr_name = &caps[1];
+                // Attribute names are converted to lowercase when they are stored.
+                let attr_name = &caps[1].to_lowercase();
 
                 if !self.0.has_attribute(attr_name) {
                     dest.push_str(&caps[0]);
-- 
2.43.0


From 8effff2e1fc7b7ffffbff5f127e455e4aed2825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 19/67] fix: don't panic when an indented line follows a
 section title

A line that starts with neither = nor # has no section marker, so it can't be
a section title. Computing its level underflowed.
---
 parser/src/blocks/section.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 2b5b6b0..bf18c60 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -294,6 +294,11 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        // Not a section marker at all.
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From 35f1c189c94b07bc7b48b95c74aefa7c551d90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 20/67] fix: resolve attributes in section titles in document
 order

The title and the generated ID of a section were computed after the blocks of
that section had been read, so attribute entries inside of the section changed
the title that precedes them.
---
 parser/src/blocks/section.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bf18c60..dafd484 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,14 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Apply substitutions to the title (and look up the attributes that influence the
+        // section ID) before reading child blocks because those might change document
+        // attributes.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +100,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         // NOTE: Keep this in sync with `SectionBlock::id` so that the ID in the catalog is
         // the one that the section reports.
         let manual_id = metadata
-- 
2.43.0


From 2e8dc27843b0b7826fb13caa384e2d7734a56ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 21/67] fix: only replace -- after a word if a word or line end
 follows

\b{start-half} only looks at the character before the position, which is always
a hyphen here, so the pattern accepted anything after the hyphens.
---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 100f8bf..9e11b83 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -570,7 +570,7 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Em dash without spaces `--`
             type_: CharacterReplacementType::EmDashWithoutSpace,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"(\w)\\?--\b{start-half}"#).unwrap(),
+            pattern: Regex::new(r#"(?m)(\w)\\?--(?:\b{start}|$)"#).unwrap(),
         },
         CharacterReplacement {
             // Ellipsis `...`
-- 
2.43.0


From e7a218e81f38d1640c1b1d331e3c6d83e70e4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 22/67] fix: replace every apostrophe inside of words

The letter after an apostrophe was consumed, so it couldn't be the letter before
the next apostrophe (rock'n'roll), and only ASCII letters were recognized.
---
 parser/src/content/substitution_step.rs | 30 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 9e11b83..b8d659a 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -515,7 +515,7 @@ fn apply_character_replacements(
             renderer,
         };
 
-        if let Cow::Owned(new_result) = repl.pattern.replace_all(&result, replacer) {
+        if let Cow::Owned(new_result) = replace_with_lookahead(&repl.pattern, &result, replacer) {
             result = new_result.into();
         }
         // If it's Cow::Borrowed, there was no match for this pattern, so no
@@ -588,7 +588,7 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Apostrophe (inside a word)
             type_: CharacterReplacementType::TypographicApostrophe,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"([[:alnum:]])\\?'([[:alpha:]])"#).unwrap(),
+            pattern: Regex::new(r#"([\p{Alphabetic}\p{Nd}])\\?'"#).unwrap(),
         },
         CharacterReplacement {
             // Right arrow `->`
@@ -629,13 +629,27 @@ struct CharacterReplacer<'r> {
     renderer: &'r dyn InlineSubstitutionRenderer,
 }
 
-impl Replacer for CharacterReplacer<'_> {
-    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+impl LookaheadReplacer for CharacterReplacer<'_> {
+    fn replace_append(
+        &mut self,
+        caps: &Captures<'_>,
+        dest: &mut String,
+        after: &str,
+    ) -> LookaheadResult {
+        if self.type_ == CharacterReplacementType::TypographicApostrophe
+            && caps.get(1).is_some()
+            && !after.starts_with(char::is_alphabetic)
+        {
+            // This apostrophe isn't inside a word.
+            dest.push_str(&caps[0]);
+            return LookaheadResult::Continue;
+        }
+
         if caps[0].contains('\\') {
             // We have to replace since we aren't sure the backslash is the first char.
             let unescaped = &caps[0].replace("\\", "");
             dest.push_str(unescaped);
-            return;
+            return LookaheadResult::Continue;
         }
 
         match self.type_ {
@@ -669,10 +683,6 @@ impl Replacer for CharacterReplacer<'_> {
                     CharacterReplacementType::TypographicApostrophe,
                     dest,
                 );
-
-                if let Some(after) = caps.get(2) {
-                    dest.push_str(after.as_str());
-                }
             }
 
             CharacterReplacementType::CharacterReference(_) => {
@@ -682,6 +692,8 @@ impl Replacer for CharacterReplacer<'_> {
                 );
             }
         }
+
+        LookaheadResult::Continue
     }
 }
 
-- 
2.43.0


From 12bfa7e316a97d6e1a2833298fcaa330c86d1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 23/67] fix: don't warn about delimiters or marked text as if
 they were headings

---
 parser/src/blocks/section.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index dafd484..1b21676 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -302,6 +302,12 @@ fn parse_title_line<'src>(
         return None;
     }
 
+    // NOTE: `#` without whitespace after it is formatted text (for example,
+    // `#marked#`).
+    if count == 1 && source.starts_with('#') && !line.starts_with([' ', '\t']) {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
@@ -311,6 +317,9 @@ fn parse_title_line<'src>(
         return None;
     }
 
+    // Without whitespace, this is something else (for example, a block delimiter).
+    let title = line.take_required_whitespace()?;
+
     if count > 6 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
@@ -320,8 +329,6 @@ fn parse_title_line<'src>(
         return None;
     }
 
-    let title = line.take_required_whitespace()?;
-
     Some(MatchedItem {
         item: (count - 1, title.after),
         after: mi.after,
-- 
2.43.0


From e88a2c147ca2afcda63d7989494cf8987e53b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 24/67] fix: don't make images relative to the web root if
 imagesdir is empty

---
 parser/src/parser/inline_substitution_renderer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 499f369..59442f2 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -548,9 +548,11 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             "#
             );
         } else {
+            // An empty directory is the same as none. (It doesn't mean the web root.)
             let asset_dir = parser
                 .attribute_value(asset_dir_key)
                 .as_maybe_str()
+                .filter(|s| !s.is_empty())
                 .map(|s| s.to_string());
 
             normalize_web_path(target_image_path, parser, asset_dir.as_deref(), true)
-- 
2.43.0


From b8f1bef89f105830f74cbd7f19ca7ba356a340ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 25/67] fix: recognize include directives with a one-character
 attribute list

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 26ad952..3b4b067 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -261,7 +261,7 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
-- 
2.43.0


From 5ecbedda5507bed40c8ac2b1cecd5ced7b93757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 26/67] fix: apply verbatim substitutions to literal and source
 paragraphs

---
 parser/src/blocks/simple.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index 40bf845..d51c687 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -220,7 +220,12 @@ fn parse_lines<'src>(
     let filtered_lines = filtered_lines.join("\n");
     let mut content: Content<'src> = Content::from_filtered(source, filtered_lines);
 
-    SubstitutionGroup::Normal
+    let default_substitution_group = match style {
+        SimpleBlockStyle::Literal | SimpleBlockStyle::Source => SubstitutionGroup::Verbatim,
+        _ => SubstitutionGroup::Normal,
+    };
+
+    default_substitution_group
         .override_via_attrlist(attrlist.as_ref())
         .apply(&mut content, parser, attrlist.as_ref());
 
-- 
2.43.0


From 805cd5ba362304c5dcfd42ef731741f7574ed8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 27/67] fix: don't let unterminated verbatim blocks extend
 beyond their parents

The whitespace after an unterminated block at the end of the input was part of the block, but not of the enclosing block or document.
---
 parser/src/blocks/raw_delimited.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index bdc4a95..a53fe74 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -130,7 +130,7 @@ impl<'src> RawDelimitedBlock<'src> {
             next = line.after;
         }
 
-        let content = content_start.trim_remainder(next).trim_trailing_line_end();
+        let content = content_start.trim_remainder(next).trim_trailing_whitespace();
 
         let mut content: Content<'src> = content.into();
 
@@ -147,7 +147,7 @@ impl<'src> RawDelimitedBlock<'src> {
                     source: metadata
                         .source
                         .trim_remainder(next)
-                        .trim_trailing_line_end(),
+                        .trim_trailing_whitespace(),
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-- 
2.43.0


From 51cd71c074fccfab50137270f5e34dc288030ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 28/67] fix: don't let other characters hide markup when
 deriving a section ID

The run of characters that can't be part of an ID swallowed the start of a following tag or character reference, the rest of which ended up in the ID.
---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 1b21676..4f0c9b9 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -400,7 +400,7 @@ fn generate_section_id(title: &str, parser: &Parser) -> String {
     #[allow(clippy::unwrap_used)]
     static INVALID_SECTION_ID_CHARS: LazyLock<Regex> = LazyLock::new(|| {
         Regex::new(
-            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]+",
+            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]+?",
         )
         .unwrap()
     });
-- 
2.43.0


From 8150619a7354463abacfa3f3dd510fe8377e1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 29/67] fix: don't drop a revision that has only non-ASCII
 digits

Such a standalone revision was recognized by any decimal digit, but its number had to start with an ASCII digit and ended up empty.
---
 parser/src/document/revision_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 06f1ac3..8c89730 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -126,7 +126,7 @@ fn strip_non_numeric_prefix(s: &str) -> String {
 
 static STANDALONE_REVISION: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
-    Regex::new(r"^v\d").unwrap()
+    Regex::new(r"^v[0-9]").unwrap()
 });
 
 static NON_NUMERIC_PREFIX: LazyLock<Regex> = LazyLock::new(|| {
-- 
2.43.0


From ecf9dce427fca619674ecaa4a038d7728f264e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 30/67] fix: recognize markup at line ends in delimited blocks
 with CRLF

The CR at the end of a line in a verbatim or pass block was seen as part of its text, so that hard line breaks and the like were not recognized there.
---
 parser/src/blocks/raw_delimited.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index a53fe74..0adc915 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -97,7 +97,7 @@ impl<'src> RawDelimitedBlock<'src> {
             if line.item.data() == delimiter.item.data() {
                 let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
-                let mut content: Content<'src> = content.into();
+                let mut content = Self::content_with_normalized_line_ends(content);
 
                 substitution_group =
                     substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
@@ -132,7 +132,7 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_whitespace();
 
-        let mut content: Content<'src> = content.into();
+        let mut content = Self::content_with_normalized_line_ends(content);
 
         substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
 
@@ -164,6 +164,15 @@ impl<'src> RawDelimitedBlock<'src> {
         })
     }
 
+    /// Line ends don't depend on whether the input uses CR LF or LF.
+    fn content_with_normalized_line_ends(content: Span<'src>) -> Content<'src> {
+        if content.contains("\r\n") {
+            Content::from_filtered(content, content.replace("\r\n", "\n"))
+        } else {
+            content.into()
+        }
+    }
+
     /// Return the interpreted content of this block.
     pub fn content(&self) -> &Content<'src> {
         &self.content
-- 
2.43.0


From 5d5d822996698b8c07b77f57abea09b204967e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 31/67] fix: keep the appendix type after a block with a level
 1 section inside an appendix

---
 parser/src/blocks/section.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 4f0c9b9..8264b64 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -53,6 +53,10 @@ impl<'src> SectionBlock<'src> {
 
         let level = level_and_title.item.0;
 
+        // Remember which kind of section surrounds this one. (This section might be part
+        // of a block inside an appendix.)
+        let surrounding_section_type = parser.topmost_section_type;
+
         // Assign the section type. At level 1, we look for an `appendix` section style;
         // at all other levels, we inherit the section type from parent.
         let section_type = if discrete {
@@ -139,9 +143,10 @@ impl<'src> SectionBlock<'src> {
             None
         };
 
-        // Restore "normal" top-level section type if exiting a level 1 appendix.
+        // Restore the surrounding section type (typically "normal") if exiting a level 1
+        // section.
         if level == 1 && !discrete {
-            parser.topmost_section_type = SectionType::Normal;
+            parser.topmost_section_type = surrounding_section_type;
         }
 
         warnings.append(&mut maw_blocks.warnings);
-- 
2.43.0


From e07330337f961bb3939025e22cd070d42bc71cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 32/67] fix: resolve attribute references before telling
 whether a heading is discrete

---
 parser/src/blocks/compound_delimited.rs |  2 +-
 parser/src/blocks/parse_utils.rs        |  4 ++--
 parser/src/blocks/section.rs            | 19 ++++++++++++++++---
 parser/src/document/document.rs         |  2 +-
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/parser/src/blocks/compound_delimited.rs b/parser/src/blocks/compound_delimited.rs
index ccd2da0..373114c 100644
--- a/parser/src/blocks/compound_delimited.rs
+++ b/parser/src/blocks/compound_delimited.rs
@@ -101,7 +101,7 @@ impl<'src> CompoundDelimitedBlock<'src> {
 
         let inside_delimiters = delimiter.after.trim_remainder(closing_delimiter);
 
-        let maw_blocks = parse_blocks_until(inside_delimiters, |_| false, parser);
+        let maw_blocks = parse_blocks_until(inside_delimiters, |_, _| false, parser);
 
         let blocks = maw_blocks.item;
         let source = metadata
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 7e8c990..690f523 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -13,7 +13,7 @@ pub(crate) fn parse_blocks_until<'src, F>(
     parser: &mut Parser,
 ) -> MatchAndWarnings<'src, MatchedItem<'src, Vec<Block<'src>>>>
 where
-    F: FnMut(&Span<'src>) -> bool,
+    F: FnMut(&Span<'src>, &Parser) -> bool,
 {
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
@@ -21,7 +21,7 @@ where
     source = source.discard_empty_lines();
 
     while !source.data().is_empty() {
-        if f(&source) {
+        if f(&source, parser) {
             break;
         }
 
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 8264b64..6cf868f 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -4,7 +4,7 @@ use regex::Regex;
 
 use crate::{
     HasSpan, Parser, Span,
-    attributes::Attrlist,
+    attributes::{Attrlist, AttrlistContext},
     blocks::{
         Block, ContentModel, IsBlock, metadata::BlockMetadata, parse_utils::parse_blocks_until,
     },
@@ -97,7 +97,10 @@ impl<'src> SectionBlock<'src> {
 
         let mut maw_blocks = parse_blocks_until(
             level_and_title.after,
-            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
+            |i, parser| {
+                discrete
+                    || peer_or_ancestor_section(*i, level, &mut most_recent_level, parser, warnings)
+            },
             parser,
         );
 
@@ -344,6 +347,7 @@ fn peer_or_ancestor_section<'src>(
     source: Span<'src>,
     level: usize,
     most_recent_level: &mut usize,
+    parser: &Parser,
     warnings: &mut Vec<Warning<'src>>,
 ) -> bool {
     // Skip over any block metadata (title, anchor, attrlist) to find the actual
@@ -353,7 +357,16 @@ fn peer_or_ancestor_section<'src>(
 
     let block_metadata_maw = BlockMetadata::parse(source, &mut temp_parser);
 
-    let block_metadata = block_metadata_maw.item;
+    let mut block_metadata = block_metadata_maw.item;
+
+    // The attribute list might contain references to document attributes, which the
+    // temporary parser can't resolve.
+    if let Some(ref mut attrlist) = block_metadata.attrlist {
+        *attrlist = Attrlist::parse(attrlist.span(), parser, AttrlistContext::Block)
+            .item
+            .item;
+    }
+
     if block_metadata.is_discrete() {
         return false;
     }
diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 0469b39..49e6c22 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -74,7 +74,7 @@ impl<'src> Document<'src> {
             let header = mi.item.item;
             let mut warnings = mi.warnings;
 
-            let mut maw_blocks = parse_blocks_until(after_header, |_| false, parser);
+            let mut maw_blocks = parse_blocks_until(after_header, |_, _| false, parser);
 
             if !maw_blocks.warnings.is_empty() {
                 warnings.append(&mut maw_blocks.warnings);
-- 
2.43.0


From 3be803c6f54da2ac6e1b6369810b4ef850c2f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 33/67] fix: a literal paragraph that looks like a heading does
 not end a section

---
 parser/src/blocks/section.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 6cf868f..f07480f 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -371,6 +371,17 @@ fn peer_or_ancestor_section<'src>(
         return false;
     }
 
+    // NOTE: Keep this in sync with `Block::parse`, which doesn't read headings in this
+    // case.
+    if block_metadata
+        .attrlist
+        .as_ref()
+        .and_then(|a| a.block_style())
+        == Some("literal")
+    {
+        return false;
+    }
+
     let source_after_metadata = block_metadata.block_start;
 
     if let Some(mi) = parse_title_line(source_after_metadata, warnings) {
-- 
2.43.0


From 1d01421bb85a75e4631af808dd0ecf9534fb7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 34/67] fix: only ASCII digits make up a character reference
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The digits of other scripts (as in `&#1٣;`) matched as well, so that an
ampersand that does not start a character reference came out unescaped.
---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index b8d659a..b3ab7db 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -618,7 +618,7 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Restore entities
             type_: CharacterReplacementType::CharacterReference("".to_owned()),
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"\\?&amp;((?:[a-zA-Z][a-zA-Z]+\d{0,2}|#\d\d\d{0,4}|#x[\da-fA-F][\da-fA-F][\da-fA-F]{0,3}));"#).unwrap(),
+            pattern: Regex::new(r#"\\?&amp;((?:[a-zA-Z][a-zA-Z]+[0-9]{0,2}|#[0-9][0-9][0-9]{0,4}|#x[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]{0,3}));"#).unwrap(),
         },
     ]
 });
-- 
2.43.0


From b18484d3ceaa6a1f02fb604558f46b92b141c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 35/67] fix: a plus sign at the end of an attribute value's
 line stays unless it is a hard line break

Only a space followed by a plus character in front of the line continuation
makes a hard wrap. `C++ \` lost its plus signs, as did the last line of a
wrapped value.
---
 parser/src/document/attribute.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..c36b22f 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -194,12 +194,15 @@ impl InterpretedValue {
                         .trim_end_matches('\\')
                         .trim_end_matches(' ');
 
-                    if line.ends_with('+') {
-                        format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
-                    } else if count < last_count {
-                        format!("{line} ")
-                    } else {
+                    if count == last_count {
                         line.to_string()
+                    } else if let Some(hard_wrapped) = line
+                        .strip_suffix('+')
+                        .filter(|line| line.is_empty() || line.ends_with(' '))
+                    {
+                        format!("{}\n", hard_wrapped.trim_end_matches(' '))
+                    } else {
+                        format!("{line} ")
                     }
                 })
                 .collect();
-- 
2.43.0


From 0f6e5900a6dc75480455720877837e9805e93248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 36/67] fix: drop tabs too from the indentation of an attribute
 value's continued lines

---
 parser/src/document/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index c36b22f..7a05e94 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -183,7 +183,7 @@ impl InterpretedValue {
                 .enumerate()
                 .map(|(count, line)| {
                     let line = if count > 0 {
-                        line.trim_start_matches(' ')
+                        line.trim_start_matches([' ', '\t'])
                     } else {
                         line
                     };
-- 
2.43.0


From 2b5c65cc7850fd7d6c6a2443aadaff4ea01e8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 37/67] fix: the revision attributes hold the substituted
 values of the revision line

---
 parser/src/document/revision_line.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 8c89730..20afde0 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -45,20 +45,24 @@ impl<'src> RevisionLine<'src> {
             }
         };
 
+        // The attributes hold the same substituted values as this structure does.
+        let revnumber = revnumber.map(|s| apply_header_subs(&s, parser));
         if let Some(revnumber) = revnumber.as_deref() {
             parser.set_attribute_by_value_from_header("revnumber", revnumber);
         }
 
+        let revdate = apply_header_subs(&revdate, parser);
         parser.set_attribute_by_value_from_header("revdate", &revdate);
 
+        let revremark = revremark.map(|s| apply_header_subs(&s, parser));
         if let Some(revremark) = revremark.as_deref() {
             parser.set_attribute_by_value_from_header("revremark", revremark);
         }
 
         Self {
-            revnumber: revnumber.map(|s| apply_header_subs(&s, parser)),
-            revdate: apply_header_subs(&revdate, parser),
-            revremark: revremark.map(|s| apply_header_subs(&s, parser)),
+            revnumber,
+            revdate,
+            revremark,
             source,
         }
     }
-- 
2.43.0


From d508c34e82bdd8253346762cf860b20555c35b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 38/67] fix: escape a lone angle bracket in an author's name

---
 parser/src/document/author.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/author.rs b/parser/src/document/author.rs
index a362bc8..1d5d8e6 100644
--- a/parser/src/document/author.rs
+++ b/parser/src/document/author.rs
@@ -123,7 +123,7 @@ impl Author {
                 // Even after expansion, doesn't match: Treat as single name with HTML encoding.
                 let mut expanded_name = expanded_source;
 
-                if expanded_name.contains('<') && expanded_name.contains('>') {
+                if expanded_name.contains(['<', '>']) {
                     let span = crate::Span::new(&expanded_name);
                     let mut content = crate::content::Content::from(span);
                     crate::content::SubstitutionStep::SpecialCharacters.apply(
@@ -149,7 +149,7 @@ impl Author {
             let mut name = source.to_string();
 
             // Apply HTML encoding for unparseable patterns that contain angle brackets.
-            if name.contains('<') && name.contains('>') {
+            if name.contains(['<', '>']) {
                 let span = crate::Span::new(&name);
                 let mut content = crate::content::Content::from(span);
                 crate::content::SubstitutionStep::SpecialCharacters.apply(
-- 
2.43.0


From 9bc93b5489c864f83cf9f5bce262685902a7ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 39/67] fix: the semicolon that concludes the last author is no
 part of the name

---
 parser/src/document/author_line.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/author_line.rs b/parser/src/document/author_line.rs
index 0c9ef4b..022d87d 100644
--- a/parser/src/document/author_line.rs
+++ b/parser/src/document/author_line.rs
@@ -13,8 +13,12 @@ pub struct AuthorLine<'src> {
 
 impl<'src> AuthorLine<'src> {
     pub(crate) fn parse(source: Span<'src>, parser: &mut Parser) -> Self {
-        let authors: Vec<Author> = source
-            .data()
+        let data = source.data();
+
+        // The semicolon that concludes the last author's information is optional.
+        let authors: Vec<Author> = data
+            .strip_suffix(';')
+            .unwrap_or(data)
             .split("; ")
             .filter_map(|raw_author| Author::parse(raw_author, parser))
             .collect();
-- 
2.43.0


From 8531737f319568440c015cba55e914eacf109e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 40/67] fix: an attribute value without a closing quote is no
 quoted value

---
 parser/src/attributes/element_attribute.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index c485f1c..9f6608a 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -57,10 +57,13 @@ impl<'src> ElementAttribute<'src> {
             let after = after.take_whitespace_with_newline().after;
             let first_char = after.data().chars().next();
 
+            let mut enclosing_quote: Option<char> = None;
+
             let value = match first_char {
                 Some('\'') | Some('"') => match after.take_quoted_string() {
                     Some(v) => {
                         parse_shorthand = ParseShorthand(false);
+                        enclosing_quote = first_char;
                         v
                     }
                     None => {
@@ -74,9 +77,7 @@ impl<'src> ElementAttribute<'src> {
             let after = value.after;
             let mut value = cowstr_from_source_and_span(source_text, &value.item);
 
-            if let Some(first) = first_char
-                && (first == '\'' || first == '\"')
-            {
+            if let Some(first) = enclosing_quote {
                 let escaped_quote = format!("\\{first}");
                 let mut new_value = value.replace(&escaped_quote, &first.to_string());
 
-- 
2.43.0


From 7a587c3d23176dea41e6850bf6e08f8a548423dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 41/67] fix: ignore tabs at the end of an unquoted attribute
 value

---
 parser/src/attributes/element_attribute.rs |  4 ++--
 parser/src/span/matched_item.rs            | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index 9f6608a..50478cd 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -68,10 +68,10 @@ impl<'src> ElementAttribute<'src> {
                     }
                     None => {
                         warnings.push(WarningType::AttributeValueMissingTerminatingQuote);
-                        after.take_while(|c| c != ',').trim_item_trailing_spaces()
+                        after.take_while(|c| c != ',').trim_item_trailing_whitespace()
                     }
                 },
-                _ => after.take_while(|c| c != ',').trim_item_trailing_spaces(),
+                _ => after.take_while(|c| c != ',').trim_item_trailing_whitespace(),
             };
 
             let after = value.after;
diff --git a/parser/src/span/matched_item.rs b/parser/src/span/matched_item.rs
index 929828a..ca96689 100644
--- a/parser/src/span/matched_item.rs
+++ b/parser/src/span/matched_item.rs
@@ -50,6 +50,18 @@ impl<'src> MatchedItem<'src, Span<'src>> {
             after: self.after,
         }
     }
+
+    /// Remove any trailing spaces and tabs from the item span.
+    ///
+    /// (Does not affect `self.after`.)
+    pub(crate) fn trim_item_trailing_whitespace(&self) -> Self {
+        let source = self.item.trim_end_matches([' ', '\t']);
+        let source = self.item.slice(0..source.len());
+        Self {
+            item: source,
+            after: self.after,
+        }
+    }
 }
 
 impl<'src, U> Default for MatchedItem<'src, U>
-- 
2.43.0


From f42122b8e70af6096197628806d4486da5348669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 42/67] fix: the name of a named attribute may contain any
 letter and underscores

---
 parser/src/span/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/span/primitives.rs b/parser/src/span/primitives.rs
index b676829..ed806de 100644
--- a/parser/src/span/primitives.rs
+++ b/parser/src/span/primitives.rs
@@ -39,12 +39,12 @@ impl<'src> Span<'src> {
         let mut chars = self.data.char_indices();
 
         let (_, c) = chars.next()?;
-        if !c.is_ascii_alphanumeric() {
+        if !c.is_alphanumeric() {
             return None;
         }
 
         for (index, c) in chars {
-            if !c.is_ascii_alphanumeric() && c != '-' {
+            if !c.is_alphanumeric() && c != '_' && c != '-' {
                 return Some(self.into_parse_result(index));
             }
         }
-- 
2.43.0


From 56748042977e57b88b12cf651a8b41340a5295eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 43/67] fix: a single-quoted attribute value that starts with
 an escaped quote gets no substitutions

---
 parser/src/attributes/element_attribute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index 50478cd..97e679b 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -81,7 +81,11 @@ impl<'src> ElementAttribute<'src> {
                 let escaped_quote = format!("\\{first}");
                 let mut new_value = value.replace(&escaped_quote, &first.to_string());
 
-                if first == '\'' && attrlist_context == AttrlistContext::Block {
+                // A value that starts with an escaped single quote gets no substitutions.
+                if first == '\''
+                    && !value.starts_with("\\'")
+                    && attrlist_context == AttrlistContext::Block
+                {
                     let span = Span::new(&new_value);
                     let mut content = Content::from(span);
                     SubstitutionGroup::Normal.apply(&mut content, parser, None);
-- 
2.43.0


From 76754be220f845f9d172fe541105d218c5027b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:02 +0000
Subject: [PATCH 44/67] fix: derive the names of an author from the whole value
 of a continued author attribute

---
 parser/src/document/attribute.rs | 84 +++++++++++++++++++-------------
 parser/src/document/header.rs    |  4 +-
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 7a05e94..ced6665 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -95,6 +95,12 @@ impl<'src> Attribute<'src> {
         self.value_source
     }
 
+    /// Return the attribute's raw value with its lines joined, if there was one.
+    pub(crate) fn joined_raw_value(&self) -> Option<String> {
+        self.value_source
+            .map(|raw_value| join_lines(raw_value.data()))
+    }
+
     /// Return the attribute's interpolated value.
     pub fn value(&'src self) -> &'src InterpretedValue {
         &self.value
@@ -171,43 +177,10 @@ impl std::fmt::Debug for InterpretedValue {
 
 impl InterpretedValue {
     fn from_raw_value(raw_value: &Span<'_>, parser: &Parser) -> Self {
-        let data = raw_value.data();
         let mut content = Content::from(*raw_value);
 
-        if data.contains('\n') {
-            let lines: Vec<&str> = data.lines().collect();
-            let last_count = lines.len() - 1;
-
-            let value: Vec<String> = lines
-                .iter()
-                .enumerate()
-                .map(|(count, line)| {
-                    let line = if count > 0 {
-                        line.trim_start_matches([' ', '\t'])
-                    } else {
-                        line
-                    };
-
-                    let line = line
-                        .trim_start_matches('\r')
-                        .trim_end_matches(' ')
-                        .trim_end_matches('\\')
-                        .trim_end_matches(' ');
-
-                    if count == last_count {
-                        line.to_string()
-                    } else if let Some(hard_wrapped) = line
-                        .strip_suffix('+')
-                        .filter(|line| line.is_empty() || line.ends_with(' '))
-                    {
-                        format!("{}\n", hard_wrapped.trim_end_matches(' '))
-                    } else {
-                        format!("{line} ")
-                    }
-                })
-                .collect();
-
-            content.rendered = CowStr::Boxed(value.join("").into_boxed_str());
+        if raw_value.contains('\n') {
+            content.rendered = CowStr::Boxed(join_lines(raw_value.data()).into_boxed_str());
         }
 
         SubstitutionGroup::Header.apply(&mut content, parser, None);
@@ -223,6 +196,47 @@ impl InterpretedValue {
     }
 }
 
+/// Join the lines of an attribute value that is continued on subsequent lines.
+fn join_lines(data: &str) -> String {
+    if !data.contains('\n') {
+        return data.to_string();
+    }
+
+    let lines: Vec<&str> = data.lines().collect();
+    let last_count = lines.len() - 1;
+
+    let value: Vec<String> = lines
+        .iter()
+        .enumerate()
+        .map(|(count, line)| {
+            let line = if count > 0 {
+                line.trim_start_matches([' ', '\t'])
+            } else {
+                line
+            };
+
+            let line = line
+                .trim_start_matches('\r')
+                .trim_end_matches(' ')
+                .trim_end_matches('\\')
+                .trim_end_matches(' ');
+
+            if count == last_count {
+                line.to_string()
+            } else if let Some(hard_wrapped) = line
+                .strip_suffix('+')
+                .filter(|line| line.is_empty() || line.ends_with(' '))
+            {
+                format!("{}\n", hard_wrapped.trim_end_matches(' '))
+            } else {
+                format!("{line} ")
+            }
+        })
+        .collect();
+
+    value.join("")
+}
+
 #[cfg(test)]
 mod tests {
     #![allow(clippy::panic)]
diff --git a/parser/src/document/header.rs b/parser/src/document/header.rs
index 74157cd..73899a2 100644
--- a/parser/src/document/header.rs
+++ b/parser/src/document/header.rs
@@ -58,8 +58,8 @@ impl<'src> Header<'src> {
                 // Special handling for :author: attribute to populate individual author
                 // attributes.
                 if attr.item.name().data().eq_ignore_ascii_case("author")
-                    && let Some(raw_value) = attr.item.raw_value()
-                    && let Some(author) = Author::parse(raw_value.data(), parser)
+                    && let Some(raw_value) = attr.item.joined_raw_value()
+                    && let Some(author) = Author::parse(&raw_value, parser)
                 {
                     // Set individual author attributes.
                     parser.set_attribute_by_value_from_header("firstname", author.firstname());
-- 
2.43.0


From 2c48857d02eba9bdd58232afc78195504a19184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 45/67] fix: a hard line break at the end of the only line is
 one, too

---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index b3ab7db..303eec2 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -734,7 +734,7 @@ fn apply_post_replacements(
         content.rendered = new_result.into();
     } else {
         let rendered = content.rendered.as_ref();
-        if !(rendered.contains('+') && rendered.contains('\n')) {
+        if !rendered.contains('+') {
             return;
         }
 
-- 
2.43.0


From 75eed95d83d0b03c86f029654b47325bc069df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 46/67] fix: text in macros is not attribute shorthand

---
 parser/src/attributes/attrlist.rs          |  6 +++++-
 parser/src/attributes/element_attribute.rs |  7 +++++++
 parser/src/blocks/media.rs                 |  2 +-
 parser/src/content/macros.rs               | 12 ++++++------
 parser/src/parser/preprocessor.rs          |  2 +-
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 2fda968..650505e 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -47,7 +47,10 @@ impl<'src> Attrlist<'src> {
             CowStr::from(source.data())
         };
 
-        if source_cow.starts_with('[') && source_cow.ends_with(']') {
+        if attrlist_context != AttrlistContext::Macro
+            && source_cow.starts_with('[')
+            && source_cow.ends_with(']')
+        {
             let anchor = source_cow[1..source_cow.len() - 1].to_owned();
 
             return MatchAndWarnings {
@@ -427,6 +430,7 @@ impl std::fmt::Debug for Attrlist<'_> {
 pub(crate) enum AttrlistContext {
     Block,
     Inline,
+    Macro,
 }
 
 #[cfg(test)]
diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index 97e679b..0712e9f 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -100,6 +100,13 @@ impl<'src> ElementAttribute<'src> {
                 }
             }
 
+            // The shorthand notation is for block attribute lines and formatted text. In a
+            // macro, those characters are just part of the text.
+            if attrlist_context == AttrlistContext::Macro && value.contains(is_shorthand_delimiter)
+            {
+                parse_shorthand = ParseShorthand(false);
+            }
+
             let shorthand_item_indices = if name.is_none() && parse_shorthand.0 {
                 parse_shorthand_items(&value, &mut warnings)
             } else {
diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index e7e2c72..9e26cbd 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -114,7 +114,7 @@ impl<'src> MediaBlock<'src> {
         let attrlist = open_brace.after.slice(0..open_brace.after.len() - 1);
         // Note that we already checked that this line ends with a close brace.
 
-        let macro_attrlist = Attrlist::parse(attrlist, parser, AttrlistContext::Inline);
+        let macro_attrlist = Attrlist::parse(attrlist, parser, AttrlistContext::Macro);
 
         let source: Span = metadata.source.trim_remainder(line.after);
         let source = source.slice(0..source.trim().len());
diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index d18d0bf..bab262b 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -143,7 +143,7 @@ impl Replacer for InlineImageMacroReplacer<'_> {
 
         let target = &caps[1];
         let span = Span::new(&caps[2]);
-        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Inline)
+        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
 
@@ -237,7 +237,7 @@ struct InlineLinkReplacer<'p>(&'p Parser);
 
 impl Replacer for InlineLinkReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        let mut attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+        let mut attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
             .item
             .item;
 
@@ -528,7 +528,7 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         let attrlist = if let Some(attrlist) = attrlist {
             attrlist
         } else {
-            Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+            Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
                 .item
                 .item
         };
@@ -580,7 +580,7 @@ fn extract_attributes_from_text<'src>(
     parser: &Parser,
     default_text: Option<&str>,
 ) -> (String, Attrlist<'src>) {
-    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Inline);
+    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Macro);
     let attrs = attrlist_maw.item.item;
 
     if let Some(resolved_text) = attrs.nth_attribute(1) {
@@ -590,7 +590,7 @@ fn extract_attributes_from_text<'src>(
         // constraint that should make this impossible.
 
         /* if resolved_text.value() == text.data() {
-            let empty_attrs = Attrlist::parse(Span::default(), parser, AttrlistContext::Inline).item.item;
+            let empty_attrs = Attrlist::parse(Span::default(), parser, AttrlistContext::Macro).item.item;
             (text.data().to_owned(), empty_attrs)
         } else { */
         (resolved_text.value().to_owned(), attrs)
@@ -690,7 +690,7 @@ impl Replacer for InlineEmailReplacer<'_> {
 
         let target = format!("mailto:{mailto}", mailto = &caps[2]);
 
-        let attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+        let attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
             .item
             .item;
 
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 3b4b067..8137971 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -133,7 +133,7 @@ impl<'p> PreprocessorState<'p> {
                     .get(2)
                     .map(|attrlist| {
                         let span = Span::new(attrlist.as_str());
-                        Attrlist::parse(span, self.parser, AttrlistContext::Inline)
+                        Attrlist::parse(span, self.parser, AttrlistContext::Macro)
                             .item
                             .item
                     })
-- 
2.43.0


From d9fd9e7bee9dae5c1adcc6b4e047335c7c9cbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 47/67] fix: attribute lists of inline macros over several
 lines, with escaped brackets

---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index bab262b..44ea2b2 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -142,7 +142,8 @@ impl Replacer for InlineImageMacroReplacer<'_> {
         }
 
         let target = &caps[1];
-        let span = Span::new(&caps[2]);
+        let attrlist_source = normalize_text_lf_escaped_bracket(&caps[2]);
+        let span = Span::new(&attrlist_source);
         let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
@@ -358,7 +359,8 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut bare = false;
 
-        let link_text_for_attrlist = link_text.clone().unwrap_or_default();
+        let link_text_for_attrlist =
+            normalize_text_lf_escaped_bracket(link_text.as_deref().unwrap_or_default());
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
@@ -482,7 +484,7 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-        let link_text_for_attrlist = link_text.replace("\n", " ");
+        let link_text_for_attrlist = normalize_text_lf_escaped_bracket(&link_text);
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
-- 
2.43.0


From 86adf00b3291cddd41cc445d7b519b035cf79124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 48/67] fix: a URL of which nothing but the scheme is left is
 no link

---
 parser/src/content/macros.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 44ea2b2..f7256b7 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -354,6 +354,12 @@ impl Replacer for InlineLinkReplacer<'_> {
                     target.truncate(target.len() - 1);
                     suffix = format!("){suffix}");
                 }
+
+                if target == scheme {
+                    // There's nothing left of the URL.
+                    dest.push_str(&caps[0]);
+                    return;
+                }
             }
         }
 
-- 
2.43.0


From ab93a46e8a63ac2b8d4af388c67cf00ce6742d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 49/67] fix: incremental substitutions of a pass paragraph
 start from none

---
 parser/src/content/substitution_group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index bf0a5b4..c0eb804 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -201,7 +201,7 @@ impl SubstitutionGroup {
             if let Some(sub_group) = attrlist
                 .named_attribute("subs")
                 .map(|attr| attr.value())
-                .and_then(|s| Self::from_custom_string(Some(self), s))
+                .and_then(|s| Self::from_custom_string(Some(&result), s))
             {
                 result = sub_group;
             }
-- 
2.43.0


From f8165878c80b6a22d0abb5bb1d165a833202a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 50/67] fix: a group in a list of substitutions adds to what is
 before it

---
 parser/src/content/substitution_group.rs | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index c0eb804..ed0ce5e 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -91,20 +91,20 @@ impl SubstitutionGroup {
         for (count, mut step) in custom.split(",").enumerate() {
             step = step.trim();
 
-            if step == "n" || step == "normal" {
-                steps = vec![
-                    SubstitutionStep::SpecialCharacters,
-                    SubstitutionStep::Quotes,
-                    SubstitutionStep::AttributeReferences,
-                    SubstitutionStep::CharacterReplacements,
-                    SubstitutionStep::Macros,
-                    SubstitutionStep::PostReplacement,
-                ];
-                continue;
-            }
+            // A group adds those of its steps that aren't there yet.
+            let group = match step {
+                "none" => Some(Self::None),
+                "n" | "normal" => Some(Self::Normal),
+                "v" | "verbatim" => Some(Self::Verbatim),
+                _ => None,
+            };
 
-            if step == "v" || step == "verbatim" {
-                steps = vec![SubstitutionStep::SpecialCharacters];
+            if let Some(group) = group {
+                for step in group.steps() {
+                    if !steps.contains(step) {
+                        steps.push(*step);
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From 46ffd283cd4bac7a2ecc0bc7d9aa370371509691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 51/67] fix: trailing spaces keep no line from being an include
 directive or blank

---
 parser/src/parser/preprocessor.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 8137971..1b558c5 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -84,6 +84,9 @@ impl<'p> PreprocessorState<'p> {
 
             let source_line_number = line.line();
 
+            // As elsewhere, trailing spaces don't count.
+            let normalized_line = line.trim_end_matches(' ');
+
             if self.can_have_attribute
                 && line.starts_with(':')
                 && (line.ends_with(':') || line.contains(": "))
@@ -124,8 +127,8 @@ impl<'p> PreprocessorState<'p> {
                     + 1;
 
                 source_span = attr.after;
-            } else if line.starts_with("include::")
-                && let Some(caps) = INCLUDE_DIRECTIVE.captures(line.data())
+            } else if normalized_line.starts_with("include::")
+                && let Some(caps) = INCLUDE_DIRECTIVE.captures(normalized_line)
             {
                 let target = self.substitute_attributes(&caps[1]);
 
@@ -182,7 +185,7 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
+                if normalized_line.is_empty() {
                     self.in_document_header = false;
                     self.can_have_attribute = true;
                 } else if !self.in_document_header {
-- 
2.43.0


From 3d69d8c860a69ef2d8347b136d5b21540ecb2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 52/67] fix: remove the backslash of an escaped include
 directive

---
 parser/src/parser/preprocessor.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 1b558c5..dc112b4 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -26,6 +26,8 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     if !source.starts_with("include::")
         && !source.starts_with("if")
         && !source.contains("\ninclude::")
+        && !source.starts_with("\\include::")
+        && !source.contains("\n\\include::")
         && !source.contains("\nif")
         && parser.primary_file_name.is_none()
     {
@@ -192,8 +194,14 @@ impl<'p> PreprocessorState<'p> {
                     self.can_have_attribute = false;
                 }
 
+                // The backslash that escapes an include directive goes away.
+                let line = line
+                    .strip_prefix('\\')
+                    .filter(|_| INCLUDE_DIRECTIVE.is_match(&normalized_line[1..]))
+                    .unwrap_or(line.data());
+
                 self.output_line_number += 1;
-                self.output.push_str(line.data());
+                self.output.push_str(line);
                 self.output.push('\n');
             }
         }
-- 
2.43.0


From 9dba7843fabf2bc1395bfc54ba5fb856a9e727cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 53/67] fix: keep the role and ID of text in curved quotes

---
 .../src/parser/inline_substitution_renderer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 59442f2..f154da8 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -379,15 +379,21 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             }
 
             QuoteType::DoubleQuote => {
-                dest.push_str("&#8220;");
-                dest.push_str(body);
-                dest.push_str("&#8221;");
+                let body = format!("&#8220;{body}&#8221;");
+                if roles.is_empty() && id.is_none() {
+                    dest.push_str(&body);
+                } else {
+                    wrap_body_in_html_tag(attrlist.as_ref(), "span", id, roles, &body, dest);
+                }
             }
 
             QuoteType::SingleQuote => {
-                dest.push_str("&#8216;");
-                dest.push_str(body);
-                dest.push_str("&#8217;");
+                let body = format!("&#8216;{body}&#8217;");
+                if roles.is_empty() && id.is_none() {
+                    dest.push_str(&body);
+                } else {
+                    wrap_body_in_html_tag(attrlist.as_ref(), "span", id, roles, &body, dest);
+                }
             }
 
             QuoteType::Monospaced => {
-- 
2.43.0


From b4ee4df95aa4ba41f431ee0e32db00cc2af6697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 54/67] fix: encode quotes in the title of an icon

---
 parser/src/parser/inline_substitution_renderer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index f154da8..1d4162c 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -592,7 +592,10 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
                     r##"<i class="{i_class_attr_val}"{title_attr}></i>"##,
                     i_class_attr_val = i_class_attrs.join(" "),
                     title_attr = if let Some(title) = params.attrlist.named_attribute("title") {
-                        format!(r#" title="{title}""#, title = title.value())
+                        format!(
+                            r#" title="{title}""#,
+                            title = encode_attribute_value(title.value().to_owned())
+                        )
                     } else {
                         "".to_owned()
                     }
@@ -615,7 +618,10 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
                 }
 
                 if let Some(title) = params.attrlist.named_attribute("title") {
-                    attrs.push(format!(r#"title="{title}""#, title = title.value()));
+                    attrs.push(format!(
+                        r#"title="{title}""#,
+                        title = encode_attribute_value(title.value().to_owned())
+                    ));
                 }
 
                 format!(
-- 
2.43.0


From 71ff41210e2eb3ecffc387f60bb85197049472d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 55/67] fix: a revision number may be an attribute reference

---
 parser/src/document/revision_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 20afde0..0436667 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -130,12 +130,12 @@ fn strip_non_numeric_prefix(s: &str) -> String {
 
 static STANDALONE_REVISION: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
-    Regex::new(r"^v[0-9]").unwrap()
+    Regex::new(r"^v[0-9{]").unwrap()
 });
 
 static NON_NUMERIC_PREFIX: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
-    Regex::new(r"^[^0-9]*(.*)$").unwrap()
+    Regex::new(r"^[^0-9{]*(.*)$").unwrap()
 });
 
 #[cfg(test)]
-- 
2.43.0


From 3b13c9a93b545af7239abd6f582423f32f9a6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:51 +0000
Subject: [PATCH 56/67] fix: an escaped attribute list before text in single
 pluses loses its backslash

---
 parser/src/content/passthroughs.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index ee424b6..8aa2ae1 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -340,6 +340,28 @@ struct InlinePassReplacer<'p>(&'p mut Passthroughs);
 
 impl Replacer for InlinePassReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+        if dest.ends_with('\\')
+            && let Some(attrlist) = caps.get(3)
+            && caps.get(4).is_none_or(|escapes| escapes.is_empty())
+        {
+            // Honor the escape of the attributes.
+            dest.truncate(dest.len() - 1);
+            dest.push('[');
+            dest.push_str(attrlist.as_str());
+            dest.push(']');
+
+            self.0.push(
+                Passthrough {
+                    text: caps[5].to_string(),
+                    subs: SubstitutionGroup::Verbatim,
+                    type_: None,
+                    attrlist: None,
+                },
+                dest,
+            );
+            return;
+        }
+
         if dest.ends_with('\\') || dest.ends_with(':') || dest.ends_with(';') {
             // Honor the prohibited prefix.
             // let dest_ended_with_backslash = dest.ends_with('\\');
-- 
2.43.0


From f02c093339ff9ea289d59835c0c04f02f290ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:03 +0000
Subject: [PATCH 57/67] fix: the value of an attribute entry must be offset
 from its name

---
 parser/src/document/attribute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index ced6665..cc4e0be 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -60,6 +60,11 @@ impl<'src> Attribute<'src> {
 
         let line = line.take_prefix(":")?;
 
+        // The value must be set off from the name.
+        if !line.after.is_empty() && !line.after.starts_with([' ', '\t']) {
+            return None;
+        }
+
         let (value, value_source) = if unset {
             // Ensure line is now empty except for comment.
             (InterpretedValue::Unset, None)
-- 
2.43.0


From 139eac6003152573fe5c66a431596436af2d2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:03 +0000
Subject: [PATCH 58/67] fix: condense the separators between the prefix and the
 title in a section ID

---
 parser/src/blocks/section.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index f07480f..ffc6ba0 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -456,7 +456,9 @@ fn generate_section_id(title: &str, parser: &Parser) -> String {
             gen_id.pop();
         }
 
-        if idprefix.is_empty() && gen_id.starts_with(&sep) {
+        // NOTE: A separator at the end of the prefix and one at the start of the title
+        // are repeating separators, too.
+        if (idprefix.is_empty() || idprefix.ends_with(&sep)) && gen_id.starts_with(&sep) {
             gen_id = gen_id[sep.len()..].to_string();
         }
     }
-- 
2.43.0


From de8afe140e5b687969f92ddb908d773042515c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 59/67] fix: recognize attribute entries with a tab before the
 value outside of the header, too

---
 parser/src/blocks/block.rs        | 1 -
 parser/src/parser/preprocessor.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57858b5..4990060 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -134,7 +134,6 @@ impl<'src> Block<'src> {
 
         // Look for document attributes first since these don't support block metadata.
         if first_line.item.starts_with(':')
-            && (first_line.item.ends_with(':') || first_line.item.contains(": "))
             && let Some(attr) = Attribute::parse(source, parser)
         {
             let mut warnings: Vec<Warning<'src>> = vec![];
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index dc112b4..143d9f2 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -91,7 +91,6 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
-- 
2.43.0


From a83bc05371f4643f0499ccf5862dafee239016c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 60/67] fix: ignore passthroughs inside the value of an
 attribute entry

---
 parser/src/document/attribute.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index cc4e0be..dd3c05e 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -1,3 +1,7 @@
+use std::sync::LazyLock;
+
+use regex::Regex;
+
 use crate::{
     HasSpan, Parser, Span,
     attributes::Attrlist,
@@ -180,6 +184,12 @@ impl std::fmt::Debug for InterpretedValue {
     }
 }
 
+/// Matches an inline pass macro that surrounds the value of an attribute entry.
+static PASS_MACRO: LazyLock<Regex> = LazyLock::new(|| {
+    #[allow(clippy::unwrap_used)]
+    Regex::new(r"(?s)\Apass:([a-z]+(?:,[a-z-]+)*)?\[(.*)\]\z").unwrap()
+});
+
 impl InterpretedValue {
     fn from_raw_value(raw_value: &Span<'_>, parser: &Parser) -> Self {
         let mut content = Content::from(*raw_value);
@@ -188,7 +198,24 @@ impl InterpretedValue {
             content.rendered = CowStr::Boxed(join_lines(raw_value.data()).into_boxed_str());
         }
 
-        SubstitutionGroup::Header.apply(&mut content, parser, None);
+        // An inline pass macro only counts when it surrounds the whole value.
+        let pass_macro = PASS_MACRO.captures(&content.rendered).map(|caps| {
+            (
+                caps.get(1).map(|subs| subs.as_str().to_string()),
+                caps[2].to_string(),
+            )
+        });
+
+        let subs = if let Some((subs, text)) = pass_macro {
+            content.rendered = text.into();
+
+            subs.and_then(|subs| SubstitutionGroup::from_custom_string(None, &subs))
+                .unwrap_or(SubstitutionGroup::None)
+        } else {
+            SubstitutionGroup::AttributeEntryValue
+        };
+
+        subs.apply(&mut content, parser, None);
 
         InterpretedValue::Value(content.rendered.into_string())
     }
-- 
2.43.0


From 1d01c3f33f9ee8707ee1447901bd7341cfaab188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:04 +0000
Subject: [PATCH 61/67] fix: leave out the spaces between the comma and the
 reference text of a block anchor

---
 parser/src/blocks/metadata.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index 1f6f81a..d867f45 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -24,7 +24,8 @@ pub(crate) struct BlockMetadata<'src> {
     pub(crate) anchor: Option<Span<'src>>,
 
     /// The block anchor's reftext, if any. The span includes only the portion
-    /// from the first comma to just inside the closing square brace pair.
+    /// from the first comma (and the spaces that follow it) to just inside the
+    /// closing square brace pair.
     pub(crate) anchor_reftext: Option<Span<'src>>,
 
     /// The block's attribute list, if any.
@@ -93,14 +94,17 @@ impl<'src> BlockMetadata<'src> {
                         let anchor_span = mi.item.slice_to(RangeTo {
                             end: comma_position,
                         });
-                        let reftext_span = mi.item.slice_from(RangeFrom {
-                            start: comma_position + 1,
-                        });
+                        let reftext_span = mi
+                            .item
+                            .slice_from(RangeFrom {
+                                start: comma_position + 1,
+                            })
+                            .discard_whitespace();
 
                         // Validate anchor name.
                         if anchor_span.is_xml_name() {
                             anchor = Some(anchor_span);
-                            reftext = Some(reftext_span);
+                            reftext = (!reftext_span.is_empty()).then_some(reftext_span);
                             block_start = mi.after;
                         } else {
                             warnings.push(Warning {
-- 
2.43.0


From dbcf945b28ac622bda2b98ec072de0ecedbe38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:04 +0000
Subject: [PATCH 62/67] fix: a line that is only a dot is not a block title

---
 parser/src/blocks/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index d867f45..b1e93a7 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -70,7 +70,7 @@ impl<'src> BlockMetadata<'src> {
                 let maybe_title = block_start.take_normalized_line();
                 if maybe_title.item.starts_with('.') && !maybe_title.item.starts_with("..") {
                     let title = maybe_title.item.discard(1);
-                    if title.take_whitespace().item.is_empty() {
+                    if !title.is_empty() && title.take_whitespace().item.is_empty() {
                         title_source = Some(title);
                         block_start = maybe_title.after;
                         continue;
-- 
2.43.0


From 7f3431df9918bd217f6e65264167740a70751167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:48 +0000
Subject: [PATCH 63/67] fix: leave spaces after the closing delimiter out of a
 raw block's source

An unterminated outer block ends before them, so the inner block's source
reached outside that of its parent.
---
 parser/src/blocks/raw_delimited.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 0adc915..91b74d6 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -113,7 +113,7 @@ impl<'src> RawDelimitedBlock<'src> {
                             source: metadata
                                 .source
                                 .trim_remainder(line.after)
-                                .trim_trailing_line_end(),
+                                .trim_trailing_whitespace(),
                             title_source: metadata.title_source,
                             title: metadata.title.clone(),
                             anchor: metadata.anchor,
-- 
2.43.0


From 96759fde603fa7f5c11373d11cb1d5dcc9de04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:56 +0000
Subject: [PATCH 64/67] fix: accept false for an unset attribute in the ASG
 schema

The schema's own sample-2.json, which should be valid, has one.
---
 asg/schema.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asg/schema.json b/asg/schema.json
index 71f41d7..476cb18 100644
--- a/asg/schema.json
+++ b/asg/schema.json
@@ -23,7 +23,8 @@
         "^[a-zA-Z0-9_][-a-zA-Z0-9_]*$": {
           "oneOf": [
             { "type": "string" },
-            { "type": "null" }
+            { "type": "null" },
+            { "const": false }
           ]
         }
       }
-- 
2.43.0


From 325ca24c468b1029e0c6835f905434db17a6232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:56 +0000
Subject: [PATCH 65/67] fix: give each node of an ASG its own default values

The arrays and objects of the schema were put into the data themselves, so
that adding to the default of one node changed all others, and those of
documents validated later.
---
 asg/lib/ajv-keyword-defaults.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asg/lib/ajv-keyword-defaults.js b/asg/lib/ajv-keyword-defaults.js
index 6b51e64..78c5dd2 100644
--- a/asg/lib/ajv-keyword-defaults.js
+++ b/asg/lib/ajv-keyword-defaults.js
@@ -6,7 +6,7 @@ export default function getDef () {
     modifying: true,
     valid: true,
     compile: (defaults) => (data) => {
-      for (const [name, val] of Object.entries(defaults)) data[name] ??= val
+      for (const [name, val] of Object.entries(defaults)) data[name] ??= structuredClone(val)
     },
   }
 }
-- 
2.43.0


From c8ba52eb3fe00fdbcf55ad41488cc29954bc69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:18 +0000
Subject: [PATCH 66/67] fix: keep the blank lines that end a continued
 attribute value when preprocessing

---
 parser/src/parser/preprocessor.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 143d9f2..04c3f1f 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -114,18 +114,19 @@ impl<'p> PreprocessorState<'p> {
                         .set_attribute_from_body(&attr.item, &mut warnings);
                 }
 
-                self.output.push_str(attr.item.span().data());
-                self.output.push('\n');
+                let entry = attr.item.span().data();
+                self.output.push_str(entry);
+
+                // A continued value might end with blank lines, which are not part of the
+                // entry's span.
+                let consumed_lines =
+                    line_end_count(original_source.trim_remainder(attr.after).data());
+                let entry_lines = line_end_count(entry);
+                for _ in entry_lines..consumed_lines.max(entry_lines + 1) {
+                    self.output.push('\n');
+                }
 
-                self.output_line_number += attr
-                    .item
-                    .span()
-                    .data()
-                    .as_bytes()
-                    .iter()
-                    .filter(|&&b| b == b'\n')
-                    .count()
-                    + 1;
+                self.output_line_number += consumed_lines.max(entry_lines + 1);
 
                 source_span = attr.after;
             } else if normalized_line.starts_with("include::")
@@ -251,6 +252,10 @@ impl<'p> PreprocessorState<'p> {
     }
 }
 
+fn line_end_count(text: &str) -> usize {
+    text.bytes().filter(|&b| b == b'\n').count()
+}
+
 fn to_owned(maybe_file_name: Option<&str>) -> Option<String> {
     maybe_file_name.map(|n| n.to_string())
 }
-- 
2.43.0


From f6016ead73480988e3c858a687c6080b58ee4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:41 +0000
Subject: [PATCH 67/67] fix: icons are off once the icons attribute is unset

---
 parser/src/parser/inline_substitution_renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 1d4162c..5b9f7f1 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -568,7 +568,7 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
     fn render_icon(&self, params: &IconRenderParams, dest: &mut String) {
         let src = self.icon_uri(params.target, params.attrlist, params.parser);
 
-        let img = if params.parser.has_attribute("icons") {
+        let img = if params.parser.is_attribute_set("icons") {
             let icons = params.parser.attribute_value("icons");
             if let Some(icons) = icons.as_maybe_str()
                 && icons == "font"
-- 
2.43.0

