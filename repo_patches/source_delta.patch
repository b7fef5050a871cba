From 4c043c3f979d7a14637b107ab3b88c80f622c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 01/17] fix: count columns of error reports in characters, not
 bytes

A parse error past the 40th byte of a line with multi-byte characters made
the rendering of the error panic or point at the wrong column.
---
 src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..e8e1846 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input_before[line_start_offset..].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 1eea7ba3f9bccef998195e0bd871fc8e0acf41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 02/17] fix: accept empty included sections and reject
 malformed content in them

In ExpandAll mode, the rest of an INCLUDE section after content that could
not be parsed was silently discarded up to the first ]]>. Conversely, in
both modes that read INCLUDE sections, an empty section or one starting with
a comment was rejected.
---
 src/parser/events.rs | 45 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..32ce1f5 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -8,7 +8,7 @@ use nom::branch::alt;
 use nom::combinator::{all_consuming, cut, map, recognize, value};
 use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
 use nom::multi::{many0, many0_count, many1};
-use nom::sequence::{terminated, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 use crate::marked_sections::MarkedSectionStatus;
@@ -140,10 +140,8 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
-                    raw::marked_section_end,
+                    recognize(|input| included_content(input, config)),
+                    included_content_end,
                 )(input),
             }?;
             Ok((
@@ -172,15 +170,48 @@ where
             }
             MarkedSectionStatus::Include => terminated(
                 map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
+                    |input| included_content(input, config),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                included_content_end,
             )(input),
         },
     }
 }
 
+/// Matches the content of an `INCLUDE` marked section.
+///
+/// Unlike the content of a document, it may be empty, or contain only comments.
+fn included_content<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    map(
+        preceded(
+            many0_count(comment_declaration),
+            many0(terminated(
+                |input| content_item(input, config, MarkedSectionEndHandling::StopParsing),
+                many0_count(comment_declaration),
+            )),
+        ),
+        |items| items.into_iter().flatten(),
+    )(input)
+}
+
+/// Matches the end of an `INCLUDE` marked section; nothing else may follow its content.
+fn included_content_end<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str>,
+{
+    context(
+        r##"marked section end ("]]>")"##,
+        cut(raw::marked_section_end),
+    )(input)
+}
+
 pub fn processing_instruction<'a, E>(
     input: &'a str,
     config: &ParserConfig,
-- 
2.43.0


From 87311ae3122826d048f5c2d0b1fe62b80ee43753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 03/17] fix: report undefined entities in text where they are

The error for an undefined reference in text, in an RCDATA section or in
section keywords was discarded by backtracking, leaving a report that named
neither the entity nor its location.
---
 src/parser/events.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 32ce1f5..da764df 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(unrecoverable)?;
 
         let status = match config
             .marked_section_handling
@@ -164,7 +166,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(unrecoverable)?,
                     )),
                 ))
             }
@@ -374,10 +378,20 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(unrecoverable)?,
+        )),
     ))
 }
 
+/// Prevents other alternatives from being tried, so that the error is the one reported.
+fn unrecoverable<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From 060f815c6e19e7a3b4aba8a771c3e885d1584ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 04/17] fix: recognize the empty comment declaration after text

'<!>' was taken as part of the text it follows, while it is matched as a
comment everywhere else.
---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..fb24df8 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -182,6 +182,7 @@ where
                 not(alt((
                     tag("?"),
                     tag("!-"),
+                    tag("!>"),
                     tag("!["),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
-- 
2.43.0


From 4e5bde39694d826f4002cb7d0e5cabc41fe662e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 05/17] fix: normalize the case of title case letters in names

Names whose only letters to be converted are title case (U+01C5, U+1F88...)
were left as they were.
---
 src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..85db6d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -157,11 +157,13 @@ impl Default for NameNormalization {
 
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
+        // Some characters, like title case letters, are neither uppercase nor lowercase,
+        // but still change when converted
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            NameNormalization::ToLowercase if name.chars().any(|c| !c.to_lowercase().eq([c])) => {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase if name.chars().any(|c| !c.to_uppercase().eq([c])) => {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From 5c9612b2088cc8850a99622e9ab93e17977c9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 06/17] fix: match nested ignored sections without recursion

Thousands of nested, or merely consecutive, section starts inside an ignored
section overflowed the stack.
---
 src/parser/raw.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index fb24df8..ae235e0 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -129,21 +129,31 @@ pub fn marked_section_body_ignore<'a, E>(input: &'a str) -> IResult<&'a str, &'a
 where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
-    use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    use nom::{FindSubstring, InputTake, Slice};
+    // What follows the start of each nested section that is still open
+    let mut open_sections = Vec::new();
+    let mut remainder = input;
+    loop {
+        let (close_suffix, close_match) = match open_sections.last() {
+            Some(&nested) => {
+                marked_section_body_character_data(remainder).map_err(|err: nom::Err<E>| {
+                    err.map(|err| E::add_context(nested, "nested marked section pair", err))
+                })?
+            }
+            None => marked_section_body_character_data(remainder)?,
+        };
+        // All sections opened before this end are nested in each other
+        let mut inner = close_match;
+        while let Some(n) = inner.find_substring(MARKED_SECTION_START) {
+            inner = inner.slice(n + MARKED_SECTION_START.len()..);
+            let start = close_match.len() - inner.len();
+            open_sections.push(remainder.slice(start..));
+        }
+        if open_sections.pop().is_none() {
+            let body_len = input.len() - close_suffix.len() - MARKED_SECTION_END.len();
+            return Ok((close_suffix, input.take(body_len)));
         }
-        _ => Ok((close_suffix, close_match)),
+        remainder = close_suffix;
     }
 }
 
-- 
2.43.0


From 3c37eb7dac6ae06226c67abbd75fc732192e047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 07/17] fix: skip nested elements without recursion

Elements nested thousands of levels deep overflowed the stack while being
skipped by the deserializer.
---
 src/de/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..4dae0f8 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -232,7 +232,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack_size - 1,
             &self.stack[stack_size - 1]
         );
-        loop {
+        while self.stack.len() >= stack_size {
             match self
                 .events
                 .next()
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,16 +249,15 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
                 SgmlEvent::OpenStartTag { name } => {
                     self.stack.push(name);
-                    self.pop_elt()?;
                 }
                 _ => {}
             };
         }
+        Ok(())
     }
 
     /// Skips attributes and CloseStartTag, going to the main content.
-- 
2.43.0


From 31df16f354c0bd79615c0fc3ac42b6bb06a49cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 08/17] fix: reject unsupported events that follow a child
 element

A processing instruction, markup declaration or marked section right after
the end tag of a child element was either skipped or caused a panic.
---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 4dae0f8..e2b47b7 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -257,6 +257,10 @@ impl<'de> SgmlDeserializer<'de> {
                 _ => {}
             };
         }
+        // Within the parent element, what follows is also subject to deserialization
+        if !self.stack.is_empty() {
+            self.normalize_at_cursor()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1d243c62f70e72a26d599037977022de439ff408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 09/17] fix: reject start tags left open instead of panicking

A start tag not followed by a CloseStartTag event (only possible in fragments
not produced by the parser) reached an unreachable!().
---
 src/de/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index e2b47b7..92ce8a3 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -760,7 +760,12 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                         debug!("next key: $value (for element {:?})", name);
                         seed.deserialize("$value".into_deserializer()).map(Some)
                     }
-                    ContentStrategy::TextOnly => unreachable!(),
+                    // Can only happen if the start tag was not closed
+                    ContentStrategy::TextOnly => {
+                        Err(DeserializationError::Unsupported(SgmlEvent::OpenStartTag {
+                            name: name.clone().into_owned().into(),
+                        }))
+                    }
                 },
                 SgmlEvent::Character(text) => {
                     let text = mem::take(text);
-- 
2.43.0


From 27435727b10b50c7fdc4ca1fb91061a11523db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 10/17] fix: fail when a value takes nothing from the document

Types that consume no event, such as a sequence read from an attribute or an
empty array, made the same entry or element be handed out forever.
---
 src/de/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 92ce8a3..4e9f172 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -340,6 +340,22 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(value)
     }
 
+    /// Ensures at least one event was consumed since the given number of them remained.
+    ///
+    /// Otherwise, the same event would be handed over and over again, as could happen with
+    /// types that take no data from the document (for example, sequences in attributes).
+    fn check_progress(&self, remaining: usize) -> Result<(), DeserializationError> {
+        if self.events.len() < remaining {
+            return Ok(());
+        }
+        match self.peek()? {
+            event @ SgmlEvent::Attribute { .. } => Err(DeserializationError::Unsupported(
+                event.clone().into_owned(),
+            )),
+            _ => Err(de::Error::custom("element was not consumed")),
+        }
+    }
+
     #[track_caller]
     fn check_stack_size(&self, expected_size: usize) {
         let stack = &self.stack;
@@ -795,11 +811,16 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            let remaining = self.de.events.len();
+            let value = seed.deserialize(&mut *self.de)?;
+            self.de.check_progress(remaining)?;
+            Ok(value)
         } else {
+            let remaining = self.de.events.len();
             self.de.map_key = self.map_key.take();
             let value = seed.deserialize(&mut *self.de)?;
             self.de.map_key = None;
+            self.de.check_progress(remaining)?;
             Ok(value)
         }
     }
@@ -841,7 +862,10 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        let remaining = self.de.events.len();
+                        let value = seed.deserialize(&mut *self.de)?;
+                        self.de.check_progress(remaining)?;
+                        return Ok(Some(value));
                     }
                 },
                 SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
-- 
2.43.0


From 238dcefa4504e4791f1d8b9b6c20fed81dd7de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 11/17] fix: read fieldless enums from attributes and from
 $value text

Only element text and tag names were accepted, unlike what README says.
---
 src/de/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 4e9f172..691e01a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -605,6 +605,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let stack_size = self.stack.len();
 
+        // If true, we have a key="variant" case, or text collected for `$value`
+        let from_string = self.accumulated_text.is_some()
+            || matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }));
+
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
         let enum_within_element = self
@@ -619,7 +623,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         // If true, (enum-value) is <variant (fields)>(fields)</variant>;
         // if false, (enum-value) is just a string
-        let use_tag_name_for_variant = if enum_within_element {
+        let use_tag_name_for_variant = if from_string {
+            trace!("enum from string");
+            false
+        } else if enum_within_element {
             if self.peek_content_type()?.contains_child_elements {
                 trace!("enum within element; using content elt");
                 // <key><variant (fields)>(fields)</variant></key>
-- 
2.43.0


From 8901eab51ec85bfcbbb4974ad6bb5d6c5da7e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 12/17] fix: reject the string form of enum variants that hold
 data

Such variants took their data from whatever element came next.
---
 src/de/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 691e01a..53700ce 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -894,6 +894,18 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Ensures the cursor is at the element that holds the data for the variant.
+    ///
+    /// When the variant came from a string, it has already been consumed, and the cursor is
+    /// at unrelated content.
+    fn expect_variant_element(&self, expected: &str) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, &expected))
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -934,10 +946,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_variant_element("newtype variant")?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
+        let push = self.de.peek_content_type()?.contains_child_elements;
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
@@ -954,9 +966,8 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
-        if self.use_tag_name_for_variant {
-            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
-        }
+        self.expect_variant_element("tuple variant")?;
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         self.de.deserialize_seq(visitor)
     }
 
@@ -969,6 +980,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_variant_element("struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From fc6dac7c6fb98ac7919e7a589a11ce4bdd014151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 13/17] fix: read the data of newtype variants from their own
 element

Structs, maps and enums were read from the first child of the element of the
variant, and sequences without child elements from the elements that follow.
---
 src/de/mod.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 53700ce..fb610c7 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -81,6 +81,9 @@ pub struct SgmlDeserializer<'de> {
     stack: Vec<Cow<'de, str>>,
     map_key: Option<Rc<str>>,
     accumulated_text: Option<Cow<'de, str>>,
+    /// If true, the cursor is at the element of a newtype variant,
+    /// and a sequence is to be read from its child elements.
+    at_newtype_variant: bool,
 }
 
 /// The error type for deserialization problems.
@@ -120,6 +123,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack: Vec::new(),
             map_key: None,
             accumulated_text: None,
+            at_newtype_variant: false,
         };
         reader.normalize_at_cursor()?;
         Ok(reader)
@@ -220,6 +224,7 @@ impl<'de> SgmlDeserializer<'de> {
         };
         debug!("push({}): {:?}", self.stack.len(), stag);
         self.stack.push(stag);
+        self.at_newtype_variant = false;
         self.normalize_at_cursor()?;
         Ok(self.stack.last().unwrap())
     }
@@ -543,7 +548,19 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
-        let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
+        let value = if self.at_newtype_variant {
+            let content = self.peek_content_type()?;
+            if content.contains_text && !content.contains_child_elements {
+                return Err(DeserializationError::ExpectedStartTag);
+            }
+            self.push_elt()?;
+            self.advance_to_content()?;
+            let value = visitor.visit_seq(SeqAccess::new(self, None))?;
+            self.pop_elt()?;
+            value
+        } else {
+            visitor.visit_seq(SeqAccess::new(self, tag_name))?
+        };
 
         self.check_stack_size(stack_size);
 
@@ -947,17 +964,13 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
         self.expect_variant_element("newtype variant")?;
-        // If we just used the current tag name as a variant, we need to push the tag into the stack,
-        // or else we might get stuck in a loop
-        let push = self.de.peek_content_type()?.contains_child_elements;
-        if push {
-            self.de.push_elt()?;
-            self.de.advance_to_content()?;
-        }
+        // Keep cursor on `<variant`: attributes, text and child elements are all data of the variant.
+        // If the data is another enum, `<variant` is the element surrounding it.
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
+        self.de.at_newtype_variant = true;
         let value = seed.deserialize(self.de.borrow_mut())?;
-        if push {
-            self.de.pop_elt()?;
-        }
+        self.de.at_newtype_variant = false;
+        self.de.map_key = None;
         Ok(value)
     }
 
-- 
2.43.0


From 65a5533bdf6bc0c1c17921a26db63b10d27d23f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 14/17] fix: accept comments and processing instructions in
 declaration subsets

A comment declaration in an internal DTD subset, as is common, made the whole
document be rejected.
---
 src/parser/raw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index ae235e0..1dd4087 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -82,6 +82,8 @@ where
                 quoted_attribute_value,
                 declaration_subset,
                 recognize(markup_declaration),
+                comment_declaration,
+                processing_instruction,
                 is_not("<>\"'[]-"),
             )))),
             cut(char(']')),
-- 
2.43.0


From 7817da5215b6bd493ebbdc243b1a70a6b4b8dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 15/17] fix: fail instead of panicking when a type carries on
 after an error

---
 src/de/mod.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index fb610c7..afe7005 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -339,7 +339,7 @@ impl<'de> SgmlDeserializer<'de> {
         self.push_elt()?;
         let stack_size = self.stack.len();
         let value = visitor.visit_map(MapAccess::new(self, emit_value))?;
-        self.check_stack_size(stack_size);
+        self.check_stack_size(stack_size)?;
         self.pop_elt()?;
 
         Ok(value)
@@ -361,21 +361,14 @@ impl<'de> SgmlDeserializer<'de> {
         }
     }
 
-    #[track_caller]
-    fn check_stack_size(&self, expected_size: usize) {
-        let stack = &self.stack;
-
-        debug_assert_eq!(
-            expected_size,
-            stack.len(),
-            "unstable stack: {action} {delta:?}",
-            action = if stack.len() > expected_size {
-                "added"
-            } else {
-                "removed"
-            },
-            delta = stack.iter().skip(expected_size).collect::<Vec<_>>(),
-        );
+    /// Ensures that no elements are left open (or closed in excess), as happens when a type
+    /// carries on after an error inside an element.
+    fn check_stack_size(&self, expected_size: usize) -> Result<(), DeserializationError> {
+        if self.stack.len() == expected_size {
+            Ok(())
+        } else {
+            Err(de::Error::custom("element was not entirely consumed"))
+        }
     }
 }
 
@@ -562,7 +555,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
             visitor.visit_seq(SeqAccess::new(self, tag_name))?
         };
 
-        self.check_stack_size(stack_size);
+        self.check_stack_size(stack_size)?;
 
         Ok(value)
     }
@@ -668,7 +661,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
             self.pop_elt()?;
         }
 
-        self.check_stack_size(stack_size);
+        self.check_stack_size(stack_size)?;
         Ok(value)
     }
 
@@ -766,7 +759,7 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
         seed: K,
     ) -> Result<Option<K::Value>, Self::Error> {
         trace!("next_key_seed");
-        self.de.check_stack_size(self.stack_size);
+        self.de.check_stack_size(self.stack_size)?;
 
         loop {
             break match self.de.peek_mut()? {
@@ -827,7 +820,7 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
         V: de::DeserializeSeed<'de>,
     {
         trace!("next_value_seed (key={:?})", self.map_key);
-        self.de.check_stack_size(self.stack_size);
+        self.de.check_stack_size(self.stack_size)?;
 
         if self.next_entry_is_dollarvalue {
             self.de.accumulated_text = Some(self.text_content.take().unwrap().into_cow());
@@ -874,7 +867,7 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
         &mut self,
         seed: T,
     ) -> Result<Option<T::Value>, Self::Error> {
-        self.de.check_stack_size(self.stack_size);
+        self.de.check_stack_size(self.stack_size)?;
 
         loop {
             match self.de.peek()? {
-- 
2.43.0


From a12d4c88e08a01f50553feeea3a0235371d66746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 16/17] fix: fail instead of panicking after an error in
 `$value` or before an unsupported event

---
 src/de/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index afe7005..f15b75e 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -808,9 +808,12 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                     }
                     continue;
                 }
-                SgmlEvent::ProcessingInstruction(_)
+                // Can only happen if a value carried on after an error
+                event @ (SgmlEvent::ProcessingInstruction(_)
                 | SgmlEvent::MarkupDeclaration { .. }
-                | SgmlEvent::MarkedSection { .. } => unreachable!(),
+                | SgmlEvent::MarkedSection { .. }) => Err(DeserializationError::Unsupported(
+                    event.clone().into_owned(),
+                )),
             };
         }
     }
@@ -822,7 +825,7 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
         trace!("next_value_seed (key={:?})", self.map_key);
         self.de.check_stack_size(self.stack_size)?;
 
-        if self.next_entry_is_dollarvalue {
+        if mem::take(&mut self.next_entry_is_dollarvalue) {
             self.de.accumulated_text = Some(self.text_content.take().unwrap().into_cow());
             let value = seed.deserialize(&mut *self.de)?;
             self.de.accumulated_text = None;
-- 
2.43.0


From 898ba020105249379fd1cfe10ab4bdc533da144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 17/17] fix: forget the key of a list or tuple once it is read

Elements of a sequence are read with the key of the sequence, which stayed behind
when the sequence was a tuple. At the top level, where nothing reset it, the next value
read from the same deserializer was taken to lie within an element of that name:
an enum after a tuple variant of the same name failed.
---
 src/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index f15b75e..1ceabb4 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -555,6 +555,8 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
             visitor.visit_seq(SeqAccess::new(self, tag_name))?
         };
 
+        // The key the elements were read with has no meaning for what follows
+        self.map_key = None;
         self.check_stack_size(stack_size)?;
 
         Ok(value)
-- 
2.43.0

