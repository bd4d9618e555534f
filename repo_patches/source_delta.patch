From a31b8f173506076d2fc3d38302866045b952ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 001/115] fix: report out-of-range times instead of overflowing
 in parse_ass_time

---
 crates/ass-core/utils/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..753bfd0 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    hours
+        .checked_mul(360_000)
+        .and_then(|total| total.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|total| total.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From b18b95d64a0199a8c8c57c24a781b7f50d3b6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 002/115] fix: count blank lines between sections when tracking
 parser line numbers

---
 crates/ass-core/parser/main/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..f258b47 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -41,7 +41,9 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                let skipped = remaining.len() - trimmed.len();
+                self.line += remaining[..skipped].matches('\n').count();
+                self.position += skipped;
             } else {
                 break;
             }
-- 
2.43.0


From d8919ecefbd88f1af845048b9f6477c1b003c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 003/115] fix: accept event lines of formats with more than ten
 fields and no Text field

---
 crates/ass-core/parser/sections/events/event_data.rs    | 2 +-
 crates/ass-core/parser/sections/events/static_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index ca4f4a4..631d100 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -61,7 +61,7 @@ impl<'a> EventsParser<'a> {
             data.splitn(format.len(), ',').collect()
         } else {
             // If no Text field, split all commas and ignore extra fields
-            data.splitn(10, ',').collect()
+            data.splitn(format.len().max(10), ',').collect()
         };
 
         if parts.len() < format.len() {
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 79dd9c9..2f80989 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -86,7 +86,7 @@ impl<'a> EventsParser<'a> {
             data.splitn(format.len(), ',').collect()
         } else {
             // If no Text field, split all commas and ignore extra fields
-            data.splitn(10, ',').collect()
+            data.splitn(format.len().max(10), ',').collect()
         };
 
         if parts.len() < format.len() {
-- 
2.43.0


From f8fea57593f3d0f363e324e4b7e3ed8976353303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 004/115] fix: an unclosed section header no longer swallows
 the next header

---
 crates/ass-core/parser/main/section.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..bebb735 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -26,9 +26,16 @@ impl<'a> Parser<'a> {
             }));
         }
 
-        let header_end = self.source[self.position..].find(']').ok_or_else(|| {
-            CoreError::from(ParseError::UnclosedSectionHeader { line: self.line })
-        })? + self.position;
+        // A header has to be closed on its own line
+        let line_end = self.source[self.position..]
+            .find('\n')
+            .map_or(self.source.len(), |i| self.position + i);
+        let header_end = self.source[self.position..line_end]
+            .find(']')
+            .ok_or_else(|| {
+                CoreError::from(ParseError::UnclosedSectionHeader { line: self.line })
+            })?
+            + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
         self.position = header_end + 1;
-- 
2.43.0


From 4a49a0a529006261ca7cd464896cfbdbf91bb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 005/115] fix: keep style parents and case-insensitive format
 fields when serializing

---
 .../parser/ast/event/serialization.rs         | 17 +++++-
 .../ass-core/parser/ast/style/conversion.rs   | 55 +++++++++++++++++--
 2 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..e2966a9 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -12,6 +12,20 @@ use super::Event;
 #[cfg(debug_assertions)]
 use core::ops::Range;
 
+/// Names of the event fields as they are written in a `Format:` line
+const FIELD_NAMES: [&str; 13] = [
+    "Layer", "Start", "End", "Style", "Name", "Actor", "MarginL", "MarginR", "MarginV", "MarginT",
+    "MarginB", "Effect", "Text",
+];
+
+/// Canonical spelling of a format field, ignoring case
+fn canonical_field(field: &str) -> &str {
+    FIELD_NAMES
+        .iter()
+        .find(|name| name.eq_ignore_ascii_case(field))
+        .map_or(field, |name| *name)
+}
+
 impl Event<'_> {
     /// Convert event to ASS string representation
     ///
@@ -89,7 +103,8 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
+            // Format fields are matched case-insensitively, as the parser does
+            let value = match canonical_field(field) {
                 "Layer" => self.layer,
                 "Start" => self.start,
                 "End" => self.end,
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..67df48a 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -13,6 +13,45 @@ use super::Style;
 #[cfg(debug_assertions)]
 use core::ops::Range;
 
+/// Names of the style fields as they are written in a `Format:` line
+const FIELD_NAMES: [&str; 27] = [
+    "Name",
+    "Fontname",
+    "Fontsize",
+    "PrimaryColour",
+    "SecondaryColour",
+    "OutlineColour",
+    "TertiaryColour",
+    "BackColour",
+    "Bold",
+    "Italic",
+    "Underline",
+    "StrikeOut",
+    "ScaleX",
+    "ScaleY",
+    "Spacing",
+    "Angle",
+    "BorderStyle",
+    "Outline",
+    "Shadow",
+    "Alignment",
+    "MarginL",
+    "MarginR",
+    "MarginV",
+    "MarginT",
+    "MarginB",
+    "Encoding",
+    "RelativeTo",
+];
+
+/// Canonical spelling of a format field, ignoring case
+fn canonical_field(field: &str) -> &str {
+    FIELD_NAMES
+        .iter()
+        .find(|name| name.eq_ignore_ascii_case(field))
+        .map_or(field, |name| *name)
+}
+
 impl Style<'_> {
     /// Convert style to ASS string representation
     ///
@@ -36,8 +75,9 @@ impl Style<'_> {
     pub fn to_ass_string(&self) -> alloc::string::String {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
+        let parent_prefix = self.parent_prefix();
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {parent_prefix}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
             self.name,
             self.fontname,
             self.fontsize,
@@ -94,7 +134,8 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
+            // Format fields are matched case-insensitively, as the parser does
+            let value = match canonical_field(field) {
                 "Name" => self.name,
                 "Fontname" => self.fontname,
                 "Fontsize" => self.fontsize,
@@ -105,7 +146,7 @@ impl Style<'_> {
                 "Bold" => self.bold,
                 "Italic" => self.italic,
                 "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
+                "StrikeOut" => self.strikeout,
                 "ScaleX" => self.scale_x,
                 "ScaleY" => self.scale_y,
                 "Spacing" => self.spacing,
@@ -127,7 +168,13 @@ impl Style<'_> {
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        format!("Style: {}{joined}", self.parent_prefix())
+    }
+
+    /// Inheritance marker (`*Parent,`) preceding the fields, if the style has a parent
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"))
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From 1d1e62a3547076cc53f8ecdcaf4aecf73c744aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 006/115] fix: keep embedded data lines that look like comments
 and split adjacent entries

---
 .../parser/binary_data/binary_parser.rs       | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..d1f6589 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -98,16 +98,24 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 break;
             }
 
-            // Skip comment lines
-            if trimmed.starts_with(';') || trimmed.starts_with('!') {
-                self.tracker.skip_line();
-                continue;
+            // The next entry of the section ends this one
+            if self.is_entry_line(data_line) {
+                break;
             }
 
-            // Stop at hash comments (# followed by space or at end of line)
-            // But not UU-encoded data (# followed immediately by encoded chars)
-            if trimmed.starts_with("# ") || trimmed == "#" {
-                break;
+            // Encoded data may start with any of the comment characters
+            if !Self::is_encoded_line(data_line) {
+                // Skip comment lines
+                if trimmed.starts_with(';') || trimmed.starts_with('!') {
+                    self.tracker.skip_line();
+                    continue;
+                }
+
+                // Stop at hash comments (# followed by space or at end of line)
+                // But not UU-encoded data (# followed immediately by encoded chars)
+                if trimmed.starts_with("# ") || trimmed == "#" {
+                    break;
+                }
             }
 
             data_lines.push(data_line);
@@ -117,6 +125,25 @@ impl<'a, T> BinaryDataParser<'a, T> {
         data_lines
     }
 
+    /// Whether a line starts an entry of this section (`fontname:`/`filename:`)
+    fn is_entry_line(&self, line: &str) -> bool {
+        line.split_once(':')
+            .is_some_and(|(key, _)| key.trim() == self.entry_key)
+    }
+
+    /// Whether a line is UU-encoded data: a length character followed by exactly the
+    /// groups that length needs, all within the encoding's alphabet
+    fn is_encoded_line(line: &str) -> bool {
+        let bytes = line.trim_end_matches('\r').as_bytes();
+        let Some((&first, data)) = bytes.split_first() else {
+            return false;
+        };
+        let length = usize::from(first.wrapping_sub(b' '));
+        (1..=45).contains(&length)
+            && data.len() == length.div_ceil(3) * 4
+            && data.iter().all(|byte| (b' '..=b'`').contains(byte))
+    }
+
     /// Check if at start of next section
     fn at_next_section(&self) -> bool {
         self.tracker.remaining().trim_start().starts_with('[')
-- 
2.43.0


From 19873c8200072ceb0a2b5114a0d02d3c522b064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 007/115] fix: mask UU characters to six bits so that a
 backtick decodes as zero

---
 crates/ass-core/utils/uu.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/utils/uu.rs b/crates/ass-core/utils/uu.rs
index c7800d3..68c3d02 100644
--- a/crates/ass-core/utils/uu.rs
+++ b/crates/ass-core/utils/uu.rs
@@ -83,11 +83,11 @@ where
                 group[i] = byte;
             }
 
-            // Decode 4 characters to 3 bytes
-            let c1 = group[0].wrapping_sub(b' ');
-            let c2 = group[1].wrapping_sub(b' ');
-            let c3 = group[2].wrapping_sub(b' ');
-            let c4 = group[3].wrapping_sub(b' ');
+            // Decode 4 characters to 3 bytes (six bits each; '`' encodes 0 like ' ')
+            let c1 = group[0].wrapping_sub(b' ') & 0x3F;
+            let c2 = group[1].wrapping_sub(b' ') & 0x3F;
+            let c3 = group[2].wrapping_sub(b' ') & 0x3F;
+            let c4 = group[3].wrapping_sub(b' ') & 0x3F;
 
             let decoded_byte1 = (c1 << 2) | (c2 >> 4);
             let decoded_byte2 = ((c2 & 0x0F) << 4) | (c3 >> 2);
-- 
2.43.0


From 8e948bbbc812a2ee1929b68411223fc8d4e175e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 008/115] fix: analyse text with an unclosed override block
 without slicing out of bounds

---
 .../analysis/events/text_analysis/parser.rs         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..cda3fac 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -38,6 +38,7 @@ impl<'a> TextAnalysis<'a> {
             if ch == '{' {
                 let mut brace_count = 1;
                 let tag_start = position + ch.len_utf8();
+                let mut closed = false;
 
                 for inner_ch in chars.by_ref() {
                     position += inner_ch.len_utf8();
@@ -51,13 +52,17 @@ impl<'a> TextAnalysis<'a> {
                     } else if inner_ch == '}' {
                         brace_count -= 1;
                         if brace_count == 0 {
+                            closed = true;
                             break;
                         }
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block extends to the end of the text
+                let tag_end = if closed { position } else { text.len() };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +94,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..(tag_start + 1).min(text.len())],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
@@ -115,6 +120,8 @@ impl<'a> TextAnalysis<'a> {
                             }
                         }
                     }
+                } else if !drawing_mode {
+                    plain_text.push(ch);
                 }
             } else if !drawing_mode {
                 plain_text.push(ch);
-- 
2.43.0


From ba35ca6253ee86fc5de3e4a635381b18c0ecec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 009/115] fix: keep empty-override diagnostics on character
 boundaries

---
 crates/ass-core/analysis/events/tags/parser.rs          | 2 +-
 crates/ass-core/analysis/events/tags/registry_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..ee01564 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,7 +138,7 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..7b5f574 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,7 +132,7 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
-- 
2.43.0


From f4c6ef6b5dce7d9c5b2eb67935b1cbe4555d3132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 010/115] fix: do not overflow the animation score and dialogue
 durations

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 crates/ass-core/analysis/events/scoring/calculators.rs     | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs          | 7 +++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..d1b4a48 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -51,7 +51,7 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
+        .fold(0u8, u8::saturating_add)
         .min(10)
 }
 
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..6d7a967 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,9 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events
+        .iter()
+        .map(|event| u64::from(event.duration_cs()))
+        .sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
-- 
2.43.0


From e0923f788dd9114fe60c989e2dabfec86dcdec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 011/115] fix: events that are never on screen overlap nothing

---
 crates/ass-core/analysis/events/overlap/detection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/analysis/events/overlap/detection.rs b/crates/ass-core/analysis/events/overlap/detection.rs
index 25031f3..d1db94a 100644
--- a/crates/ass-core/analysis/events/overlap/detection.rs
+++ b/crates/ass-core/analysis/events/overlap/detection.rs
@@ -31,6 +31,12 @@ where
     for (index, event) in events.enumerate() {
         let (start_time, end_time) = get_times(index, event)?;
 
+        // An event that is never on screen overlaps nothing; its end would sort
+        // before its start and leave it active for the rest of the sweep
+        if start_time >= end_time {
+            continue;
+        }
+
         sweep_events.push(SweepEvent {
             time: start_time,
             event_type: SweepEventType::Start,
-- 
2.43.0


From a894e72fd568c4642aae930b8d011d4e468eb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 012/115] fix: check accessibility durations in milliseconds

---
 crates/ass-core/analysis/linting/rules/accessibility/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index 84c8f64..798f0a0 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -98,7 +98,7 @@ impl AccessibilityRule {
     fn check_event_duration(&self, issues: &mut Vec<LintIssue>, event: &crate::parser::Event) {
         if let (Ok(start), Ok(end)) = (parse_ass_time(event.start), parse_ass_time(event.end)) {
             if end >= start {
-                let duration_ms = end - start;
+                let duration_ms = (end - start).saturating_mul(10);
                 if duration_ms < 500 {
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From 2f906e31e38c199e997db2532654d7bba73eb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 013/115] fix: do not split characters when checking colour
 override tags

---
 crates/ass-core/analysis/linting/rules/invalid_color/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..f27f427 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -157,7 +157,7 @@ impl InvalidColorRule {
         }
 
         if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
+            let first_char = tag_part.get(..1)?;
             if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
                 let color_part = tag_part[1..].strip_prefix("c&H")?;
                 let color_end = color_part.find('&')?;
-- 
2.43.0


From f23cf55e5e3bacb0f4613a4b8507f65567f89dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 014/115] fix: reparse everything from the changed section in
 incremental parsing

---
 crates/ass-core/parser/main/parse.rs         |   2 +-
 crates/ass-core/parser/main/state.rs         |  35 ++++-
 crates/ass-core/parser/script/incremental.rs | 155 ++++++-------------
 crates/ass-core/parser/script/partial.rs     |  95 +-----------
 4 files changed, 88 insertions(+), 199 deletions(-)

diff --git a/crates/ass-core/parser/main/parse.rs b/crates/ass-core/parser/main/parse.rs
index 99df315..0d4d47a 100644
--- a/crates/ass-core/parser/main/parse.rs
+++ b/crates/ass-core/parser/main/parse.rs
@@ -47,7 +47,7 @@ impl<'a> Parser<'a> {
         }
 
         // Skip UTF-8 BOM if present
-        if self.source.starts_with('\u{FEFF}') {
+        if self.position == 0 && self.source.starts_with('\u{FEFF}') {
             self.position = 3;
         }
 
diff --git a/crates/ass-core/parser/main/state.rs b/crates/ass-core/parser/main/state.rs
index 981fb3b..f49b77a 100644
--- a/crates/ass-core/parser/main/state.rs
+++ b/crates/ass-core/parser/main/state.rs
@@ -5,7 +5,7 @@
 //! construction entry points.
 
 use crate::{
-    parser::{ast::Section, errors::ParseIssue},
+    parser::{ast::Section, errors::ParseIssue, Script},
     ScriptVersion,
 };
 use alloc::vec::Vec;
@@ -71,4 +71,37 @@ impl<'a> Parser<'a> {
             registry,
         }
     }
+
+    /// Continue from a section header, taking what precedes it from `script`
+    ///
+    /// `sections` are the sections of `script` before `position`.
+    pub(in crate::parser) fn resume_at(
+        &mut self,
+        position: usize,
+        script: &Script<'a>,
+        sections: &[Section<'a>],
+    ) {
+        let line = 1 + self.source[..position].matches('\n').count();
+        self.position = position;
+        self.line = line;
+        self.sections = sections.to_vec();
+        self.issues = script
+            .issues()
+            .iter()
+            .filter(|issue| issue.line < line)
+            .cloned()
+            .collect();
+        for section in sections {
+            match section {
+                Section::ScriptInfo(_) => self.version = script.version(),
+                Section::Styles(_) => {
+                    self.styles_format = script.styles_format().map(<[&str]>::to_vec);
+                }
+                Section::Events(_) => {
+                    self.events_format = script.events_format().map(<[&str]>::to_vec);
+                }
+                _ => {}
+            }
+        }
+    }
 }
diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..efb5fdd 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -1,10 +1,10 @@
 //! Incremental reparse support for editor-driven text changes.
 //!
 //! Implements [`Script::affected_sections`], which maps a text change to the
-//! sections it touches, and [`Script::parse_incremental`], which reparses only
-//! those sections while shifting the spans of unchanged sections.
+//! sections it touches, and [`Script::parse_incremental`], which reuses the
+//! sections before the change and reparses the rest.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
 use crate::parser::main::Parser;
@@ -53,8 +53,8 @@ impl<'a> Script<'a> {
 
     /// Parse only changed portions and create new Script
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// This method reuses the sections that end before the section holding the
+    /// change and reparses the source from there on.
     ///
     /// # Arguments
     ///
@@ -73,113 +73,52 @@ impl<'a> Script<'a> {
         new_source: &'a str,
         change: &crate::parser::incremental::TextChange,
     ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
-        }
-
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
+        // Everything before the header of the section that holds the change is
+        // the same text in both sources, so its sections can be reused
+        let resume = last_header_start(new_source, change.range.start)
+            .filter(|&start| self.source.get(..start) == new_source.get(..start));
+        let Some(start) = resume else {
+            return Ok(Parser::new(new_source).parse());
         };
 
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
+        let kept = self
+            .sections
+            .iter()
+            .take_while(|section| section.span().is_some_and(|span| span.end <= start))
+            .count();
+
+        // A section without contents has no position to tell on which side of
+        // the restart it lies, and repeated sections share one stored format
+        let unplaced = self
+            .sections
+            .get(kept)
+            .is_some_and(|section| section.span().is_none());
+        let repeated = self.sections.iter().enumerate().any(|(i, section)| {
+            self.sections[..i]
+                .iter()
+                .any(|other| other.section_type() == section.section_type())
+        });
+        if unplaced || repeated {
+            return Ok(Parser::new(new_source).parse());
+        }
 
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
+        let mut parser = Parser::new(new_source);
+        parser.resume_at(start, self, &self.sections[..kept]);
+        Ok(parser.parse())
+    }
+}
 
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
-            }
+/// Start of the last section header line before the line containing `position`
+fn last_header_start(source: &str, position: usize) -> Option<usize> {
+    let line_start = source.get(..position)?.rfind('\n').map_or(0, |i| i + 1);
+    let mut end = line_start;
+    while end > 0 {
+        let start = source[..end - 1].rfind('\n').map_or(0, |i| i + 1);
+        let line = &source[start..end];
+        if line.trim_start().starts_with('[') && line.contains(']') {
+            return Some(start);
         }
-
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
-            new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
-        ))
+        end = start;
     }
+    None
 }
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..e411402 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -1,16 +1,13 @@
-//! Range-based partial reparse and span adjustment helpers.
+//! Range-based partial reparse.
 //!
 //! Hosts the streaming [`Script::parse_partial`] entry point used by editors for
-//! sub-2ms edits, together with the `adjust_section_spans` helper that shifts
-//! unchanged section spans after a text change.
+//! sub-2ms edits.
 
-use alloc::vec::Vec;
 #[cfg(feature = "stream")]
-use alloc::{format, string::ToString};
+use alloc::{format, string::ToString, vec::Vec};
 #[cfg(feature = "stream")]
 use core::ops::Range;
 
-use crate::parser::ast::Section;
 #[cfg(feature = "stream")]
 use crate::parser::streaming;
 #[cfg(feature = "stream")]
@@ -18,9 +15,11 @@ use crate::Result;
 
 #[cfg(feature = "stream")]
 use super::delta::{calculate_delta, ScriptDeltaOwned};
+#[cfg(feature = "stream")]
 use super::Script;
 
-impl<'a> Script<'a> {
+#[cfg(feature = "stream")]
+impl Script<'_> {
     /// Parse incrementally with range-based updates for editors
     ///
     /// Updates only the specified range, keeping other sections unchanged.
@@ -84,86 +83,4 @@ impl<'a> Script<'a> {
 
         Ok(owned_delta)
     }
-
-    /// Adjust section spans for unchanged sections after a text change
-    pub(super) fn adjust_section_spans(
-        section: &Section<'a>,
-        change: &crate::parser::incremental::TextChange,
-    ) -> Section<'a> {
-        use crate::parser::ast::Span;
-
-        // Calculate the offset caused by the change
-        let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
-
-        // Helper to adjust a span using safe arithmetic
-        let adjust_span = |span: &Span| -> Span {
-            let new_start = if new_len >= old_len {
-                span.start + (new_len - old_len)
-            } else {
-                span.start.saturating_sub(old_len - new_len)
-            };
-
-            let new_end = if new_len >= old_len {
-                span.end + (new_len - old_len)
-            } else {
-                span.end.saturating_sub(old_len - new_len)
-            };
-
-            Span::new(new_start, new_end, span.line, span.column)
-        };
-
-        // Adjust all spans in the section
-        match section {
-            Section::ScriptInfo(info) => {
-                let mut new_info = info.clone();
-                new_info.span = adjust_span(&info.span);
-                Section::ScriptInfo(new_info)
-            }
-            Section::Styles(styles) => {
-                let new_styles: Vec<_> = styles
-                    .iter()
-                    .map(|style| {
-                        let mut new_style = style.clone();
-                        new_style.span = adjust_span(&style.span);
-                        new_style
-                    })
-                    .collect();
-                Section::Styles(new_styles)
-            }
-            Section::Events(events) => {
-                let new_events: Vec<_> = events
-                    .iter()
-                    .map(|event| {
-                        let mut new_event = event.clone();
-                        new_event.span = adjust_span(&event.span);
-                        new_event
-                    })
-                    .collect();
-                Section::Events(new_events)
-            }
-            Section::Fonts(fonts) => {
-                let new_fonts: Vec<_> = fonts
-                    .iter()
-                    .map(|font| {
-                        let mut new_font = font.clone();
-                        new_font.span = adjust_span(&font.span);
-                        new_font
-                    })
-                    .collect();
-                Section::Fonts(new_fonts)
-            }
-            Section::Graphics(graphics) => {
-                let new_graphics: Vec<_> = graphics
-                    .iter()
-                    .map(|graphic| {
-                        let mut new_graphic = graphic.clone();
-                        new_graphic.span = adjust_span(&graphic.span);
-                        new_graphic
-                    })
-                    .collect();
-                Section::Graphics(new_graphics)
-            }
-        }
-    }
 }
-- 
2.43.0


From 2ca44805b211f829ab39a8de09b018d3a10a9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 015/115] fix: pair repeated sections by occurrence when
 calculating a delta

---
 crates/ass-core/parser/script/delta.rs | 28 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/parser/script/delta.rs b/crates/ass-core/parser/script/delta.rs
index ee90476..31c8715 100644
--- a/crates/ass-core/parser/script/delta.rs
+++ b/crates/ass-core/parser/script/delta.rs
@@ -52,15 +52,20 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     let old_sections: Vec<_> = old_script.sections().iter().collect();
     let new_sections: Vec<_> = new_script.sections().iter().collect();
 
-    // Find modifications and removals
+    // Find modifications and removals: the n-th section of a type is compared
+    // with the n-th section of that type in the new script
     for (idx, old_section) in old_sections.iter().enumerate() {
         let old_type = old_section.section_type();
+        let nth = old_sections[..idx]
+            .iter()
+            .filter(|s| s.section_type() == old_type)
+            .count();
 
         // Look for matching section in new script
-        if let Some((_new_idx, new_section)) = new_sections
+        if let Some(new_section) = new_sections
             .iter()
-            .enumerate()
-            .find(|(_, s)| s.section_type() == old_type)
+            .filter(|s| s.section_type() == old_type)
+            .nth(nth)
         {
             // Check if content changed (ignoring spans)
             if !sections_equal_ignoring_spans(old_section, new_section) {
@@ -73,11 +78,20 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 
     // Find additions
-    for new_section in &new_sections {
+    for (idx, new_section) in new_sections.iter().enumerate() {
         let new_type = new_section.section_type();
+        let nth = new_sections[..idx]
+            .iter()
+            .filter(|s| s.section_type() == new_type)
+            .count();
 
-        // Check if this type exists in old script
-        if !old_sections.iter().any(|s| s.section_type() == new_type) {
+        // Check if the old script has a counterpart
+        if old_sections
+            .iter()
+            .filter(|s| s.section_type() == new_type)
+            .nth(nth)
+            .is_none()
+        {
             added.push((*new_section).clone());
         }
     }
-- 
2.43.0


From c2ee36a8e0f1305d5dd83d2520817cfe6383e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 016/115] fix: an updated line keeps its position, and changing
 an empty field is recorded as a change

---
 crates/ass-core/parser/script/update.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..6b79e1d 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -48,10 +48,11 @@ impl<'a> Script<'a> {
             .ok_or(ParseError::SectionNotFound)?;
 
         // Parse the new line to determine its type
-        let (_, new_content) = self.parse_line_auto(new_line, line_number)?;
+        let (_, mut new_content) = self.parse_line_auto(new_line, line_number)?;
+        let mut added = false;
 
         // Update the appropriate section
-        let result = match (&mut self.sections[section_index], new_content.clone()) {
+        let result = match (&mut self.sections[section_index], &mut new_content) {
             (Section::Styles(styles), LineContent::Style(new_style)) => {
                 // Find the style at this offset
                 styles
@@ -59,7 +60,9 @@ impl<'a> Script<'a> {
                     .position(|s| s.span.start <= offset && offset < s.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
-                        styles[style_index] = *new_style;
+                        // The replacement stands where the old line stood
+                        new_style.span = old_style.span;
+                        styles[style_index] = (**new_style).clone();
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -70,11 +73,13 @@ impl<'a> Script<'a> {
                     .position(|e| e.span.start <= offset && offset < e.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
-                        events[event_index] = *new_event;
+                        new_event.span = old_event.span;
+                        events[event_index] = (**new_event).clone();
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
             (Section::ScriptInfo(info), LineContent::Field(key, value)) => {
+                let (key, value) = (*key, *value);
                 // Find and update the field
                 if let Some(field_index) = info.fields.iter().position(|(k, _)| *k == key) {
                     let old_value = info.fields[field_index].1;
@@ -82,6 +87,7 @@ impl<'a> Script<'a> {
                     Ok(LineContent::Field(key, old_value))
                 } else {
                     // Add new field if not found
+                    added = true;
                     info.fields.push((key, value));
                     // Record as addition
                     self.change_tracker.record(Change::Added {
@@ -99,7 +105,7 @@ impl<'a> Script<'a> {
 
         // Record change if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
+            if !added {
                 // This was a modification, not an addition
                 self.change_tracker.record(Change::Modified {
                     offset,
-- 
2.43.0


From 6bf8350bd0a28dc60e1032c1bac471c1517564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 017/115] fix: record added styles and events while change
 tracking is enabled

---
 crates/ass-core/parser/script/batch.rs  | 22 ++++++++++++++++++++--
 crates/ass-core/parser/script/mutate.rs | 16 ++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/parser/script/batch.rs b/crates/ass-core/parser/script/batch.rs
index 27cee4a..1df44fe 100644
--- a/crates/ass-core/parser/script/batch.rs
+++ b/crates/ass-core/parser/script/batch.rs
@@ -4,12 +4,14 @@
 //! [`Script::atomic_batch_update`] driver that validates every operation before
 //! applying changes to a cloned script for all-or-nothing semantics.
 
-use alloc::vec::Vec;
+use alloc::{boxed::Box, vec::Vec};
 
 use crate::parser::ast::Section;
 use crate::parser::errors::ParseError;
 
-use super::types::{BatchUpdateResult, EventBatch, StyleBatch, UpdateOperation};
+use super::types::{
+    BatchUpdateResult, Change, EventBatch, LineContent, StyleBatch, UpdateOperation,
+};
 use super::Script;
 
 impl<'a> Script<'a> {
@@ -66,6 +68,14 @@ impl<'a> Script<'a> {
     pub fn batch_add_styles(&mut self, batch: StyleBatch<'a>) -> Vec<usize> {
         let mut indices = Vec::with_capacity(batch.styles.len());
 
+        for style in &batch.styles {
+            self.change_tracker.record(Change::Added {
+                offset: style.span.start,
+                content: LineContent::Style(Box::new(style.clone())),
+                line_number: style.span.line,
+            });
+        }
+
         // Find or create styles section
         let styles_section_index = self
             .sections
@@ -102,6 +112,14 @@ impl<'a> Script<'a> {
     pub fn batch_add_events(&mut self, batch: EventBatch<'a>) -> Vec<usize> {
         let mut indices = Vec::with_capacity(batch.events.len());
 
+        for event in &batch.events {
+            self.change_tracker.record(Change::Added {
+                offset: event.span.start,
+                content: LineContent::Event(Box::new(event.clone())),
+                line_number: event.span.line,
+            });
+        }
+
         // Find or create events section
         let events_section_index = self
             .sections
diff --git a/crates/ass-core/parser/script/mutate.rs b/crates/ass-core/parser/script/mutate.rs
index 50f94cd..93ef2a1 100644
--- a/crates/ass-core/parser/script/mutate.rs
+++ b/crates/ass-core/parser/script/mutate.rs
@@ -4,12 +4,12 @@
 //! drop whole sections, append styles to `[V4+ Styles]`, and append events to
 //! `[Events]`, creating the target section on demand.
 
-use alloc::vec;
+use alloc::{boxed::Box, vec};
 
 use crate::parser::ast::{Event, Section, Style};
 use crate::parser::errors::ParseError;
 
-use super::types::Change;
+use super::types::{Change, LineContent};
 use super::Script;
 
 impl<'a> Script<'a> {
@@ -73,6 +73,12 @@ impl<'a> Script<'a> {
     ///
     /// The index of the style within the styles section
     pub fn add_style(&mut self, style: Style<'a>) -> usize {
+        self.change_tracker.record(Change::Added {
+            offset: style.span.start,
+            content: LineContent::Style(Box::new(style.clone())),
+            line_number: style.span.line,
+        });
+
         // Find or create styles section
         let styles_section_index = self
             .sections
@@ -105,6 +111,12 @@ impl<'a> Script<'a> {
     ///
     /// The index of the event within the events section
     pub fn add_event(&mut self, event: Event<'a>) -> usize {
+        self.change_tracker.record(Change::Added {
+            offset: event.span.start,
+            content: LineContent::Event(Box::new(event.clone())),
+            line_number: event.span.line,
+        });
+
         // Find or create events section
         let events_section_index = self
             .sections
-- 
2.43.0


From 028bf3ca2bd6b3b98b1b6077d44977858910b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 018/115] fix: find section bounds for hints inside characters
 and beyond the source

---
 .../ass-core/parser/incremental/section_bounds.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/incremental/section_bounds.rs b/crates/ass-core/parser/incremental/section_bounds.rs
index cf1b8f9..f04e65a 100644
--- a/crates/ass-core/parser/incremental/section_bounds.rs
+++ b/crates/ass-core/parser/incremental/section_bounds.rs
@@ -23,8 +23,9 @@ pub fn find_section_header_start(
     };
 
     // Search backwards from start_hint for the header
-    let search_start = start_hint.saturating_sub(header.len() + 100); // Look back up to 100 chars
-    let search_text = &source[search_start..start_hint.min(source.len())];
+    // Look back up to 100 chars
+    let search_start = floor_char_boundary(source, start_hint.saturating_sub(header.len() + 100));
+    let search_text = &source[search_start..floor_char_boundary(source, start_hint)];
 
     search_text
         .rfind(header)
@@ -55,6 +56,7 @@ pub fn find_section_end(
         "[Graphics]",
     ];
 
+    let end_hint = floor_char_boundary(source, end_hint);
     let search_text = &source[end_hint..];
 
     // Find the nearest section header
@@ -72,3 +74,12 @@ pub fn find_section_end(
         Ok(line_start)
     })
 }
+
+/// Largest character boundary of `source` that is not after `index`
+fn floor_char_boundary(source: &str, index: usize) -> usize {
+    let mut index = index.min(source.len());
+    while !source.is_char_boundary(index) {
+        index -= 1;
+    }
+    index
+}
-- 
2.43.0


From 4fa1489ea3d11e86006c46cb9dabdc28808757ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 019/115] fix: accept characters cut in two by streaming chunks

---
 crates/ass-core/parser/streaming/parser.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..71f5dd9 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,8 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// Bytes of a character that the last chunk cut in two
+    pending: Vec<u8>,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +38,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +52,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -66,10 +70,19 @@ impl StreamingParser {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
+        let mut bytes = core::mem::take(&mut self.pending);
+        bytes.extend_from_slice(chunk);
+        let valid = match core::str::from_utf8(&bytes) {
+            Ok(_) => bytes.len(),
+            // The rest of the last character is still to come
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(CoreError::parse(format!("Invalid UTF-8: {e}"))),
+        };
+        self.pending = bytes.split_off(valid);
+        let text = String::from_utf8(bytes)
             .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
 
-        self.buffer.push_str(chunk_str);
+        self.buffer.push_str(&text);
 
         let mut all_deltas = Vec::new();
         let lines: Vec<String> = self.buffer.lines().map(str::to_string).collect();
@@ -111,6 +124,10 @@ impl StreamingParser {
     ///
     /// Returns an error if the final line processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        if !self.pending.is_empty() {
+            return Err(CoreError::parse("Invalid UTF-8: incomplete character"));
+        }
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +143,7 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.pending.clear();
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From 3d41eac5b1cf7d77c00346d49cf4cf86787a485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 020/115] fix: streaming recognises V4++ style sections

---
 crates/ass-core/parser/streaming/state/section_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/streaming/state/section_kind.rs b/crates/ass-core/parser/streaming/state/section_kind.rs
index 6aa1d3e..76b6c74 100644
--- a/crates/ass-core/parser/streaming/state/section_kind.rs
+++ b/crates/ass-core/parser/streaming/state/section_kind.rs
@@ -41,7 +41,7 @@ impl SectionKind {
     pub fn from_header(header: &str) -> Self {
         match header.trim() {
             "Script Info" => Self::ScriptInfo,
-            "V4+ Styles" | "V4 Styles" => Self::Styles,
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles" => Self::Styles,
             "Events" => Self::Events,
             "Fonts" => Self::Fonts,
             "Graphics" => Self::Graphics,
-- 
2.43.0


From 0a2345cc0fa28f93651fec9b2319272d22836e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 021/115] fix: accept a carriage return at the end of the input
 when tokenizing

---
 crates/ass-core/tokenizer/next_token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/next_token.rs b/crates/ass-core/tokenizer/next_token.rs
index 34c8ee3..cb8180f 100644
--- a/crates/ass-core/tokenizer/next_token.rs
+++ b/crates/ass-core/tokenizer/next_token.rs
@@ -62,7 +62,7 @@ impl<'a> AssTokenizer<'a> {
             ('\n' | '\r', _) => {
                 self.context = self.context.reset_to_document();
                 self.scanner.navigator_mut().advance_char()?;
-                if current_char == '\r' && self.scanner.navigator_mut().peek_char()? == '\n' {
+                if current_char == '\r' && self.scanner.navigator_mut().peek_char() == Ok('\n') {
                     self.scanner.navigator_mut().advance_char()?;
                 }
                 Ok(TokenType::Newline)
-- 
2.43.0


From 36104f1a57d12cfd107b29d1dc32da2b5064ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 022/115] fix: reject signs in hex values

---
 crates/ass-core/tokenizer/simd/hex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-core/tokenizer/simd/hex.rs b/crates/ass-core/tokenizer/simd/hex.rs
index 36e89cb..c45b73b 100644
--- a/crates/ass-core/tokenizer/simd/hex.rs
+++ b/crates/ass-core/tokenizer/simd/hex.rs
@@ -125,5 +125,9 @@ fn parse_hex_scalar_direct(bytes: &[u8]) -> Option<u32> {
 
 /// Scalar hex parsing implementation
 fn parse_hex_scalar(hex_str: &str) -> Option<u32> {
+    // from_str_radix would also accept a sign
+    if !hex_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
     u32::from_str_radix(hex_str, 16).ok()
 }
-- 
2.43.0


From 3dbfd027b0e142295ca1d7ead53b07a0bf14c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 023/115] fix: report the right UTF-8 error position after
 ASCII chunks

---
 crates/ass-core/tokenizer/simd/utf8.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/simd/utf8.rs b/crates/ass-core/tokenizer/simd/utf8.rs
index fe5da29..05192ba 100644
--- a/crates/ass-core/tokenizer/simd/utf8.rs
+++ b/crates/ass-core/tokenizer/simd/utf8.rs
@@ -32,6 +32,7 @@ pub fn validate_utf8_batch(bytes: &[u8]) -> Result<(), CoreError> {
 fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
     let chunks = bytes.chunks_exact(16);
     let remainder = chunks.remainder();
+    let ascii_len = bytes.len() - remainder.len();
 
     for chunk in chunks {
         let chunk_array: [u8; 16] = chunk.try_into().unwrap();
@@ -44,7 +45,9 @@ fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
         }
     }
 
-    validate_utf8_scalar(remainder)
+    core::str::from_utf8(remainder)
+        .map(|_| ())
+        .map_err(|e| CoreError::utf8_error(ascii_len + e.valid_up_to(), format!("{e}")))
 }
 
 /// Scalar UTF-8 validation implementation
-- 
2.43.0


From 50616e3774fca57c1ff91d3750e27c8fd2fc0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 024/115] fix: count columns and split at semicolons in the
 SIMD text scanner as in the scalar one

---
 .../ass-core/tokenizer/scanner/text_scanner.rs   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index 5ebd063..d81701e 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -26,13 +26,17 @@ impl TokenScanner<'_> {
             let use_simd = !matches!(context, TokenContext::FieldValue);
 
             if use_simd {
-                if let Some(delimiter_pos) = self.scan_delimiters_simd(start) {
-                    self.navigator.position = delimiter_pos;
-                } else {
-                    self.navigator.position = self.source.len();
+                let mut end = self
+                    .scan_delimiters_simd(start)
+                    .unwrap_or(self.source.len());
+                if context == TokenContext::Document {
+                    // A semicolon is a delimiter in document context only
+                    end = self.source[start..end].find(';').map_or(end, |i| start + i);
+                }
+                // Step through the text so that the column keeps count of it
+                while self.navigator.position() < end {
+                    self.navigator.advance_char()?;
                 }
-                self.navigator.chars = self.source[self.navigator.position..].chars();
-                self.navigator.peek_char = None;
             }
         }
 
-- 
2.43.0


From e8f5c33d01280d0f4c6c95239744d26858e671e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 025/115] fix: reparse sections without fields that straddle
 the incremental restart

---
 crates/ass-core/parser/script/incremental.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index efb5fdd..962606c 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -87,12 +87,13 @@ impl<'a> Script<'a> {
             .take_while(|section| section.span().is_some_and(|span| span.end <= start))
             .count();
 
-        // A section without contents has no position to tell on which side of
-        // the restart it lies, and repeated sections share one stored format
-        let unplaced = self
-            .sections
-            .get(kept)
-            .is_some_and(|section| section.span().is_none());
+        // A section without contents may have no position to tell on which side
+        // of the restart it lies, and repeated sections share one stored format
+        let unplaced = self.sections.get(kept).is_some_and(|section| {
+            !section
+                .span()
+                .is_some_and(|span| start <= span.start && span.start < span.end)
+        });
         let repeated = self.sections.iter().enumerate().any(|(i, section)| {
             self.sections[..i]
                 .iter()
-- 
2.43.0


From 27c8bd31a49f6c7002f8574220313ab0a82d16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 026/115] fix: reject a sign in hex colours

---
 crates/ass-core/utils/color.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ass-core/utils/color.rs b/crates/ass-core/utils/color.rs
index 54e0293..f035151 100644
--- a/crates/ass-core/utils/color.rs
+++ b/crates/ass-core/utils/color.rs
@@ -56,6 +56,13 @@ pub fn parse_bgr_color(color_str: &str) -> Result<[u8; 4], CoreError> {
             )));
         };
 
+    // from_str_radix would also accept a sign
+    if hex_part.starts_with('+') {
+        return Err(CoreError::InvalidColor(format!(
+            "Invalid hex value: {hex_part}"
+        )));
+    }
+
     let hex_value = u32::from_str_radix(hex_part, 16)
         .map_err(|_| CoreError::InvalidColor(format!("Invalid hex value: {hex_part}")))?;
 
-- 
2.43.0


From d81d0b5c5d5df02a67fa7c16dcf12f987fadddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 027/115] fix: resolve parent styles before the styles that
 inherit from them

---
 .../analysis/styles/analyzer/dependency.rs        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5294cd3..0022630 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -34,11 +34,14 @@ impl<'a> StyleAnalyzer<'a> {
         for style in styles {
             if let Some(parent_name) = style.parent {
                 if style_map.contains_key(parent_name) {
-                    dependencies
-                        .get_mut(style.name)
-                        .unwrap()
-                        .insert(parent_name);
-                    *in_degree.get_mut(parent_name).unwrap() += 1;
+                    // Of several styles with one name the last one counts
+                    if core::ptr::eq(style_map[style.name], style) {
+                        dependencies
+                            .get_mut(style.name)
+                            .unwrap()
+                            .insert(parent_name);
+                        *in_degree.get_mut(style.name).unwrap() += 1;
+                    }
 
                     // Track inheritance for analysis
                     if self.config.options.contains(AnalysisOptions::INHERITANCE) {
@@ -100,7 +103,7 @@ impl<'a> StyleAnalyzer<'a> {
         }
 
         // Check if all styles were processed
-        if result.len() == styles.len() {
+        if result.len() == style_map.len() {
             Some(result)
         } else {
             // Not all styles processed - circular dependency exists
-- 
2.43.0


From 5d2fc632397bad66363d8fd9df7819754dbaac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 028/115] fix: do not scale inherited style values twice

---
 .../ass-core/analysis/styles/analyzer/analysis.rs  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 4a05ccb..ec3044e 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -79,13 +79,17 @@ impl<'a> StyleAnalyzer<'a> {
                 ResolvedStyle::from_style(style)
             };
 
-            if let Ok(mut resolved_style) = resolved {
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    resolved_style.apply_resolution_scaling(scale_x, scale_y);
-                }
+            if let Ok(resolved_style) = resolved {
                 self.resolved_styles.insert(style.name, resolved_style);
             }
         }
+
+        // Apply resolution scaling if needed, once everything is inherited:
+        // inherited values must not be scaled again
+        if let Some((scale_x, scale_y)) = self.resolution_scaling {
+            for resolved in self.resolved_styles.values_mut() {
+                resolved.apply_resolution_scaling(scale_x, scale_y);
+            }
+        }
     }
 }
-- 
2.43.0


From b7d024b2a6c15dd203d306a1fcd629d13724abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 029/115] fix: a style whose values cannot be resolved is not a
 missing style

---
 .../analysis/linting/rules/missing_style/rule.rs         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
index 137fdbb..a7efe63 100644
--- a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
@@ -73,9 +73,16 @@ impl LintRule for MissingStyleRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
+        // A style exists even when one of its values keeps it from being resolved
         let style_names: Vec<&str> = analysis
-            .resolved_styles()
+            .script()
+            .sections()
             .iter()
+            .filter_map(|s| match s {
+                Section::Styles(styles) => Some(styles),
+                _ => None,
+            })
+            .flatten()
             .map(|style| style.name)
             .collect();
 
-- 
2.43.0


From 5243d44ab195d3e25282091b4f720e0fb46cbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 030/115] fix: check numbered colour tags written with a small
 h

---
 .../ass-core/analysis/linting/rules/invalid_color/rule.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index f27f427..5ffbcf3 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -158,8 +158,10 @@ impl InvalidColorRule {
 
         if tag_part.len() >= 3 {
             let first_char = tag_part.get(..1)?;
-            if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
-                let color_part = tag_part[1..].strip_prefix("c&H")?;
+            if ["1", "2", "3", "4"].contains(&first_char)
+                && (tag_part[1..].starts_with("c&H") || tag_part[1..].starts_with("c&h"))
+            {
+                let color_part = &tag_part[4..];
                 let color_end = color_part.find('&')?;
                 let color_value = &color_part[..color_end];
                 return Some((format!("{first_char}c"), color_value.to_string()));
-- 
2.43.0


From 35f2c63a51d3368393717e83a07501d7a5501834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 031/115] fix: find the line to update although rows were added
 to its section

---
 crates/ass-core/parser/script/batch.rs  |  6 +----
 crates/ass-core/parser/script/update.rs | 32 ++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/crates/ass-core/parser/script/batch.rs b/crates/ass-core/parser/script/batch.rs
index 1df44fe..70e7f25 100644
--- a/crates/ass-core/parser/script/batch.rs
+++ b/crates/ass-core/parser/script/batch.rs
@@ -169,11 +169,7 @@ impl<'a> Script<'a> {
         // First, validate all updates
         for op in &updates {
             // Check if offset is valid
-            let section_found = self.sections.iter().any(|s| {
-                s.span()
-                    .is_some_and(|span| span.start <= op.offset && op.offset < span.end)
-            });
-            if !section_found {
+            if self.section_index_at_offset(op.offset).is_none() {
                 return Err(ParseError::SectionNotFound);
             }
 
diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index 6b79e1d..91440c6 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -39,12 +39,7 @@ impl<'a> Script<'a> {
     ) -> core::result::Result<LineContent<'a>, ParseError> {
         // Find which section contains this offset
         let section_index = self
-            .sections
-            .iter()
-            .position(|s| {
-                s.span()
-                    .is_some_and(|span| span.start <= offset && offset < span.end)
-            })
+            .section_index_at_offset(offset)
             .ok_or(ParseError::SectionNotFound)?;
 
         // Parse the new line to determine its type
@@ -119,6 +114,31 @@ impl<'a> Script<'a> {
         result
     }
 
+    /// Index of the section whose line stands at the given byte offset
+    ///
+    /// The span of a section is taken from its first and last rows, so rows
+    /// added since parsing can keep it from covering the others: the rows
+    /// themselves are looked at first.
+    pub(super) fn section_index_at_offset(&self, offset: usize) -> Option<usize> {
+        let within = |start: usize, end: usize| start <= offset && offset < end;
+        self.sections
+            .iter()
+            .position(|section| match section {
+                Section::Styles(styles) => styles.iter().any(|s| within(s.span.start, s.span.end)),
+                Section::Events(events) => events.iter().any(|e| within(e.span.start, e.span.end)),
+                _ => section
+                    .span()
+                    .is_some_and(|span| within(span.start, span.end)),
+            })
+            .or_else(|| {
+                self.sections.iter().position(|section| {
+                    section
+                        .span()
+                        .is_some_and(|span| within(span.start, span.end))
+                })
+            })
+    }
+
     /// Update format for styles section
     pub fn set_styles_format(&mut self, format: Vec<&'a str>) {
         self.styles_format = Some(format);
-- 
2.43.0


From 9acaf89f24b2de44ac6a8904a2f8677bd3cfdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 032/115] fix: accept the parentheses override tags carry in
 pos and move

---
 crates/ass-core/plugin/tags/position/move_handler.rs  |  4 ++--
 .../ass-core/plugin/tags/position/position_handler.rs |  4 ++--
 crates/ass-core/plugin/tags/position/validation.rs    | 11 +++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/plugin/tags/position/move_handler.rs b/crates/ass-core/plugin/tags/position/move_handler.rs
index d5a762d..7dcb6a1 100644
--- a/crates/ass-core/plugin/tags/position/move_handler.rs
+++ b/crates/ass-core/plugin/tags/position/move_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\move` command, which animates text from
 //! `(x1,y1)` to `(x2,y2)` optionally between times `t1` and `t2`.
 
-use super::validation::is_numeric;
+use super::validation::{is_numeric, strip_parens};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -29,7 +29,7 @@ impl TagHandler for MoveTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = strip_parens(args);
         if args.is_empty() {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/position_handler.rs b/crates/ass-core/plugin/tags/position/position_handler.rs
index 9e41ee1..af454bc 100644
--- a/crates/ass-core/plugin/tags/position/position_handler.rs
+++ b/crates/ass-core/plugin/tags/position/position_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\pos` command, which positions text at
 //! absolute `(x,y)` coordinates. Arguments must be two comma-separated numbers.
 
-use super::validation::is_numeric;
+use super::validation::{is_numeric, strip_parens};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -27,7 +27,7 @@ impl TagHandler for PositionTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = strip_parens(args);
         if args.is_empty() || !args.contains(',') {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/validation.rs b/crates/ass-core/plugin/tags/position/validation.rs
index 7cef532..0e89dfd 100644
--- a/crates/ass-core/plugin/tags/position/validation.rs
+++ b/crates/ass-core/plugin/tags/position/validation.rs
@@ -4,6 +4,17 @@
 //! position and movement [`TagHandler`](crate::plugin::TagHandler)
 //! implementations in this module.
 
+/// Strip the parentheses override tags carry around their coordinates
+///
+/// Returns the arguments unchanged when they are not enclosed in a pair.
+#[inline]
+pub(super) fn strip_parens(args: &str) -> &str {
+    let args = args.trim();
+    args.strip_prefix('(')
+        .and_then(|inner| inner.strip_suffix(')'))
+        .map_or(args, str::trim)
+}
+
 /// Validate if a string represents a valid number (integer or decimal)
 #[inline]
 pub(super) fn is_numeric(s: &str) -> bool {
-- 
2.43.0


From 8a79feaf0ae85b67434d47ba04f9be9e6551d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 033/115] fix: keep diagnostics of unknown sections when no
 processor takes them

---
 crates/ass-core/parser/main/registry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/registry.rs b/crates/ass-core/parser/main/registry.rs
index 13afb2e..49f9578 100644
--- a/crates/ass-core/parser/main/registry.rs
+++ b/crates/ass-core/parser/main/registry.rs
@@ -27,6 +27,7 @@ impl<'a> Parser<'a> {
         start_line: usize,
     ) -> Option<Result<Section<'a>>> {
         let registry = self.registry?;
+        let (content_position, content_line) = (self.position, self.line);
 
         // Collect section lines
         let mut lines = Vec::new();
@@ -71,7 +72,12 @@ impl<'a> Parser<'a> {
                 ));
                 None
             }
-            Some(SectionResult::Ignored) | None => None,
+            Some(SectionResult::Ignored) | None => {
+                // Leave the content to the standard handling of unknown sections
+                self.position = content_position;
+                self.line = content_line;
+                None
+            }
         }
     }
 }
-- 
2.43.0


From 77d08a418bf625b603fac99b61d89e8326393a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 034/115] fix: reject document edits at offsets inside a
 character

---
 .../ass-editor/core/document/editing_raw.rs   |  4 ++--
 .../ass-editor/core/document/text_access.rs   | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..ecbc4a8 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -10,7 +10,7 @@ use crate::core::position::{Position, Range};
 impl EditorDocument {
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
-        if pos.offset > self.len_bytes() {
+        if !self.is_char_boundary(pos.offset) {
             return Err(EditorError::PositionOutOfBounds {
                 position: pos.offset,
                 length: self.len_bytes(),
@@ -34,7 +34,7 @@ impl EditorDocument {
 
     /// Delete text in range (low-level operation without undo)
     pub(crate) fn delete_raw(&mut self, range: Range) -> Result<()> {
-        if range.end.offset > self.len_bytes() {
+        if !self.is_char_boundary(range.start.offset) || !self.is_char_boundary(range.end.offset) {
             return Err(EditorError::InvalidRange {
                 start: range.start.offset,
                 end: range.end.offset,
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..3cac9d4 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -76,12 +76,29 @@ impl EditorDocument {
         }
     }
 
+    /// Whether a byte offset lies within the document and between two characters
+    pub(super) fn is_char_boundary(&self, offset: usize) -> bool {
+        if offset > self.len_bytes() {
+            return false;
+        }
+        #[cfg(feature = "rope")]
+        {
+            self.text_rope
+                .char_to_byte(self.text_rope.byte_to_char(offset))
+                == offset
+        }
+        #[cfg(not(feature = "rope"))]
+        {
+            self.text_content.is_char_boundary(offset)
+        }
+    }
+
     /// Get text content for a range
     pub fn text_range(&self, range: Range) -> Result<String> {
         let start = range.start.offset;
         let end = range.end.offset;
 
-        if end > self.len_bytes() {
+        if !self.is_char_boundary(start) || !self.is_char_boundary(end) {
             return Err(EditorError::InvalidRange {
                 start,
                 end,
-- 
2.43.0


From 1e7aa06dab06aba26385a7c589d6b2bd99f4101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 035/115] fix: undo a replacement over the length of the text
 it put in and keep the redo entries left

---
 crates/ass-editor/core/document/undo_redo.rs | 11 +++++++----
 crates/ass-editor/core/history/stack_impl.rs |  7 +++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..6b18684 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text where the new text stands
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
@@ -154,7 +157,7 @@ impl EditorDocument {
             );
 
             // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            self.history.stack_mut().push_redone(new_entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..6f6e246 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -42,6 +42,13 @@ impl UndoStack {
         // Clear redo stack - new operations invalidate undone changes
         self.clear_redo_stack();
 
+        self.push_redone(entry);
+    }
+
+    /// Put a redone entry back on the undo stack
+    ///
+    /// Unlike [`push`](Self::push), this keeps what is still left to redo.
+    pub(crate) fn push_redone(&mut self, entry: HistoryEntry) {
         // Add memory usage
         self.current_memory += entry.memory_usage;
 
-- 
2.43.0


From 5c8141cc614417243b4c12a626898af01499acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 036/115] fix: record a command as one undoable entry and leave
 nothing of a failed one

---
 crates/ass-editor/core/document/validation.rs | 119 +++++++++---------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..6d5a49d 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -5,11 +5,12 @@
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
+use crate::core::history::UndoManager;
 use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::ToString;
 
 impl EditorDocument {
     /// Parse the current document content into a Script
@@ -48,76 +49,80 @@ impl EditorDocument {
     ) -> Result<crate::commands::CommandResult> {
         use crate::core::history::Operation;
 
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
+        let before = self.text();
+        let was_modified = self.modified;
+        let cursor_before = self.cursor_position();
+
+        // The steps a command takes are not recorded one by one: they go to a
+        // scratch history, and the whole command becomes a single entry
+        let mut scratch = UndoManager::new();
+        scratch.set_cursor(cursor_before);
+        let history = core::mem::replace(&mut self.history, scratch);
+        let outcome = command.execute(self);
+        let scratch = core::mem::replace(&mut self.history, history);
+
+        let after = self.text();
+        let (prefix, suffix) = Self::common_affixes(&before, &after);
+        let changed = Range::new(Position::new(prefix), Position::new(after.len() - suffix));
+        let old_text = &before[prefix..before.len() - suffix];
+
+        // A command that failed half way leaves nothing behind
+        let result = match outcome {
+            Ok(result) if result.success => result,
+            failed => {
+                self.replace_raw(changed, old_text)?;
+                self.modified = was_modified;
+                self.validator.clear_cache();
+                return failed;
+            }
+        };
 
         // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
+        if result.content_changed || before != after {
+            let operation = Operation::Replace {
+                range: Range::new(Position::new(prefix), Position::new(before.len() - suffix)),
+                old_text: old_text.to_string(),
+                new_text: after[prefix..after.len() - suffix].to_string(),
             };
 
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
-            }
-
             // Record in history
+            let mut recorded = result.clone();
+            recorded.content_changed = true;
             self.history
-                .record_operation(operation, command.description().to_string(), &result);
+                .record_operation(operation, command.description().to_string(), &recorded);
 
             // Clear validation cache since content changed
             self.validator.clear_cache();
         }
 
+        // Follow the cursor where the command moved it
+        if result.new_cursor.is_none() {
+            self.history.set_cursor(scratch.cursor_position());
+        }
+
         Ok(result)
     }
 
+    /// Lengths in bytes of the longest common start and end of two texts
+    ///
+    /// Both lie on character boundaries and do not overlap in either text.
+    fn common_affixes(a: &str, b: &str) -> (usize, usize) {
+        let prefix = a
+            .chars()
+            .zip(b.chars())
+            .take_while(|(x, y)| x == y)
+            .map(|(x, _)| x.len_utf8())
+            .sum::<usize>();
+        let suffix = a[prefix..]
+            .chars()
+            .rev()
+            .zip(b[prefix..].chars().rev())
+            .take_while(|(x, y)| x == y)
+            .map(|(x, _)| x.len_utf8())
+            .sum::<usize>();
+        (prefix, suffix)
+    }
+
     /// Perform comprehensive validation using the LazyValidator
     /// Returns detailed validation results including warnings and suggestions
     ///
-- 
2.43.0


From 364a98012f2b0e9b6064fb8b053c732cc726e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 037/115] fix: run fluent and synchronized edits through the
 history

---
 crates/ass-editor/commands/fluent_builder.rs  |  6 +++---
 .../ass-editor/core/fluent/event_deleter.rs   | 16 +++++++--------
 .../core/fluent/event_merge_timing.rs         | 14 ++++++-------
 crates/ass-editor/core/fluent/event_ops.rs    | 10 ++++------
 .../core/fluent/event_toggle_effect.rs        | 12 +++++------
 crates/ass-editor/core/fluent/karaoke.rs      |  4 ++--
 .../core/fluent/karaoke_builders.rs           | 20 +++++++++----------
 crates/ass-editor/core/fluent/media.rs        | 20 +++++++++----------
 crates/ass-editor/core/fluent/script_info.rs  | 11 +++++-----
 crates/ass-editor/core/fluent/style.rs        | 11 +++++-----
 crates/ass-editor/core/fluent/tag.rs          | 20 +++++++++----------
 .../core/thread_safety/sync_document.rs       |  2 +-
 12 files changed, 71 insertions(+), 75 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..e15045a 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -62,7 +62,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +72,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +82,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
diff --git a/crates/ass-editor/core/fluent/event_deleter.rs b/crates/ass-editor/core/fluent/event_deleter.rs
index 349dd65..0546d9e 100644
--- a/crates/ass-editor/core/fluent/event_deleter.rs
+++ b/crates/ass-editor/core/fluent/event_deleter.rs
@@ -1,7 +1,7 @@
 //! Fluent API for deleting events based on queries.
 
 use super::EventQuery;
-use crate::commands::{BatchDeleteEventsCommand, EditorCommand};
+use crate::commands::BatchDeleteEventsCommand;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
 
@@ -35,7 +35,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Dialogue)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -45,7 +45,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Comment)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -55,7 +55,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_time_range(start_cs, end_cs)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -65,7 +65,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_style(style)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -75,7 +75,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_text(text)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -83,7 +83,7 @@ impl<'a> EventDeleter<'a> {
     pub fn all(self) -> Result<&'a mut EditorDocument> {
         let indices = EventQuery::new(self.document).indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> EventDeleter<'a> {
             return Ok(self.document);
         }
         let command = BatchDeleteEventsCommand::new(self.indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_merge_timing.rs b/crates/ass-editor/core/fluent/event_merge_timing.rs
index 597ca06..300b9b9 100644
--- a/crates/ass-editor/core/fluent/event_merge_timing.rs
+++ b/crates/ass-editor/core/fluent/event_merge_timing.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for merging events and adjusting their timing.
 
-use crate::commands::{EditorCommand, MergeEventsCommand, TimingAdjustCommand};
+use crate::commands::{MergeEventsCommand, TimingAdjustCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +43,7 @@ impl<'a> EventMerger<'a> {
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = MergeEventsCommand::new(self.first_index, self.second_index)
             .with_separator(self.separator);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -78,28 +78,28 @@ impl<'a> EventTimer<'a> {
     /// Shift start and end times by the same offset (preserves duration)
     pub fn shift(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only start times (changes duration)
     pub fn shift_start(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, 0);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only end times (changes duration)
     pub fn shift_end(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, 0, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Scale duration by a factor
     pub fn scale_duration(self, factor: f64) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::scale_duration(self.event_indices, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,7 +110,7 @@ impl<'a> EventTimer<'a> {
         end_offset_cs: i32,
     ) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, start_offset_cs, end_offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..dd12b68 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -4,9 +4,7 @@ use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
-use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
-};
+use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 use ass_core::parser::ast::{Event, EventType, Section};
 
@@ -27,7 +25,7 @@ impl<'a> EventOps<'a> {
     /// Split an event at a specific time
     pub fn split(self, event_index: usize, split_time: &str) -> Result<&'a mut EditorDocument> {
         let command = SplitEventCommand::new(event_index, split_time.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -151,14 +149,14 @@ impl<'a> EventOps<'a> {
     /// Delete a single event by index
     pub fn delete(self, index: usize) -> Result<&'a mut EditorDocument> {
         let command = DeleteEventCommand::new(index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Delete multiple events by indices
     pub fn delete_multiple(self, indices: Vec<usize>) -> Result<&'a mut EditorDocument> {
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/event_toggle_effect.rs b/crates/ass-editor/core/fluent/event_toggle_effect.rs
index 4853697..7149450 100644
--- a/crates/ass-editor/core/fluent/event_toggle_effect.rs
+++ b/crates/ass-editor/core/fluent/event_toggle_effect.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for toggling event types and modifying effects.
 
-use crate::commands::{EditorCommand, EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
+use crate::commands::{EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,7 +36,7 @@ impl<'a> EventToggler<'a> {
     /// Execute the toggle
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = ToggleEventTypeCommand::new(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -71,21 +71,21 @@ impl<'a> EventEffector<'a> {
     /// Set the effect (replace existing)
     pub fn set(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::set_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clear all effects
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::clear_effect(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Append to existing effect
     pub fn append(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::append_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -96,7 +96,7 @@ impl<'a> EventEffector<'a> {
             effect.to_string(),
             EffectOperation::Prepend,
         );
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke.rs b/crates/ass-editor/core/fluent/karaoke.rs
index 108e29a..ba6ad49 100644
--- a/crates/ass-editor/core/fluent/karaoke.rs
+++ b/crates/ass-editor/core/fluent/karaoke.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS karaoke operations and the karaoke generator builder.
 
 use super::karaoke_builders::{KaraokeAdjuster, KaraokeApplicator, KaraokeSplitter};
-use crate::commands::{EditorCommand, GenerateKaraokeCommand, KaraokeType};
+use crate::commands::{GenerateKaraokeCommand, KaraokeType};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -128,7 +128,7 @@ impl<'a> KaraokeGenerator<'a> {
             command = command.manual_syllables();
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke_builders.rs b/crates/ass-editor/core/fluent/karaoke_builders.rs
index dce4b1e..a041c29 100644
--- a/crates/ass-editor/core/fluent/karaoke_builders.rs
+++ b/crates/ass-editor/core/fluent/karaoke_builders.rs
@@ -5,7 +5,7 @@
 //! sibling [`super::karaoke`] module.
 
 use crate::commands::{
-    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, KaraokeType, SplitKaraokeCommand,
+    AdjustKaraokeCommand, ApplyKaraokeCommand, KaraokeType, SplitKaraokeCommand,
 };
 use crate::core::{EditorDocument, Range, Result};
 
@@ -36,7 +36,7 @@ impl<'a> KaraokeSplitter<'a> {
             command = command.duration(duration);
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -51,28 +51,28 @@ impl<'a> KaraokeAdjuster<'a> {
     /// Scale timing by factor
     pub fn scale(self, factor: f32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::scale(self.range, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Offset timing by centiseconds
     pub fn offset(self, offset: i32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::offset(self.range, offset);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Set all timing to specific duration
     pub fn set_all(self, duration: u32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::set_all(self.range, duration);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Apply custom timing to each syllable
     pub fn custom(self, timings: Vec<u32>) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::custom(self.range, timings);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -87,7 +87,7 @@ impl<'a> KaraokeApplicator<'a> {
     /// Apply equal timing
     pub fn equal(self, duration: u32, karaoke_type: KaraokeType) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::equal(self.range, duration, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -99,7 +99,7 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::beat(self.range, bpm, beats_per_syllable, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,14 +110,14 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::pattern(self.range, durations, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Import timing from another event
     pub fn import_from(self, source_event_index: usize) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::import_from(self.range, source_event_index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/media.rs b/crates/ass-editor/core/fluent/media.rs
index 5146d46..5d958f9 100644
--- a/crates/ass-editor/core/fluent/media.rs
+++ b/crates/ass-editor/core/fluent/media.rs
@@ -1,8 +1,8 @@
 //! Fluent API for managing embedded fonts and graphics.
 
 use crate::commands::{
-    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, EditorCommand,
-    ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
+    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, ListFontsCommand,
+    ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
 };
 use crate::core::{EditorDocument, Result};
 
@@ -26,21 +26,21 @@ impl<'a> FontsOps<'a> {
     /// Add a font from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a font from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a font by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveFontCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -58,7 +58,7 @@ impl<'a> FontsOps<'a> {
     /// Clear all fonts
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearFontsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -82,21 +82,21 @@ impl<'a> GraphicsOps<'a> {
     /// Add a graphic from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a graphic from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a graphic by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveGraphicCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -114,7 +114,7 @@ impl<'a> GraphicsOps<'a> {
     /// Clear all graphics
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearGraphicsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index f2688e8..fa93320 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -1,8 +1,7 @@
 //! Fluent API for managing Script Info properties.
 
 use crate::commands::{
-    DeleteScriptInfoCommand, EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
-    SetScriptInfoCommand,
+    DeleteScriptInfoCommand, GetAllScriptInfoCommand, GetScriptInfoCommand, SetScriptInfoCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Result};
@@ -27,7 +26,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Set a script info property
     pub fn set(self, property: &str, value: &str) -> Result<&'a mut EditorDocument> {
         let command = SetScriptInfoCommand::new(property.to_string(), value.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -40,7 +39,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Delete a script info property
     pub fn delete(self, property: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteScriptInfoCommand::new(property.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -74,8 +73,8 @@ impl<'a> ScriptInfoOps<'a> {
     pub fn resolution(self, width: u32, height: u32) -> Result<&'a mut EditorDocument> {
         let command1 = SetScriptInfoCommand::new("PlayResX".to_string(), width.to_string());
         let command2 = SetScriptInfoCommand::new("PlayResY".to_string(), height.to_string());
-        command1.execute(self.document)?;
-        command2.execute(self.document)?;
+        self.document.execute_command(&command1)?;
+        self.document.execute_command(&command2)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/style.rs b/crates/ass-editor/core/fluent/style.rs
index d75582b..626c78c 100644
--- a/crates/ass-editor/core/fluent/style.rs
+++ b/crates/ass-editor/core/fluent/style.rs
@@ -2,7 +2,6 @@
 
 use crate::commands::{
     ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteStyleCommand, EditStyleCommand,
-    EditorCommand,
 };
 use crate::core::{EditorDocument, Result, StyleBuilder};
 
@@ -23,7 +22,7 @@ impl<'a> StyleOps<'a> {
     /// Create a new style
     pub fn create(self, name: &str, builder: StyleBuilder) -> Result<&'a mut EditorDocument> {
         let command = CreateStyleCommand::new(name.to_string(), builder);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -35,14 +34,14 @@ impl<'a> StyleOps<'a> {
     /// Delete a style
     pub fn delete(self, name: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteStyleCommand::new(name.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clone a style
     pub fn clone(self, source: &str, target: &str) -> Result<&'a mut EditorDocument> {
         let command = CloneStyleCommand::new(source.to_string(), target.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +108,7 @@ impl<'a> StyleEditor<'a> {
 
     /// Apply the changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
@@ -139,7 +138,7 @@ impl<'a> StyleApplicator<'a> {
 
     /// Apply the style changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/tag.rs b/crates/ass-editor/core/fluent/tag.rs
index c256a58..40f9a95 100644
--- a/crates/ass-editor/core/fluent/tag.rs
+++ b/crates/ass-editor/core/fluent/tag.rs
@@ -1,8 +1,8 @@
 //! Fluent API for ASS tag operations.
 
 use crate::commands::{
-    EditorCommand, InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
-    ReplaceTagCommand, WrapTagCommand,
+    InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand, ReplaceTagCommand,
+    WrapTagCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Position, Range, Result};
@@ -48,7 +48,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -59,7 +59,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string()).no_auto_wrap();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -70,7 +70,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -81,7 +81,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range).pattern(pattern.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +109,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string()).all();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -120,7 +120,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag wrapping"))?;
 
         let command = WrapTagCommand::new(range, opening_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -132,7 +132,7 @@ impl<'a> TagOps<'a> {
 
         let command = WrapTagCommand::new(range, opening_tag.to_string())
             .closing_tag(closing_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From 6e96fe5beeb41e0fe1b8f934d59600729535cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 038/115] fix: make incremental edits undoable, announced and
 visible to the validator

---
 .../core/document/incremental_edit.rs         | 20 +++++++++----------
 .../core/document/incremental_fast.rs         | 16 ++++++++++++++-
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..f82bd84 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,7 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,13 +77,14 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        // Apply the text change
+        self.replace_raw(range, new_text)?;
 
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Create operation for history: the texts are what undo and redo need
+        let operation = Operation::Replace {
+            range,
+            old_text: old_text.clone(),
+            new_text: new_text.to_string(),
         };
 
         // Create command result
@@ -103,8 +101,8 @@ impl EditorDocument {
             &result_with_delta,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
+        // Clear validation cache since content changed
+        self.validator.clear_cache();
 
         // Mark as modified
         self.modified = true;
diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..21dc19d 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -59,9 +62,20 @@ impl EditorDocument {
         self.history
             .record_operation(operation, "Fast character insert".to_string(), &result);
 
+        // Clear validation cache since content changed
+        self.validator.clear_cache();
+
         // Mark as modified
         self.modified = true;
 
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
+
         // Return minimal delta
         Ok(ScriptDeltaOwned {
             added: Vec::new(),
-- 
2.43.0


From 96118fa93604db681c0144d5aef3d7b889da1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 039/115] fix: reparse the changed text, not a stale or
 unchanged one

---
 crates/ass-editor/core/incremental/apply.rs | 33 ++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..c1188de 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -13,7 +13,10 @@ use ass_core::parser::{script::ScriptDeltaOwned, Script};
 use std::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{borrow::Cow, string::ToString};
+use alloc::{
+    borrow::Cow,
+    string::{String, ToString},
+};
 
 impl IncrementalParser {
     /// Apply a change incrementally, returning the delta
@@ -23,11 +26,6 @@ impl IncrementalParser {
         range: Range,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        // If we don't have a cached script or too many changes accumulated, do full parse
-        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
-            return self.full_reparse(document_text);
-        }
-
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
@@ -53,6 +51,18 @@ impl IncrementalParser {
             ));
         }
 
+        // Edits made outside this parser leave the cache behind the document
+        if let Some(cached) = &mut self.cached_script {
+            if cached != document_text {
+                *cached = document_text.to_string();
+            }
+        }
+
+        // If we don't have a cached script or too many changes accumulated, do full parse
+        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
+            return self.full_reparse(&Self::changed_text(document_text, range, new_text));
+        }
+
         // Get the old text being replaced
         let old_text = &document_text[range.start.offset..range.end.offset];
         let (start_byte, end_byte) = (range.start.offset, range.end.offset);
@@ -101,8 +111,17 @@ impl IncrementalParser {
                 #[cfg(feature = "std")]
                 eprintln!("Incremental parse failed, falling back to full parse: {_e}");
 
-                self.full_reparse(document_text)
+                self.full_reparse(&Self::changed_text(document_text, range, new_text))
             }
         }
     }
+
+    /// Text of the document once the range holds the new text
+    fn changed_text(document_text: &str, range: Range, new_text: &str) -> String {
+        let mut changed = String::with_capacity(document_text.len() + new_text.len());
+        changed.push_str(&document_text[..range.start.offset]);
+        changed.push_str(new_text);
+        changed.push_str(&document_text[range.end.offset..]);
+        changed
+    }
 }
-- 
2.43.0


From d0a1b90e8fdc91cfcd3393599984317d359c04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:42 +0000
Subject: [PATCH 040/115] fix: put the cursor back on undo and drop validation
 results of another text

---
 crates/ass-editor/core/document/undo_redo.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 6b18684..6a5a609 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -79,9 +79,15 @@ impl EditorDocument {
                 }
             }
 
+            // Put the cursor back where it was before the operation
+            self.history.set_cursor(entry.cursor_before);
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
+            // Clear validation cache since content changed
+            self.validator.clear_cache();
+
             // Apply script delta if available
             #[cfg(feature = "stream")]
             if let Some(delta) = result.script_delta.as_ref() {
@@ -159,6 +165,9 @@ impl EditorDocument {
             // Push back to undo stack
             self.history.stack_mut().push_redone(new_entry);
 
+            // Clear validation cache since content changed
+            self.validator.clear_cache();
+
             result.message = Some("Redo successful".to_string());
             Ok(result)
         } else {
-- 
2.43.0


From 17676b0d6c5f46a1b4a9d2f9bf7b0971557cc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:42 +0000
Subject: [PATCH 041/115] fix: find the end of a line before its whole line
 break and reject ranges outside the text

---
 crates/ass-editor/core/fluent/position.rs  | 24 ++++++++++++++-------
 crates/ass-editor/core/fluent/selection.rs | 16 ++++++++------
 crates/ass-editor/core/position/builder.rs | 25 ++++++++++++++++------
 crates/ass-editor/core/position/mod.rs     |  2 ++
 4 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..4da2bb0 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -1,9 +1,9 @@
 //! Fluent API builder for document operations at a specific position.
 
-use crate::core::{EditorDocument, Position, Range, Result};
-
-#[cfg(not(feature = "rope"))]
 use crate::core::errors::EditorError;
+#[cfg(feature = "rope")]
+use crate::core::position::line_content_end;
+use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(all(not(feature = "std"), not(feature = "rope")))]
 use alloc::string::ToString;
@@ -53,12 +53,14 @@ impl<'a> AtPosition<'a> {
         #[cfg(feature = "rope")]
         {
             let rope = self.document.rope();
+            if self.position.offset > rope.len_bytes() {
+                return Err(EditorError::PositionOutOfBounds {
+                    position: self.position.offset,
+                    length: rope.len_bytes(),
+                });
+            }
             let line_idx = rope.byte_to_line(self.position.offset);
-            let line_end_byte = if line_idx + 1 < rope.len_lines() {
-                rope.line_to_byte(line_idx + 1).saturating_sub(1)
-            } else {
-                rope.len_bytes()
-            };
+            let line_end_byte = line_content_end(rope, line_idx).max(self.position.offset);
             let range = Range::new(self.position, Position::new(line_end_byte));
             self.document.replace(range, text)?;
             Ok(self.document)
@@ -82,6 +84,12 @@ impl<'a> AtPosition<'a> {
     #[cfg(feature = "rope")]
     pub fn to_line_column(&self) -> Result<(usize, usize)> {
         let rope = self.document.rope();
+        if self.position.offset > rope.len_bytes() {
+            return Err(EditorError::PositionOutOfBounds {
+                position: self.position.offset,
+                length: rope.len_bytes(),
+            });
+        }
         let line_idx = rope.byte_to_line(self.position.offset);
         let line_start = rope.line_to_byte(line_idx);
         let col_offset = self.position.offset - line_start;
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..ccc930e 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -38,14 +38,10 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
-        let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+        let selected = self.document.text_range(self.range)?;
+        let mut wrapped = String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -55,6 +51,9 @@ impl<'a> SelectRange<'a> {
     /// Indent the selected lines
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        // The range must lie within the document
+        self.document.text_range(self.range)?;
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
@@ -80,6 +79,9 @@ impl<'a> SelectRange<'a> {
     /// Unindent the selected lines
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        // The range must lie within the document
+        self.document.text_range(self.range)?;
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..7a7620c 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -139,12 +139,7 @@ impl PositionBuilder {
                 Ok(Position::new(line_start + byte_pos))
             } else {
                 // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
-                } else {
-                    rope.len_bytes()
-                };
-                Ok(Position::new(line_end))
+                Ok(Position::new(line_content_end(rope, line_idx)))
             }
         } else {
             // Default to start if nothing specified
@@ -165,3 +160,21 @@ impl PositionBuilder {
         }
     }
 }
+
+/// Byte offset where the content of a line ends, before its line break
+#[cfg(feature = "rope")]
+pub(crate) fn line_content_end(rope: &ropey::Rope, line_idx: usize) -> usize {
+    let end = if line_idx + 1 < rope.len_lines() {
+        rope.line_to_byte(line_idx + 1)
+    } else {
+        return rope.len_bytes();
+    };
+
+    let mut chars = rope.chars_at(rope.byte_to_char(end));
+    let break_len = match chars.prev() {
+        Some('\n') if chars.prev() == Some('\r') => 2,
+        Some(ch) => ch.len_utf8(),
+        None => 0,
+    };
+    end - break_len
+}
diff --git a/crates/ass-editor/core/position/mod.rs b/crates/ass-editor/core/position/mod.rs
index 9244b09..c4c8f7f 100644
--- a/crates/ass-editor/core/position/mod.rs
+++ b/crates/ass-editor/core/position/mod.rs
@@ -12,6 +12,8 @@ mod selection;
 #[cfg(test)]
 mod tests;
 
+#[cfg(feature = "rope")]
+pub(crate) use builder::line_content_end;
 pub use builder::PositionBuilder;
 pub use points::{LineColumn, Position};
 pub use range::Range;
-- 
2.43.0


From f6d50bfc5426ce9c57f4eb6af1b030b2fe0ac726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 042/115] fix: event commands touch only the fields they change
 and see every event

---
 .../commands/event_commands/batch_delete.rs   |  98 ++----
 .../commands/event_commands/delete.rs         |  78 +----
 .../commands/event_commands/effect_exec.rs    | 160 +++------
 .../commands/event_commands/helpers.rs        | 119 ++-----
 .../commands/event_commands/merge.rs          | 134 ++------
 .../commands/event_commands/split.rs          | 173 ++++------
 .../commands/event_commands/timing.rs         | 150 +++------
 .../commands/event_commands/toggle.rs         | 100 ++----
 crates/ass-editor/commands/mod.rs             |   1 +
 crates/ass-editor/commands/rows.rs            | 315 ++++++++++++++++++
 10 files changed, 587 insertions(+), 741 deletions(-)
 create mode 100644 crates/ass-editor/commands/rows.rs

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..757d916 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,19 +1,22 @@
 //! Command to delete multiple events from an ASS document.
 
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete multiple events from the ASS document
 ///
 /// Removes multiple events (Dialogue or Comment) at the specified indices from the `[Events]` section.
-/// Indices are automatically sorted and processed in reverse order to maintain correctness.
+/// The order of the indices does not matter, and all of them count in the document as it is
+/// before the deletion.
 /// All indices are 0-based and include both Dialogue and Comment events.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct BatchDeleteEventsCommand {
-    /// Indices of events to delete (will be sorted and deduplicated)
+    /// Indices of events to delete (in any order, duplicates are ignored)
     pub event_indices: Vec<usize>,
 }
 
@@ -30,78 +33,21 @@ impl EditorCommand for BatchDeleteEventsCommand {
             return Ok(CommandResult::success());
         }
 
-        // Sort indices in descending order to delete from end to start
-        // This prevents index shifting issues
-        let mut sorted_indices = self.event_indices.clone();
-        sorted_indices.sort_unstable_by(|a, b| b.cmp(a));
-        sorted_indices.dedup();
-
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Collect all event positions
-        let mut event_positions = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                event_positions.push((current_index, event_start, line_end));
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        // Delete events in reverse order to avoid index shifting
-        let mut total_deleted = 0;
-        let mut first_delete_pos = Position::new(content.len());
-
-        for index in &sorted_indices {
-            if let Some((_, start, end)) = event_positions.iter().find(|(idx, _, _)| idx == index) {
-                let range = Range::new(Position::new(*start), Position::new(*end));
-                document.delete(range)?;
-                total_deleted += 1;
-
-                // Track the earliest deletion position
-                if range.start.offset < first_delete_pos.offset {
-                    first_delete_pos = range.start;
-                }
-            }
-        }
-
-        if total_deleted > 0 {
-            Ok(CommandResult::success_with_change(
-                Range::new(first_delete_pos, first_delete_pos),
-                first_delete_pos,
-            ))
-        } else {
-            Ok(CommandResult::success())
+        let content = document.text();
+        let script = rows::parse(&content)?;
+        let edits = event_rows(&content, &script)?
+            .iter()
+            .enumerate()
+            .filter(|(index, _)| self.event_indices.contains(index))
+            .map(|(_, row)| (row.line.start..row.line.next, String::new()))
+            .collect();
+
+        match rows::edit(document, &content, edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                Range::new(range.start, range.start),
+                range.start,
+            )),
+            None => Ok(CommandResult::success()),
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..2bd770e 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,10 +1,12 @@
 //! Command to delete a single event from an ASS document.
 
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::ToString};
+use alloc::format;
 
 /// Command to delete a single event from the ASS document
 ///
@@ -25,65 +27,21 @@ impl DeleteEventCommand {
 
 impl EditorCommand for DeleteEventCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut delete_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    delete_range = Some(Range::new(
-                        Position::new(event_start),
-                        Position::new(line_end),
-                    ));
-                    break;
-                }
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        if let Some(range) = delete_range {
-            document.delete(range)?;
-            Ok(CommandResult::success_with_change(
-                Range::new(range.start, range.start),
-                range.start,
-            ))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Event index {} not found",
-                self.event_index
-            )))
-        }
+        let content = document.text();
+        let script = rows::parse(&content)?;
+        let line = event_rows(&content, &script)?
+            .get(self.event_index)
+            .map(|row| row.line)
+            .ok_or_else(|| {
+                EditorError::command_failed(format!("Event index {} not found", self.event_index))
+            })?;
+
+        let start = Position::new(line.start);
+        document.delete(Range::new(start, Position::new(line.next)))?;
+        Ok(CommandResult::success_with_change(
+            Range::new(start, start),
+            start,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..aa4d2bf 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,140 +1,62 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 
 impl EditorCommand for EventEffectCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
+        let content = document.text();
+        let script = rows::parse(&content)?;
         let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
+        let mut edits = Vec::new();
 
-            if event_start >= line_end {
-                break;
+        for (index, row) in event_rows(&content, &script)?.iter().enumerate() {
+            if !self.event_indices.is_empty() && !self.event_indices.contains(&index) {
+                continue;
             }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_modify =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_modify {
-                    // Parse event line using helper function
-                    if let Ok(event) = parse_event_line(line) {
-                        let new_effect = match self.operation {
-                            EffectOperation::Set => self.effect.clone(),
-                            EffectOperation::Clear => String::new(),
-                            EffectOperation::Append => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", event.effect, self.effect)
-                                }
-                            }
-                            EffectOperation::Prepend => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", self.effect, event.effect)
-                                }
-                            }
-                        };
-
-                        // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
-                        let new_line = format!(
-                            "{}: {},{},{},{},{},{},{},{},{},{}",
-                            event_type_str,
-                            event.layer,
-                            event.start,
-                            event.end,
-                            event.style,
-                            event.name,
-                            event.margin_l,
-                            event.margin_r,
-                            event.margin_v,
-                            new_effect,
-                            event.text
-                        );
-
-                        let range = Range::new(Position::new(event_start), Position::new(line_end));
-                        document.replace(range, &new_line)?;
-
-                        // Update content for next iteration
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(event_start),
-                            Position::new(event_start + new_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            let operation_name = match self.operation {
-                EffectOperation::Set => "set",
-                EffectOperation::Clear => "cleared",
-                EffectOperation::Append => "appended",
-                EffectOperation::Prepend => "prepended",
+            let (Some(range), _) = rows::effect_and_text(&content, row.event) else {
+                continue;
             };
+            let effect = &content[range.clone()];
+            let new_effect = match self.operation {
+                EffectOperation::Set => self.effect.clone(),
+                EffectOperation::Clear => String::new(),
+                EffectOperation::Append if effect.is_empty() => self.effect.clone(),
+                EffectOperation::Append => format!("{effect} {}", self.effect),
+                EffectOperation::Prepend if effect.is_empty() => self.effect.clone(),
+                EffectOperation::Prepend => format!("{} {effect}", self.effect),
+            };
+            edits.push((range, new_effect));
+            changes_made += 1;
+        }
 
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Effect {operation_name} for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were modified".to_string()))
+        match rows::edit(document, &content, edits)? {
+            Some(range) => {
+                let operation_name = match self.operation {
+                    EffectOperation::Set => "set",
+                    EffectOperation::Clear => "cleared",
+                    EffectOperation::Append => "appended",
+                    EffectOperation::Prepend => "prepended",
+                };
+
+                Ok(
+                    CommandResult::success_with_change(range, Position::new(document.len()))
+                        .with_message(format!("Effect {operation_name} for {changes_made} events")),
+                )
+            }
+            None => {
+                Ok(CommandResult::success().with_message("No events were modified".to_string()))
+            }
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..6f717e4 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -1,99 +1,36 @@
-//! Shared parsing helpers for event management commands.
-//!
-//! Provides robust ASS event line parsing with proper comma handling for the
-//! `Effect` and `Text` fields, used by the sibling command submodules.
+//! Locating events for the event management commands.
 
-use crate::core::EditorError;
-use ass_core::parser::ast::{Event, EventType, Span};
+use crate::commands::rows::{self, Line};
+use crate::core::{EditorError, Result};
+use ass_core::parser::ast::{Event, Section};
+use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
-/// Helper function to parse an ASS event line with proper comma handling
-/// Returns parsed Event struct or error if parsing fails
-pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
-    // Extract event type
-    let colon_pos = line
-        .find(':')
-        .ok_or_else(|| EditorError::command_failed("Invalid event format: missing colon"))?;
-    let event_type_str = &line[..colon_pos];
-    let fields_part = line[colon_pos + 1..].trim();
-
-    let event_type = match event_type_str {
-        "Dialogue" => EventType::Dialogue,
-        "Comment" => EventType::Comment,
-        _ => return Err(EditorError::command_failed("Unknown event type")),
-    };
-
-    // Parse fields carefully - Effect field can contain commas, so we need special handling
-    // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
-    let parts: Vec<&str> = fields_part.splitn(10, ',').collect();
-    if parts.len() < 10 {
-        return Err(EditorError::command_failed(
-            "Invalid event format: insufficient fields",
-        ));
-    }
-
-    // The issue is that parts[8] (Effect) and parts[9] (Text) might be incorrectly split
-    // if Effect contains commas. We need to rejoin them properly.
-
-    // First 8 fields are safe (no commas expected)
-    let layer = parts[0].trim();
-    let start = parts[1].trim();
-    let end = parts[2].trim();
-    let style = parts[3].trim();
-    let name = parts[4].trim();
-    let margin_l = parts[5].trim();
-    let margin_r = parts[6].trim();
-    let margin_v = parts[7].trim();
-
-    // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
-
-    // Calculate where effect+text starts in the original string
-    let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
-    let remaining = &fields_part[prefix_len..];
-
-    // Find the last comma that's not inside parentheses
-    let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
-    let mut paren_depth = 0;
+/// An event and the line of the document it is on
+pub(super) struct EventRow<'s, 'a> {
+    pub event: &'s Event<'a>,
+    pub line: Line,
+}
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
-        match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
-            ',' if paren_depth == 0 => {
-                split_point = Some(i);
-                break;
-            }
-            _ => {}
-        }
+/// Events of the document in order, which event indices count
+pub(super) fn event_rows<'s, 'a>(
+    content: &str,
+    script: &'s Script<'a>,
+) -> Result<Vec<EventRow<'s, 'a>>> {
+    if !script
+        .sections()
+        .iter()
+        .any(|section| matches!(section, Section::Events(_)))
+    {
+        return Err(EditorError::command_failed("Events section not found"));
     }
-
-    let (effect, text) = if let Some(split) = split_point {
-        let effect_part = remaining[..split].trim();
-        let text_part = remaining[split + 1..].trim();
-        (effect_part, text_part)
-    } else {
-        // No comma found outside parentheses, treat entire remaining as effect
-        (remaining.trim(), "")
-    };
-
-    Ok(Event {
-        event_type,
-        layer,
-        start,
-        end,
-        style,
-        name,
-        margin_l,
-        margin_r,
-        margin_v,
-        margin_t: None,
-        margin_b: None,
-        effect,
-        text,
-        span: Span::new(0, line.len(), 1, 1), // Dummy span
-    })
+    Ok(rows::events(script)
+        .into_iter()
+        .map(|event| EventRow {
+            event,
+            line: rows::line_at(content, event.span.start),
+        })
+        .collect())
 }
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..cae348f 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,15 +1,15 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
+    vec,
 };
 
 /// Command to merge two consecutive events
@@ -55,109 +55,47 @@ impl EditorCommand for MergeEventsCommand {
         }
 
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find both events
-        let mut events = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.first_event_index
-                    || current_index == self.second_event_index
-                {
-                    events.push((current_index, event_start, line_end, line.to_string()));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if events.len() != 2 {
+        let script = rows::parse(&content)?;
+        let events = event_rows(&content, &script)?;
+        let (Some(first), Some(second)) = (
+            events.get(self.first_event_index),
+            events.get(self.second_event_index),
+        ) else {
             return Err(EditorError::command_failed(
                 "Could not find both events to merge",
             ));
-        }
-
-        // Parse both events using ass-core's parser
-        let first_event_line = &events[0].3;
-        let second_event_line = &events[1].3;
+        };
 
-        let first_event = parse_event_line(first_event_line)?;
-        let second_event = parse_event_line(second_event_line)?;
+        let (_, first_text) = rows::effect_and_text(&content, first.event);
+        let (_, second_text) = rows::effect_and_text(&content, second.event);
+        let (Some(first_end), Some(first_text)) =
+            (rows::field_range(&content, first.event.end), first_text)
+        else {
+            return Err(EditorError::command_failed("Invalid events section format"));
+        };
 
         // Use first event's properties, second event's end time, merged text
-        let merged_text = format!(
-            "{}{}{}",
-            first_event.text, self.merge_text_separator, second_event.text
+        let appended = format!(
+            "{}{}",
+            self.merge_text_separator,
+            second_text.map_or("", |range| &content[range])
         );
-
-        // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
-        let merged_event = format!(
-            "{}: {},{},{},{},{},{},{},{},{},{}",
-            event_type_str,
-            first_event.layer,
-            first_event.start,
-            second_event.end,
-            first_event.style,
-            first_event.name,
-            first_event.margin_l,
-            first_event.margin_r,
-            first_event.margin_v,
-            first_event.effect,
-            merged_text
-        );
-
-        // Replace both events with the merged one
-        let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
-        let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
-
-        document.replace(range, &replacement)?;
-
-        let end_pos = Position::new(first_start + replacement.len());
-        Ok(CommandResult::success_with_change(
-            Range::new(Position::new(first_start), end_pos),
-            end_pos,
+        let edits = vec![
+            (first_end, second.event.end.to_string()),
+            (first_text.end..first_text.end, appended),
+            (second.line.start..second.line.next, String::new()),
+        ];
+        let start_pos = Position::new(first.line.start);
+        let changed = rows::edit(document, &content, edits)?;
+
+        let end_pos = changed.map_or(start_pos, |range| range.end);
+        Ok(
+            CommandResult::success_with_change(Range::new(start_pos, end_pos), end_pos)
+                .with_message(format!(
+                    "Merged events {} and {}",
+                    self.first_event_index, self.second_event_index
+                )),
         )
-        .with_message(format!(
-            "Merged events {} and {}",
-            self.first_event_index, self.second_event_index
-        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..a5ff9a3 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,13 +1,13 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{format, string::String, vec};
 
 /// Command to split an event at a specific time
 #[derive(Debug, Clone)]
@@ -42,122 +42,65 @@ impl EditorCommand for SplitEventCommand {
             EditorError::command_failed(format!("Invalid time format: {}", self.split_time))
         })?;
 
-        // Find the event to split
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find the event at the specified index
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    // Found the event to split - parse using ass-core's parser
-                    let event = parse_event_line(line)?;
-
-                    // Validate split time is within event bounds
-                    let start_time_cs = event
-                        .start_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
-                    let end_time_cs = event
-                        .end_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
-
-                    if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
-                        return Err(EditorError::command_failed(
-                            "Split time must be between event start and end times",
-                        ));
-                    }
-
-                    // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
-                    let first_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        event.start,
-                        self.split_time,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    let second_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        self.split_time,
-                        event.end,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    // Replace the original event with the two new events
-                    let replacement = format!("{first_event}\n{second_event}");
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &replacement)?;
-
-                    let end_pos = Position::new(event_start + replacement.len());
-                    return Ok(CommandResult::success_with_change(
-                        Range::new(Position::new(event_start), end_pos),
-                        end_pos,
-                    )
-                    .with_message(format!(
-                        "Split event {} at time {}",
-                        self.event_index, self.split_time
-                    )));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                // Stop at next section
-                break;
-            }
+        let script = rows::parse(&content)?;
+        let events = event_rows(&content, &script)?;
+        let row = events.get(self.event_index).ok_or_else(|| {
+            EditorError::command_failed(format!("Event index {} not found", self.event_index))
+        })?;
 
-            event_start = line_end + 1;
+        // Validate split time is within event bounds
+        let start_time_cs = row
+            .event
+            .start_time_cs()
+            .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
+        let end_time_cs = row
+            .event
+            .end_time_cs()
+            .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
+
+        if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
+            return Err(EditorError::command_failed(
+                "Split time must be between event start and end times",
+            ));
         }
 
-        Err(EditorError::command_failed(format!(
-            "Event index {} not found",
-            self.event_index
+        let (Some(start), Some(end)) = (
+            rows::field_range(&content, row.event.start),
+            rows::field_range(&content, row.event.end),
+        ) else {
+            return Err(EditorError::command_failed("Invalid events section format"));
+        };
+
+        // Two copies of the event: one up to the split time, one from it on
+        let line = row.line;
+        let source = &content[line.start..line.end];
+        let copy = |field: core::ops::Range<usize>| {
+            rows::splice(
+                source,
+                vec![(
+                    field.start - line.start..field.end - line.start,
+                    self.split_time.clone(),
+                )],
+            )
+        };
+        let replacement = format!(
+            "{}{}{}",
+            copy(end),
+            rows::line_break(&content, line),
+            copy(start)
+        );
+        let range = Range::new(Position::new(line.start), Position::new(line.end));
+        document.replace(range, &replacement)?;
+
+        let end_pos = Position::new(line.start + replacement.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line.start), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Split event {} at time {}",
+            self.event_index, self.split_time
         )))
     }
 
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..f1bb8e6 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,9 +1,9 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, Position, Result};
 use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -70,119 +70,49 @@ impl TimingAdjustCommand {
 
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
+        let content = document.text();
+        let script = rows::parse(&content)?;
         let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
+        let mut edits = Vec::new();
 
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_adjust =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_adjust {
-                    // Parse event line using ass-core's parser
-                    if let Ok(event) = parse_event_line(line) {
-                        // Parse current times using Event methods
-                        if let (Ok(start_cs), Ok(end_cs)) =
-                            (event.start_time_cs(), event.end_time_cs())
-                        {
-                            // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
-
-                            // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
-
-                            let new_start_time = format_ass_time(new_start_cs);
-                            let new_end_time = format_ass_time(final_end_cs);
-
-                            // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
-                            let new_line = format!(
-                                "{}: {},{},{},{},{},{},{},{},{},{}",
-                                event_type_str,
-                                event.layer,
-                                new_start_time,
-                                new_end_time,
-                                event.style,
-                                event.name,
-                                event.margin_l,
-                                event.margin_r,
-                                event.margin_v,
-                                event.effect,
-                                event.text
-                            );
-
-                            // Replace the line
-                            let range =
-                                Range::new(Position::new(event_start), Position::new(line_end));
-                            document.replace(range, &new_line)?;
-
-                            // Update content for next iteration
-                            content = document.text();
-
-                            // Track overall range
-                            let change_range = Range::new(
-                                Position::new(event_start),
-                                Position::new(event_start + new_line.len()),
-                            );
-                            total_range = Some(match total_range {
-                                Some(existing) => existing.union(&change_range),
-                                None => change_range,
-                            });
-
-                            changes_made += 1;
-                        }
-                    }
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
+        for (index, row) in event_rows(&content, &script)?.iter().enumerate() {
+            if !self.event_indices.is_empty() && !self.event_indices.contains(&index) {
+                continue;
             }
-
-            event_start = line_end + 1;
+            let (Ok(start_cs), Ok(end_cs)) = (row.event.start_time_cs(), row.event.end_time_cs())
+            else {
+                continue;
+            };
+            let (Some(start), Some(end)) = (
+                rows::field_range(&content, row.event.start),
+                rows::field_range(&content, row.event.end),
+            ) else {
+                continue;
+            };
+
+            // Apply offsets
+            let new_start_cs = start_cs
+                .saturating_add_signed(self.start_offset_cs)
+                .min(u32::MAX - 1);
+            // Ensure end time is after start time
+            let new_end_cs = end_cs
+                .saturating_add_signed(self.end_offset_cs)
+                .max(new_start_cs + 1);
+
+            edits.push((start, format_ass_time(new_start_cs)));
+            edits.push((end, format_ass_time(new_end_cs)));
+            changes_made += 1;
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        match rows::edit(document, &content, edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len()),
             )
-            .with_message(format!("Adjusted timing for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
+            .with_message(format!("Adjusted timing for {changes_made} events"))),
+            None => {
+                Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
+            }
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..9c32e27 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,7 +1,10 @@
 //! Command to toggle event type between Dialogue and Comment.
 
+use super::helpers::event_rows;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -47,83 +50,36 @@ impl ToggleEventTypeCommand {
 
 impl EditorCommand for ToggleEventTypeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
+        let content = document.text();
+        let script = rows::parse(&content)?;
         let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
+        let mut edits = Vec::new();
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_toggle =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_toggle {
-                    let new_line = if line.starts_with("Dialogue:") {
-                        line.replacen("Dialogue:", "Comment:", 1)
-                    } else {
-                        line.replacen("Comment:", "Dialogue:", 1)
-                    };
-
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &new_line)?;
-
-                    // Update content for next iteration
-                    content = document.text();
-
-                    // Track overall range
-                    let change_range = Range::new(
-                        Position::new(event_start),
-                        Position::new(event_start + new_line.len()),
-                    );
-                    total_range = Some(match total_range {
-                        Some(existing) => existing.union(&change_range),
-                        None => change_range,
-                    });
-
-                    changes_made += 1;
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
+        for (index, row) in event_rows(&content, &script)?.iter().enumerate() {
+            if !self.event_indices.is_empty() && !self.event_indices.contains(&index) {
+                continue;
             }
-
-            event_start = line_end + 1;
+            let toggled = match row.event.event_type {
+                EventType::Dialogue => EventType::Comment,
+                EventType::Comment => EventType::Dialogue,
+                _ => continue,
+            };
+            let line = &content[row.line.start..row.line.end];
+            let start = row.line.start + line.len() - line.trim_start().len();
+            edits.push((
+                start..start + row.event.event_type.as_str().len(),
+                toggled.as_str().to_string(),
+            ));
+            changes_made += 1;
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        match rows::edit(document, &content, edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len()),
             )
-            .with_message(format!("Toggled type for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were toggled".to_string()))
+            .with_message(format!("Toggled type for {changes_made} events"))),
+            None => Ok(CommandResult::success().with_message("No events were toggled".to_string())),
         }
     }
 
diff --git a/crates/ass-editor/commands/mod.rs b/crates/ass-editor/commands/mod.rs
index 08f02d0..b17643d 100644
--- a/crates/ass-editor/commands/mod.rs
+++ b/crates/ass-editor/commands/mod.rs
@@ -17,6 +17,7 @@ mod batch_command;
 mod command_result;
 mod command_trait;
 mod fluent_builder;
+pub(crate) mod rows;
 mod text_commands;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/rows.rs b/crates/ass-editor/commands/rows.rs
new file mode 100644
index 0000000..5f7aca8
--- /dev/null
+++ b/crates/ass-editor/commands/rows.rs
@@ -0,0 +1,315 @@
+//! Locating parsed rows in the text of a document.
+//!
+//! Commands that change a row work on the bytes of the row and leave the rest
+//! of the document alone, so they need to know where the parser found it.
+
+use crate::core::{EditorDocument, EditorError, Position, Range as DocumentRange, Result};
+use ass_core::parser::ast::{Event, Section};
+use ass_core::parser::Script;
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{string::String, vec::Vec};
+
+/// Bytes of a line in a document
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) struct Line {
+    /// Start of the line
+    pub start: usize,
+    /// End of its content, before the line break
+    pub end: usize,
+    /// Start of the next line
+    pub next: usize,
+}
+
+/// Line of the document that holds an offset
+pub(crate) fn line_at(content: &str, offset: usize) -> Line {
+    let start = content[..offset].rfind('\n').map_or(0, |pos| pos + 1);
+    let (mut end, next) = match content[offset..].find('\n') {
+        Some(pos) => (offset + pos, offset + pos + 1),
+        None => (content.len(), content.len()),
+    };
+    if content[start..end].ends_with('\r') {
+        end -= 1;
+    }
+    Line { start, end, next }
+}
+
+/// Bytes of the document a parsed field refers to, if the row has the field
+pub(crate) fn field_range(content: &str, field: &str) -> Option<Range<usize>> {
+    let start = (field.as_ptr() as usize).checked_sub(content.as_ptr() as usize)?;
+    let end = start + field.len();
+    (end <= content.len()).then_some(start..end)
+}
+
+/// Line break the document uses after a line, `\n` where it has none
+pub(crate) fn line_break(content: &str, line: Line) -> &str {
+    if line.end == line.next {
+        "\n"
+    } else {
+        &content[line.end..line.next]
+    }
+}
+
+/// Copy of the text with each range replaced
+///
+/// Of ranges that overlap, the first one counts.
+pub(crate) fn splice(text: &str, mut edits: Vec<(Range<usize>, String)>) -> String {
+    edits.sort_by_key(|(range, _)| range.start);
+    let mut result = String::with_capacity(text.len());
+    let mut pos = 0;
+    for (range, new_text) in edits {
+        if range.start < pos {
+            continue;
+        }
+        result.push_str(&text[pos..range.start]);
+        result.push_str(&new_text);
+        pos = range.end;
+    }
+    result.push_str(&text[pos..]);
+    result
+}
+
+/// Parse the document for a command
+pub(crate) fn parse(content: &str) -> Result<Script<'_>> {
+    Script::parse(content).map_err(EditorError::from)
+}
+
+/// Events of the script in document order
+pub(crate) fn events<'s, 'a>(script: &'s Script<'a>) -> Vec<&'s Event<'a>> {
+    script
+        .sections()
+        .iter()
+        .filter_map(|section| match section {
+            Section::Events(events) => Some(events),
+            _ => None,
+        })
+        .flatten()
+        .collect()
+}
+
+/// A section of a document: its name and the lines below its header
+#[derive(Debug, Clone)]
+pub(crate) struct SectionLines<'a> {
+    /// Name between the brackets of the header
+    pub name: &'a str,
+    /// Line of the header
+    pub header: Line,
+    /// Lines up to the header of the next section
+    pub lines: Vec<Line>,
+}
+
+/// Sections of a document in order
+pub(crate) fn sections(content: &str) -> Vec<SectionLines<'_>> {
+    let mut sections: Vec<SectionLines<'_>> = Vec::new();
+    let mut start = 0;
+    while start < content.len() {
+        let line = line_at(content, start);
+        start = line.next;
+        let text = content[line.start..line.end]
+            .trim_start_matches('\u{FEFF}')
+            .trim();
+        let name = text
+            .strip_prefix('[')
+            .and_then(|rest| rest.find(']').map(|end| rest[..end].trim()));
+        if let Some(name) = name {
+            sections.push(SectionLines {
+                name,
+                header: line,
+                lines: Vec::new(),
+            });
+        } else if let Some(section) = sections.last_mut() {
+            section.lines.push(line);
+        }
+    }
+    sections
+}
+
+/// A style of a document
+#[derive(Debug, Clone)]
+pub(crate) struct StyleRow {
+    /// Line the style is on
+    pub line: Line,
+    /// Bytes of its fields, in the order of the format
+    pub fields: Vec<Range<usize>>,
+    /// Column the format gives the name of the style
+    pub name_column: usize,
+}
+
+impl StyleRow {
+    /// Bytes of the name of the style
+    pub(crate) fn name(&self) -> Option<Range<usize>> {
+        self.fields.get(self.name_column).cloned()
+    }
+}
+
+/// A section of styles of a document
+#[derive(Debug, Clone)]
+pub(crate) struct StyleSection<'a> {
+    /// Line of the header
+    pub header: Line,
+    /// Line of the format, if the section has one
+    pub format_line: Option<Line>,
+    /// Names of the columns, if the section has a format
+    pub format: Option<Vec<&'a str>>,
+    /// Styles of the section
+    pub styles: Vec<StyleRow>,
+}
+
+impl StyleSection<'_> {
+    /// Column of a field of the styles in this section
+    pub(crate) fn column(&self, field: &str) -> Option<usize> {
+        let find = |names: &[&str]| {
+            names
+                .iter()
+                .position(|name| name.eq_ignore_ascii_case(field))
+        };
+        match &self.format {
+            Some(format) => find(format),
+            None => find(DEFAULT_STYLE_FORMAT),
+        }
+    }
+
+    /// First style of this name
+    pub(crate) fn style(&self, content: &str, name: &str) -> Option<&StyleRow> {
+        self.styles
+            .iter()
+            .find(|style| style.name().is_some_and(|range| &content[range] == name))
+    }
+}
+
+/// Columns of styles in a section without a format
+const DEFAULT_STYLE_FORMAT: &[&str] = &[
+    "Name",
+    "Fontname",
+    "Fontsize",
+    "PrimaryColour",
+    "SecondaryColour",
+    "OutlineColour",
+    "BackColour",
+    "Bold",
+    "Italic",
+    "Underline",
+    "StrikeOut",
+    "ScaleX",
+    "ScaleY",
+    "Spacing",
+    "Angle",
+    "BorderStyle",
+    "Outline",
+    "Shadow",
+    "Alignment",
+    "MarginL",
+    "MarginR",
+    "MarginV",
+    "Encoding",
+];
+
+/// Sections of styles of a document in order
+pub(crate) fn style_sections(content: &str) -> Vec<StyleSection<'_>> {
+    sections(content)
+        .into_iter()
+        .filter(|section| {
+            matches!(
+                section.name,
+                "V4+ Styles" | "V4 Styles" | "V4++ Styles" | "Styles"
+            )
+        })
+        .map(|section| {
+            let mut result = StyleSection {
+                header: section.header,
+                format_line: None,
+                format: None,
+                styles: Vec::new(),
+            };
+            for line in section.lines {
+                let text = content[line.start..line.end].trim();
+                if let Some(columns) = text.strip_prefix("Format:") {
+                    result.format_line = Some(line);
+                    result.format = Some(columns.split(',').map(str::trim).collect());
+                } else if let Some(fields) = text.strip_prefix("Style:") {
+                    result.styles.push(StyleRow {
+                        line,
+                        fields: fields
+                            .split(',')
+                            .filter_map(|field| field_range(content, field.trim()))
+                            .collect(),
+                        name_column: result.column("Name").unwrap_or(0),
+                    });
+                }
+            }
+            result
+        })
+        .collect()
+}
+
+/// Bytes of the effect and of the text of an event
+///
+/// An effect may hold commas inside parentheses, which the parser takes for
+/// the end of the field.
+pub(crate) fn effect_and_text(
+    content: &str,
+    event: &Event<'_>,
+) -> (Option<Range<usize>>, Option<Range<usize>>) {
+    let effect = field_range(content, event.effect);
+    let text = field_range(content, event.text);
+    let (Some(effect), Some(text)) = (effect.clone(), text.clone()) else {
+        return (effect, text);
+    };
+    if effect.start > text.start || !event.effect.contains('(') {
+        return (Some(effect), Some(text));
+    }
+
+    let mut depth = 0usize;
+    for (pos, ch) in content[effect.start..text.end].char_indices() {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            ',' if depth == 0 => {
+                let comma = effect.start + pos;
+                if comma < text.start {
+                    break;
+                }
+                let effect_end = effect.start + content[effect.start..comma].trim_end().len();
+                let rest = &content[comma + 1..text.end];
+                let text_start = text.end - rest.trim_start().len();
+                return (Some(effect.start..effect_end), Some(text_start..text.end));
+            }
+            _ => {}
+        }
+    }
+    (Some(effect), Some(text))
+}
+
+/// Replace ranges of the document in one edit
+///
+/// Returns the range the replacements cover afterwards, from the start of the
+/// first to the end of the last, or `None` if there was nothing to replace.
+pub(crate) fn edit(
+    document: &mut EditorDocument,
+    content: &str,
+    edits: Vec<(Range<usize>, String)>,
+) -> Result<Option<DocumentRange>> {
+    let Some(start) = edits.iter().map(|(range, _)| range.start).min() else {
+        return Ok(None);
+    };
+    let end = edits
+        .iter()
+        .map(|(range, _)| range.end)
+        .max()
+        .unwrap_or(start);
+    let edits = edits
+        .into_iter()
+        .map(|(range, text)| (range.start - start..range.end - start, text))
+        .collect();
+    let replacement = splice(&content[start..end], edits);
+
+    document.replace(
+        DocumentRange::new(Position::new(start), Position::new(end)),
+        &replacement,
+    )?;
+    Ok(Some(DocumentRange::new(
+        Position::new(start),
+        Position::new(start + replacement.len()),
+    )))
+}
-- 
2.43.0


From 858351bae362c89f234b09221638b3f90c3799d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 043/115] fix: style commands find styles by name and fields by
 the format

---
 .../commands/style_commands/apply.rs          | 120 +++++-------------
 .../commands/style_commands/clone.rs          |  77 ++++++-----
 .../commands/style_commands/create.rs         |  73 +++++------
 .../commands/style_commands/delete.rs         |  39 ++----
 .../commands/style_commands/edit.rs           | 110 +++++-----------
 5 files changed, 152 insertions(+), 267 deletions(-)

diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..c7bc939 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -3,8 +3,10 @@
 //! Provides [`ApplyStyleCommand`] to retarget events from one style to
 //! another, with an optional text filter on event lines.
 
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Result};
+use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -49,103 +51,45 @@ impl ApplyStyleCommand {
 
 impl EditorCommand for ApplyStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let mut changes_made = 0;
-        let mut total_range: Option<Range> = None;
-
-        // Find events section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip format line
-        let events_content_start = content[events_start..]
-            .find('\n')
-            .map(|pos| events_start + pos + 1)
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Skip format line again (Format: ...)
-        let first_event_start = content[events_content_start..]
-            .find('\n')
-            .map(|pos| events_content_start + pos + 1)
-            .unwrap_or(events_content_start);
-
-        let mut search_pos = first_event_start;
-
-        while search_pos < content.len() {
-            // Find next event line
-            let line_start = search_pos;
-            let line_end = content[line_start..]
-                .find('\n')
-                .map(|pos| line_start + pos)
-                .unwrap_or(content.len());
+        let content = document.text();
+        let script = rows::parse(&content)?;
+        if !script
+            .sections()
+            .iter()
+            .any(|section| matches!(section, Section::Events(_)))
+        {
+            return Err(EditorError::command_failed("Events section not found"));
+        }
 
-            if line_start >= line_end {
-                break;
+        let mut changes_made = 0;
+        let mut edits = Vec::new();
+        for event in rows::events(&script) {
+            if event.style != self.old_style {
+                continue;
             }
-
-            let line = &content[line_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let parts: Vec<&str> = line.split(',').collect();
-
-                // Check if this event uses the old style (typically 4th field after event type)
-                if parts.len() > 4 && parts[3].trim() == self.old_style {
-                    // Apply filter if specified
-                    let should_update = if let Some(ref filter) = self.event_filter {
-                        line.contains(filter)
-                    } else {
-                        true
-                    };
-
-                    if should_update {
-                        // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
-
-                        // Update the document
-                        let range = Range::new(Position::new(line_start), Position::new(line_end));
-                        document.replace(range, &updated_line)?;
-
-                        // Update content for next iteration (this is inefficient but correct)
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(line_start),
-                            Position::new(line_start + updated_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
+            // Apply filter if specified
+            if let Some(ref filter) = self.event_filter {
+                if !event.text.contains(filter.as_str()) {
+                    continue;
                 }
-            } else if line.starts_with('[') && line != "[Events]" {
-                // Stop at next section
-                break;
             }
-
-            search_pos = line_end + 1;
+            if let Some(range) = rows::field_range(&content, event.style) {
+                edits.push((range, self.new_style.clone()));
+                changes_made += 1;
+            }
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        match rows::edit(document, &content, edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len()),
             )
             .with_message(format!(
                 "Applied style '{}' to {} events",
                 self.new_style, changes_made
-            )))
-        } else {
-            Ok(CommandResult::success()
-                .with_message("No events found matching the criteria".to_string()))
+            ))),
+            None => Ok(CommandResult::success()
+                .with_message("No events found matching the criteria".to_string())),
         }
     }
 
diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..9b952df 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -3,11 +3,12 @@
 //! Provides [`CloneStyleCommand`] to duplicate an existing style under a new
 //! name, inserting the clone after the source style line.
 
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{format, string::String, vec};
 
 /// Command to clone an existing style with a new name
 #[derive(Debug, Clone)]
@@ -38,57 +39,53 @@ impl CloneStyleCommand {
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
+        let sections = rows::style_sections(&content);
+        let find = |name: &str| {
+            sections
+                .iter()
+                .find_map(|section| section.style(&content, name))
+        };
 
         // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if find(&self.target_style).is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
 
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
-            let source_line = &content[line_start..line_end];
+        let source = find(&self.source_style).and_then(|style| Some((style.line, style.name()?)));
+        let Some((line, name)) = source else {
+            return Err(EditorError::command_failed(format!(
+                "Source style '{}' not found",
+                self.source_style
+            )));
+        };
 
-            // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
+        // Replace the style name in the cloned line
+        let cloned_line = rows::splice(
+            &content[line.start..line.end],
+            vec![(
+                name.start - line.start..name.end - line.start,
+                self.target_style.clone(),
+            )],
+        );
 
-            // Find where to insert the new style (after the source style)
-            let insert_pos = line_end;
-            let insert_text = format!("\n{cloned_line}");
+        // Insert the new style after the source style
+        let insert_pos = line.end;
+        let insert_text = format!("{}{cloned_line}", rows::line_break(&content, line));
 
-            document.insert(Position::new(insert_pos), &insert_text)?;
+        document.insert(Position::new(insert_pos), &insert_text)?;
 
-            let end_pos = Position::new(insert_pos + insert_text.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(insert_pos), end_pos),
-                end_pos,
-            )
-            .with_message(format!(
-                "Cloned style '{}' to '{}'",
-                self.source_style, self.target_style
-            )))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Source style '{}' not found",
-                self.source_style
-            )))
-        }
+        let end_pos = Position::new(insert_pos + insert_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(insert_pos), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Cloned style '{}' to '{}'",
+            self.source_style, self.target_style
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..3622758 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -3,6 +3,7 @@
 //! Provides [`CreateStyleCommand`] to insert a new style into the styles
 //! section, creating the section when it does not yet exist.
 
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result, StyleBuilder};
 
@@ -40,53 +41,49 @@ impl EditorCommand for CreateStyleCommand {
         // Build the style line with the provided name
         let mut builder = self.style_builder.clone();
         builder = builder.name(&self.style_name);
-        let style_line = builder.build()?;
 
         // Find the styles section or create one
         let content = document.text();
-        let styles_section_pos = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-            .or_else(|| content.find("[Styles]"));
-
-        if let Some(section_start) = styles_section_pos {
-            // Find the end of the format line to insert after it
-            let section_content = &content[section_start..];
-            if let Some(format_line_end) = section_content.find('\n') {
-                let format_end_pos = section_start + format_line_end + 1;
-
-                // Find next format line or end of section
-                let insert_pos = if let Some(next_line_start) = content[format_end_pos..].find('\n')
-                {
-                    format_end_pos + next_line_start + 1
-                } else {
-                    format_end_pos
-                };
-
-                // Insert the new style
-                let insert_text = format!("{style_line}\n");
-                document.insert(Position::new(insert_pos), &insert_text)?;
-
-                let end_pos = Position::new(insert_pos + insert_text.len());
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(insert_pos), end_pos),
-                    end_pos,
-                )
-                .with_message(format!("Created style '{}'", self.style_name)));
-            }
+        if let Some(section) = rows::style_sections(&content).first() {
+            let style_line = match &section.format {
+                Some(format) => builder.build_with_format(format)?,
+                None => builder.build()?,
+            };
+
+            // Insert the new style after the format line
+            let line = section.format_line.unwrap_or(section.header);
+            let line_break = rows::line_break(&content, line);
+            let insert_text = if line.end == line.next {
+                format!("{line_break}{style_line}{line_break}")
+            } else {
+                format!("{style_line}{line_break}")
+            };
+            document.insert(Position::new(line.next), &insert_text)?;
+
+            let end_pos = Position::new(line.next + insert_text.len());
+            return Ok(CommandResult::success_with_change(
+                Range::new(Position::new(line.next), end_pos),
+                end_pos,
+            )
+            .with_message(format!("Created style '{}'", self.style_name)));
         }
+        let style_line = builder.build()?;
 
         // No styles section found, create one
-        let styles_section = format!(
-            "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
-        );
-
         // Insert before [Events] section if it exists, otherwise at the end
-        let insert_pos = if let Some(events_pos) = content.find("[Events]") {
-            events_pos
+        let insert_pos = rows::sections(&content)
+            .iter()
+            .find(|section| section.name == "Events")
+            .map_or(content.len(), |section| section.header.start);
+        let separator = if content[..insert_pos].is_empty() || content[..insert_pos].ends_with('\n')
+        {
+            "\n"
         } else {
-            content.len()
+            "\n\n"
         };
+        let styles_section = format!(
+            "{separator}[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
+        );
 
         document.insert(Position::new(insert_pos), &styles_section)?;
 
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..339b30c 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -3,6 +3,7 @@
 //! Provides [`DeleteStyleCommand`] to remove a named style line from the
 //! styles section.
 
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -36,33 +37,21 @@ impl DeleteStyleCommand {
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
+        let line = rows::style_sections(&content)
+            .iter()
+            .find_map(|section| section.style(&content, &self.style_name))
+            .map(|style| style.line)
+            .ok_or_else(|| {
+                EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+            })?;
 
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
+        let start = Position::new(line.start);
+        document.delete(Range::new(start, Position::new(line.next)))?;
 
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), Position::new(line_start)),
-                Position::new(line_start),
-            )
-            .with_message(format!("Deleted style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
-        }
+        Ok(
+            CommandResult::success_with_change(Range::new(start, start), start)
+                .with_message(format!("Deleted style '{}'", self.style_name)),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..0e81830 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -3,6 +3,7 @@
 //! Provides [`EditStyleCommand`] to update individual fields of an existing
 //! style, mapping field names to columns via the section format line.
 
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -10,7 +11,6 @@ use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 #[cfg(feature = "std")]
@@ -84,81 +84,39 @@ impl EditStyleCommand {
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
-
-            let style_line = &content[line_start..line_end];
-            let fields: Vec<&str> = style_line.split(',').collect();
-
-            if fields.len() < 2 {
-                return Err(EditorError::command_failed("Invalid style format"));
-            }
-
-            // Find format line to determine field order
-            let styles_section_start = content[..line_start]
-                .rfind("[V4+ Styles]")
-                .or_else(|| content[..line_start].rfind("[V4 Styles]"))
-                .or_else(|| content[..line_start].rfind("[Styles]"))
-                .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
-
-            let format_line_start = content[styles_section_start..]
-                .find("Format:")
-                .map(|pos| styles_section_start + pos)
-                .ok_or_else(|| EditorError::command_failed("Could not find format line"))?;
-
-            let format_line_end = content[format_line_start..]
-                .find('\n')
-                .map(|pos| format_line_start + pos)
-                .unwrap_or(content.len());
-
-            let format_line = &content[format_line_start..format_line_end];
-            let format_fields: Vec<&str> = format_line
-                .strip_prefix("Format: ")
-                .unwrap_or(format_line)
-                .split(", ")
-                .collect();
-
-            // Build updated style line
-            let mut updated_fields = fields
-                .iter()
-                .map(|f| f.to_string())
-                .collect::<Vec<String>>();
-
-            for (field_name, new_value) in &self.field_updates {
-                if let Some(field_index) = format_fields.iter().position(|f| f == field_name) {
-                    if field_index < updated_fields.len() {
-                        updated_fields[field_index] = new_value.clone();
-                    }
-                }
-            }
-
-            let new_style_line = updated_fields.join(",");
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_style_line)?;
-
-            let end_pos = Position::new(line_start + new_style_line.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), end_pos),
-                end_pos,
-            )
-            .with_message(format!("Updated style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
-        }
+        let sections = rows::style_sections(&content);
+        let (section, style) = sections
+            .iter()
+            .find_map(|section| {
+                let style = section.style(&content, &self.style_name)?;
+                Some((section, style))
+            })
+            .ok_or_else(|| {
+                EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+            })?;
+
+        // Only the fields to update change, the format line tells where they are
+        let edits = self
+            .field_updates
+            .iter()
+            .filter_map(|(field_name, new_value)| {
+                let column = section.column(field_name)?;
+                let range = style.fields.get(column)?;
+                Some((range.clone(), new_value.clone()))
+            })
+            .collect();
+        let line = style.line;
+        let changed = rows::edit(document, &content, edits)?;
+
+        let start_pos = Position::new(line.start);
+        let end_pos = match changed {
+            Some(_) => Position::new(document.len() - (content.len() - line.end)),
+            None => Position::new(line.end),
+        };
+        Ok(
+            CommandResult::success_with_change(Range::new(start_pos, end_pos), end_pos)
+                .with_message(format!("Updated style '{}'", self.style_name)),
+        )
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From 075ed696f7026ff0584185835033586df5a5ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 044/115] fix: script info commands match whole property names

---
 .../commands/script_info_commands/delete.rs   | 43 +++--------
 .../commands/script_info_commands/get.rs      | 72 +++--------------
 .../commands/script_info_commands/mod.rs      |  1 +
 .../commands/script_info_commands/rows.rs     | 40 ++++++++++
 .../commands/script_info_commands/set.rs      | 77 +++++++------------
 5 files changed, 90 insertions(+), 143 deletions(-)
 create mode 100644 crates/ass-editor/commands/script_info_commands/rows.rs

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..6408903 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,13 +1,11 @@
 //! Command to remove a property from the `[Script Info]` section.
 
+use super::rows::script_info;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to delete a script info property from the ASS document
 ///
@@ -28,36 +26,17 @@ impl DeleteScriptInfoCommand {
 
 impl EditorCommand for DeleteScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
+        let content = document.text();
+        let (_, properties) = script_info(&content)?;
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(line_end));
-            document.delete(range)?;
+        if let Some(property) = properties.iter().find(|p| p.name == self.property) {
+            let line = property.line;
+            let start = Position::new(line.start);
+            document.delete(Range::new(start, Position::new(line.next)))?;
 
             Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
+                Range::new(start, start),
+                start,
             ))
         } else {
             Ok(CommandResult::success())
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..14f6e46 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,10 +1,10 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
-use crate::core::{EditorDocument, EditorError, Result};
+use super::rows::script_info;
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -28,34 +28,11 @@ impl GetScriptInfoCommand {
     /// Execute and return the property value
     pub fn get_value(&self, document: &EditorDocument) -> Result<Option<String>> {
         let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
-        } else {
-            Ok(None)
-        }
+        let (_, properties) = script_info(&content)?;
+        Ok(properties
+            .iter()
+            .find(|p| p.name == self.property)
+            .map(|p| p.value.to_string()))
     }
 }
 
@@ -75,36 +52,11 @@ impl GetAllScriptInfoCommand {
     /// Execute and return all properties as key-value pairs
     pub fn get_all(&self, document: &EditorDocument) -> Result<Vec<(String, String)>> {
         let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        let search_range = &content[script_info_start..script_info_end];
-        let mut properties = Vec::new();
-
-        for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
-                continue;
-            }
-
-            // Parse property: value pairs
-            if let Some(colon_pos) = line.find(':') {
-                let property = line[..colon_pos].trim().to_string();
-                let value = line[colon_pos + 1..].trim().to_string();
-                properties.push((property, value));
-            }
-        }
-
-        Ok(properties)
+        let (_, properties) = script_info(&content)?;
+        Ok(properties
+            .iter()
+            .map(|p| (p.name.to_string(), p.value.to_string()))
+            .collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/script_info_commands/mod.rs b/crates/ass-editor/commands/script_info_commands/mod.rs
index e62f5a9..746f183 100644
--- a/crates/ass-editor/commands/script_info_commands/mod.rs
+++ b/crates/ass-editor/commands/script_info_commands/mod.rs
@@ -5,6 +5,7 @@
 
 mod delete;
 mod get;
+mod rows;
 mod set;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/script_info_commands/rows.rs b/crates/ass-editor/commands/script_info_commands/rows.rs
new file mode 100644
index 0000000..421a589
--- /dev/null
+++ b/crates/ass-editor/commands/script_info_commands/rows.rs
@@ -0,0 +1,40 @@
+//! Locating properties in the `[Script Info]` section.
+
+use crate::commands::rows::{self, Line};
+use crate::core::{EditorError, Result};
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// A property of the `[Script Info]` section
+pub(super) struct Property<'a> {
+    pub line: Line,
+    pub name: &'a str,
+    pub value: &'a str,
+}
+
+/// Line of the header of the `[Script Info]` section and its properties in order
+pub(super) fn script_info(content: &str) -> Result<(Line, Vec<Property<'_>>)> {
+    let section = rows::sections(content)
+        .into_iter()
+        .find(|section| section.name == "Script Info")
+        .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
+
+    let properties = section
+        .lines
+        .into_iter()
+        .filter_map(|line| {
+            let text = content[line.start..line.end].trim();
+            if text.starts_with(';') || text.starts_with("!:") {
+                return None;
+            }
+            let (name, value) = text.split_once(':')?;
+            Some(Property {
+                line,
+                name: name.trim(),
+                value: value.trim(),
+            })
+        })
+        .collect();
+    Ok((section.header, properties))
+}
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..592a1b9 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,13 +1,12 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
+use super::rows::script_info;
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{format, string::String};
 
 /// Command to set a script info property in the ASS document
 ///
@@ -30,60 +29,36 @@ impl SetScriptInfoCommand {
 
 impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
+        let content = document.text();
+        let (header, properties) = script_info(&content)?;
+        let new_line = format!("{}: {}", self.property, self.value);
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section (next section or end of file)
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
+        if let Some(property) = properties.iter().find(|p| p.name == self.property) {
             // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
-
-            let new_line = format!("{}: {}", self.property, self.value);
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_line)?;
+            let line = property.line;
+            let start = Position::new(line.start);
+            document.replace(Range::new(start, Position::new(line.end)), &new_line)?;
 
+            let end = Position::new(line.start + new_line.len());
             Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(line_start),
-                    Position::new(line_start + new_line.len()),
-                ),
-                Position::new(line_start + new_line.len()),
+                Range::new(start, end),
+                end,
             ))
         } else {
             // Property doesn't exist, add it after [Script Info]
-            let insert_pos = content[script_info_start..]
-                .find('\n')
-                .map(|pos| script_info_start + pos + 1)
-                .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
-
-            let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert_raw(Position::new(insert_pos), &new_line)?;
-
+            let line_break = rows::line_break(&content, header);
+            let new_line = if header.end == header.next {
+                format!("{line_break}{new_line}{line_break}")
+            } else {
+                format!("{new_line}{line_break}")
+            };
+            let start = Position::new(header.next);
+            document.insert(start, &new_line)?;
+
+            let end = Position::new(header.next + new_line.len());
             Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(insert_pos),
-                    Position::new(insert_pos + new_line.len()),
-                ),
-                Position::new(insert_pos + new_line.len()),
+                Range::new(start, end),
+                end,
             ))
         }
     }
-- 
2.43.0


From 1342189f26c3e6f23eaeba60e4ff607b62ec102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 045/115] fix: tag commands leave the rest of an override block
 alone

---
 .../commands/tag_commands/blocks.rs           | 48 ++++++++++
 .../commands/tag_commands/insert.rs           | 10 +-
 .../ass-editor/commands/tag_commands/mod.rs   |  3 +-
 .../ass-editor/commands/tag_commands/parse.rs | 45 ++-------
 .../commands/tag_commands/remove.rs           | 80 ++++------------
 .../commands/tag_commands/replace.rs          | 95 ++++---------------
 .../ass-editor/commands/tag_commands/wrap.rs  | 24 ++---
 7 files changed, 113 insertions(+), 192 deletions(-)
 create mode 100644 crates/ass-editor/commands/tag_commands/blocks.rs

diff --git a/crates/ass-editor/commands/tag_commands/blocks.rs b/crates/ass-editor/commands/tag_commands/blocks.rs
new file mode 100644
index 0000000..d13c0ad
--- /dev/null
+++ b/crates/ass-editor/commands/tag_commands/blocks.rs
@@ -0,0 +1,48 @@
+//! Locating override blocks and the tags in them.
+
+use ass_core::analysis::events::tags::{parse_override_block, OverrideTag};
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// Bytes between the braces of each override block of a text
+///
+/// A brace that is never closed is text.
+pub(crate) fn override_blocks(text: &str) -> Vec<Range<usize>> {
+    let mut blocks = Vec::new();
+    let mut depth = 0usize;
+    let mut start = 0;
+    for (pos, ch) in text.char_indices() {
+        match ch {
+            '{' => {
+                if depth == 0 {
+                    start = pos + 1;
+                }
+                depth += 1;
+            }
+            '}' if depth > 0 => {
+                depth -= 1;
+                if depth == 0 {
+                    blocks.push(start..pos);
+                }
+            }
+            _ => {}
+        }
+    }
+    blocks
+}
+
+/// Tags of an override block, located within its content by ass-core's parser
+pub(super) fn block_tags(content: &str) -> Vec<OverrideTag<'_>> {
+    let mut tags = Vec::new();
+    let mut diagnostics = Vec::new();
+    parse_override_block(content, 0, &mut tags, &mut diagnostics);
+    tags
+}
+
+/// Bytes of a tag within the content of its block
+pub(super) fn tag_range(tag: &OverrideTag<'_>) -> Range<usize> {
+    let start = tag.position();
+    start..start + 1 + tag.name().len() + tag.args().len()
+}
diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 83a0682..d7bba4e 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -44,6 +44,11 @@ impl InsertTagCommand {
     fn format_tag(&self) -> Result<String> {
         let tag = self.tag.trim();
 
+        // Check if already wrapped in override brackets
+        if tag.starts_with('{') && tag.ends_with('}') {
+            return Ok(tag.to_string());
+        }
+
         // Validate tag format - should start with backslash
         if !tag.starts_with('\\') {
             return Err(EditorError::command_failed(format!(
@@ -51,11 +56,6 @@ impl InsertTagCommand {
             )));
         }
 
-        // Check if already wrapped in override brackets
-        if tag.starts_with('{') && tag.ends_with('}') {
-            return Ok(tag.to_string());
-        }
-
         // Auto-wrap if enabled
         if self.auto_wrap {
             Ok(format!("{{{tag}}}"))
diff --git a/crates/ass-editor/commands/tag_commands/mod.rs b/crates/ass-editor/commands/tag_commands/mod.rs
index 7afa0bf..5f55b1f 100644
--- a/crates/ass-editor/commands/tag_commands/mod.rs
+++ b/crates/ass-editor/commands/tag_commands/mod.rs
@@ -4,8 +4,7 @@
 //! ASS override tags like \b1, \i1, \c&H00FF00&, \pos(100,200), etc. with
 //! proper validation and nested tag handling.
 
-#![allow(clippy::while_let_on_iterator)]
-
+pub(crate) mod blocks;
 mod insert;
 mod parse;
 mod remove;
diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..292fd8e 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -3,6 +3,7 @@
 //! Provides [`ParseTagCommand`] for extracting override tags from a range into
 //! [`ParsedTag`] records, optionally including their positions.
 
+use super::blocks::{block_tags, override_blocks};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -71,48 +72,18 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
-
-        while let Some((pos, ch)) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-                let start_pos = pos;
-
-                while let Some((_, inner_ch)) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
-
-                // Parse tags from override content
-                let mut override_tags =
-                    self.extract_tags_from_override(&override_content, start_pos)?;
-                tags.append(&mut override_tags);
-            }
+        for block in override_blocks(text) {
+            let mut override_tags =
+                self.extract_tags_from_override(&text[block.clone()], block.start);
+            tags.append(&mut override_tags);
         }
 
         Ok(tags)
     }
 
     /// Extract individual tags from override block content using ass-core's parser
-    fn extract_tags_from_override(
-        &self,
-        content: &str,
-        base_position: usize,
-    ) -> Result<Vec<ParsedTag>> {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        let mut core_tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut core_tags, &mut diagnostics);
+    fn extract_tags_from_override(&self, content: &str, base_position: usize) -> Vec<ParsedTag> {
+        let core_tags = block_tags(content);
 
         let mut tags = Vec::new();
 
@@ -152,6 +123,6 @@ impl ParseTagCommand {
             });
         }
 
-        Ok(tags)
+        tags
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..e4caae7 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -4,6 +4,8 @@
 //! matching a specific pattern, from a range, optionally cleaning up empty
 //! override brackets.
 
+use super::blocks::{block_tags, override_blocks, tag_range};
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -74,75 +76,33 @@ impl EditorCommand for RemoveTagCommand {
 impl RemoveTagCommand {
     /// Remove tags from text content
     fn remove_tags_from_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - process it
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
-
-                // Process override content
-                let cleaned_override = self.process_override_content(&override_content);
-
-                // Add back if not empty or if we're keeping empty overrides
-                if !cleaned_override.is_empty() || !self.clean_empty_overrides {
-                    result.push('{');
-                    result.push_str(&cleaned_override);
-                    result.push('}');
-                }
+        let mut edits = Vec::new();
+
+        for block in override_blocks(text) {
+            let cleaned_override = self.process_override_content(&text[block.clone()]);
+
+            // Drop the brackets too if nothing is left and they are not to be kept
+            if cleaned_override.is_empty() && self.clean_empty_overrides {
+                edits.push((block.start - 1..block.end + 1, cleaned_override));
             } else {
-                result.push(ch);
+                edits.push((block, cleaned_override));
             }
         }
 
-        Ok(result)
+        Ok(rows::splice(text, edits))
     }
 
     /// Process content inside override brackets using ass-core's parser
     fn process_override_content(&self, content: &str) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
         if let Some(pattern) = &self.tag_pattern {
-            // Remove only specific pattern using ass-core's parser
-            let mut tags = Vec::new();
-            let mut diagnostics = Vec::new();
-            parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-            // Rebuild content without matching tags
-            let mut result = String::new();
-            let mut processed_positions = Vec::new();
-
-            // Process tags from ass-core parser
-            for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
-                }
-            }
-
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
-            }
-
-            result
+            // Remove only the tags of this name
+            let name = pattern.strip_prefix('\\').unwrap_or(pattern);
+            let edits = block_tags(content)
+                .iter()
+                .filter(|tag| tag.name() == name)
+                .map(|tag| (tag_range(tag), String::new()))
+                .collect();
+            rows::splice(content, edits)
         } else {
             // Remove all tags - return empty string
             String::new()
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..88e1e0d 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -3,15 +3,13 @@
 //! Provides [`ReplaceTagCommand`] for finding tags matching a pattern within a
 //! range and replacing them with another tag, either once or for all matches.
 
+use super::blocks::{block_tags, override_blocks, tag_range};
+use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Replace ASS override tag with another tag
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -70,81 +68,26 @@ impl EditorCommand for ReplaceTagCommand {
 impl ReplaceTagCommand {
     /// Replace tags in text content
     fn replace_tags_in_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-        let mut replacements_made = 0;
+        let mut edits = Vec::new();
 
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                result.push(ch);
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            // Process override content before closing
-                            let processed = self.process_override_for_replacement(
-                                &override_content,
-                                &mut replacements_made,
-                            );
-                            result.push_str(&processed);
-                            result.push(inner_ch);
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        for block in override_blocks(text) {
+            let content = &text[block.clone()];
+            for tag in block_tags(content) {
+                if !self.replace_all && !edits.is_empty() {
+                    break;
+                }
+                // Replace what matches the find pattern - preserve any suffix
+                let range = tag_range(&tag);
+                if content[range.clone()].starts_with(&self.find_pattern) {
+                    let start = block.start + range.start;
+                    edits.push((
+                        start..start + self.find_pattern.len(),
+                        self.replace_with.clone(),
+                    ));
                 }
-            } else {
-                result.push(ch);
-            }
-        }
-
-        Ok(result)
-    }
-
-    /// Process override content for tag replacement using ass-core's parser
-    fn process_override_for_replacement(
-        &self,
-        content: &str,
-        replacements_made: &mut usize,
-    ) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if !self.replace_all && *replacements_made > 0 {
-            return content.to_string();
-        }
-
-        let mut tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-        let mut result = String::new();
-
-        // Process tags from ass-core parser
-        for tag in &tags {
-            // Reconstruct the full tag to match against the find pattern
-            let tag_full = format!("\\{}{}", tag.name(), tag.args());
-
-            // Check if this tag matches our find pattern
-            if tag_full.starts_with(&self.find_pattern)
-                && (self.replace_all || *replacements_made == 0)
-            {
-                // Replace the tag - preserve any suffix
-                let suffix = &tag_full[self.find_pattern.len()..];
-                result.push_str(&self.replace_with);
-                result.push_str(suffix);
-                *replacements_made += 1;
-            } else {
-                // Add the original tag back
-                result.push_str(&tag_full);
             }
         }
 
-        result
+        Ok(rows::splice(text, edits))
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..3970084 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -59,18 +59,18 @@ impl WrapTagCommand {
         // Auto-generate closing tag based on opening tag
         let tag = self.opening_tag.trim_start_matches('\\');
 
-        if tag.starts_with('b') {
-            "\\b0".to_string()
-        } else if tag.starts_with('i') {
-            "\\i0".to_string()
-        } else if tag.starts_with('u') {
-            "\\u0".to_string()
-        } else if tag.starts_with('s') {
-            "\\s0".to_string()
-        } else if tag.starts_with("c&") || tag.starts_with("1c&") {
-            "\\c".to_string() // Reset to default color
-        } else {
-            "\\r".to_string() // Generic reset
+        let name_end = tag
+            .find(|c: char| !c.is_ascii_alphabetic())
+            .unwrap_or(tag.len());
+        match &tag[..name_end] {
+            "b" => "\\b0".to_string(),
+            "i" => "\\i0".to_string(),
+            "u" => "\\u0".to_string(),
+            "s" => "\\s0".to_string(),
+            // Reset to default color
+            _ if tag.starts_with("c&") || tag.starts_with("1c&") => "\\c".to_string(),
+            // Generic reset
+            _ => "\\r".to_string(),
         }
     }
 }
-- 
2.43.0


From 641608eab85b344531f53d1875258430ec17d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 046/115] fix: karaoke commands keep the text and adjust each
 tag once

---
 .../commands/karaoke_commands/adjust_impl.rs  | 126 ++++++------------
 .../commands/karaoke_commands/apply_impl.rs   |   8 +-
 .../commands/karaoke_commands/generate.rs     |  53 ++------
 .../commands/karaoke_commands/split.rs        |   5 +-
 4 files changed, 61 insertions(+), 131 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..ceb2d8c 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -1,6 +1,8 @@
 //! Execution and timing-rewrite logic for [`AdjustKaraokeCommand`].
 
 use super::{AdjustKaraokeCommand, TimingAdjustment};
+use crate::commands::rows;
+use crate::commands::tag_commands::blocks::override_blocks;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -58,103 +60,51 @@ impl AdjustKaraokeCommand {
             })?;
         }
 
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
+        let mut edits = Vec::new();
         let mut custom_index = 0;
 
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - extract content
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        for block in override_blocks(text) {
+            // Use ass-core's registry-based parser
+            let mut tags = Vec::new();
+            let mut diagnostics = Vec::new();
+            parse_override_block_with_registry(
+                &text[block.clone()],
+                0,
+                &mut tags,
+                &mut diagnostics,
+                Some(&registry),
+            );
+
+            for tag in &tags {
+                if !tag.name().starts_with(['k', 'K']) {
+                    continue;
                 }
-
-                // Use ass-core's registry-based parser
-                let mut tags = Vec::new();
-                let mut diagnostics = Vec::new();
-                parse_override_block_with_registry(
-                    &override_content,
-                    0,
-                    &mut tags,
-                    &mut diagnostics,
-                    Some(&registry),
-                );
-
-                // Process karaoke tags using ass-core's validated data
-                let processed_content = self.adjust_karaoke_tags_with_registry(
-                    &override_content,
-                    &tags,
-                    &mut custom_index,
-                )?;
-
-                result.push('{');
-                result.push_str(&processed_content);
-                result.push('}');
-            } else {
-                result.push(ch);
+                // This tag was validated by ass-core's karaoke handlers
+                let Ok(current_duration) = tag.args().trim().parse::<u32>() else {
+                    continue;
+                };
+                let new_duration = self.adjusted_duration(current_duration, &mut custom_index);
+                let start = block.start + tag.position() + 1 + tag.name().len();
+                edits.push((start..start + tag.args().len(), new_duration.to_string()));
             }
         }
 
-        Ok(result)
+        Ok(rows::splice(text, edits))
     }
 
-    /// Adjust karaoke tags using registry-validated tag information
-    fn adjust_karaoke_tags_with_registry(
-        &self,
-        original_content: &str,
-        tags: &[ass_core::analysis::events::tags::OverrideTag],
-        custom_index: &mut usize,
-    ) -> Result<String> {
-        let mut result = original_content.to_string();
-
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
-            if tag.name().starts_with('k') {
-                // This tag was validated by ass-core's karaoke handlers
-                let tag_name = tag.name();
-                let args = tag.args();
-
-                // Extract duration from args (ass-core already validated this)
-                let current_duration: u32 = args.trim().parse().unwrap_or(0);
-
-                // Calculate new duration based on adjustment type
-                let new_duration = match &self.adjustment {
-                    TimingAdjustment::Scale(factor) => {
-                        ((current_duration as f32 * factor) as u32).max(1)
-                    }
-                    TimingAdjustment::Offset(offset) => {
-                        ((current_duration as i32 + offset).max(1)) as u32
-                    }
-                    TimingAdjustment::SetAll(duration) => *duration,
-                    TimingAdjustment::Custom(timings) => {
-                        if *custom_index < timings.len() {
-                            let timing = timings[*custom_index];
-                            *custom_index += 1;
-                            timing
-                        } else {
-                            current_duration
-                        }
-                    }
-                };
-
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+    /// Calculate the new duration of a syllable based on the adjustment type
+    fn adjusted_duration(&self, current_duration: u32, custom_index: &mut usize) -> u32 {
+        match &self.adjustment {
+            TimingAdjustment::Scale(factor) => ((current_duration as f32 * factor) as u32).max(1),
+            TimingAdjustment::Offset(offset) => {
+                current_duration.saturating_add_signed(*offset).max(1)
+            }
+            TimingAdjustment::SetAll(duration) => *duration,
+            TimingAdjustment::Custom(timings) => {
+                let timing = timings.get(*custom_index).copied();
+                *custom_index += 1;
+                timing.unwrap_or(current_duration)
             }
         }
-
-        Ok(result)
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..8e82bbe 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -2,7 +2,7 @@
 
 use super::{ApplyKaraokeCommand, KaraokeTemplate, KaraokeType};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -159,6 +159,12 @@ impl ApplyKaraokeCommand {
         durations: &[u32],
         karaoke_type: KaraokeType,
     ) -> Result<String> {
+        if durations.is_empty() {
+            return Err(EditorError::command_failed(
+                "Karaoke pattern needs at least one duration",
+            ));
+        }
+
         let tag = karaoke_type.tag_string();
         let mut result = String::new();
 
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..a7afa15 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -61,52 +61,23 @@ impl GenerateKaraokeCommand {
         let mut current_start = 0;
         let chars: Vec<char> = text.chars().collect();
 
-        if chars.is_empty() {
-            return vec![text.to_string()];
-        }
-
         for (i, &ch) in chars.iter().enumerate() {
-            // Split on spaces and common syllable boundaries
-            if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
-                if current_start < i {
-                    let syllable: String = chars[current_start..i].iter().collect();
-                    if !syllable.trim().is_empty() {
-                        syllables.push(syllable);
-                    }
-                }
-
-                // Handle whitespace
-                if ch.is_whitespace() {
-                    let mut end = i + 1;
-                    while end < chars.len() && chars[end].is_whitespace() {
-                        end += 1;
-                    }
-                    if end > i + 1 {
-                        let whitespace: String = chars[i..end].iter().collect();
-                        syllables.push(whitespace);
-                        current_start = end;
-                        continue;
-                    }
-                }
-
-                current_start = i;
+            // Split on spaces and common syllable boundaries; whitespace leads the
+            // syllable after it
+            let word_end = i > 0 && ch.is_whitespace() && !chars[i - 1].is_whitespace();
+            if !word_end && !self.is_syllable_boundary(&chars, i) {
+                continue;
             }
-        }
-
-        // Add remaining text
-        if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
+            if chars[i..].iter().all(|c| c.is_whitespace()) {
+                break;
             }
+            syllables.push(chars[current_start..i].iter().collect());
+            current_start = i;
         }
 
-        // Return syllables or whole text if none found
-        if syllables.is_empty() {
-            vec![text.to_string()]
-        } else {
-            syllables
-        }
+        // Add remaining text
+        syllables.push(chars[current_start..].iter().collect());
+        syllables
     }
 
     /// Check if position is a syllable boundary
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..ec687cb 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -66,7 +66,10 @@ impl SplitKaraokeCommand {
         let mut last_pos = 0;
 
         for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+            let Some((pos, _)) = text.char_indices().nth(pos) else {
+                continue;
+            };
+            if pos <= last_pos {
                 continue;
             }
 
-- 
2.43.0


From f2c295b89ed9af2302f9c8dc1f5df9775245863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 047/115] fix: font and graphic commands work on whole entries
 and pad the encoding

---
 .../commands/fonts_graphics_commands/add.rs   | 107 ++-----------
 .../commands/fonts_graphics_commands/clear.rs |  66 ++------
 .../fonts_graphics_commands/embedded.rs       | 149 ++++++++++++++++++
 .../fonts_graphics_commands/encoding.rs       |  14 +-
 .../commands/fonts_graphics_commands/list.rs  |  56 +------
 .../commands/fonts_graphics_commands/mod.rs   |   1 +
 .../fonts_graphics_commands/remove.rs         |  94 +++--------
 7 files changed, 198 insertions(+), 289 deletions(-)
 create mode 100644 crates/ass-editor/commands/fonts_graphics_commands/embedded.rs

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..9467ee8 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -1,15 +1,11 @@
 //! Commands for adding embedded fonts and graphics to ASS documents
 
-use super::uuencode_data;
+use super::{embedded, uuencode_data};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to add an embedded font to the ASS document
 ///
@@ -44,50 +40,8 @@ impl AddFontCommand {
 
 impl EditorCommand for AddFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-
-        let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Fonts section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Fonts]\n")?;
-            insert_pos + "[Fonts]\n".len()
-        };
-
-        // Build font entry
-        let filename = &self.filename;
-        let mut font_entry = format!("fontname: {filename}\n");
-        for line in &self.data_lines {
-            font_entry.push_str(line);
-            font_entry.push('\n');
-        }
-
-        // Insert font data
-        document.insert_raw(Position::new(insert_pos), &font_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + font_entry.len()),
-            ),
-            Position::new(insert_pos + font_entry.len()),
-        ))
+        let range = embedded::add(document, embedded::FONTS, &self.filename, &self.data_lines)?;
+        Ok(CommandResult::success_with_change(range, range.end))
     }
 
     fn description(&self) -> &str {
@@ -134,50 +88,13 @@ impl AddGraphicCommand {
 
 impl EditorCommand for AddGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-
-        let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Graphics section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Graphics]\n")?;
-            insert_pos + "[Graphics]\n".len()
-        };
-
-        // Build graphic entry
-        let filename = &self.filename;
-        let mut graphic_entry = format!("filename: {filename}\n");
-        for line in &self.data_lines {
-            graphic_entry.push_str(line);
-            graphic_entry.push('\n');
-        }
-
-        // Insert graphic data
-        document.insert_raw(Position::new(insert_pos), &graphic_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + graphic_entry.len()),
-            ),
-            Position::new(insert_pos + graphic_entry.len()),
-        ))
+        let range = embedded::add(
+            document,
+            embedded::GRAPHICS,
+            &self.filename,
+            &self.data_lines,
+        )?;
+        Ok(CommandResult::success_with_change(range, range.end))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 85a3ed5..c0073ad 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -1,10 +1,8 @@
 //! Commands for clearing embedded fonts and graphics sections in ASS documents
 
+use super::embedded;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use crate::core::{EditorDocument, Range, Result};
 
 /// Command to clear all embedded fonts from the ASS document
 ///
@@ -27,32 +25,10 @@ impl Default for ClearFontsCommand {
 
 impl EditorCommand for ClearFontsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        if let Some(fonts_section) = content.find("[Fonts]") {
-            let header_end = content[fonts_section..]
-                .find('\n')
-                .map(|pos| fonts_section + pos + 1)
-                .unwrap_or(fonts_section + "[Fonts]".len());
-
-            let section_end = content[fonts_section..]
-                .find("\n[")
-                .map(|pos| fonts_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        Ok(match embedded::clear(document, embedded::FONTS)? {
+            Some(pos) => CommandResult::success_with_change(Range::new(pos, pos), pos),
+            None => CommandResult::success(),
+        })
     }
 
     fn description(&self) -> &str {
@@ -85,32 +61,10 @@ impl Default for ClearGraphicsCommand {
 
 impl EditorCommand for ClearGraphicsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        if let Some(graphics_section) = content.find("[Graphics]") {
-            let header_end = content[graphics_section..]
-                .find('\n')
-                .map(|pos| graphics_section + pos + 1)
-                .unwrap_or(graphics_section + "[Graphics]".len());
-
-            let section_end = content[graphics_section..]
-                .find("\n[")
-                .map(|pos| graphics_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        Ok(match embedded::clear(document, embedded::GRAPHICS)? {
+            Some(pos) => CommandResult::success_with_change(Range::new(pos, pos), pos),
+            None => CommandResult::success(),
+        })
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
new file mode 100644
index 0000000..2915b11
--- /dev/null
+++ b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
@@ -0,0 +1,149 @@
+//! Locating embedded files in the `[Fonts]` and `[Graphics]` sections.
+
+use crate::commands::rows::{self, Line};
+use crate::core::{EditorDocument, Position, Range, Result};
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Section of embedded files
+#[derive(Debug, Clone, Copy)]
+pub(super) struct Kind {
+    section: &'static str,
+    key: &'static str,
+}
+
+/// The `[Fonts]` section
+pub(super) const FONTS: Kind = Kind {
+    section: "Fonts",
+    key: "fontname:",
+};
+
+/// The `[Graphics]` section
+pub(super) const GRAPHICS: Kind = Kind {
+    section: "Graphics",
+    key: "filename:",
+};
+
+/// Embedded file and the bytes of its entry, whole lines
+pub(super) struct Entry<'a> {
+    pub name: &'a str,
+    pub range: core::ops::Range<usize>,
+}
+
+/// Header of the section, end of its last line with content, and its entries
+fn section(content: &str, kind: Kind) -> Option<(Line, Line, Vec<Entry<'_>>)> {
+    let section = rows::sections(content)
+        .into_iter()
+        .find(|section| section.name == kind.section)?;
+    let mut last = section.header;
+    let mut entries: Vec<Entry<'_>> = Vec::new();
+    for line in section.lines {
+        let text = &content[line.start..line.end];
+        if text.trim().is_empty() {
+            continue;
+        }
+        last = line;
+        if let Some(name) = text.trim().strip_prefix(kind.key) {
+            entries.push(Entry {
+                name: name.trim(),
+                range: line.start..line.next,
+            });
+        } else if let Some(entry) = entries.last_mut() {
+            entry.range.end = line.next;
+        }
+    }
+    Some((section.header, last, entries))
+}
+
+/// Entries of the section, none if there is no such section
+pub(super) fn entries(content: &str, kind: Kind) -> Option<Vec<Entry<'_>>> {
+    section(content, kind).map(|(_, _, entries)| entries)
+}
+
+/// Add an entry at the end of the section, which is created if needed
+pub(super) fn add(
+    document: &mut EditorDocument,
+    kind: Kind,
+    filename: &str,
+    data_lines: &[String],
+) -> Result<Range> {
+    let content = document.text();
+    let mut text = String::new();
+    let (pos, line_break) = match section(&content, kind) {
+        Some((header, last, _)) => {
+            let line_break = rows::line_break(&content, header);
+            if last.end == last.next {
+                text.push_str(line_break);
+            }
+            (last.next, line_break)
+        }
+        None => {
+            // Add newline if needed
+            if !content.is_empty() && !content.ends_with('\n') {
+                text.push('\n');
+            }
+            // Add section header
+            text.push_str(&format!("[{}]\n", kind.section));
+            (content.len(), "\n")
+        }
+    };
+
+    let entry_start = text.len();
+    text.push_str(&format!("{} {filename}{line_break}", kind.key));
+    for line in data_lines {
+        text.push_str(line);
+        text.push_str(line_break);
+    }
+
+    document.insert(Position::new(pos), &text)?;
+    Ok(Range::new(
+        Position::new(pos + entry_start),
+        Position::new(pos + text.len()),
+    ))
+}
+
+/// Remove the entry of a file, if the section has it
+///
+/// Returns where it was, or `None` if there is no such file.
+pub(super) fn remove(
+    document: &mut EditorDocument,
+    entries: &[Entry<'_>],
+    filename: &str,
+) -> Result<Option<Position>> {
+    let Some(entry) = entries.iter().find(|entry| entry.name == filename) else {
+        return Ok(None);
+    };
+    let start = Position::new(entry.range.start);
+    document.delete(Range::new(start, Position::new(entry.range.end)))?;
+    Ok(Some(start))
+}
+
+/// Names of the embedded files
+pub(super) fn names(document: &EditorDocument, kind: Kind) -> Vec<String> {
+    entries(&document.text(), kind)
+        .unwrap_or_default()
+        .iter()
+        .map(|entry| entry.name.to_string())
+        .collect()
+}
+
+/// Remove all lines below the header of the section
+///
+/// Returns where they were, or `None` if there was nothing to remove.
+pub(super) fn clear(document: &mut EditorDocument, kind: Kind) -> Result<Option<Position>> {
+    let content = document.text();
+    let Some((header, last, _)) = section(&content, kind) else {
+        return Ok(None);
+    };
+    if last.next == header.next {
+        return Ok(None);
+    }
+    let start = Position::new(header.next);
+    document.delete(Range::new(start, Position::new(last.next)))?;
+    Ok(Some(start))
+}
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
index 1cf2c6e..1ed4d84 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
@@ -32,17 +32,9 @@ pub(super) fn uuencode_data(filename: &str, data: &[u8]) -> Vec<String> {
             encoded.push((32 + (bytes[0] >> 2)) as char);
             encoded.push((32 + (((bytes[0] & 0x03) << 4) | (bytes[1] >> 4))) as char);
 
-            if group.len() > 1 {
-                encoded.push((32 + (((bytes[1] & 0x0F) << 2) | (bytes[2] >> 6))) as char);
-            } else {
-                encoded.push((32 + ((bytes[1] & 0x0F) << 2)) as char);
-            }
-
-            if group.len() > 2 {
-                encoded.push((32 + (bytes[2] & 0x3F)) as char);
-            } else if group.len() > 1 {
-                encoded.push(' ');
-            }
+            // Every group has 4 characters, the decoder drops the padding
+            encoded.push((32 + (((bytes[1] & 0x0F) << 2) | (bytes[2] >> 6))) as char);
+            encoded.push((32 + (bytes[2] & 0x3F)) as char);
         }
 
         lines.push(encoded);
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/list.rs b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
index b86b9cd..a375fb0 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/list.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
@@ -1,12 +1,10 @@
 //! Commands for listing embedded fonts and graphics in ASS documents
 
+use super::embedded;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to list all embedded fonts in the ASS document
 ///
@@ -22,30 +20,7 @@ impl ListFontsCommand {
 
     /// Execute and return list of font filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-        if fonts_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = fonts_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut fonts = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("fontname: ") {
-                fonts.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(fonts)
+        Ok(embedded::names(document, embedded::FONTS))
     }
 }
 
@@ -69,30 +44,7 @@ impl ListGraphicsCommand {
 
     /// Execute and return list of graphic filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-        if graphics_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = graphics_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut graphics = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("filename: ") {
-                graphics.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(graphics)
+        Ok(embedded::names(document, embedded::GRAPHICS))
     }
 }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
index bcd7227..fb7cebe 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
@@ -5,6 +5,7 @@
 
 mod add;
 mod clear;
+mod embedded;
 mod encoding;
 mod list;
 mod remove;
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..e21b507 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -1,13 +1,11 @@
 //! Commands for removing embedded fonts and graphics from ASS documents
 
+use super::embedded;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to remove an embedded font from the ASS document
 ///
@@ -27,43 +25,16 @@ impl RemoveFontCommand {
 
 impl EditorCommand for RemoveFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        let fonts_section = content
-            .find("[Fonts]")
+        let content = document.text();
+        let entries = embedded::entries(&content, embedded::FONTS)
             .ok_or_else(|| EditorError::command_failed("No [Fonts] section found"))?;
 
-        // Find the end of the Fonts section
-        let section_end = content[fonts_section..]
-            .find("\n[")
-            .map(|pos| fonts_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the font entry
-        let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
-        let section_content = &content[fonts_section..section_end];
-
-        if let Some(font_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = fonts_section + font_pos;
-
-            // Find the end of this font's data (next fontname: or section end)
-            let font_end = content[absolute_pos..]
-                .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        Ok(
+            match embedded::remove(document, &entries, &self.filename)? {
+                Some(pos) => CommandResult::success_with_change(Range::new(pos, pos), pos),
+                None => CommandResult::success(),
+            },
+        )
     }
 
     fn description(&self) -> &str {
@@ -93,43 +64,16 @@ impl RemoveGraphicCommand {
 
 impl EditorCommand for RemoveGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        let graphics_section = content
-            .find("[Graphics]")
+        let content = document.text();
+        let entries = embedded::entries(&content, embedded::GRAPHICS)
             .ok_or_else(|| EditorError::command_failed("No [Graphics] section found"))?;
 
-        // Find the end of the Graphics section
-        let section_end = content[graphics_section..]
-            .find("\n[")
-            .map(|pos| graphics_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the graphic entry
-        let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
-        let section_content = &content[graphics_section..section_end];
-
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = graphics_section + graphic_pos;
-
-            // Find the end of this graphic's data (next filename: or section end)
-            let graphic_end = content[absolute_pos..]
-                .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        Ok(
+            match embedded::remove(document, &entries, &self.filename)? {
+                Some(pos) => CommandResult::success_with_change(Range::new(pos, pos), pos),
+                None => CommandResult::success(),
+            },
+        )
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From fd846894606ca952ae160580b3d5674735486334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 048/115] fix: quick edits go through the history

---
 crates/ass-editor/commands/fluent_builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index e15045a..ee2f190 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -2,9 +2,7 @@
 
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
-use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
-};
+use super::{CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -108,16 +106,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
-- 
2.43.0


From ed17a01ab40da351ed6a23e396b5ebbd970c7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 049/115] fix: document setters edit the addressed line and
 field

---
 crates/ass-editor/core/builders/event.rs      |   8 +
 crates/ass-editor/core/document/ass_api.rs    |  35 ++--
 .../ass-editor/core/document/builder_edit.rs  | 169 ++++++------------
 crates/ass-editor/core/document/event_edit.rs | 135 ++++++--------
 crates/ass-editor/core/document/event_line.rs |  83 ---------
 crates/ass-editor/core/document/mod.rs        |   1 -
 .../ass-editor/core/document/section_lines.rs |  83 ++++++---
 7 files changed, 201 insertions(+), 313 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/event_line.rs

diff --git a/crates/ass-editor/core/builders/event.rs b/crates/ass-editor/core/builders/event.rs
index a1dad4f..aae5906 100644
--- a/crates/ass-editor/core/builders/event.rs
+++ b/crates/ass-editor/core/builders/event.rs
@@ -57,6 +57,14 @@ impl<'a> EventBuilder<'a> {
         Self::default()
     }
 
+    /// Create a builder for an event of this type
+    pub(crate) fn of_type(event_type: EventType) -> Self {
+        Self {
+            event_type: Some(event_type),
+            ..Self::default()
+        }
+    }
+
     /// Create a dialogue event builder
     pub fn dialogue() -> Self {
         Self {
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..abedb86 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -5,6 +5,7 @@
 //! the caller managing the parser directly.
 
 use super::EditorDocument;
+use crate::commands::rows;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
@@ -106,7 +107,13 @@ impl EditorDocument {
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
         let content = self.text();
 
-        if let Some(pos) = content.find(old_text) {
+        // Prefer the text of an event over other places that read the same
+        let script = rows::parse(&content)?;
+        let in_event = rows::events(&script).into_iter().find_map(|event| {
+            let text = rows::field_range(&content, event.text)?;
+            Some(text.start + event.text.find(old_text)?)
+        });
+        if let Some(pos) = in_event.or_else(|| content.find(old_text)) {
             let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
             self.replace(range, new_text)?;
         }
@@ -132,17 +139,23 @@ impl EditorDocument {
 
     /// Set script info field (ASS-aware editing)
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
-        // Simplified implementation - find and replace the field
         let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
+        let line = rows::sections(&content)
+            .into_iter()
+            .find(|section| section.name == "Script Info")
+            .and_then(|section| {
+                section.lines.into_iter().find(|line| {
+                    let text = content[line.start..line.end].trim();
+                    !text.starts_with(';')
+                        && !text.starts_with("!:")
+                        && text
+                            .split_once(':')
+                            .is_some_and(|(name, _)| name.trim() == key)
+                })
+            });
+
+        if let Some(line) = line {
+            let range = Range::new(Position::new(line.start), Position::new(line.end));
             let new_line = format!("{key}: {value}");
             self.replace(range, &new_line)?;
         }
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..48701ef 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -5,16 +5,12 @@
 //! modifications, and rewrites the line honoring the section format.
 
 use super::EditorDocument;
+use crate::commands::rows;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 impl EditorDocument {
     /// Edit event using a builder for structured modifications
@@ -57,117 +53,66 @@ impl EditorDocument {
         use crate::core::builders::EventBuilder;
 
         let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-        let mut format_line = None;
-
-        // Find the event and extract format line
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    // Get format line if available
-                    if format_line.is_none() {
-                        // Find Events section header and format line in raw text
-                        if let Some(events_pos) = content.find("[Events]") {
-                            let after_header = &content[events_pos + 8..];
-                            if let Some(format_pos) = after_header.find("Format:") {
-                                let format_start = events_pos + 8 + format_pos + 7; // Skip "Format:"
-                                if let Some(format_end) = content[format_start..].find('\n') {
-                                    let format_str =
-                                        content[format_start..format_start + format_end].trim();
-                                    let fields: Vec<&str> =
-                                        format_str.split(',').map(str::trim).collect();
-                                    format_line = Some(fields);
-                                }
-                            }
-                        }
-                    }
-
-                    for event in events {
-                        if event_count == index {
-                            // Create a builder pre-populated with current values
-                            let mut builder = match event.event_type {
-                                ass_core::parser::ast::EventType::Dialogue => {
-                                    EventBuilder::dialogue()
-                                }
-                                ass_core::parser::ast::EventType::Comment => {
-                                    EventBuilder::comment()
-                                }
-                                _ => EventBuilder::new(),
-                            };
-
-                            // Pre-populate builder with current event values
-                            builder = builder
-                                .layer(event.layer.parse::<u32>().unwrap_or(0))
-                                .start_time(event.start)
-                                .end_time(event.end)
-                                .style(event.style)
-                                .speaker(event.name)
-                                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
-                                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
-                                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
-                                .effect(event.effect)
-                                .text(event.text);
-
-                            if let Some(margin_t) = event.margin_t {
-                                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
-                            }
-                            if let Some(margin_b) = event.margin_b {
-                                builder =
-                                    builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
-                            }
-
-                            // Apply user modifications
-                            let modified_builder = builder_fn(builder);
+        let script = rows::parse(&content)?;
+        let events = rows::events(&script);
+        let Some(event) = events.get(index) else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: events.len(),
+            });
+        };
 
-                            // Build the new event line
-                            let new_line = if let Some(ref format_fields) = format_line {
-                                modified_builder.build_with_format(format_fields)?
-                            } else {
-                                modified_builder.build()?
-                            };
+        // Create a builder pre-populated with current values
+        let mut builder = EventBuilder::of_type(event.event_type)
+            .layer(event.layer.parse::<u32>().unwrap_or(0))
+            .start_time(event.start)
+            .end_time(event.end)
+            .style(event.style)
+            .speaker(event.name)
+            .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
+            .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
+            .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
+            .effect(event.effect)
+            .text(event.text);
 
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
+        if let Some(margin_t) = event.margin_t {
+            builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
+        }
+        if let Some(margin_b) = event.margin_b {
+            builder = builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
+        }
 
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                (pos, line_end)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+        // Apply user modifications
+        let modified_builder = builder_fn(builder);
 
-                            event_info = Some((event_line, new_line));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
-                }
-            }
-            Ok(())
-        })??;
+        // Build the new event line with the format above the event
+        let line = rows::line_at(&content, event.span.start);
+        let format_fields = rows::sections(&content)
+            .into_iter()
+            .rfind(|section| section.header.start < line.start)
+            .and_then(|section| {
+                section
+                    .lines
+                    .into_iter()
+                    .filter(|other| other.start < line.start)
+                    .filter_map(|other| {
+                        content[other.start..other.end]
+                            .trim()
+                            .strip_prefix("Format:")
+                    })
+                    .next_back()
+                    .map(|fields| fields.split(',').map(str::trim).collect::<Vec<_>>())
+            });
+        let new_line = match format_fields {
+            Some(fields) => modified_builder.build_with_format(&fields)?,
+            None => modified_builder.build()?,
+        };
 
-        if let Some(((line_start, line_end), new_line)) = event_info {
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        // Replace the line in the document
+        let range = Range::new(Position::new(line.start), Position::new(line.end));
+        self.replace(range, &new_line)?;
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..4023dd5 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -1,13 +1,11 @@
 //! Index-based structured event editing
 //!
-//! Implements `edit_event_by_index`, which locates an event in the raw text,
-//! applies field-level modifications, and rewrites the dialogue/comment line
-//! via the `build_modified_event_line_from_data` helper.
+//! Implements `edit_event_by_index`, which locates an event in the text and
+//! replaces the bytes of the fields that are modified.
 
 use super::EditorDocument;
+use crate::commands::rows;
 use crate::core::errors::{EditorError, Result};
-use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -51,82 +49,63 @@ impl EditorDocument {
         F: for<'a> FnOnce(&ass_core::parser::ast::Event<'a>) -> Vec<(&'static str, String)>,
     {
         let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-
-        // Find the event and its location in the document
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    for event in events {
-                        if event_count == index {
-                            // Get the modifications from the update function
-                            let modifications = update_fn(event);
-
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                let line = content[pos..line_end].to_string();
-                                (pos, line_end, line)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+        let script = rows::parse(&content)?;
+        let events = rows::events(&script);
+        let Some(event) = events.get(index) else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: events.len(),
+            });
+        };
 
-                            // Store the event data we need instead of cloning
-                            let event_data = (
-                                event.event_type,
-                                event.layer.to_string(),
-                                event.start.to_string(),
-                                event.end.to_string(),
-                                event.style.to_string(),
-                                event.name.to_string(),
-                                event.margin_l.to_string(),
-                                event.margin_r.to_string(),
-                                event.margin_v.to_string(),
-                                event.effect.to_string(),
-                                event.text.to_string(),
-                            );
-                            event_info = Some((event_data, event_line, modifications));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
+        // Find the bytes of each modified field; the last modification of a
+        // field counts
+        let (effect, text) = rows::effect_and_text(&content, event);
+        let mut edits: Vec<(core::ops::Range<usize>, String)> = Vec::new();
+        for (field, value) in update_fn(event) {
+            let range = match field {
+                "layer" => rows::field_range(&content, event.layer),
+                "start" => rows::field_range(&content, event.start),
+                "end" => rows::field_range(&content, event.end),
+                "style" => rows::field_range(&content, event.style),
+                "name" => rows::field_range(&content, event.name),
+                "margin_l" => rows::field_range(&content, event.margin_l),
+                "margin_r" => rows::field_range(&content, event.margin_r),
+                "margin_v" => rows::field_range(&content, event.margin_v),
+                "effect" => effect.clone(),
+                "text" => text.clone(),
+                _ => {
+                    return Err(EditorError::ValidationError {
+                        message: format!("Unknown event field: {field}"),
+                    });
                 }
-            }
-            Ok(())
-        })??;
-
-        if let Some((event_data, (line_start, line_end, original_line), modifications)) = event_info
-        {
-            // Build the new event line with modifications
-            let new_line = self.build_modified_event_line_from_data(
-                event_data,
-                &original_line,
-                modifications,
-            )?;
+            };
+            let Some(range) = range else {
+                return Err(EditorError::ValidationError {
+                    message: format!("Event has no field: {field}"),
+                });
+            };
+            edits.retain(|(other, _)| *other != range);
+            edits.push((range, value));
+        }
 
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        let line = rows::line_at(&content, event.span.start);
+        let row = &content[line.start..line.end];
+        let new_line = rows::splice(
+            row,
+            edits
+                .iter()
+                .map(|(range, value)| {
+                    (
+                        range.start - line.start..range.end - line.start,
+                        value.to_string(),
+                    )
+                })
+                .collect(),
+        );
+        rows::edit(self, &content, edits)?;
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_line.rs b/crates/ass-editor/core/document/event_line.rs
deleted file mode 100644
index 93bdb05..0000000
--- a/crates/ass-editor/core/document/event_line.rs
+++ /dev/null
@@ -1,83 +0,0 @@
-//! Event line reconstruction helper
-//!
-//! Rebuilds a dialogue/comment line from extracted field data after applying
-//! a set of field modifications. Exposed as `pub(super)` for the
-//! index-based event editor.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
-
-impl EditorDocument {
-    /// Helper to build a modified event line from event data
-    pub(super) fn build_modified_event_line_from_data(
-        &self,
-        event_data: (
-            ass_core::parser::ast::EventType,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-        ),
-        _original_line: &str,
-        modifications: Vec<(&'static str, String)>,
-    ) -> Result<String> {
-        let (
-            event_type,
-            layer,
-            start,
-            end,
-            style,
-            name,
-            margin_l,
-            margin_r,
-            margin_v,
-            effect,
-            text,
-        ) = event_data;
-
-        // Apply modifications
-        let mut layer = layer;
-        let mut start = start;
-        let mut end = end;
-        let mut style = style;
-        let mut name = name;
-        let mut margin_l = margin_l;
-        let mut margin_r = margin_r;
-        let mut margin_v = margin_v;
-        let mut effect = effect;
-        let mut text = text;
-
-        for (field, value) in modifications {
-            match field {
-                "layer" => layer = value,
-                "start" => start = value,
-                "end" => end = value,
-                "style" => style = value,
-                "name" => name = value,
-                "margin_l" => margin_l = value,
-                "margin_r" => margin_r = value,
-                "margin_v" => margin_v = value,
-                "effect" => effect = value,
-                "text" => text = value,
-                _ => {
-                    return Err(EditorError::ValidationError {
-                        message: format!("Unknown event field: {field}"),
-                    });
-                }
-            }
-        }
-
-        // Rebuild the line
-        let event_type_str = event_type.as_str();
-        Ok(format!("{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"))
-    }
-}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..86db7e2 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -9,7 +9,6 @@ mod constructors;
 mod editing;
 mod editing_raw;
 mod event_edit;
-mod event_line;
 mod incremental_parse;
 mod metadata;
 mod position_api;
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..a5e97e5 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -4,6 +4,7 @@
 //! relevant section (with a default format line) when it does not yet exist.
 
 use super::EditorDocument;
+use crate::commands::rows::{self, Line};
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 
@@ -14,30 +15,38 @@ impl EditorDocument {
     /// Add event line to document
     pub fn add_event_line(&mut self, event_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(events_pos) = content.find("[Events]") {
-            // Find end of format line and add after it
-            let format_start = content[events_pos..].find("Format:").unwrap_or(0) + events_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{event_line}\n"))
+        let section = rows::sections(&content)
+            .into_iter()
+            .find(|section| section.name == "Events");
+        if let Some(section) = section {
+            // Add after the format line
+            let format_line = section
+                .lines
+                .iter()
+                .copied()
+                .find(|line| content[line.start..line.end].trim().starts_with("Format:"));
+            self.insert_line_after(&content, format_line.unwrap_or(section.header), event_line)
         } else {
             // Add Events section if it doesn't exist
-            let content_len = self.len_bytes();
-            let events_section = format!("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n{event_line}\n");
-            self.insert(Position::new(content_len), &events_section)
+            let separator = if content.is_empty() || content.ends_with('\n') {
+                ""
+            } else {
+                "\n"
+            };
+            let events_section = format!("{separator}\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n{event_line}\n");
+            self.insert(Position::new(content.len()), &events_section)
         }
     }
 
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
         let content = self.text();
-        let pattern = format!("Style: {style_name},");
+        let line = rows::style_sections(&content)
+            .iter()
+            .find_map(|section| section.style(&content, style_name).map(|style| style.line));
 
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-            let range = Range::new(Position::new(pos), Position::new(line_end));
+        if let Some(line) = line {
+            let range = Range::new(Position::new(line.start), Position::new(line.end));
             self.replace(range, new_style_line)
         } else {
             // Add style if it doesn't exist
@@ -48,21 +57,39 @@ impl EditorDocument {
     /// Add style line to document
     pub fn add_style_line(&mut self, style_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(styles_pos) = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-        {
-            // Find end of format line and add after it
-            let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{style_line}\n"))
+        if let Some(section) = rows::style_sections(&content).first() {
+            // Add after the format line
+            let line = section.format_line.unwrap_or(section.header);
+            self.insert_line_after(&content, line, style_line)
         } else {
             // Add Styles section if it doesn't exist
-            let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
-            let styles_section = format!("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
-            self.insert(Position::new(script_info_end), &styles_section)
+            let styles_section = format!("[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
+            let events = rows::sections(&content)
+                .into_iter()
+                .find(|section| section.name == "Events");
+            if let Some(events) = events {
+                let position = Position::new(events.header.start);
+                self.insert(position, &format!("{styles_section}\n"))
+            } else {
+                let separator = if content.is_empty() || content.ends_with('\n') {
+                    ""
+                } else {
+                    "\n"
+                };
+                let position = Position::new(content.len());
+                self.insert(position, &format!("{separator}\n{styles_section}"))
+            }
         }
     }
+
+    /// Insert a line below another one, with the same line break
+    fn insert_line_after(&mut self, content: &str, line: Line, new_line: &str) -> Result<()> {
+        let line_break = rows::line_break(content, line);
+        let text = if line.end == line.next {
+            format!("{line_break}{new_line}{line_break}")
+        } else {
+            format!("{new_line}{line_break}")
+        };
+        self.insert(Position::new(line.next), &text)
+    }
 }
-- 
2.43.0


From c517653e53dfa0dde531de21d0dd3753f4378f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 050/115] fix: event queries report where events are and read
 times as the parser does

---
 crates/ass-editor/core/fluent/event_ops.rs    | 46 ++-----------------
 .../core/fluent/event_query_exec.rs           | 39 ++--------------
 .../core/fluent/event_query_filter.rs         | 35 +-------------
 crates/ass-editor/core/fluent/query_types.rs  | 29 +++++++++++-
 4 files changed, 38 insertions(+), 111 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index dd12b68..e750212 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -3,10 +3,11 @@
 use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
-use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
+use super::query_types::event_infos;
+use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria};
 use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
-use ass_core::parser::ast::{Event, EventType, Section};
+use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::{EventType, Section};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
@@ -56,28 +57,7 @@ impl<'a> EventOps<'a> {
     /// Get event information by index
     pub fn get(self, index: usize) -> Result<Option<EventInfo>> {
         self.document
-            .parse_script_with(|script| -> Result<Option<EventInfo>> {
-                let mut current_index = 0;
-
-                for section in script.sections() {
-                    if let Section::Events(events) = section {
-                        for event in events {
-                            if current_index == index {
-                                let event_info = EventInfo {
-                                    index,
-                                    event: OwnedEvent::from(event),
-                                    line_number: self.find_line_number_for_event(event)?,
-                                    range: self.find_range_for_event(event)?,
-                                };
-                                return Ok(Some(event_info));
-                            }
-                            current_index += 1;
-                        }
-                    }
-                }
-
-                Ok(None)
-            })?
+            .parse_script_with(|script| event_infos(script).nth(index))
     }
 
     /// Get event by index with fluent access to properties
@@ -164,20 +144,4 @@ impl<'a> EventOps<'a> {
     pub fn delete_query(self) -> EventDeleter<'a> {
         EventDeleter::new(self.document)
     }
-
-    // ============================================================================
-    // Helper Methods
-    // ============================================================================
-
-    fn find_line_number_for_event(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_range_for_event(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_exec.rs b/crates/ass-editor/core/fluent/event_query_exec.rs
index 810a8f4..18085d7 100644
--- a/crates/ass-editor/core/fluent/event_query_exec.rs
+++ b/crates/ass-editor/core/fluent/event_query_exec.rs
@@ -2,10 +2,10 @@
 
 use super::event_merge_timing::EventTimer;
 use super::event_toggle_effect::{EventEffector, EventToggler};
+use super::query_types::event_infos;
 use super::{EventInfo, EventQuery, EventSortOptions, OwnedEvent};
 use crate::core::errors::EditorError;
-use crate::core::{Position, Range, Result};
-use ass_core::parser::ast::{Event, Section};
+use crate::core::Result;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
@@ -87,28 +87,7 @@ impl<'a> EventQuery<'a> {
 
     fn collect_events(&self) -> Result<Vec<EventInfo>> {
         self.document
-            .parse_script_with(|script| -> Result<Vec<EventInfo>> {
-                let mut events = Vec::new();
-                let mut event_index = 0;
-
-                for section in script.sections() {
-                    if let Section::Events(section_events) = section {
-                        for event in section_events {
-                            // Build EventInfo with position tracking
-                            let event_info = EventInfo {
-                                index: event_index,
-                                event: OwnedEvent::from(event),
-                                line_number: self.find_line_number(event)?,
-                                range: self.find_event_range(event)?,
-                            };
-                            events.push(event_info);
-                            event_index += 1;
-                        }
-                    }
-                }
-
-                Ok(events)
-            })?
+            .parse_script_with(|script| event_infos(script).collect())
     }
 
     fn apply_filters(&self, events: Vec<EventInfo>) -> Result<Vec<EventInfo>> {
@@ -150,16 +129,4 @@ impl<'a> EventQuery<'a> {
             }
         });
     }
-
-    fn find_line_number(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_event_range(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..1f5b8bd 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -5,13 +5,10 @@
 //! them while applying filters and sorting.
 
 use super::{EventInfo, EventQuery, EventSortCriteria};
-use crate::core::errors::EditorError;
 use crate::core::Result;
+use ass_core::utils::parse_ass_time;
 use core::cmp::Ordering;
 
-#[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
-
 impl EventQuery<'_> {
     pub(super) fn matches_filter(&self, event_info: &EventInfo) -> Result<bool> {
         // Apply each filter criteria
@@ -56,8 +53,6 @@ impl EventQuery<'_> {
         }
 
         if let Some((start_cs, end_cs)) = self.filters.time_range {
-            // Parse timing - this is a simplified implementation
-            // In practice, you'd want proper time parsing from ass_core
             if let (Ok(event_start), Ok(event_end)) = (
                 self.parse_time_to_cs(&event_info.event.start),
                 self.parse_time_to_cs(&event_info.event.end),
@@ -92,33 +87,7 @@ impl EventQuery<'_> {
     }
 
     fn parse_time_to_cs(&self, time_str: &str) -> Result<u32> {
-        // Simplified time parsing - in practice use ass_core utilities
-        // Format: H:MM:SS.CS
-        let parts: Vec<&str> = time_str.split(':').collect();
-        if parts.len() != 3 {
-            return Err(EditorError::command_failed("Invalid time format"));
-        }
-
-        let hours: u32 = parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid hours"))?;
-        let minutes: u32 = parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid minutes"))?;
-
-        let sec_cs_parts: Vec<&str> = parts[2].split('.').collect();
-        if sec_cs_parts.len() != 2 {
-            return Err(EditorError::command_failed("Invalid seconds format"));
-        }
-
-        let seconds: u32 = sec_cs_parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid seconds"))?;
-        let centiseconds: u32 = sec_cs_parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
-
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+        Ok(parse_ass_time(time_str)?)
     }
 
     pub(super) fn compare_by_criteria(
diff --git a/crates/ass-editor/core/fluent/query_types.rs b/crates/ass-editor/core/fluent/query_types.rs
index c8beb7f..7988e49 100644
--- a/crates/ass-editor/core/fluent/query_types.rs
+++ b/crates/ass-editor/core/fluent/query_types.rs
@@ -3,8 +3,10 @@
 //! Defines [`EventInfo`], [`OwnedEvent`], [`EventFilter`], [`EventSortCriteria`],
 //! and [`EventSortOptions`] used by the event query builder.
 
-use crate::core::Range;
+use crate::commands::rows;
+use crate::core::{Position, Range};
 use ass_core::parser::ast::{Event, EventType};
+use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
@@ -22,6 +24,31 @@ pub struct EventInfo {
     pub range: Range,
 }
 
+/// Events of a script in document order, with the line each of them is on
+pub(super) fn event_infos<'s>(script: &'s Script<'s>) -> impl Iterator<Item = EventInfo> + 's {
+    let content = script.source();
+    let mut counted = 0;
+    let mut line_number = 1;
+    rows::events(script)
+        .into_iter()
+        .enumerate()
+        .map(move |(index, event)| {
+            let line = rows::line_at(content, event.span.start);
+            if line.start < counted {
+                counted = 0;
+                line_number = 1;
+            }
+            line_number += content[counted..line.start].matches('\n').count();
+            counted = line.start;
+            EventInfo {
+                index,
+                event: OwnedEvent::from(event),
+                line_number,
+                range: Range::new(Position::new(line.start), Position::new(line.end)),
+            }
+        })
+}
+
 /// Owned version of Event for use in EventInfo
 #[derive(Debug, Clone, PartialEq)]
 pub struct OwnedEvent {
-- 
2.43.0


From debca3a8abfc1e56fef1a885c1b366a5253c4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 051/115] fix: new sections go behind a byte order mark

---
 crates/ass-editor/commands/rows.rs                  | 10 +++++-----
 crates/ass-editor/commands/style_commands/create.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/commands/rows.rs b/crates/ass-editor/commands/rows.rs
index 5f7aca8..94694fe 100644
--- a/crates/ass-editor/commands/rows.rs
+++ b/crates/ass-editor/commands/rows.rs
@@ -102,13 +102,13 @@ pub(crate) struct SectionLines<'a> {
 /// Sections of a document in order
 pub(crate) fn sections(content: &str) -> Vec<SectionLines<'_>> {
     let mut sections: Vec<SectionLines<'_>> = Vec::new();
-    let mut start = 0;
+    // A byte order mark stays in front of the first line
+    let mut start = content.len() - content.trim_start_matches('\u{FEFF}').len();
     while start < content.len() {
-        let line = line_at(content, start);
+        let mut line = line_at(content, start);
+        line.start = start;
         start = line.next;
-        let text = content[line.start..line.end]
-            .trim_start_matches('\u{FEFF}')
-            .trim();
+        let text = content[line.start..line.end].trim();
         let name = text
             .strip_prefix('[')
             .and_then(|rest| rest.find(']').map(|end| rest[..end].trim()));
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index 3622758..7e06f3b 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -75,8 +75,8 @@ impl EditorCommand for CreateStyleCommand {
             .iter()
             .find(|section| section.name == "Events")
             .map_or(content.len(), |section| section.header.start);
-        let separator = if content[..insert_pos].is_empty() || content[..insert_pos].ends_with('\n')
-        {
+        let before = content[..insert_pos].trim_start_matches('\u{FEFF}');
+        let separator = if before.is_empty() || before.ends_with('\n') {
             "\n"
         } else {
             "\n\n"
-- 
2.43.0


From f58ae8a20246e675d9fafd4014d61e00928a65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 052/115] fix: read the end time of a WebVTT cue without its
 settings, keep cue lines that start like a note

---
 crates/ass-editor/utils/formats/import_webvtt.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..f15ccde 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -60,8 +60,9 @@ impl FormatConverter {
         for line in content.lines() {
             let line = line.trim();
 
-            // Skip WEBVTT header and empty lines
-            if line.starts_with("WEBVTT") || line.starts_with("NOTE") || line.is_empty() {
+            // Skip empty lines, and the WEBVTT header and notes outside a cue
+            let is_block_start = line.starts_with("WEBVTT") || line.starts_with("NOTE");
+            if line.is_empty() || (is_block_start && !in_cue) {
                 if let Some(cue) = current_cue.take() {
                     cues.push(cue);
                 }
@@ -76,7 +77,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // Cue settings may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
-- 
2.43.0


From ff1b518b98a0b2125bf041c2595b985a332c5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 053/115] fix: report a WebVTT cue without an end time instead
 of panicking

---
 crates/ass-editor/formats/webvtt/cue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..293b6b0 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time =
+                Self::parse_vtt_time(end_time_and_settings.first().copied().unwrap_or_default())?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
-- 
2.43.0


From 7fc84ac8b4deeadb2541807a7a329a156cc5128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 054/115] fix: export the events of every events section to SRT
 and WebVTT

---
 crates/ass-editor/formats/srt/export.rs      | 37 ++++++++++----------
 crates/ass-editor/formats/webvtt/exporter.rs | 37 ++++++++++----------
 2 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/crates/ass-editor/formats/srt/export.rs b/crates/ass-editor/formats/srt/export.rs
index 82f4448..12d2350 100644
--- a/crates/ass-editor/formats/srt/export.rs
+++ b/crates/ass-editor/formats/srt/export.rs
@@ -18,25 +18,24 @@ impl FormatExporter for SrtFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            // Collect owned data from every events section to avoid lifetime issues
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut srt_content = String::new();
diff --git a/crates/ass-editor/formats/webvtt/exporter.rs b/crates/ass-editor/formats/webvtt/exporter.rs
index 6875850..1037f48 100644
--- a/crates/ass-editor/formats/webvtt/exporter.rs
+++ b/crates/ass-editor/formats/webvtt/exporter.rs
@@ -22,25 +22,24 @@ impl FormatExporter for WebVttFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            // Collect owned data from every events section to avoid lifetime issues
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut vtt_content = String::new();
-- 
2.43.0


From a05661632104b581559661092941cd06867fcd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 055/115] fix: accept a byte order mark before SRT and WebVTT
 subtitles

---
 crates/ass-editor/utils/formats/import_srt.rs | 2 ++
 crates/ass-editor/utils/formats/types.rs      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index ea8cbe2..e7316c3 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -57,6 +57,8 @@ impl FormatConverter {
         let mut current_entry: Option<SrtEntry> = None;
         let mut in_text = false;
 
+        // A byte order mark is no part of the first index
+        let content = content.strip_prefix('\u{feff}').unwrap_or(content);
         for line in content.lines() {
             let line = line.trim();
 
diff --git a/crates/ass-editor/utils/formats/types.rs b/crates/ass-editor/utils/formats/types.rs
index 82b1500..e09b5a1 100644
--- a/crates/ass-editor/utils/formats/types.rs
+++ b/crates/ass-editor/utils/formats/types.rs
@@ -33,6 +33,7 @@ impl SubtitleFormat {
 
     /// Detect format from content
     pub fn from_content(content: &str) -> Self {
+        let content = content.strip_prefix('\u{feff}').unwrap_or(content);
         if content.contains("[Script Info]") || content.contains("[Events]") {
             Self::ASS
         } else if content.starts_with("WEBVTT") {
-- 
2.43.0


From daacdb57fe04df33a51d2efb2b59344f1ada00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 056/115] fix: drop SRT indices that no timestamps follow

---
 crates/ass-editor/utils/formats/import_srt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index e7316c3..9290396 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -108,6 +108,9 @@ impl FormatConverter {
             entries.push(entry);
         }
 
+        // An index that no timestamps follow is no subtitle
+        entries.retain(|entry| !entry.start.is_empty());
+
         Ok(entries)
     }
 
-- 
2.43.0


From 340cbcacba021c3e6f3f83da14b58862dd902a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 057/115] fix: count a session once when its id is created
 again

---
 crates/ass-editor/sessions/lifecycle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..a711ad6 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -44,10 +44,13 @@ impl EditorSessionManager {
             let session = EditorSession::new(session_id.clone(), document);
 
             // Add to sessions map
-            inner.sessions.insert(session_id.clone(), session);
+            let replaced = inner.sessions.insert(session_id.clone(), session);
 
-            // Update stats
-            inner.stats.active_sessions += 1;
+            // Update stats, a replaced session is counted already
+            match replaced {
+                Some(old) => inner.stats.total_memory_usage -= old.memory_usage,
+                None => inner.stats.active_sessions += 1,
+            }
 
             // Set as active if it's the first session
             if inner.active_session_id.is_none() {
-- 
2.43.0


From 73c3251a20018665150ebd4fc658a57aeb17a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 058/115] fix: keep sessions that are being edited from being
 cleaned up as stale

---
 crates/ass-editor/sessions/access.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-editor/sessions/access.rs b/crates/ass-editor/sessions/access.rs
index 1725a9b..f9f8148 100644
--- a/crates/ass-editor/sessions/access.rs
+++ b/crates/ass-editor/sessions/access.rs
@@ -43,6 +43,10 @@ impl EditorSessionManager {
                 }
             })?;
 
+            // A session that is being edited is not stale
+            #[cfg(feature = "std")]
+            session.touch();
+
             let result = f(&mut session.document)?;
             session.increment_operations();
 
-- 
2.43.0


From 39e48fc2fcb32a64d4859d10fe6645df05c86ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 059/115] fix: index the whole text again when a document
 changed

---
 crates/ass-editor/utils/search/incremental.rs | 150 +-----------------
 1 file changed, 3 insertions(+), 147 deletions(-)

diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..3294e19 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -10,24 +10,6 @@ use crate::core::{EditorDocument, Range, Result};
 #[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
 
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
-
 impl DocumentSearchImpl {
     pub(super) fn update_index_impl(
         &mut self,
@@ -49,137 +31,11 @@ impl DocumentSearchImpl {
             Ok(())
         }
 
-        // For FST search, perform incremental updates
+        // For FST search, update the index
         #[cfg(feature = "search-index")]
         {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
+            // The changes do not say how long the new text is: index it again
+            self.build_index(document)
         }
     }
 }
-- 
2.43.0


From 7c15eca783ef5d3c24a8fb40ceec3dfc6af29a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 060/115] fix: search the text itself instead of only whole
 lowercased words

---
 crates/ass-editor/utils/search/query.rs | 71 ++-----------------------
 1 file changed, 4 insertions(+), 67 deletions(-)

diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..ad2f5a7 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -1,8 +1,8 @@
 //! Search query execution
 //!
 //! Implements the core query dispatch for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between FST,
-//! regex, and basic search depending on enabled features and options.
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between
+//! regex and basic search depending on enabled features and options.
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult};
@@ -15,18 +15,9 @@ use std::time::Instant;
 #[allow(dead_code)]
 type Instant = u64;
 
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(feature = "search-index")]
-use fst::{automaton, IntoStreamer, Streamer};
-
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
 
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
-
 impl DocumentSearchImpl {
     pub(super) fn search_impl<'a>(
         &'a self,
@@ -56,62 +47,8 @@ impl DocumentSearchImpl {
                 });
             }
         } else {
-            // Check if we should use FST or basic search
-            #[cfg(feature = "search-index")]
-            {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
-
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
-                    }
-
-                    results
-                } else {
-                    // FST index not built yet, use basic search
-                    self.basic_search(pattern, options)?
-                }
-            }
-            #[cfg(not(feature = "search-index"))]
-            {
-                // Use basic text search when FST is not available
-                self.basic_search(pattern, options)?
-            }
+            // The index only knows whole lowercased words: search the text itself
+            self.basic_search(pattern, options)?
         };
 
         // Update statistics (would need mutable access in real implementation)
-- 
2.43.0


From 3020705a473d851cb8ba9a25b691bad69f23f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 061/115] fix: find matches at their place in the text, in the
 lines and range asked for

---
 crates/ass-editor/utils/search/basic.rs       | 118 ++++++++++--------
 .../ass-editor/utils/search/regex_search.rs   |  35 +-----
 2 files changed, 71 insertions(+), 82 deletions(-)

diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 99b3f39..64b0e81 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -25,57 +25,17 @@ impl DocumentSearchImpl {
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'static>>> {
         let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
-
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
-        } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
-            }
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
-
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, search_text.len())
-            }
-        };
-
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
+        let (search_start, search_end) = scope_bounds(&self.cached_text, &options.scope);
+        let mut offset = search_start;
+
+        while offset < search_end && !pattern.is_empty() {
+            let rest = &self.cached_text[offset..search_end];
+            let Some(match_len) = match_len(rest, pattern, options.case_sensitive) else {
+                offset += rest.chars().next().map_or(1, char::len_utf8);
+                continue;
+            };
+            let absolute_idx = offset;
+            let match_end = absolute_idx + match_len;
 
             // Calculate line and column
             let mut line = 0;
@@ -114,9 +74,63 @@ impl DocumentSearchImpl {
                 break;
             }
 
-            region_offset += match_idx + 1;
+            offset = match_end;
         }
 
         Ok(results)
     }
 }
+
+/// Length of the match of `pattern` at the start of `text`, if there is one
+fn match_len(text: &str, pattern: &str, case_sensitive: bool) -> Option<usize> {
+    if case_sensitive {
+        return text.starts_with(pattern).then_some(pattern.len());
+    }
+
+    // Compare character by character: lowercasing may change the length of the text
+    let mut wanted = pattern.chars().flat_map(char::to_lowercase).peekable();
+    for (idx, ch) in text.char_indices() {
+        if wanted.peek().is_none() {
+            return Some(idx);
+        }
+        if ch.to_lowercase().any(|lower| wanted.next() != Some(lower)) {
+            return None;
+        }
+    }
+    wanted.peek().is_none().then_some(text.len())
+}
+
+/// Byte offsets of the part of `text` that `scope` selects
+pub(super) fn scope_bounds(text: &str, scope: &SearchScope) -> (usize, usize) {
+    match scope {
+        // For sections, would need to parse and identify section boundaries
+        // For now, search entire document
+        SearchScope::All | SearchScope::Sections(_) => (0, text.len()),
+        SearchScope::Range(range) => {
+            let boundary = |mut offset: usize| {
+                offset = offset.min(text.len());
+                while !text.is_char_boundary(offset) {
+                    offset -= 1;
+                }
+                offset
+            };
+            let start = boundary(range.start.offset);
+            (start, boundary(range.end.offset).max(start))
+        }
+        SearchScope::Lines { start, end } => {
+            let mut bounds = (text.len(), text.len());
+            let mut offset = 0;
+            for (idx, line) in text.split('\n').enumerate() {
+                if idx == *start {
+                    bounds.0 = offset;
+                }
+                if idx == *end {
+                    bounds.1 = offset + line.len();
+                    break;
+                }
+                offset += line.len() + 1;
+            }
+            (bounds.0.min(bounds.1), bounds.1)
+        }
+    }
+}
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 92dbd0d..9bbf290 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -8,7 +8,10 @@
 use super::engine::DocumentSearchImpl;
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
+use super::basic::scope_bounds;
+
+#[cfg(all(feature = "formats", feature = "std"))]
+use super::options::{SearchOptions, SearchResult};
 
 #[cfg(all(feature = "formats", feature = "std"))]
 use crate::core::{Position, Result};
@@ -44,35 +47,7 @@ impl DocumentSearchImpl {
         let text = &self.cached_text;
 
         // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
+        let (search_start, search_end) = scope_bounds(text, &options.scope);
 
         let search_text = &text[search_start..search_end];
 
-- 
2.43.0


From 12b384d18d756fcd21e1b9eeb580a0fb36235e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 062/115] fix: honour whole word searches

---
 crates/ass-editor/utils/search/basic.rs        | 12 ++++++++++++
 crates/ass-editor/utils/search/regex_search.rs |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 64b0e81..5fa86ed 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -37,6 +37,11 @@ impl DocumentSearchImpl {
             let absolute_idx = offset;
             let match_end = absolute_idx + match_len;
 
+            if options.whole_words && !is_whole_word(&self.cached_text, absolute_idx, match_end) {
+                offset += rest.chars().next().map_or(1, char::len_utf8);
+                continue;
+            }
+
             // Calculate line and column
             let mut line = 0;
             let mut line_start = 0;
@@ -100,6 +105,13 @@ fn match_len(text: &str, pattern: &str, case_sensitive: bool) -> Option<usize> {
     wanted.peek().is_none().then_some(text.len())
 }
 
+/// Check that no word character adjoins the match
+fn is_whole_word(text: &str, start: usize, end: usize) -> bool {
+    let is_word = |ch: char| ch.is_alphanumeric() || ch == '_';
+    !text[..start].chars().next_back().is_some_and(is_word)
+        && !text[end..].chars().next().is_some_and(is_word)
+}
+
 /// Byte offsets of the part of `text` that `scope` selects
 pub(super) fn scope_bounds(text: &str, scope: &SearchScope) -> (usize, usize) {
     match scope {
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 9bbf290..11c5c84 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -33,6 +33,13 @@ impl DocumentSearchImpl {
         use crate::core::EditorError;
 
         // Compile regex
+        let whole_words;
+        let pattern = if options.whole_words {
+            whole_words = format!(r"\b(?:{pattern})\b");
+            &whole_words
+        } else {
+            pattern
+        };
         let regex_pattern = if options.case_sensitive {
             Regex::new(pattern)
         } else {
-- 
2.43.0


From 278e3a438744d4ef7f3c2e68bc81704e377b595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 063/115] fix: a jump between distant times overflowed event
 selection

---
 crates/ass-renderer/src/renderer/event_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..f813bea 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -154,7 +154,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
-- 
2.43.0


From 747480f20b02c2d1f6b930e8e740c394c92076ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 064/115] fix: event selection used the times of another script
 at the same address, and only the first events section

---
 .../src/renderer/event_selector.rs            | 36 ++++++++++---------
 .../ass-renderer/src/renderer/time_index.rs   | 25 +++++++++----
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index f813bea..0bc39cb 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -103,18 +103,21 @@ impl EventSelector {
         #[cfg(feature = "nostd")]
         let mut current_active = BTreeSet::new();
 
-        // Find the events section, then answer the query from the cached, parsed
+        // Gather every events section, then answer the query from the cached, parsed
         // time index. Active events satisfy `start <= t < end`; entries are
         // start-sorted, so `partition_point` bounds the scan to events that have
         // already started, and the original index restores file order.
-        if let Some(events_section) = script.sections().iter().find_map(|section| {
-            if let Section::Events(events) = section {
-                Some(events)
-            } else {
-                None
-            }
-        }) {
-            self.ensure_index(events_section);
+        let all_events: Vec<&Event> = script
+            .sections()
+            .iter()
+            .filter_map(|section| match section {
+                Section::Events(events) => Some(events),
+                _ => None,
+            })
+            .flatten()
+            .collect();
+        if !all_events.is_empty() {
+            self.ensure_index(&all_events);
             let index = self
                 .time_index
                 .as_ref()
@@ -129,7 +132,7 @@ impl EventSelector {
                 .collect();
             active_idx.sort_unstable();
             for idx in active_idx {
-                active_events.push(&events_section[idx]);
+                active_events.push(all_events[idx]);
                 current_active.insert(idx);
             }
         }
@@ -170,12 +173,13 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
-    /// comment-rendering flag; when that key is unchanged the existing index is
-    /// kept, so each event's start/end time string is parsed only once per script
-    /// rather than on every frame.
-    fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
+    /// The index is keyed by what it is built from: the events' kinds and times,
+    /// their count, and the current comment-rendering flag. When that key is
+    /// unchanged the existing index is kept, so each event's start/end time string
+    /// is parsed only once per script rather than on every frame. Addresses are no
+    /// key: another script may come to lie where the previous one did.
+    fn ensure_index(&mut self, events: &[&Event]) {
+        let key = TimeIndex::key_of(events, self.render_comments);
         if self
             .time_index
             .as_ref()
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..1a532b4 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -1,31 +1,44 @@
 //! Parsed timing index used by the event selector for incremental rendering.
 
+use ahash::AHasher;
 use ass_core::parser::{ast::EventType, Event};
+use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
 use alloc::vec::Vec;
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
+/// Keyed by a fingerprint of the events' kinds and times, their count, and the
+/// comment-rendering flag, so it is reused across frames and rebuilt only when the
+/// script (or that flag) changes. Each entry is `(start_cs, end_cs, original_index)`; the original
 /// index preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    pub(super) key: (u64, usize, bool),
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
 impl TimeIndex {
+    /// The key of the index of `events`: everything the index depends on.
+    pub(super) fn key_of(events: &[&Event], render_comments: bool) -> (u64, usize, bool) {
+        let mut hasher = AHasher::default();
+        for event in events {
+            core::mem::discriminant(&event.event_type).hash(&mut hasher);
+            event.start.hash(&mut hasher);
+            event.end.hash(&mut hasher);
+        }
+        (hasher.finish(), events.len(), render_comments)
+    }
+
     /// Build the parsed time index for `events`.
     ///
     /// Each included event's start/end time string is parsed once here, and the
     /// resulting entries are sorted by start time so the selector can bound its
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
-    pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+    pub(super) fn build(events: &[&Event], render_comments: bool) -> Self {
+        let key = Self::key_of(events, render_comments);
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
-- 
2.43.0


From 1a244aa5d902a5634c3c4c2e1bd990a30ce0ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 065/115] fix: animated integers overflowed, and animated
 values missed their end

---
 crates/ass-renderer/src/animation/value.rs | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/animation/value.rs b/crates/ass-renderer/src/animation/value.rs
index 98febc4..d4b0b9c 100644
--- a/crates/ass-renderer/src/animation/value.rs
+++ b/crates/ass-renderer/src/animation/value.rs
@@ -47,11 +47,14 @@ impl AnimatedValue {
 
         match self {
             Self::Integer { from, to } => {
-                let value = *from + ((to - from) as f32 * t) as i32;
-                AnimatedResult::Integer(value)
+                // The difference of two i32 needs more than an i32, and more
+                // precision than an f32 has.
+                let delta = (i64::from(*to) - i64::from(*from)) as f64;
+                let value = i64::from(*from) + (delta * f64::from(t)) as i64;
+                AnimatedResult::Integer(value as i32)
             }
             Self::Float { from, to } => {
-                let value = from + (to - from) * t;
+                let value = lerp(*from, *to, t);
                 AnimatedResult::Float(value)
             }
             Self::Color { from, to } => {
@@ -62,19 +65,28 @@ impl AnimatedValue {
                 AnimatedResult::Color([r as u8, g as u8, b as u8, a as u8])
             }
             Self::Position { from, to } => {
-                let x = from.0 + (to.0 - from.0) * t;
-                let y = from.1 + (to.1 - from.1) * t;
+                let x = lerp(from.0, to.0, t);
+                let y = lerp(from.1, to.1, t);
                 AnimatedResult::Position((x, y))
             }
             Self::Scale { from, to } => {
-                let x = from.0 + (to.0 - from.0) * t;
-                let y = from.1 + (to.1 - from.1) * t;
+                let x = lerp(from.0, to.0, t);
+                let y = lerp(from.1, to.1, t);
                 AnimatedResult::Scale((x, y))
             }
         }
     }
 }
 
+/// Linear interpolation that ends exactly at `to`, however far the values are apart
+fn lerp(from: f32, to: f32, t: f32) -> f32 {
+    if t >= 1.0 {
+        to
+    } else {
+        from + (to - from) * t
+    }
+}
+
 /// Result of animation interpolation
 #[derive(Debug, Clone)]
 pub enum AnimatedResult {
-- 
2.43.0


From b48a66678097c5dd65f3caded2bbaee1f7967b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 066/115] fix: animation tags were taken for others of the same
 beginning, and overflowed

---
 .../ass-renderer/src/animation/controller.rs  | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 5190bb9..6ed87f2 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -39,8 +39,9 @@ impl AnimationController {
         event_end: u32,
     ) -> Result<(), RenderError> {
         let timing = AnimationTiming::new(
-            event_start + tag.t1.unwrap_or(0),
-            event_start + tag.t2.unwrap_or(event_end - event_start),
+            event_start.saturating_add(tag.t1.unwrap_or(0)),
+            tag.t2
+                .map_or(event_end, |t2| event_start.saturating_add(t2)),
             tag.accel.unwrap_or(1.0),
         );
 
@@ -64,8 +65,10 @@ impl AnimationController {
         // Parse modifier format: \property(from,to) or \property(to)
         // Examples: \fscx(100,200), \c(&H0000FF&,&HFF0000&), \pos(0,0,100,100)
 
-        // Simplified parsing - in production would use proper parser
-        if modifier.starts_with("\\fscx") {
+        // Simplified parsing - in production would use proper parser. The whole tag
+        // name counts: `\fsp` is not `\fs`, and `\clip` is not `\c`.
+        let name = modifier.split('(').next().unwrap_or(modifier).trim_end();
+        if name == "\\fscx" {
             // Font scale X animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -79,7 +82,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fscy") {
+        } else if name == "\\fscy" {
             // Font scale Y animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -93,7 +96,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fs") {
+        } else if name == "\\fs" {
             // Font size animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -107,7 +110,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\frz") || modifier.starts_with("\\fr") {
+        } else if name == "\\frz" || name == "\\fr" {
             // Rotation animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -121,7 +124,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\c") || modifier.starts_with("\\1c") {
+        } else if name == "\\c" || name == "\\1c" {
             // Color animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -135,7 +138,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\alpha") {
+        } else if name == "\\alpha" {
             // Alpha animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -194,8 +197,7 @@ impl Default for AnimationController {
 fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     // Find content between parentheses
     let start = modifier.find('(')?;
-    let end = modifier.find(')')?;
-    let content = &modifier[start + 1..end];
+    let content = modifier[start + 1..].split_once(')')?.0;
     Some(content.split(',').collect())
 }
 
-- 
2.43.0


From c5fee4ff375719e94fb2d7a4595c3c1561b500ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 067/115] fix: an alpha written with a closing ampersand was
 ignored in transforms

---
 crates/ass-renderer/src/pipeline/transform/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/transform/parse.rs b/crates/ass-renderer/src/pipeline/transform/parse.rs
index 8def8d6..74970b1 100644
--- a/crates/ass-renderer/src/pipeline/transform/parse.rs
+++ b/crates/ass-renderer/src/pipeline/transform/parse.rs
@@ -123,7 +123,10 @@ fn parse_color_arg(args: &str) -> Option<[u8; 4]> {
 }
 
 fn parse_alpha_arg(args: &str) -> Option<u8> {
-    let hex = args.trim_start_matches("&H").trim_start_matches("&h");
+    let hex = args
+        .trim_start_matches("&H")
+        .trim_start_matches("&h")
+        .trim_end_matches('&');
     // ASS uses inverted alpha: 0 = opaque, 255 = transparent
     // We need to invert it to match standard RGBA: 255 = opaque, 0 = transparent
     u8::from_str_radix(hex, 16)
-- 
2.43.0


From c18cd7b9896dbdb913c0c10b1283920e749be9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 068/115] fix: a blank before the tags of a transform turned
 its acceleration into a time

---
 crates/ass-renderer/src/pipeline/transform/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ass-renderer/src/pipeline/transform/mod.rs b/crates/ass-renderer/src/pipeline/transform/mod.rs
index ecff03a..d95da39 100644
--- a/crates/ass-renderer/src/pipeline/transform/mod.rs
+++ b/crates/ass-renderer/src/pipeline/transform/mod.rs
@@ -84,6 +84,7 @@ impl TransformAnimation {
 
         // Parse parameters - need to be careful since last param might be tags not accel
         let parts: Vec<&str> = params
+            .trim_end()
             .trim_end_matches(',')
             .split(',')
             .map(|s| s.trim())
-- 
2.43.0


From f74526db68eb66b045bef21694e8c58a1dbf3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 069/115] fix: order events by priority without negating it

---
 crates/ass-renderer/src/collision/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/collision/resolver.rs b/crates/ass-renderer/src/collision/resolver.rs
index 3a00b70..700ce82 100644
--- a/crates/ass-renderer/src/collision/resolver.rs
+++ b/crates/ass-renderer/src/collision/resolver.rs
@@ -113,7 +113,7 @@ impl SmartCollisionResolver {
     /// Process events with smart collision resolution
     pub fn process_events(&mut self, events: &mut [PositionedEvent]) {
         // Sort by priority (lower priority = can be moved)
-        events.sort_by_key(|e| -e.priority);
+        events.sort_by_key(|e| core::cmp::Reverse(e.priority));
 
         self.resolver.clear();
 
-- 
2.43.0


From 0faa608b3a411f1925e39fca275798bfd2aa77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 070/115] fix: keep render caches within their limits and evict
 only for new entries

---
 crates/ass-renderer/src/cache/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/cache/mod.rs b/crates/ass-renderer/src/cache/mod.rs
index 71dd429..e02bfca 100644
--- a/crates/ass-renderer/src/cache/mod.rs
+++ b/crates/ass-renderer/src/cache/mod.rs
@@ -100,8 +100,14 @@ impl RenderCache {
 
     /// Store shaped text in cache
     pub fn store_shaped_text(&mut self, key: TextCacheKey, shaped: ShapedText) -> Arc<ShapedText> {
-        // Evict if at capacity
-        if self.shaped_text_cache.len() >= self.max_shaped_entries {
+        if self.max_shaped_entries == 0 {
+            return Arc::new(shaped);
+        }
+
+        // Evict if at capacity, unless the entry replaces its predecessor
+        if self.shaped_text_cache.len() >= self.max_shaped_entries
+            && !self.shaped_text_cache.contains_key(&key)
+        {
             // Simple LRU: remove first item (not ideal but simple)
             if let Some(first_key) = self.shaped_text_cache.keys().next().cloned() {
                 self.shaped_text_cache.remove(&first_key);
@@ -127,8 +133,14 @@ impl RenderCache {
 
     /// Store drawing path in cache
     pub fn store_drawing_path(&mut self, key: DrawingCacheKey, path: Option<Path>) {
-        // Evict if at capacity
-        if self.drawing_path_cache.len() >= self.max_drawing_entries {
+        if self.max_drawing_entries == 0 {
+            return;
+        }
+
+        // Evict if at capacity, unless the entry replaces its predecessor
+        if self.drawing_path_cache.len() >= self.max_drawing_entries
+            && !self.drawing_path_cache.contains_key(&key)
+        {
             if let Some(first_key) = self.drawing_path_cache.keys().next().cloned() {
                 self.drawing_path_cache.remove(&first_key);
                 self.stats.evictions += 1;
-- 
2.43.0


From b4274a3ce7743a527aafe249767cc86ac72d4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 071/115] fix: refuse atlas regions larger than the atlas

---
 crates/ass-renderer/src/utils/caches.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 82900e7..7067a80 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -125,6 +125,10 @@ impl TextureAtlas {
 
     /// Allocate a region in the atlas
     pub fn allocate(&mut self, width: u32, height: u32) -> Option<AtlasRegion> {
+        if width > self.width || height > self.height {
+            return None;
+        }
+
         // Simple row-based packing
         if self.next_x + width > self.width {
             // Move to next row
-- 
2.43.0


From e8e21e8b212f72cd0148354699fdfdd44eeec462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 072/115] fix: align the right-hand numpad alignments to the
 right

---
 crates/ass-renderer/src/layout/positioning/info.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/layout/positioning/info.rs b/crates/ass-renderer/src/layout/positioning/info.rs
index 49a1d75..eece0d6 100644
--- a/crates/ass-renderer/src/layout/positioning/info.rs
+++ b/crates/ass-renderer/src/layout/positioning/info.rs
@@ -91,7 +91,7 @@ impl PositionInfo {
                 // Left alignment (1, 4, 7)
                 margin_left
             }
-            2 | 0 => {
+            2 => {
                 // Center alignment (2, 5, 8)
                 (screen_width - bbox.width) / 2.0
             }
@@ -127,9 +127,9 @@ impl PositionInfo {
     /// Get horizontal offset for alignment anchor
     fn get_alignment_offset_x(alignment: u8, bbox: &BoundingBox) -> f32 {
         match alignment % 3 {
-            1 => 0.0,                  // Left
-            2 | 0 => bbox.width / 2.0, // Center
-            _ => bbox.width,           // Right
+            1 => 0.0,              // Left
+            2 => bbox.width / 2.0, // Center
+            _ => bbox.width,       // Right
         }
     }
 
-- 
2.43.0


From 3f1b641a7f4cf28b7bae8de33928c183d00dee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 073/115] fix: keep dirty regions at the largest coordinates
 from overflowing

---
 .../src/renderer/event_selector.rs             | 18 ++++++++++++------
 crates/ass-renderer/src/utils/regions.rs       | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index 0bc39cb..efa1127 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -223,8 +223,14 @@ impl EventSelector {
                 // Expand existing region
                 let min_x = region.x.min(x);
                 let min_y = region.y.min(y);
-                let max_x = (region.x + region.width).max(x + width);
-                let max_y = (region.y + region.height).max(y + height);
+                let max_x = region
+                    .x
+                    .saturating_add(region.width)
+                    .max(x.saturating_add(width));
+                let max_y = region
+                    .y
+                    .saturating_add(region.height)
+                    .max(y.saturating_add(height));
                 region.x = min_x;
                 region.y = min_y;
                 region.width = max_x - min_x;
@@ -243,10 +249,10 @@ impl EventSelector {
 
     /// Check if two regions overlap
     fn regions_overlap(region: &DirtyRegion, x: u32, y: u32, width: u32, height: u32) -> bool {
-        !(x >= region.x + region.width
-            || x + width <= region.x
-            || y >= region.y + region.height
-            || y + height <= region.y)
+        !(x >= region.x.saturating_add(region.width)
+            || x.saturating_add(width) <= region.x
+            || y >= region.y.saturating_add(region.height)
+            || y.saturating_add(height) <= region.y)
     }
 
     /// Get current dirty regions
diff --git a/crates/ass-renderer/src/utils/regions.rs b/crates/ass-renderer/src/utils/regions.rs
index f14ee8a..da93301 100644
--- a/crates/ass-renderer/src/utils/regions.rs
+++ b/crates/ass-renderer/src/utils/regions.rs
@@ -49,8 +49,14 @@ impl DirtyRegion {
     pub fn merge(&self, other: &Self) -> Self {
         let x1 = self.x.min(other.x);
         let y1 = self.y.min(other.y);
-        let x2 = (self.x + self.width).max(other.x + other.width);
-        let y2 = (self.y + self.height).max(other.y + other.height);
+        let x2 = self
+            .x
+            .saturating_add(self.width)
+            .max(other.x.saturating_add(other.width));
+        let y2 = self
+            .y
+            .saturating_add(self.height)
+            .max(other.y.saturating_add(other.height));
 
         Self {
             x: x1,
@@ -62,7 +68,10 @@ impl DirtyRegion {
 
     /// Check if region contains point
     pub fn contains_point(&self, x: u32, y: u32) -> bool {
-        x >= self.x && x < self.x + self.width && y >= self.y && y < self.y + self.height
+        x >= self.x
+            && x < self.x.saturating_add(self.width)
+            && y >= self.y
+            && y < self.y.saturating_add(self.height)
     }
 
     /// Get area of region
-- 
2.43.0


From 6a1c7b11073951fe6b80606bd43965b4c371ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 074/115] hook: expose the Gaussian blur to harnesses under
 cfg(vhook)

---
 crates/ass-renderer/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ass-renderer/src/lib.rs b/crates/ass-renderer/src/lib.rs
index 5c0fbdb..57cf516 100644
--- a/crates/ass-renderer/src/lib.rs
+++ b/crates/ass-renderer/src/lib.rs
@@ -10,6 +10,7 @@
 #![allow(missing_docs)] // Allow missing docs for struct fields to reduce noise
 #![allow(dead_code)] // Allow dead code for work-in-progress features
 #![allow(unused_variables)] // Allow unused variables in development code
+#![allow(unexpected_cfgs)] // `vhook` is set by external verification harnesses only
 
 #[cfg(feature = "nostd")]
 extern crate alloc;
@@ -27,6 +28,15 @@ pub mod plugin;
 pub mod renderer;
 pub mod utils;
 
+/// Entry points into private code for external verification harnesses.
+#[cfg(vhook)]
+pub mod vhook {
+    /// The software backend's Gaussian blur.
+    pub fn gaussian_blur(pixmap: &mut tiny_skia::Pixmap, sigma: f32) {
+        crate::backends::blur::apply_gaussian_blur(pixmap, sigma);
+    }
+}
+
 pub use backends::{BackendType, RenderBackend};
 #[cfg(not(feature = "nostd"))]
 pub use debug::{DebugPlayer, FrameAnalyzer, FrameInspector, PlayerFrame};
-- 
2.43.0


From 6989eeaf01e1282886929bfe82d09ac496097bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 075/115] fix: composite tiles at any position without
 overflowing

---
 .../ass-renderer/src/backends/coverage/composite.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 72ae4da..0880ad1 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -30,11 +30,12 @@ fn composite_coverage(
 
     let (dst_w, dst_h) = dst_dim;
     let (cov, cov_w, cov_h) = src;
-    let (x, y) = pos;
 
     // Clip the tile against the destination once so the row blend is bounds-free.
-    let (tw, th) = (cov_w as i32, cov_h as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
+    // In 64 bits, so that no position, however far off the frame, overflows.
+    let (x, y) = (i64::from(pos.0), i64::from(pos.1));
+    let (tw, th) = (i64::from(cov_w), i64::from(cov_h));
+    let (dw, dh) = (i64::from(dst_w), i64::from(dst_h));
     let ty0 = (-y).max(0);
     let ty1 = th.min(dh - y);
     let tx0 = (-x).max(0);
@@ -103,9 +104,9 @@ pub fn composite_bitmap(dst: &mut [u8], dst_w: u32, dst_h: u32, bmp: &RenderBitm
 fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), pos: (i32, i32)) {
     let (dst_w, dst_h) = dst_dim;
     let (pixels, sw, sh) = src;
-    let (x, y) = pos;
-    let (tw, th) = (sw as i32, sh as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
+    let (x, y) = (i64::from(pos.0), i64::from(pos.1));
+    let (tw, th) = (i64::from(sw), i64::from(sh));
+    let (dw, dh) = (i64::from(dst_w), i64::from(dst_h));
     let ty0 = (-y).max(0);
     let ty1 = th.min(dh - y);
     let tx0 = (-x).max(0);
-- 
2.43.0


From c434cba1548e62f2cdc881cc2ad4efe944bd1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 076/115] fix: keep comments, stray parentheses and multi-byte
 text in tag blocks from hiding or breaking tags

---
 .../src/pipeline/text_segmenter/split.rs        | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..627059c 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -6,10 +6,16 @@ use alloc::{string::String, vec::Vec};
 use std::{string::String, vec::Vec};
 
 /// Split tags carefully, handling nested parentheses in \t tags
+///
+/// Text before the first backslash is a comment, not a tag.
 pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
     let mut parts = Vec::new();
+    let Some(first_tag) = content.find('\\') else {
+        return parts;
+    };
+    let content = &content[first_tag..];
     let mut current = String::new();
-    let mut depth = 0;
+    let mut depth = 0usize;
     let mut chars = content.chars().peekable();
 
     while let Some(ch) = chars.next() {
@@ -26,7 +32,7 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
             if ch == '(' {
                 depth += 1;
             } else if ch == ')' {
-                depth -= 1;
+                depth = depth.saturating_sub(1);
 
                 // If we closed all parentheses, this tag is complete
                 if depth == 0 && !current.is_empty() {
@@ -55,6 +61,9 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
     if part.starts_with("fn") && part.len() > 2 {
         // Special case for \fn tag - everything after "fn" is the font name
         ("fn", &part[2..])
+    } else if let Some(style) = part.strip_prefix('r') {
+        // No other tag starts with an r: what follows \r is a style name
+        ("r", style)
     } else if part.starts_with(|c: char| c.is_ascii_digit()) {
         // Colour/alpha tags (\1c \2c \3c \4c \1a \2a \3a \4a) are a digit plus
         // exactly one letter, with the value following immediately. Take just
@@ -62,8 +71,8 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
         // letter before the `&H`, very common in real scripts — 6500+ times in
         // the benchmark) still resolves to `1c` rather than an unknown `1cH`;
         // parse_color / parse_alpha tolerate the leftover prefix.
-        if part.len() >= 2 {
-            (&part[..2], &part[2..])
+        if part.is_char_boundary(2) {
+            part.split_at(2)
         } else {
             (part, "")
         }
-- 
2.43.0


From 5195e044c85c1a1e550624af6a1c159321bccc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 077/115] fix: apply alpha, reset, legacy alignment, fade and
 karaoke tags as written

---
 .../src/pipeline/tag_processor/mod.rs         | 12 ++-
 .../src/pipeline/tag_processor/parse.rs       | 16 +++-
 .../src/pipeline/tag_processor/types.rs       | 11 +++
 .../src/pipeline/text_segmenter/apply.rs      | 78 +++++++++++++------
 4 files changed, 90 insertions(+), 27 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index 6b2f1ba..92e5223 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -4,7 +4,8 @@ mod parse;
 mod types;
 
 pub use parse::{
-    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_move_args, parse_pos_args,
+    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_legacy_alignment,
+    parse_move_args, parse_pos_args,
 };
 pub use types::{
     ClipData, ColorOverrides, FadeData, FontOverrides, FormattingOverrides, KaraokeData,
@@ -113,7 +114,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         }
         "alpha" => {
             if let Some(alpha) = parse_alpha(tag.args()) {
-                processed.colors.alpha = Some(alpha);
+                processed.colors.set_alpha(alpha);
             }
         }
         "1a" => {
@@ -246,11 +247,16 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
                 processed.formatting.blur = Some(blur);
             }
         }
-        "a" | "an" => {
+        "an" => {
             if let Ok(align) = tag.args().parse::<u8>() {
                 processed.formatting.alignment = Some(align);
             }
         }
+        "a" => {
+            if let Some(align) = parse_legacy_alignment(tag.args()) {
+                processed.formatting.alignment = Some(align);
+            }
+        }
         "q" => {
             if let Ok(wrap) = tag.args().parse::<u8>() {
                 processed.formatting.wrap_style = Some(wrap);
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..f5937a6 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -91,6 +91,18 @@ pub fn parse_alpha(args: &str) -> Option<u8> {
         .map(|ass_alpha| 255 - ass_alpha)
 }
 
+/// Parse a legacy `\a` alignment into the numpad layout of `\an`.
+///
+/// The column is 1 to 3; 4 more means the top row, 8 more the middle row.
+pub fn parse_legacy_alignment(args: &str) -> Option<u8> {
+    match args.parse::<u8>().ok()? {
+        bottom @ 1..=3 => Some(bottom),
+        top @ 5..=7 => Some(top + 2),
+        middle @ 9..=11 => Some(middle - 5),
+        _ => None,
+    }
+}
+
 /// Parse rectangular clip arguments from an ASS `\clip`/`\iclip` tag
 /// (`(x1,y1,x2,y2)`). Vector (drawing) clips are not handled here.
 pub fn parse_clip_args(args: &str) -> Option<ClipData> {
@@ -174,8 +186,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/types.rs b/crates/ass-renderer/src/pipeline/tag_processor/types.rs
index a058305..9ef8776 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/types.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/types.rs
@@ -67,6 +67,17 @@ pub struct ColorOverrides {
     pub alpha4: Option<u8>,
 }
 
+impl ColorOverrides {
+    /// Set all four alphas at once (`\alpha`), over any set singly before.
+    pub(crate) fn set_alpha(&mut self, alpha: u8) {
+        self.alpha = Some(alpha);
+        self.alpha1 = None;
+        self.alpha2 = None;
+        self.alpha3 = None;
+        self.alpha4 = None;
+    }
+}
+
 #[derive(Debug, Clone, Default)]
 /// Font override settings
 pub struct FontOverrides {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index a483971..5532345 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -1,8 +1,8 @@
 //! Per-tag-name application that updates `ProcessedTags`
 
 use crate::pipeline::tag_processor::{
-    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_move_args, parse_pos_args,
-    KaraokeData, KaraokeStyle, ProcessedTags, TransformData,
+    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_legacy_alignment,
+    parse_move_args, parse_pos_args, KaraokeData, KaraokeStyle, ProcessedTags, TransformData,
 };
 use crate::pipeline::transform::TransformAnimation;
 use crate::utils::RenderError;
@@ -14,6 +14,22 @@ use alloc::string::ToString;
 #[cfg(not(feature = "nostd"))]
 use std::string::ToString;
 
+/// The syllable after `previous`: syllables of a line follow one another in time.
+fn next_syllable(
+    previous: &Option<KaraokeData>,
+    duration: u32,
+    style: KaraokeStyle,
+) -> KaraokeData {
+    let start = previous
+        .as_ref()
+        .map_or(0, |k| k.start_time.unwrap_or(0).saturating_add(k.duration));
+    KaraokeData {
+        duration,
+        style,
+        start_time: Some(start),
+    }
+}
+
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -54,7 +70,7 @@ pub(super) fn process_tag_block(
             }
             "alpha" => {
                 if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha = Some(alpha);
+                    current.colors.set_alpha(alpha);
                 }
             }
             "1a" => {
@@ -208,17 +224,35 @@ pub(super) fn process_tag_block(
                     current.formatting.wrap_style = Some(wrap);
                 }
             }
-            // \r resets all inline overrides back to the line's style.
+            // \r resets all inline overrides back to the line's style, or to the
+            // style it names. Tags that hold for the whole line stay.
             "r" => {
-                *current = ProcessedTags::default();
+                let line = core::mem::take(current);
+                current.position = line.position;
+                current.movement = line.movement;
+                current.origin = line.origin;
+                current.clip = line.clip;
+                current.fade = line.fade;
+                current.karaoke = line.karaoke;
+                current.drawing_mode = line.drawing_mode;
+                current.formatting.alignment = line.formatting.alignment;
+                current.formatting.wrap_style = line.formatting.wrap_style;
+                if !args.is_empty() {
+                    current.reset = Some(args.to_string());
+                }
             }
 
             // Alignment tags
-            "a" | "an" => {
+            "an" => {
                 if let Ok(align) = args.parse::<u8>() {
                     current.formatting.alignment = Some(align);
                 }
             }
+            "a" => {
+                if let Some(align) = parse_legacy_alignment(args) {
+                    current.formatting.alignment = Some(align);
+                }
+            }
 
             // Position tags - these apply to the whole event, not segments
             "pos" => {
@@ -258,38 +292,38 @@ pub(super) fn process_tag_block(
             // Karaoke tags
             "k" => {
                 if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
+                    current.karaoke = Some(next_syllable(
+                        &current.karaoke,
                         duration,
-                        style: KaraokeStyle::Basic,
-                        start_time: None,
-                    });
+                        KaraokeStyle::Basic,
+                    ));
                 }
             }
             "kf" => {
                 if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
+                    current.karaoke = Some(next_syllable(
+                        &current.karaoke,
                         duration,
-                        style: KaraokeStyle::Fill,
-                        start_time: None,
-                    });
+                        KaraokeStyle::Fill,
+                    ));
                 }
             }
             "ko" => {
                 if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
+                    current.karaoke = Some(next_syllable(
+                        &current.karaoke,
                         duration,
-                        style: KaraokeStyle::Outline,
-                        start_time: None,
-                    });
+                        KaraokeStyle::Outline,
+                    ));
                 }
             }
             "K" => {
                 if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
+                    current.karaoke = Some(next_syllable(
+                        &current.karaoke,
                         duration,
-                        style: KaraokeStyle::Sweep,
-                        start_time: None,
-                    });
+                        KaraokeStyle::Sweep,
+                    ));
                 }
             }
 
-- 
2.43.0


From 0c8e9ed782081da5fc77f6e272bb6708fcab9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 078/115] fix: resolve fades, alphas, animations, named resets
 and karaoke for every run and drawing

---
 .../src/pipeline/build/animation.rs           |  41 +++---
 .../src/pipeline/build/drawing.rs             |  33 ++++-
 .../src/pipeline/build/position.rs            |   5 +-
 .../ass-renderer/src/pipeline/build/style.rs  |   6 +
 .../src/pipeline/build/text/colors.rs         | 127 +++++++++---------
 .../src/pipeline/build/text/defaults.rs       |   4 +-
 .../src/pipeline/build/text/mod.rs            |  53 +++++---
 .../src/pipeline/build/text/types.rs          |  37 ++---
 8 files changed, 184 insertions(+), 122 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..bb4aa03 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -1,5 +1,6 @@
 //! Transform (`\t`) animation application for the software pipeline.
 
+use super::text::TextDefaults;
 use crate::pipeline::{
     tag_processor::ProcessedTags,
     transform::{interpolate_alpha, interpolate_color, interpolate_f32, AnimatableTag},
@@ -13,8 +14,7 @@ impl super::SoftwarePipeline {
         event_start_cs: u32,
         event_end_cs: u32,
         current_time_cs: u32,
-        default_colors: ([u8; 4], [u8; 4], [u8; 4], [u8; 4]), // primary, secondary, outline, shadow
-        default_font_size: f32,
+        defaults: &TextDefaults,
     ) {
         // Event duration in milliseconds: a \t with no explicit end animates over it.
         let full_duration_ms = event_end_cs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
@@ -66,7 +66,7 @@ impl super::SoftwarePipeline {
                                 tags.colors.outline = Some(*color)
                             }
                             AnimatableTag::ShadowColor(color) => tags.colors.shadow = Some(*color),
-                            AnimatableTag::Alpha(alpha) => tags.colors.alpha = Some(*alpha),
+                            AnimatableTag::Alpha(alpha) => tags.colors.set_alpha(*alpha),
                             AnimatableTag::BorderWidth(width) => {
                                 tags.formatting.border = Some(*width)
                             }
@@ -91,24 +91,24 @@ impl super::SoftwarePipeline {
                                 // No explicit \fs before \t: animate from the style's
                                 // base size (libass), not from zero.
                                 tags.font.size = Some(interpolate_f32(
-                                    default_font_size,
+                                    defaults.font_size_base,
                                     *target_size,
                                     progress,
                                 ));
                             }
                         }
                         AnimatableTag::FontScaleX(target_scale) => {
-                            let current = tags.font.scale_x.unwrap_or(100.0);
+                            let current = tags.font.scale_x.unwrap_or(defaults.scale_x);
                             tags.font.scale_x =
                                 Some(interpolate_f32(current, *target_scale, progress));
                         }
                         AnimatableTag::FontScaleY(target_scale) => {
-                            let current = tags.font.scale_y.unwrap_or(100.0);
+                            let current = tags.font.scale_y.unwrap_or(defaults.scale_y);
                             tags.font.scale_y =
                                 Some(interpolate_f32(current, *target_scale, progress));
                         }
                         AnimatableTag::FontSpacing(target_spacing) => {
-                            let current = tags.font.spacing.unwrap_or(0.0);
+                            let current = tags.font.spacing.unwrap_or(defaults.spacing);
                             tags.font.spacing =
                                 Some(interpolate_f32(current, *target_spacing, progress));
                         }
@@ -128,37 +128,44 @@ impl super::SoftwarePipeline {
                                 Some(interpolate_f32(current, *target_angle, progress));
                         }
                         AnimatableTag::PrimaryColor(target_color) => {
-                            let current = tags.colors.primary.unwrap_or(default_colors.0);
+                            let current = tags.colors.primary.unwrap_or(defaults.primary_color);
                             tags.colors.primary =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::SecondaryColor(target_color) => {
-                            let current = tags.colors.secondary.unwrap_or(default_colors.1);
+                            let current = tags.colors.secondary.unwrap_or(defaults.secondary_color);
                             tags.colors.secondary =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::OutlineColor(target_color) => {
-                            let current = tags.colors.outline.unwrap_or(default_colors.2);
+                            let current = tags.colors.outline.unwrap_or(defaults.outline_color);
                             tags.colors.outline =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::ShadowColor(target_color) => {
-                            let current = tags.colors.shadow.unwrap_or(default_colors.3);
+                            let current = tags.colors.shadow.unwrap_or(defaults.back_color);
                             tags.colors.shadow =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::Alpha(target_alpha) => {
-                            let current = tags.colors.alpha.unwrap_or(0);
-                            tags.colors.alpha =
-                                Some(interpolate_alpha(current, *target_alpha, progress));
+                            let current = tags
+                                .colors
+                                .alpha1
+                                .or(tags.colors.alpha)
+                                .unwrap_or(defaults.primary_color[3]);
+                            tags.colors.set_alpha(interpolate_alpha(
+                                current,
+                                *target_alpha,
+                                progress,
+                            ));
                         }
                         AnimatableTag::BorderWidth(target_width) => {
-                            let current = tags.formatting.border.unwrap_or(0.0);
+                            let current = tags.formatting.border.unwrap_or(defaults.outline_base);
                             tags.formatting.border =
                                 Some(interpolate_f32(current, *target_width, progress));
                         }
                         AnimatableTag::ShadowDepth(target_depth) => {
-                            let current = tags.formatting.shadow.unwrap_or(0.0);
+                            let current = tags.formatting.shadow.unwrap_or(defaults.shadow_base);
                             tags.formatting.shadow =
                                 Some(interpolate_f32(current, *target_depth, progress));
                         }
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..c858b9e 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -8,7 +8,7 @@ use std::vec::Vec;
 use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::OwnedStyle;
+use super::{text::fade_factor, OwnedStyle};
 use crate::pipeline::{
     animation::calculate_move_progress, drawing::process_drawing_commands,
     text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
@@ -20,13 +20,24 @@ impl super::SoftwarePipeline {
     pub(super) fn process_drawing_command(
         &mut self,
         segment: &TextSegment,
-        _event: &Event,
+        event: &Event,
         style: Option<&OwnedStyle>,
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
         let plain_text = &segment.text;
-        let tags = &segment.tags;
+        let mut tags = segment.tags.clone();
+        self.apply_transform_animations(
+            &mut tags,
+            event.start_time_cs().unwrap_or(0),
+            event.end_time_cs().unwrap_or(u32::MAX),
+            time_cs,
+            &self.resolve_text_defaults(style, 1.0),
+        );
+        let fade = tags
+            .fade
+            .as_ref()
+            .map_or(1.0, |fade| fade_factor(fade, event, time_cs));
 
         // Try to get drawing path from cache
         let draw_cache_key = crate::cache::DrawingCacheKey {
@@ -59,6 +70,7 @@ impl super::SoftwarePipeline {
             if let Some(alpha) = tags.colors.alpha1.or(tags.colors.alpha) {
                 color[3] = alpha;
             }
+            color[3] = (color[3] as f32 * fade) as u8;
 
             // Calculate scaling factors
             let scale_x = context.width() as f32 / self.play_res_x;
@@ -70,9 +82,12 @@ impl super::SoftwarePipeline {
             // ~1.5x too large whenever the output differed from PlayRes (the ED
             // sparkle particles, PlayRes 1920 rendered at 1280, were the visible
             // case: oversized shapes ~3x the ink libass produced).
+            // `\pN` further divides drawing coordinates by 2^(N-1).
+            let level = i32::from(tags.drawing_mode.unwrap_or(1).max(1));
+            let unit = 0.5_f32.powi(level - 1);
             let path = path
                 .clone()
-                .transform(Transform::from_scale(scale_x, scale_y))
+                .transform(Transform::from_scale(scale_x * unit, scale_y * unit))
                 .unwrap_or(path);
 
             // Calculate position with proper scaling
@@ -81,14 +96,17 @@ impl super::SoftwarePipeline {
                 (px * scale_x, py * scale_y)
             } else if let Some((x1, y1, x2, y2, t1, t2)) = tags.movement {
                 // Movement times are relative to event start
-                let event_start_cs = _event.start_time_cs().unwrap_or(0);
-                let event_end_cs = _event.end_time_cs().unwrap_or(u32::MAX);
+                let event_start_cs = event.start_time_cs().unwrap_or(0);
+                let event_end_cs = event.end_time_cs().unwrap_or(u32::MAX);
 
                 // If t1 and t2 are both 0, movement spans the entire event duration
                 let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                     (event_start_cs, event_end_cs)
                 } else {
-                    (event_start_cs + t1, event_start_cs + t2)
+                    (
+                        event_start_cs.saturating_add(t1),
+                        event_start_cs.saturating_add(t2),
+                    )
                 };
 
                 let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
@@ -189,6 +207,7 @@ impl super::SoftwarePipeline {
                 if let Some(a) = tags.colors.alpha3.or(tags.colors.alpha) {
                     oc[3] = a;
                 }
+                oc[3] = (oc[3] as f32 * fade) as u8;
                 StrokeInfo {
                     color: oc,
                     width: border_w,
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..0643d57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -142,7 +142,10 @@ impl super::SoftwarePipeline {
             let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                 (event_start_cs, event_end_cs)
             } else {
-                (event_start_cs + t1, event_start_cs + t2)
+                (
+                    event_start_cs.saturating_add(t1),
+                    event_start_cs.saturating_add(t2),
+                )
             };
 
             let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index 9495da1..e55aabb 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -5,6 +5,7 @@ use alloc::string::{String, ToString};
 #[cfg(not(feature = "nostd"))]
 use std::string::{String, ToString};
 
+use crate::pipeline::tag_processor::ProcessedTags;
 use ass_core::parser::Style;
 
 /// Owned style for storing in pipeline
@@ -78,6 +79,11 @@ impl super::SoftwarePipeline {
             .or(self.default_style.as_ref())
     }
 
+    /// The style a `\rName` reset these tags to, if there is such a style
+    pub(super) fn named_style(&self, tags: &ProcessedTags) -> Option<OwnedStyle> {
+        self.styles_map.get(tags.reset.as_ref()?).cloned()
+    }
+
     /// Parse color from ASS format
     pub(super) fn parse_ass_color(color: &str) -> [u8; 4] {
         // ASS colors are in &HAABBGGRR format where:
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..fe08c72 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -6,7 +6,12 @@ use alloc::{string::ToString, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::ToString, vec::Vec};
 
-use crate::pipeline::{tag_processor::ProcessedTags, text_segmenter::TextSegment};
+use ass_core::parser::Event;
+
+use crate::pipeline::{
+    tag_processor::{FadeData, ProcessedTags},
+    text_segmenter::TextSegment,
+};
 
 use super::types::{RunCtx, TextDefaults};
 
@@ -63,8 +68,6 @@ pub(super) fn resolve_run_colors(
     let default_primary_color = defaults.primary_color;
     let default_outline_color = defaults.outline_color;
     let default_back_color = defaults.back_color;
-    let event = ctx.event;
-    let time_cs = ctx.time_cs;
 
     // Get colors with proper inheritance
     let mut color = tags.colors.primary.unwrap_or(default_primary_color);
@@ -84,72 +87,18 @@ pub(super) fn resolve_run_colors(
         // Alpha is already inverted in parse_alpha (255 = opaque, 0 = transparent)
         color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha3 {
+    if let Some(alpha) = tags.colors.alpha3.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         outline_color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha4 {
+    if let Some(alpha) = tags.colors.alpha4.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         shadow_color[3] = alpha;
     }
 
-    // Apply fade effect
+    // Apply the fade effect to all color components (primary, outline, shadow)
     if let Some(fade) = &tags.fade {
-        // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
-        // Calculate actual fade times relative to event
-        let event_start = event.start_time_cs().unwrap_or(0);
-        let event_end = event.end_time_cs().unwrap_or(u32::MAX);
-
-        let fade_alpha = if let Some(alpha_mid) = fade.alpha_middle {
-            // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
-            // alpha over event-relative times (a1 before t1, ramp a1->a2
-            // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
-            // a3 after t4). ASS alphas are inverted (00=opaque).
-            let (a1, a2, a3) = (
-                fade.alpha_start as f32,
-                alpha_mid as f32,
-                fade.alpha_end as f32,
-            );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
-            let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
-            let ass_alpha = if time_cs <= t1 {
-                a1
-            } else if time_cs < t2 {
-                a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
-            } else if time_cs <= t3 {
-                a2
-            } else if time_cs < t4 {
-                a2 + (a3 - a2) * (time_cs - t3) as f32 / (t4 - t3).max(1) as f32
-            } else {
-                a3
-            };
-            // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
-            255.0 - ass_alpha
-        } else {
-            // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
-            let fade_out_start = event_end.saturating_sub(fade.time_end);
-
-            if time_cs < fade_in_end {
-                // During fade in
-                let progress =
-                    (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else if time_cs >= fade_out_start && fade_out_start < event_end {
-                // During fade out
-                let progress =
-                    (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else {
-                // Fully visible
-                255.0
-            }
-        };
-
-        // Apply fade to all color components (primary, outline, shadow)
-        let fade_factor = fade_alpha / 255.0;
+        let fade_factor = fade_factor(fade, ctx.event, ctx.time_cs);
 
         color[3] = (color[3] as f32 * fade_factor) as u8;
         outline_color[3] = (outline_color[3] as f32 * fade_factor) as u8;
@@ -158,3 +107,59 @@ pub(super) fn resolve_run_colors(
 
     (color, outline_color, shadow_color)
 }
+
+/// Opacity (0 to 1) that a `\fad`/`\fade` gives its event at `time_cs`.
+pub(in crate::pipeline::build) fn fade_factor(fade: &FadeData, event: &Event, time_cs: u32) -> f32 {
+    // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
+    // Calculate actual fade times relative to event
+    let event_start = event.start_time_cs().unwrap_or(0);
+    let event_end = event.end_time_cs().unwrap_or(u32::MAX);
+
+    let fade_alpha = if let Some(alpha_mid) = fade.alpha_middle {
+        // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
+        // alpha over event-relative times (a1 before t1, ramp a1->a2
+        // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
+        // a3 after t4). ASS alphas are inverted (00=opaque).
+        let (a1, a2, a3) = (
+            fade.alpha_start as f32,
+            alpha_mid as f32,
+            fade.alpha_end as f32,
+        );
+        let t1 = event_start.saturating_add(fade.time_start);
+        let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+        let t4 = event_start.saturating_add(fade.time_end);
+        let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
+        let ass_alpha = if time_cs <= t1 {
+            a1
+        } else if time_cs < t2 {
+            a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
+        } else if time_cs <= t3 {
+            a2
+        } else if time_cs < t4 {
+            a2 + (a3 - a2) * (time_cs - t3) as f32 / (t4 - t3).max(1) as f32
+        } else {
+            a3
+        };
+        // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
+        255.0 - ass_alpha
+    } else {
+        // Simple fade - times are durations
+        let fade_in_end = event_start.saturating_add(fade.time_start);
+        let fade_out_start = event_end.saturating_sub(fade.time_end);
+
+        if time_cs < fade_in_end {
+            // During fade in
+            let progress =
+                (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else if time_cs >= fade_out_start && fade_out_start < event_end {
+            // During fade out
+            let progress = (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else {
+            // Fully visible
+            255.0
+        }
+    };
+    fade_alpha / 255.0
+}
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index e81f4ca..3d446d4 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -7,7 +7,7 @@ use super::types::TextDefaults;
 impl super::super::SoftwarePipeline {
     /// Resolve the style-derived defaults (font, size, colours, and formatting)
     /// shared by every segment of the event.
-    pub(super) fn resolve_text_defaults<'a>(
+    pub(in crate::pipeline::build) fn resolve_text_defaults<'a>(
         &self,
         style: Option<&'a OwnedStyle>,
         scale_y: f32,
@@ -86,6 +86,8 @@ impl super::super::SoftwarePipeline {
             back_color: default_back_color,
             outline: default_outline,
             shadow: default_shadow,
+            outline_base: default_outline_base,
+            shadow_base: default_shadow_base,
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..913e59b 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -23,7 +23,9 @@ mod effects;
 mod position;
 mod types;
 
+pub(super) use colors::fade_factor;
 use colors::{resolve_run_colors, split_into_logical_lines};
+pub(super) use types::TextDefaults;
 use types::{EffectColors, LineLayout, Pen, RunCtx};
 
 impl super::SoftwarePipeline {
@@ -72,6 +74,9 @@ impl super::SoftwarePipeline {
             let balance = event_wrap_style != 1;
             let mut wrapped: Vec<Vec<TextSegment>> = Vec::with_capacity(logical_lines.len());
             for line in logical_lines {
+                // Measured with the leading run's style
+                let named = line.first().and_then(|seg| self.named_style(&seg.tags));
+                let defaults = self.resolve_text_defaults(named.as_ref().or(style), scale_y);
                 wrapped.extend(self.wrap_segments(
                     &line,
                     defaults.font_name,
@@ -105,7 +110,12 @@ impl super::SoftwarePipeline {
         let max_font_size = logical_lines
             .iter()
             .flatten()
-            .filter_map(|seg| seg.tags.font.size)
+            .filter_map(|seg| {
+                seg.tags.font.size.or_else(|| {
+                    self.named_style(&seg.tags)
+                        .and_then(|named| named.fontsize.parse().ok())
+                })
+            })
             .fold(defaults.font_size_base, f32::max);
         let estimated_line_height = max_font_size * scale_y;
 
@@ -132,6 +142,9 @@ impl super::SoftwarePipeline {
                 line_segments
                     .iter()
                     .map(|seg| {
+                        let named = self.named_style(&seg.tags);
+                        let defaults =
+                            self.resolve_text_defaults(named.as_ref().or(style), scale_y);
                         let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
                             * scale_y
                             * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
@@ -151,7 +164,6 @@ impl super::SoftwarePipeline {
                 current_x: 0.0,
                 needs_initial_position: true,
             };
-            let mut karaoke_accumulated_time = 0u32; // Track cumulative karaoke time for this line
 
             let layout = LineLayout {
                 is_multi_segment,
@@ -182,21 +194,20 @@ impl super::SoftwarePipeline {
                     }
                 }
 
+                // `\rName` resets to another style than the line's
+                let named = self.named_style(&tags);
+                let style = named.as_ref().or(style);
+                let line_alignment = defaults.alignment;
+                let defaults = self.resolve_text_defaults(style, scale_y);
+
                 // Apply transform animations if present
                 let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let default_colors = (
-                    defaults.primary_color,
-                    defaults.secondary_color,
-                    defaults.outline_color,
-                    defaults.back_color,
-                );
                 self.apply_transform_animations(
                     &mut tags,
                     event_start_cs,
                     event.end_time_cs().unwrap_or(u32::MAX),
                     time_cs,
-                    default_colors,
-                    defaults.font_size_base,
+                    &defaults,
                 );
 
                 // Shape the text first to get dimensions for proper alignment
@@ -225,7 +236,7 @@ impl super::SoftwarePipeline {
                     &layout,
                     &mut pen,
                     &run_ctx,
-                    defaults.alignment,
+                    line_alignment,
                 );
 
                 // Get font information with proper inheritance
@@ -274,10 +285,11 @@ impl super::SoftwarePipeline {
 
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
-                    // Calculate progress for THIS syllable based on cumulative timing
+                    // Calculate progress for THIS syllable: the segmenter gives its
+                    // start within the line, whatever lines and runs it spans
                     let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                        event_start_cs.saturating_add(karaoke.start_time.unwrap_or(0));
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -292,7 +304,15 @@ impl super::SoftwarePipeline {
                     // 6-digit (no alpha), so inherit alpha from the style default.
                     let mut karaoke_secondary =
                         tags.colors.secondary.unwrap_or(defaults.secondary_color);
-                    karaoke_secondary[3] = defaults.secondary_color[3];
+                    karaoke_secondary[3] = tags
+                        .colors
+                        .alpha2
+                        .or(tags.colors.alpha)
+                        .unwrap_or(defaults.secondary_color[3]);
+                    if let Some(fade) = &tags.fade {
+                        let factor = fade_factor(fade, event, time_cs);
+                        karaoke_secondary[3] = (karaoke_secondary[3] as f32 * factor) as u8;
+                    }
 
                     // Add karaoke effect with correct progress
                     layer.effects.push(TextEffect::Karaoke {
@@ -305,9 +325,6 @@ impl super::SoftwarePipeline {
                         },
                         secondary: karaoke_secondary,
                     });
-
-                    // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index d93a530..b404db2 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -9,23 +9,26 @@ use crate::renderer::RenderContext;
 
 /// Style-derived defaults (font, size, colours, formatting) resolved once per
 /// event. Borrows the run's resolved style for its zero-copy font name.
-pub(super) struct TextDefaults<'a> {
-    pub(super) font_name: &'a str,
-    pub(super) font_size_base: f32,
-    pub(super) bold: bool,
-    pub(super) italic: bool,
-    pub(super) underline: bool,
-    pub(super) strikeout: bool,
-    pub(super) primary_color: [u8; 4],
-    pub(super) secondary_color: [u8; 4],
-    pub(super) outline_color: [u8; 4],
-    pub(super) back_color: [u8; 4],
-    pub(super) outline: f32,
-    pub(super) shadow: f32,
-    pub(super) scale_x: f32,
-    pub(super) scale_y: f32,
-    pub(super) spacing: f32,
-    pub(super) alignment: u8,
+pub(in crate::pipeline::build) struct TextDefaults<'a> {
+    pub(in crate::pipeline::build) font_name: &'a str,
+    pub(in crate::pipeline::build) font_size_base: f32,
+    pub(in crate::pipeline::build) bold: bool,
+    pub(in crate::pipeline::build) italic: bool,
+    pub(in crate::pipeline::build) underline: bool,
+    pub(in crate::pipeline::build) strikeout: bool,
+    pub(in crate::pipeline::build) primary_color: [u8; 4],
+    pub(in crate::pipeline::build) secondary_color: [u8; 4],
+    pub(in crate::pipeline::build) outline_color: [u8; 4],
+    pub(in crate::pipeline::build) back_color: [u8; 4],
+    pub(in crate::pipeline::build) outline: f32,
+    pub(in crate::pipeline::build) shadow: f32,
+    /// Outline and shadow in script units, as tags give them.
+    pub(in crate::pipeline::build) outline_base: f32,
+    pub(in crate::pipeline::build) shadow_base: f32,
+    pub(in crate::pipeline::build) scale_x: f32,
+    pub(in crate::pipeline::build) scale_y: f32,
+    pub(in crate::pipeline::build) spacing: f32,
+    pub(in crate::pipeline::build) alignment: u8,
 }
 
 /// Per-call rendering context shared by the per-segment helpers (constant
-- 
2.43.0


From 357c3e961748f8e35e15b2a9eae6359d881535a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 079/115] fix: scale a run about its left edge and decorate and
 turn it by the width it is drawn at

---
 .../src/backends/software/text/decorations.rs |  4 +--
 .../src/backends/software/text/mod.rs         |  2 ++
 .../src/backends/software/text/prepare.rs     | 32 +++++++++++++------
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 76d6304..680cc70 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -223,7 +223,7 @@ impl super::super::SoftwareBackend {
             let underline_y = baseline_y - shaped.descent / 2.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + shaped.width, underline_y);
+            builder.line_to(data.x + run.drawn_width, underline_y);
 
             if let Some(underline_path) = builder.finish() {
                 let stroke = tiny_skia::Stroke {
@@ -248,7 +248,7 @@ impl super::super::SoftwareBackend {
             let strike_y = baseline_y - shaped.ascent / 3.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + shaped.width, strike_y);
+            builder.line_to(data.x + run.drawn_width, strike_y);
 
             if let Some(strike_path) = builder.finish() {
                 let stroke = tiny_skia::Stroke {
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index 8de6d1e..d0bb0dd 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -33,6 +33,8 @@ struct TextRun {
     baseline_y: f32,
     /// Shaped run metrics (width/height/ascent/descent/baseline).
     shaped: ShapedText,
+    /// Width of the drawn run, letter spacing and horizontal scale included.
+    drawn_width: f32,
     /// Rectangular `\clip`/`\iclip` mask, or `None` when unclipped.
     clip_mask: Option<tiny_skia::Mask>,
     /// `\blur` radius, or `None` when the text is sharp.
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..4c69b6d 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -66,6 +66,20 @@ impl super::super::SoftwareBackend {
         // local rotation centre) here and project the glyph paths per-point below.
         let mut rot3d: Option<(f32, f32, f32, f32)> = None;
 
+        // Horizontal scale (`\fscx` over the `\fscy` baked into the font size), and
+        // the width the run is drawn with
+        let x_scale = data
+            .effects
+            .iter()
+            .find_map(|effect| match effect {
+                crate::pipeline::TextEffect::Scale { x, y } if *y != 0.0 => Some(*x / *y),
+                crate::pipeline::TextEffect::Scale { x, .. } => Some(*x / 100.0),
+                _ => None,
+            })
+            .unwrap_or(1.0);
+        let gaps = shaped.glyphs.len().saturating_sub(1) as f32;
+        let drawn_width = (shaped.width + data.spacing * gaps) * x_scale;
+
         // Check for rotation, scaling, and shear effects
         for effect in &data.effects {
             match effect {
@@ -82,7 +96,7 @@ impl super::super::SoftwareBackend {
                     // ascent too low.
                     let (text_center_x, text_center_y) = match origin {
                         Some((ox, oy)) => (ox - data.x, oy - baseline_y),
-                        None => (shaped.width / 2.0, shaped.height / 2.0 - shaped.baseline),
+                        None => (drawn_width / 2.0, shaped.height / 2.0 - shaped.baseline),
                     };
 
                     // Z rotation (true 2D rotation). tiny-skia's pre_rotate takes
@@ -109,7 +123,7 @@ impl super::super::SoftwareBackend {
                         ));
                     }
                 }
-                crate::pipeline::TextEffect::Scale { x, y } => {
+                crate::pipeline::TextEffect::Scale { .. } => {
                     // `\fscy` is baked into the font SIZE during shaping, so the glyph
                     // arrives scaled by the y-factor on BOTH axes. libass scales the
                     // axes independently, so here we only correct the HORIZONTAL one:
@@ -117,20 +131,17 @@ impl super::super::SoftwareBackend {
                     // `\fscx` while the vertical stays `\fscy`. (For `\fscx` alone, y is
                     // 100 so this reduces to the plain x-scale; for uniform scaling the
                     // ratio is 1 and this is a no-op.)
-                    let x_scale = if *y != 0.0 { *x / *y } else { *x / 100.0 };
-                    if (x_scale - 1.0).abs() > 0.01 {
-                        let text_center_x = shaped.width / 2.0;
-                        base_transform = base_transform
-                            .pre_translate(text_center_x, 0.0)
-                            .pre_scale(x_scale, 1.0)
-                            .pre_translate(-text_center_x, 0.0);
+                    // The run starts at `data.x` whatever its scale: the layout has
+                    // already left room for the scaled width.
+                    if x_scale != 1.0 {
+                        base_transform = base_transform.pre_scale(x_scale, 1.0);
                     }
                 }
                 crate::pipeline::TextEffect::Shear { x, y } => {
                     // Apply shear (\fax/\fay) around the text centre. Shearing around
                     // the screen origin displaced the text by skew*position, shoving
                     // it far across the frame.
-                    let text_center_x = shaped.width / 2.0;
+                    let text_center_x = drawn_width / 2.0;
                     let text_center_y = shaped.height / 2.0;
                     base_transform = base_transform
                         .pre_translate(text_center_x, text_center_y)
@@ -341,6 +352,7 @@ impl super::super::SoftwareBackend {
             base_transform,
             baseline_y,
             shaped,
+            drawn_width,
             clip_mask,
             blur_radius,
             outline_info,
-- 
2.43.0


From 95e90ef1b0c282f77e56c7103ca61426d2011750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 080/115] fix: place an event's runs and drawings by its tags,
 line by line, in written order

---
 .../src/pipeline/build/animation.rs           |   2 +-
 .../src/pipeline/build/drawing.rs             |  21 +-
 .../src/pipeline/build/position.rs            | 107 ++------
 crates/ass-renderer/src/pipeline/build/run.rs |  64 ++---
 .../ass-renderer/src/pipeline/build/style.rs  |   3 +-
 .../src/pipeline/build/text/defaults.rs       |   4 +
 .../src/pipeline/build/text/effects.rs        |  19 +-
 .../src/pipeline/build/text/mod.rs            | 230 ++++++++----------
 .../src/pipeline/build/text/position.rs       | 197 ++-------------
 .../src/pipeline/build/text/types.rs          |  68 ++++--
 10 files changed, 257 insertions(+), 458 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index bb4aa03..a57570f 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -113,7 +113,7 @@ impl super::SoftwarePipeline {
                                 Some(interpolate_f32(current, *target_spacing, progress));
                         }
                         AnimatableTag::FontRotationZ(target_angle) => {
-                            let current = tags.font.rotation_z.unwrap_or(0.0);
+                            let current = tags.font.rotation_z.unwrap_or(defaults.angle);
                             tags.font.rotation_z =
                                 Some(interpolate_f32(current, *target_angle, progress));
                         }
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index c858b9e..cb79375 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -8,7 +8,10 @@ use std::vec::Vec;
 use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::{text::fade_factor, OwnedStyle};
+use super::{
+    text::{fade_factor, Placement},
+    OwnedStyle,
+};
 use crate::pipeline::{
     animation::calculate_move_progress, drawing::process_drawing_commands,
     text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
@@ -20,6 +23,7 @@ impl super::SoftwarePipeline {
     pub(super) fn process_drawing_command(
         &mut self,
         segment: &TextSegment,
+        placement: &Placement,
         event: &Event,
         style: Option<&OwnedStyle>,
         time_cs: u32,
@@ -91,10 +95,10 @@ impl super::SoftwarePipeline {
                 .unwrap_or(path);
 
             // Calculate position with proper scaling
-            let (x, y) = if let Some((px, py)) = tags.position {
+            let (x, y) = if let Some((px, py)) = placement.position {
                 // Scale from script coordinates to render coordinates
                 (px * scale_x, py * scale_y)
-            } else if let Some((x1, y1, x2, y2, t1, t2)) = tags.movement {
+            } else if let Some((x1, y1, x2, y2, t1, t2)) = placement.movement {
                 // Movement times are relative to event start
                 let event_start_cs = event.start_time_cs().unwrap_or(0);
                 let event_end_cs = event.end_time_cs().unwrap_or(u32::MAX);
@@ -122,16 +126,7 @@ impl super::SoftwarePipeline {
             // Get path bounds to calculate proper alignment offset
             let bounds = path.bounds();
 
-            // Get alignment from tags or style (default to 5 = center)
-            let alignment = tags
-                .formatting
-                .alignment
-                .map(|a| a as i32)
-                .or(style.and_then(|s| {
-                    // Parse alignment from style - it's stored as a string like "5"
-                    s.alignment.parse::<i32>().ok()
-                }))
-                .unwrap_or(5);
+            let alignment = i32::from(placement.alignment);
 
             // Calculate alignment offset based on path bounds
             // Alignment uses numpad layout: 1-3 bottom, 4-6 middle, 7-9 top
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 0643d57..e50ec85 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -1,53 +1,24 @@
 //! Position, alignment, and margin resolution for the software pipeline.
 
+use super::{text::Placement, OwnedStyle};
 use crate::collision::BoundingBox;
-use crate::pipeline::{
-    animation::calculate_move_progress, tag_processor::ProcessedTags, IntermediateLayer,
-};
+use crate::pipeline::{animation::calculate_move_progress, IntermediateLayer};
 use crate::renderer::RenderContext;
 use ass_core::parser::Event;
 
 impl super::SoftwarePipeline {
-    /// Whether an event pins its own position (`\pos`/`\move`) and is therefore
-    /// exempt from collision stacking.
-    pub(super) fn event_is_positioned(event: &Event) -> bool {
-        event.text.contains("\\pos") || event.text.contains("\\move")
-    }
-
-    /// Effective vertical-alignment row for collision: an inline `\an` override
-    /// wins over the style alignment (default 2 = bottom-centre).
-    pub(super) fn effective_alignment(&self, event: &Event) -> u8 {
-        if let Some(idx) = event.text.find("\\an") {
-            if let Some(d) = event.text[idx + 3..]
-                .chars()
-                .next()
-                .and_then(|c| c.to_digit(10))
-            {
-                if (1..=9).contains(&d) {
-                    return d as u8;
-                }
-            }
-        }
+    /// The event's style, or the default one when there is no such style.
+    pub(super) fn event_style(&self, event: &Event) -> Option<&OwnedStyle> {
         self.styles_map
             .get(event.style)
-            .and_then(|s| s.alignment.parse::<u8>().ok())
-            .filter(|a| (1..=9).contains(a))
-            .unwrap_or(2)
+            .or(self.default_style.as_ref())
     }
 
     /// Event vertical margin in render-pixel space (event margin overrides the
     /// style margin; `0`/empty means "use the style").
     pub(super) fn event_margin_v(&self, event: &Event, scale_y: f32) -> f32 {
-        let style_mv = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let mv = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_mv
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_mv)
-        };
+        let style = self.event_style(event);
+        let mv = Self::margin_or_style(event.margin_v, style.map(|s| s.margin_v.as_str()));
         mv * scale_y
     }
 
@@ -86,32 +57,31 @@ impl super::SoftwarePipeline {
     }
 
     /// Resolve a margin (script coordinates): the event margin overrides the style
-    /// margin, but `0`/empty means "use the style".
+    /// margin, but zero (however written) or empty means "use the style".
     pub(super) fn margin_or_style(event_margin: &str, style_margin: Option<&str>) -> f32 {
         let style = style_margin
             .and_then(|m| m.parse::<f32>().ok())
             .unwrap_or(0.0);
-        if event_margin.is_empty() || event_margin == "0" {
-            style
-        } else {
-            event_margin.parse::<f32>().unwrap_or(style)
+        match event_margin.trim().parse::<f32>() {
+            Ok(margin) if margin != 0.0 => margin,
+            _ => style,
         }
     }
 
-    pub(super) fn calculate_position_from_tags(
+    /// Point of the screen the event's block is aligned on.
+    pub(super) fn anchor_point(
         &self,
-        tags: &ProcessedTags,
+        placement: &Placement,
         event: &Event,
         context: &RenderContext,
         time_cs: u32,
-        default_alignment: u8,
     ) -> (f32, f32) {
         // Calculate scaling factors
         let scale_x = context.width() as f32 / self.play_res_x;
         let scale_y = context.height() as f32 / self.play_res_y;
 
         // Check for explicit position
-        if let Some((mut px, mut py)) = tags.position {
+        if let Some((mut px, mut py)) = placement.position {
             // If LayoutRes is present, positions are in LayoutRes coordinates
             // and need to be scaled to PlayRes first
             if let (Some(layout_x), Some(layout_y)) = (self.layout_res_x, self.layout_res_y) {
@@ -123,7 +93,7 @@ impl super::SoftwarePipeline {
         }
 
         // Check for movement
-        if let Some((mut x1, mut y1, mut x2, mut y2, t1, t2)) = tags.movement {
+        if let Some((mut x1, mut y1, mut x2, mut y2, t1, t2)) = placement.movement {
             // If LayoutRes is present, movement coordinates are in LayoutRes coordinates
             if let (Some(layout_x), Some(layout_y)) = (self.layout_res_x, self.layout_res_y) {
                 x1 *= self.play_res_x / layout_x;
@@ -157,8 +127,7 @@ impl super::SoftwarePipeline {
         }
 
         // Calculate based on alignment
-        let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-        self.calculate_position_from_alignment(alignment, event, context)
+        self.calculate_position_from_alignment(placement.alignment, event, context)
     }
 
     pub(super) fn calculate_position_from_alignment(
@@ -174,40 +143,14 @@ impl super::SoftwarePipeline {
         let scale_x = width / self.play_res_x;
         let scale_y = height / self.play_res_y;
 
-        // Parse margins - use style margins if event margins are 0 or empty
-        // Get margins in script coordinates first
-        let style_margin_l = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_l.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_r = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_r.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_v = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-
-        // Get margins in script coordinates
-        let margin_l_script = if event.margin_l.is_empty() || event.margin_l == "0" {
-            style_margin_l
-        } else {
-            event.margin_l.parse::<f32>().unwrap_or(style_margin_l)
-        };
-        let margin_r_script = if event.margin_r.is_empty() || event.margin_r == "0" {
-            style_margin_r
-        } else {
-            event.margin_r.parse::<f32>().unwrap_or(style_margin_r)
-        };
-        let margin_v_script = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_margin_v
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_margin_v)
-        };
+        // Margins in script coordinates
+        let style = self.event_style(event);
+        let margin_l_script =
+            Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
+        let margin_r_script =
+            Self::margin_or_style(event.margin_r, style.map(|s| s.margin_r.as_str()));
+        let margin_v_script =
+            Self::margin_or_style(event.margin_v, style.map(|s| s.margin_v.as_str()));
 
         // Scale margins to screen coordinates
         let margin_l = margin_l_script * scale_x;
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..f1d997e 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -9,7 +9,7 @@ use std::{string::ToString, vec::Vec};
 use ass_core::analysis::ScriptAnalysis;
 use ass_core::parser::{Event, Script};
 
-use super::OwnedStyle;
+use super::{text::Placement, OwnedStyle};
 use crate::collision::PositionedEvent;
 use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
 use crate::renderer::RenderContext;
@@ -21,43 +21,28 @@ impl super::SoftwarePipeline {
         event: &Event,
         time_cs: u32,
         context: &RenderContext,
-    ) -> Result<Vec<IntermediateLayer>, RenderError> {
+    ) -> Result<(Vec<IntermediateLayer>, Placement), RenderError> {
         // Get text segments with their individual tags
         let segments = segment_text_with_tags(event.text, None)?;
 
-        if segments.is_empty() {
-            return Ok(Vec::new());
-        }
-
-        // Check if this is a drawing command
-        if let Some(draw_level) = segments[0].tags.drawing_mode {
-            if draw_level > 0 {
-                // Clone the style to avoid borrow issues
-                let style_cloned = self
-                    .styles_map
-                    .get(event.style)
-                    .or(self.default_style.as_ref())
-                    .cloned();
-
-                return self.process_drawing_command(
-                    &segments[0],
-                    event,
-                    style_cloned.as_ref(),
-                    time_cs,
-                    context,
-                );
-            }
-        }
-
         // Clone the style to avoid borrow issues
-        let style_cloned = self
-            .styles_map
-            .get(event.style)
-            .or(self.default_style.as_ref())
-            .cloned();
+        let style_cloned = self.event_style(event).cloned();
 
         // Process text segments with proper style inheritance
-        self.process_text_segments(segments, event, style_cloned.as_ref(), time_cs, context)
+        let placement = Placement::of_event(
+            &segments,
+            self.resolve_text_defaults(style_cloned.as_ref(), 1.0)
+                .alignment,
+        );
+        let layers = self.process_text_segments(
+            segments,
+            &placement,
+            event,
+            style_cloned.as_ref(),
+            time_cs,
+            context,
+        )?;
+        Ok((layers, placement))
     }
 }
 
@@ -192,6 +177,10 @@ impl Pipeline for super::SoftwarePipeline {
                             }
                         }
 
+                        // The first style stands in until there is a default one
+                        if self.default_style.is_none() {
+                            self.default_style = Some(owned_style.clone());
+                        }
                         if style_name == "Default" || style_name == "*Default" {
                             self.default_style = Some(owned_style.clone());
                         }
@@ -203,11 +192,6 @@ impl Pipeline for super::SoftwarePipeline {
             }
         }
 
-        // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
-        }
-
         Ok(())
     }
 
@@ -246,9 +230,9 @@ impl Pipeline for super::SoftwarePipeline {
         // collisions). Positioned events (\pos/\move) are exempt and do not
         // participate in stacking.
         for event in sorted_events {
-            let mut event_layers = self.process_event(event, time_cs, context)?;
+            let (mut event_layers, placement) = self.process_event(event, time_cs, context)?;
 
-            if !Self::event_is_positioned(event) {
+            if !placement.is_pinned() {
                 if let Some(bbox) = self.event_bounding_box(&event_layers) {
                     let positioned = PositionedEvent {
                         bbox,
@@ -256,7 +240,7 @@ impl Pipeline for super::SoftwarePipeline {
                         margin_v: self.event_margin_v(event, scale_y) as i32,
                         margin_l: 0,
                         margin_r: 0,
-                        alignment: self.effective_alignment(event),
+                        alignment: placement.alignment,
                         priority: 0,
                     };
                     let resolved = self.collision_resolver.find_position(positioned);
diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index e55aabb..a74179c 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -26,8 +26,7 @@ pub(super) struct OwnedStyle {
     pub(super) scale_x: String,
     pub(super) scale_y: String,
     pub(super) spacing: String,
-    #[allow(dead_code)] // Text rotation angle - stored for completeness
-    angle: String,
+    pub(super) angle: String,
     #[allow(dead_code)] // Border rendering style - stored for completeness
     pub(super) border_style: String,
     pub(super) outline: String,
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index 3d446d4..b7cf9c6 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -69,6 +69,9 @@ impl super::super::SoftwarePipeline {
         let default_spacing = style
             .map(|s| s.spacing.parse::<f32>().unwrap_or(0.0))
             .unwrap_or(0.0);
+        let default_angle = style
+            .map(|s| s.angle.parse::<f32>().unwrap_or(0.0))
+            .unwrap_or(0.0);
         let default_alignment = style
             .map(|s| s.alignment.parse::<u8>().unwrap_or(2))
             .unwrap_or(2);
@@ -91,6 +94,7 @@ impl super::super::SoftwarePipeline {
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
+            angle: default_angle,
             alignment: default_alignment,
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index fbd48d9..b6747e7 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -149,7 +149,11 @@ impl super::super::SoftwarePipeline {
         // Add rotation effects if present
         let rotation_x = tags.font.rotation_x.unwrap_or(0.0);
         let rotation_y = tags.font.rotation_y.unwrap_or(0.0);
-        let rotation_z = tags.font.rotation_z.or(tags.font.angle).unwrap_or(0.0);
+        let rotation_z = tags
+            .font
+            .rotation_z
+            .or(tags.font.angle)
+            .unwrap_or(defaults.angle);
         if rotation_x != 0.0 || rotation_y != 0.0 || rotation_z != 0.0 {
             // `\org` sets the rotation centre in script coordinates; scale
             // it to screen space for the backend.
@@ -163,13 +167,12 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add shear effects if present
-        if let Some(shear_x) = tags.shear_x {
-            if shear_x != 0.0 || tags.shear_y.unwrap_or(0.0) != 0.0 {
-                layer.effects.push(TextEffect::Shear {
-                    x: shear_x,
-                    y: tags.shear_y.unwrap_or(0.0),
-                });
-            }
+        let (shear_x, shear_y) = (tags.shear_x.unwrap_or(0.0), tags.shear_y.unwrap_or(0.0));
+        if shear_x != 0.0 || shear_y != 0.0 {
+            layer.effects.push(TextEffect::Shear {
+                x: shear_x,
+                y: shear_y,
+            });
         }
 
         // Add a scale effect when either axis is non-100%. \fscy is folded
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 913e59b..f682059 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -25,19 +25,22 @@ mod types;
 
 pub(super) use colors::fade_factor;
 use colors::{resolve_run_colors, split_into_logical_lines};
+pub(in crate::pipeline::build) use types::Placement;
 pub(super) use types::TextDefaults;
-use types::{EffectColors, LineLayout, Pen, RunCtx};
+use types::{EffectColors, LineLayout, LineRun, RunCtx};
 
 impl super::SoftwarePipeline {
     pub(super) fn process_text_segments(
         &mut self,
         segments: Vec<TextSegment>,
+        placement: &Placement,
         event: &Event,
         style: Option<&OwnedStyle>,
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        let mut all_layers = Vec::new();
+        // Layers with the place in the event's text of what they show
+        let mut all_layers: Vec<(usize, IntermediateLayer)> = Vec::new();
 
         // Calculate scaling factors for sizes
         let scale_x = context.width() as f32 / self.play_res_x;
@@ -46,9 +49,6 @@ impl super::SoftwarePipeline {
         // Resolve the style-derived defaults (font/size/colours/formatting) once.
         let defaults = self.resolve_text_defaults(style, scale_y);
 
-        // Get base position from first segment - we'll adjust per-segment as needed
-        let _base_tags = &segments[0].tags;
-
         // Effective wrap style: a `\q` override (clamped to 0..=3, like libass which
         // falls back to the track style on an invalid value) takes precedence over
         // the script's WrapStyle header.
@@ -58,6 +58,19 @@ impl super::SoftwarePipeline {
             .filter(|&q| q <= 3)
             .unwrap_or(self.wrap_style);
 
+        // Drawings are placed on their own; the text about them flows on without
+        // them
+        let (drawings, segments): (Vec<_>, Vec<_>) = segments
+            .into_iter()
+            .partition(|segment| segment.tags.drawing_mode.is_some_and(|level| level > 0));
+        for drawing in &drawings {
+            if let Ok(layers) =
+                self.process_drawing_command(drawing, placement, event, style, time_cs, context)
+            {
+                all_layers.extend(layers.into_iter().map(|layer| (drawing.start, layer)));
+            }
+        }
+
         // Restructure segments into logical lines
         let mut logical_lines = split_into_logical_lines(segments);
 
@@ -65,7 +78,7 @@ impl super::SoftwarePipeline {
         // explicit \N breaks, already split into logical_lines); positioned events
         // (\pos/\move) keep their explicit layout. WrapStyle 1 wraps greedily with
         // no balancing; 0/3 balance the lines (libass smart wrapping).
-        if !Self::event_is_positioned(event) && event_wrap_style != 2 {
+        if !placement.is_pinned() && event_wrap_style != 2 {
             let margin_l =
                 Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
             let margin_r =
@@ -96,12 +109,6 @@ impl super::SoftwarePipeline {
 
         // Calculate total height for multi-line text
         let num_lines = logical_lines.len();
-        // For line height in libass:
-        // - Line spacing uses the font size in script resolution scaled to render resolution
-        // - DPI scaling affects glyph rendering but NOT line spacing
-        // - ScaleY affects glyph size but NOT line spacing
-        let line_spacing_multiplier = 1.0; // Match libass line spacing
-
         // Line height for spacing between lines (not affected by the glyph DPI
         // scale in libass). libass advances by the line's font size, so use the
         // largest font size across the event (covering inline `\fs` overrides)
@@ -119,10 +126,7 @@ impl super::SoftwarePipeline {
             .fold(defaults.font_size_base, f32::max);
         let estimated_line_height = max_font_size * scale_y;
 
-        let _total_text_height = estimated_line_height * num_lines as f32 * line_spacing_multiplier;
-
         // Process each logical line
-        let mut line_y_offset = 0.0;
 
         let run_ctx = RunCtx {
             event,
@@ -132,112 +136,49 @@ impl super::SoftwarePipeline {
             scale_y,
         };
 
+        let anchor = self.anchor_point(placement, event, context, time_cs);
+
         for (line_index, line_segments) in logical_lines.into_iter().enumerate() {
-            // For a multi-segment line, total rendered width so it is aligned as
-            // one unit rather than each segment re-centering on its own width. A
-            // single-segment line uses its per-segment shaped width below (which
-            // already reflects \t animations), so skip the pre-pass there.
-            let is_multi_segment = line_segments.len() > 1;
-            let line_total_width: f32 = if is_multi_segment {
-                line_segments
-                    .iter()
-                    .map(|seg| {
-                        let named = self.named_style(&seg.tags);
-                        let defaults =
-                            self.resolve_text_defaults(named.as_ref().or(style), scale_y);
-                        let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
-                            * scale_y
-                            * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
-                            * self.dpi_scale;
-                        let fsx = seg.tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                        let font = seg.tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                        let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
-                        let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
-                        shape_text_cached(&seg.text, font, size, bold, italic, &self.font_database)
-                            .map_or(0.0, |sh| sh.width * fsx)
-                    })
-                    .sum()
-            } else {
-                0.0
-            };
-            let mut pen = Pen {
-                current_x: 0.0,
-                needs_initial_position: true,
-            };
+            // Shape every run of the line first, as it looks at this time, to place
+            // the line as a whole
+            let mut runs = Vec::with_capacity(line_segments.len());
+            for segment in line_segments {
+                runs.push(self.shape_run(segment, style, &run_ctx)?);
+            }
 
             let layout = LineLayout {
-                is_multi_segment,
-                line_total_width,
+                width: runs.iter().map(|run| run.width).sum(),
+                ascent: runs.iter().map(|run| run.shaped.ascent).fold(0.0, f32::max),
+                descent: runs
+                    .iter()
+                    .map(|run| -run.shaped.descent)
+                    .fold(0.0, f32::max),
                 num_lines,
                 line_index,
-                estimated_line_height,
-                line_spacing_multiplier,
-                line_y_offset,
+                line_height: estimated_line_height,
             };
-
-            for segment in line_segments {
-                let mut tags = segment.tags.clone();
+            let (mut pen_x, line_y) = self.position_line(anchor, &layout, placement.alignment);
+
+            for run in runs {
+                let LineRun {
+                    segment,
+                    named,
+                    shaped,
+                    width,
+                } = run;
+                let tags = segment.tags;
                 let line_text = &segment.text;
-
-                // Check if this segment is in drawing mode
-                if let Some(drawing_mode) = tags.drawing_mode {
-                    if drawing_mode > 0 {
-                        // Process drawing commands
-                        if let Ok(drawing_layers) =
-                            self.process_drawing_command(&segment, event, style, time_cs, context)
-                        {
-                            for layer in drawing_layers {
-                                all_layers.push(layer);
-                            }
-                        }
-                        continue; // Skip text processing for drawing segments
-                    }
-                }
+                let event_start_cs = event.start_time_cs().unwrap_or(0);
 
                 // `\rName` resets to another style than the line's
-                let named = self.named_style(&tags);
                 let style = named.as_ref().or(style);
-                let line_alignment = defaults.alignment;
                 let defaults = self.resolve_text_defaults(style, scale_y);
 
-                // Apply transform animations if present
-                let event_start_cs = event.start_time_cs().unwrap_or(0);
-                self.apply_transform_animations(
-                    &mut tags,
-                    event_start_cs,
-                    event.end_time_cs().unwrap_or(u32::MAX),
-                    time_cs,
-                    &defaults,
-                );
+                // Runs follow each other on the line's baseline
+                let (segment_x, segment_y) = (pen_x, line_y + layout.ascent - shaped.ascent);
+                pen_x += width;
 
-                // Shape the text first to get dimensions for proper alignment
-                // Get base font size and scale factors
-                let base_font_size = tags.font.size.unwrap_or(defaults.font_size_base); // Use unscaled base size
-                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
-                // Apply both resolution scaling, percentage scaling, and DPI scaling
-                let actual_font_size = base_font_size * scale_y * font_scale_y * self.dpi_scale;
-
-                let font_to_use = tags.font.name.as_deref().unwrap_or(defaults.font_name);
-
-                let shaped = shape_text_cached(
-                    line_text,
-                    font_to_use,
-                    actual_font_size,
-                    tags.formatting.bold.unwrap_or(defaults.bold),
-                    tags.formatting.italic.unwrap_or(defaults.italic),
-                    &self.font_database,
-                )?;
-
-                // Calculate position for this segment
-                let (segment_x, segment_y) = self.position_segment(
-                    &tags,
-                    &shaped,
-                    &layout,
-                    &mut pen,
-                    &run_ctx,
-                    line_alignment,
-                );
+                let actual_font_size = shaped.font_size;
 
                 // Get font information with proper inheritance
                 let font_family = tags.font.name.as_deref().unwrap_or(defaults.font_name);
@@ -327,25 +268,64 @@ impl super::SoftwarePipeline {
                     });
                 }
 
-                // Advance the pen to the end of this segment so the next run on the
-                // line continues right after it. Always use the real shaped advance:
-                // the old character-count estimate (used whenever alignment was set,
-                // including inherited `\an`) over-advanced and left gaps between the
-                // runs of a multi-segment line.
-                if let Some(advance) = shaped.total_advance() {
-                    pen.current_x += advance * font_scale_x;
-                }
-
-                all_layers.push(IntermediateLayer::Text(layer));
+                all_layers.push((segment.start, IntermediateLayer::Text(layer)));
             }
-
-            // Move to next line. Advance by the nominal line height (font size in
-            // render resolution), matching libass's baseline-to-baseline spacing.
-            // `line_height` carries the 0.9 glyph dpi_scale, which libass does not
-            // apply to line advance, so it must not be used here.
-            line_y_offset += estimated_line_height * line_spacing_multiplier;
         }
 
-        Ok(all_layers)
+        // Drawings and runs stack in the order they are written in
+        all_layers.sort_by_key(|(start, _)| *start);
+        Ok(all_layers.into_iter().map(|(_, layer)| layer).collect())
+    }
+
+    /// Shape a segment as it looks at the time: its tags animated, its font, size
+    /// and the width it takes up on its line.
+    fn shape_run(
+        &self,
+        mut segment: TextSegment,
+        style: Option<&OwnedStyle>,
+        ctx: &RunCtx,
+    ) -> Result<LineRun, RenderError> {
+        let named = self.named_style(&segment.tags);
+        let defaults = self.resolve_text_defaults(named.as_ref().or(style), ctx.scale_y);
+        self.apply_transform_animations(
+            &mut segment.tags,
+            ctx.event.start_time_cs().unwrap_or(0),
+            ctx.event.end_time_cs().unwrap_or(u32::MAX),
+            ctx.time_cs,
+            &defaults,
+        );
+        let tags = &segment.tags;
+
+        let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
+        let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
+        // Apply resolution scaling, percentage scaling, and DPI scaling
+        let font_size = tags.font.size.unwrap_or(defaults.font_size_base)
+            * ctx.scale_y
+            * font_scale_y
+            * self.dpi_scale;
+        let shaped = shape_text_cached(
+            &segment.text,
+            tags.font.name.as_deref().unwrap_or(defaults.font_name),
+            font_size,
+            tags.formatting.bold.unwrap_or(defaults.bold),
+            tags.formatting.italic.unwrap_or(defaults.italic),
+            &self.font_database,
+        )?;
+
+        // `\fscy` is in the font size already, so the backend scales the run across
+        // by what `\fscx` differs from it
+        let across = if font_scale_y != 0.0 {
+            font_scale_x / font_scale_y
+        } else {
+            font_scale_x
+        };
+        let spacing = tags.font.spacing.unwrap_or(defaults.spacing) * ctx.scale_x;
+        let width = (shaped.width + spacing * shaped.glyphs.len() as f32) * across;
+        Ok(LineRun {
+            segment,
+            named,
+            shaped,
+            width,
+        })
     }
 }
diff --git a/crates/ass-renderer/src/pipeline/build/text/position.rs b/crates/ass-renderer/src/pipeline/build/text/position.rs
index 2bf4840..17e0031 100644
--- a/crates/ass-renderer/src/pipeline/build/text/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/position.rs
@@ -1,183 +1,34 @@
-//! Per-segment positioning for the software pipeline: anchoring lines, applying
-//! alignment offsets, and advancing the line pen.
+//! Line placement for the software pipeline: stacking an event's lines about its
+//! anchor and aligning each of them on it.
 
-use super::types::{LineLayout, Pen, RunCtx};
-use crate::pipeline::shaping::ShapedText;
-use crate::pipeline::tag_processor::ProcessedTags;
+use super::types::LineLayout;
 
 impl super::super::SoftwarePipeline {
-    /// Compute the top-left render position of a segment, advancing the line's
-    /// pen and seeding it on the first segment of the line.
-    pub(super) fn position_segment(
+    /// Left edge and top of a line of the event anchored at `anchor`.
+    pub(super) fn position_line(
         &self,
-        tags: &ProcessedTags,
-        shaped: &ShapedText,
+        anchor: (f32, f32),
         layout: &LineLayout,
-        pen: &mut Pen,
-        ctx: &RunCtx,
-        default_alignment: u8,
+        alignment: u8,
     ) -> (f32, f32) {
-        let event = ctx.event;
-        let context = ctx.context;
-        let time_cs = ctx.time_cs;
-        let is_multi_segment = layout.is_multi_segment;
-        let line_total_width = layout.line_total_width;
-        let num_lines = layout.num_lines;
-        let line_index = layout.line_index;
-        let estimated_line_height = layout.estimated_line_height;
-        let line_spacing_multiplier = layout.line_spacing_multiplier;
-        let line_y_offset = layout.line_y_offset;
-
-        if tags.position.is_some() || tags.movement.is_some() {
-            // Explicit \pos/\move override (inherited by every segment of the
-            // line). The first segment anchors the whole line — centred on the
-            // full line width for multi-segment lines — and seeds current_x;
-            // later segments continue left-to-right from current_x instead of
-            // each re-centering on the same point (which stacked karaoke and
-            // colour-split segments on top of one another).
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_tags(tags, event, context, time_cs, default_alignment);
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            if pen.needs_initial_position {
-                let line_width = if is_multi_segment {
-                    line_total_width
-                } else {
-                    shaped.width
-                };
-                let (x, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    line_width,
-                    shaped.height,
-                    alignment,
-                );
-                pen.current_x = x;
-                pen.needs_initial_position = false;
-                (x, y)
-            } else {
-                let (_, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    shaped.width,
-                    shaped.height,
-                    alignment,
-                );
-                (pen.current_x, y)
-            }
-        } else if pen.needs_initial_position {
-            // First segment of the line: position the whole line. Later
-            // segments continue from current_x (below) so they lay out
-            // left-to-right instead of each re-centering.
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            // For multi-line text, adjust positioning based on alignment
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        // First line is at the bottom, subsequent lines above it
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            // to ensure proper spacing between lines
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            // Multi-segment lines centre on the whole-line width; single
-            // segments use their own shaped width (reflects \t animations).
-            let line_width = if is_multi_segment {
-                line_total_width
-            } else {
-                shaped.width
+        let (anchor_x, anchor_y) = anchor;
+
+        // One line takes up its font's height, several a line height each
+        let (line_y, height) = if layout.num_lines > 1 {
+            let above = layout.line_index as f32 * layout.line_height;
+            let below = (layout.num_lines - 1 - layout.line_index) as f32 * layout.line_height;
+            let line_y = match alignment {
+                // Bottom alignment: stack lines upward from the anchor
+                1..=3 => anchor_y - below,
+                // Top alignment: stack lines downward from it
+                7..=9 => anchor_y + above,
+                // Middle alignment: centre the block on it
+                _ => anchor_y + (above - below) / 2.0,
             };
-            let (x, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                line_width,
-                height_for_positioning,
-                alignment,
-            );
-
-            // Start the pen at the line's left edge; the post-draw advance
-            // below moves current_x past each segment (centering uses the
-            // whole line's width so multi-segment lines align as a unit).
-            pen.current_x = x;
-            pen.needs_initial_position = false;
-            (x, y)
+            (line_y, layout.line_height)
         } else {
-            // Continue from previous segment position
-            // Need to maintain the absolute Y position from the previous segment
-            // For now, calculate it based on alignment and line offset
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            let (_, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                shaped.width,
-                height_for_positioning,
-                alignment,
-            );
-            (pen.current_x, y)
-        }
+            (anchor_y, layout.ascent + layout.descent)
+        };
+        self.apply_alignment_offset(anchor_x, line_y, layout.width, height, alignment)
     }
 }
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index b404db2..412ae0e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -1,10 +1,12 @@
 //! Shared layout types for the software pipeline's text builder: style-derived
-//! defaults, per-call and per-line context, pen state, and resolved effect
-//! colours. Consumed by the descendant `defaults`/`position`/`effects` modules
+//! defaults, the event's placement, shaped runs and their lines, and resolved
+//! effect colours. Consumed by the descendant `defaults`/`position`/`effects` modules
 //! and the orchestrator in the parent module.
 
 use ass_core::parser::Event;
 
+use super::super::OwnedStyle;
+use crate::pipeline::{shaping::ShapedText, text_segmenter::TextSegment};
 use crate::renderer::RenderContext;
 
 /// Style-derived defaults (font, size, colours, formatting) resolved once per
@@ -28,6 +30,7 @@ pub(in crate::pipeline::build) struct TextDefaults<'a> {
     pub(in crate::pipeline::build) scale_x: f32,
     pub(in crate::pipeline::build) scale_y: f32,
     pub(in crate::pipeline::build) spacing: f32,
+    pub(in crate::pipeline::build) angle: f32,
     pub(in crate::pipeline::build) alignment: u8,
 }
 
@@ -41,21 +44,58 @@ pub(super) struct RunCtx<'a, 'b> {
     pub(super) scale_y: f32,
 }
 
-/// Per-line layout constants consumed when positioning each segment.
+/// Where an event is placed: the first tags in its text that say so decide for all
+/// of it.
+pub(in crate::pipeline::build) struct Placement {
+    pub(in crate::pipeline::build) position: Option<(f32, f32)>,
+    pub(in crate::pipeline::build) movement: Option<(f32, f32, f32, f32, u32, u32)>,
+    pub(in crate::pipeline::build) alignment: u8,
+}
+
+impl Placement {
+    pub(in crate::pipeline::build) fn of_event(
+        segments: &[TextSegment],
+        default_alignment: u8,
+    ) -> Self {
+        let placed = segments
+            .iter()
+            .map(|segment| &segment.tags)
+            .find(|tags| tags.position.is_some() || tags.movement.is_some());
+        Self {
+            position: placed.and_then(|tags| tags.position),
+            movement: placed.and_then(|tags| tags.movement),
+            alignment: segments
+                .iter()
+                .find_map(|segment| segment.tags.formatting.alignment)
+                .unwrap_or(default_alignment),
+        }
+    }
+
+    /// Whether the event pins its own position (`\\pos`/`\\move`) and is therefore
+    /// exempt from wrapping and collision stacking.
+    pub(in crate::pipeline::build) fn is_pinned(&self) -> bool {
+        self.position.is_some() || self.movement.is_some()
+    }
+}
+
+/// A segment of a line, its tags as they are at the time, shaped.
+pub(super) struct LineRun {
+    pub(super) segment: TextSegment,
+    /// The style a `\rName` reset it to.
+    pub(super) named: Option<OwnedStyle>,
+    pub(super) shaped: ShapedText,
+    /// Room it takes up on its line, letter spacing and scale included.
+    pub(super) width: f32,
+}
+
+/// What a line's place depends on.
 pub(super) struct LineLayout {
-    pub(super) is_multi_segment: bool,
-    pub(super) line_total_width: f32,
+    pub(super) width: f32,
+    pub(super) ascent: f32,
+    pub(super) descent: f32,
     pub(super) num_lines: usize,
     pub(super) line_index: usize,
-    pub(super) estimated_line_height: f32,
-    pub(super) line_spacing_multiplier: f32,
-    pub(super) line_y_offset: f32,
-}
-
-/// Pen state carried across the segments of a single line.
-pub(super) struct Pen {
-    pub(super) current_x: f32,
-    pub(super) needs_initial_position: bool,
+    pub(super) line_height: f32,
 }
 
 /// Resolved outline and shadow colours handed to the effects builder.
-- 
2.43.0


From 055b3568c8080f9ea5db8f5c82730786870f64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 081/115] fix: keep lines beside a too wide word within the
 width

---
 crates/ass-renderer/src/pipeline/build/wrap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 35f076d..c6cfb13 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -148,7 +148,8 @@ impl super::SoftwarePipeline {
             let max_word = (0..words.len())
                 .map(|i| line_ink(word_adv[i], word_glyphs[i], i, i))
                 .fold(0.0_f32, f32::max);
-            let (mut lo, mut hi) = (max_word, max_width);
+            // A word too wide for any line does not let the others overflow
+            let (mut lo, mut hi) = (max_word.min(max_width), max_width);
             for _ in 0..24 {
                 let mid = (lo + hi) / 2.0;
                 if fill(mid).len() <= target {
-- 
2.43.0


From c3f49426ecfb54a3131ff3dd626fa481b94fe9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 082/115] fix: resolve collisions on the screen a frame is
 drawn for

---
 crates/ass-renderer/src/pipeline/build/run.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index f1d997e..b579fd2 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -10,7 +10,7 @@ use ass_core::analysis::ScriptAnalysis;
 use ass_core::parser::{Event, Script};
 
 use super::{text::Placement, OwnedStyle};
-use crate::collision::PositionedEvent;
+use crate::collision::{CollisionResolver, PositionedEvent};
 use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
@@ -205,8 +205,9 @@ impl Pipeline for super::SoftwarePipeline {
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        // Clear collision resolver for this frame (but keep dimensions)
-        self.collision_resolver.clear();
+        // Start collision resolution afresh on this frame's screen
+        self.collision_resolver =
+            CollisionResolver::new(context.width() as f32, context.height() as f32);
 
         // Pre-allocate with estimated capacity to reduce allocations
         let mut all_layers = Vec::with_capacity(events.len() * 3);
-- 
2.43.0


From f46316892782a323254f877891361aa8aab97e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 083/115] fix: carry no header settings over from one prepared
 script to the next

---
 crates/ass-renderer/src/pipeline/build/mod.rs | 4 ++++
 crates/ass-renderer/src/pipeline/build/run.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..c47c9cd 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -34,6 +34,8 @@ pub struct SoftwarePipeline {
     styles_map: AHashMap<String, OwnedStyle>,
     /// Default style for fallback
     default_style: Option<OwnedStyle>,
+    /// Resolution of scripts that give none
+    default_resolution: (f32, f32),
     /// Script playback resolution from PlayResX/PlayResY
     play_res_x: f32,
     play_res_y: f32,
@@ -70,6 +72,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_resolution: (1920.0, 1080.0),
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
             layout_res_x: None,
@@ -92,6 +95,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_resolution: (width, height),
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
             layout_res_x: None,
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b579fd2..ef03d42 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -72,6 +72,12 @@ impl Pipeline for super::SoftwarePipeline {
         self.styles_map.clear();
         self.default_style = None;
 
+        // Nothing stays of the script before
+        (self.play_res_x, self.play_res_y) = self.default_resolution;
+        (self.layout_res_x, self.layout_res_y) = (None, None);
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
+
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
         #[cfg(feature = "analysis-integration")]
-- 
2.43.0


From 89fd91f49e01e688f4a493b5df56704a6a71f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 084/115] fix: skip script info lines that are comments once
 trimmed

---
 crates/ass-core/parser/sections/script_info/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/sections/script_info/parser.rs b/crates/ass-core/parser/sections/script_info/parser.rs
index 885e9fc..1e4820c 100644
--- a/crates/ass-core/parser/sections/script_info/parser.rs
+++ b/crates/ass-core/parser/sections/script_info/parser.rs
@@ -83,7 +83,7 @@ impl<'a> ScriptInfoParser<'a> {
             let line_start = self.tracker.checkpoint();
             let line = self.current_line().trim();
 
-            if line.is_empty() {
+            if line.is_empty() || line.starts_with([';', '#']) {
                 self.tracker.skip_line();
                 continue;
             }
-- 
2.43.0


From bdc29c47cf3ddfbca38695f7211f3a07320b5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 085/115] fix: tell cached and incremental frames apart by all
 they are drawn from

---
 crates/ass-renderer/src/renderer/mod.rs | 66 ++++++++++++++++++-------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..c5eabcf 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -3,10 +3,13 @@
 use crate::backends::RenderBackend;
 use crate::pipeline::Pipeline;
 use crate::utils::RenderError;
-use ass_core::parser::Script;
+use ass_core::parser::{Event, Script, Section};
+use core::fmt::Write;
 
+#[cfg(all(feature = "nostd", feature = "software-backend"))]
+use alloc::vec::Vec;
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, format, string::String};
 #[cfg(not(feature = "nostd"))]
 use std::boxed::Box;
 
@@ -29,11 +32,11 @@ pub struct Renderer {
     backend: Box<dyn RenderBackend>,
     pipeline: Box<dyn Pipeline>,
     event_selector: event_selector::EventSelector,
-    /// Cache of the last fully-static rendered frame, keyed by the active events'
-    /// text spans. Reused (data copied, timestamp updated) when no active event is
+    /// Cache of the last fully-static rendered frame, keyed by all it is drawn
+    /// from. Reused (data copied, timestamp updated) when no active event is
     /// animated and the active set is unchanged — the common case of a subtitle
     /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    frame_cache: Option<(String, Frame)>,
 }
 
 impl Renderer {
@@ -110,12 +113,7 @@ impl Renderer {
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
         let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
+        let cache_key = (!animated).then(|| self.frame_key(script, &events));
         if let (Some(key), Some((cached_key, cached))) =
             (cache_key.as_ref(), self.frame_cache.as_ref())
         {
@@ -193,6 +191,21 @@ impl Renderer {
             || text.contains("\\K")
     }
 
+    /// Everything a static frame is drawn from: its size, the script's headers,
+    /// styles and fonts, and the active events.
+    fn frame_key(&self, script: &Script, events: &[&Event]) -> String {
+        let settings = script
+            .sections()
+            .iter()
+            .filter(|section| !matches!(section, Section::Events(_) | Section::Graphics(_)));
+        let mut key = format!("{}x{}", self.context.width(), self.context.height());
+        for section in settings {
+            let _ = write!(key, "{section:?}");
+        }
+        let _ = write!(key, "{events:?}");
+        key
+    }
+
     /// Render frame incrementally (dirty regions only)
     pub fn render_frame_incremental(
         &mut self,
@@ -200,14 +213,33 @@ impl Renderer {
         time_cs: u32,
         previous_frame: &Frame,
     ) -> Result<Frame, RenderError> {
-        let active = self.event_selector.select_active(script, time_cs)?;
-        let events = active.events;
-        let dirty_regions =
+        let previous_time = previous_frame.timestamp();
+        let before = self
+            .event_selector
+            .select_active(script, previous_time)?
+            .events;
+        let events = self.event_selector.select_active(script, time_cs)?.events;
+
+        // Events shown in either frame, once each
+        let mut shown = events.clone();
+        shown.extend(before.into_iter().filter(|event| {
+            !events
+                .iter()
+                .any(|active| core::ptr::eq::<Event>(*active, *event))
+        }));
+        let mut dirty_regions =
             self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
-
+                .compute_dirty_regions(&shown, time_cs, previous_time)?;
+
+        let resized = (previous_frame.width(), previous_frame.height())
+            != (self.context.width(), self.context.height());
+        let animated =
+            time_cs != previous_time && events.iter().any(|e| Self::event_is_animated(e.text));
+        if resized || animated {
+            dirty_regions.push(crate::utils::DirtyRegion::full_screen());
+        }
         if dirty_regions.is_empty() {
-            return Ok(previous_frame.clone());
+            return Ok(previous_frame.with_timestamp(time_cs));
         }
 
         self.pipeline.prepare_script(script, None)?;
-- 
2.43.0


From 593b6a6032471cd469ced52e943185020686de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 086/115] fix: redraw the dirty regions of an incremental frame
 afresh

---
 .../ass-renderer/src/backends/software/mod.rs | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..8e2a044 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -203,32 +203,26 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
-        }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
+        let frame = self.composite_layers(layers, context)?;
+        if previous_frame.len() != frame.len() {
+            return Ok(frame);
         }
 
-        // Only redraw dirty regions
+        // Only the dirty regions differ from the previous frame
+        let (width, height) = (context.width(), context.height());
+        let mut data = previous_frame.to_vec();
         for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
-                }
+            let right = region.x.saturating_add(region.width).min(width);
+            let bottom = region.y.saturating_add(region.height).min(height);
+            for y in region.y..bottom {
+                let row = y as usize * width as usize;
+                let from = (row + region.x.min(right) as usize) * 4;
+                let to = (row + right as usize) * 4;
+                data[from..to].copy_from_slice(&frame[from..to]);
             }
         }
 
-        Ok(self.pixmap.data().to_vec())
+        Ok(data)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
-- 
2.43.0


From 77cf4bb721451309c14d6a278137f502014820a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 087/115] fix: keep a stroked drawing's corners within its
 dirty region

---
 crates/ass-renderer/src/backends/software/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 8496b88..7199959 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -58,7 +58,9 @@ impl super::SoftwareBackend {
         // drawing — the dominant cost on sparkle-heavy frames (dozens-to-hundreds
         // of `\p` drawings, each previously a full-frame scan + clear).
         let b = path.bounds();
-        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width) + data.blur * 3.0;
+        // A miter join reaches up to four times half the stroke's width.
+        let stroke = data.stroke.as_ref().map_or(0.0, |s| s.width);
+        let margin = 2.0 + stroke * 2.0 + data.blur * 3.0;
         note_dirty_bbox((
             (b.left() - margin).floor() as i32,
             (b.top() - margin).floor() as i32,
-- 
2.43.0


From 9eea62f03887cab89326ad1837b0c5642bb54f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 088/115] fix: saturate when blending a tile onto a frame

---
 .../ass-renderer/src/backends/coverage/composite.rs  | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 0880ad1..ea4cdf2 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -121,13 +121,11 @@ fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), p
             let sa = u16::from(pixels[si + 3]);
             if sa != 0 {
                 let inv = 255 - sa;
-                dst[di] = (u16::from(pixels[si]) + mul255(u16::from(dst[di]), inv)) as u8;
-                dst[di + 1] =
-                    (u16::from(pixels[si + 1]) + mul255(u16::from(dst[di + 1]), inv)) as u8;
-                dst[di + 2] =
-                    (u16::from(pixels[si + 2]) + mul255(u16::from(dst[di + 2]), inv)) as u8;
-                dst[di + 3] =
-                    (u16::from(pixels[si + 3]) + mul255(u16::from(dst[di + 3]), inv)) as u8;
+                // Saturate: a blurred tile can hold more colour than alpha
+                for c in 0..4 {
+                    let blended = u16::from(pixels[si + c]) + mul255(u16::from(dst[di + c]), inv);
+                    dst[di + c] = blended.min(255) as u8;
+                }
             }
             si += 4;
             di += 4;
-- 
2.43.0


From acc94992254627ea4b0355552697e88ea164ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 089/115] fix: turn, scale and cut blurred text, soft outlines
 and decorations with their run

---
 crates/ass-renderer/src/backends/geometry.rs  |  11 +
 .../src/backends/software/cache/blur_tile.rs  | 151 +++++-----
 .../src/backends/software/cache/mod.rs        |  80 +++++-
 .../src/backends/software/dirty.rs            |  31 ++-
 .../src/backends/software/text/blur.rs        | 261 +++++++-----------
 .../src/backends/software/text/decorations.rs | 171 ++++--------
 .../src/backends/software/text/fills.rs       |  20 +-
 .../src/backends/software/text/mod.rs         |  44 ++-
 .../src/backends/software/text/prepare.rs     |  52 ++--
 9 files changed, 394 insertions(+), 427 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 1b70e99..4c6ac1d 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -23,6 +23,17 @@ pub(crate) fn merge_transformed(
     builder.finish()
 }
 
+/// The smallest rectangle around both `a` and `b`.
+pub(crate) fn union(a: tiny_skia::Rect, b: tiny_skia::Rect) -> tiny_skia::Rect {
+    tiny_skia::Rect::from_ltrb(
+        a.left().min(b.left()),
+        a.top().min(b.top()),
+        a.right().max(b.right()),
+        a.bottom().max(b.bottom()),
+    )
+    .unwrap_or(a)
+}
+
 /// Stroke a glyph path to its outline, growing it outward by `wx` horizontally
 /// and `wy` vertically (`\xbord`/`\ybord`). tiny-skia strokes uniformly, so an
 /// asymmetric border is produced by stroking in a vertically-scaled space and
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 92ad0f0..64e1a91 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -124,116 +124,98 @@ pub(super) fn composite_cached(
     });
 }
 
+/// Whether a blurred bitmap is the layer's *entire* output: `\blur` is present and
+/// every effect is one the bitmap captures (outline/shadow/karaoke colour) or that
+/// shapes the glyphs in it (bold/italic/rotation/scale/shear). A clip, opaque box,
+/// underline, strikethrough or edge blur draws beyond the tile.
+#[cfg(not(feature = "nostd"))]
+pub(in crate::backends::software) fn blur_tile_is_whole(data: &crate::pipeline::TextData) -> bool {
+    use crate::pipeline::TextEffect;
+
+    data.effects.iter().all(|e| {
+        matches!(
+            e,
+            TextEffect::Blur { .. }
+                | TextEffect::Outline { .. }
+                | TextEffect::Shadow { .. }
+                | TextEffect::Karaoke { .. }
+                | TextEffect::Bold
+                | TextEffect::Italic
+                | TextEffect::Rotation { .. }
+                | TextEffect::Scale { .. }
+                | TextEffect::Shear { .. }
+        )
+    })
+}
+
 impl super::super::SoftwareBackend {
     /// Composite a blurred text layer directly from the cached blurred bitmap
-    /// (see [`BlurTileKey`]), skipping the font lookup and glyph-path build.
-    /// Returns `true` on a hit. Eligible only when the cached bitmap is the
-    /// layer's *entire* output: `\blur` is present and every effect is one the
-    /// bitmap captures (outline/shadow) or that the blur branch ignores
-    /// (bold/italic/rotation/scale/shear). A clip, opaque box, underline,
-    /// strikethrough, edge blur or karaoke draws beyond the tile, so those layers
-    /// fall through to the full path.
+    /// (see [`BlurTileKey`](super::BlurTileKey)), skipping the font lookup and
+    /// glyph-path build. Returns `true` on a hit. Eligible only when the bitmap is
+    /// the layer's entire output; other layers fall through to the full path.
     #[cfg(not(feature = "nostd"))]
     pub(in crate::backends::software) fn blur_tile_hit(
         &mut self,
         data: &crate::pipeline::TextData,
-        bold: bool,
-        italic: bool,
+        base_transform: Transform,
         baseline_y: f32,
-        ascent: f32,
     ) -> bool {
         use crate::pipeline::TextEffect;
 
-        let eligible = data.effects.iter().all(|e| {
-            matches!(
-                e,
-                TextEffect::Blur { .. }
-                    | TextEffect::Outline { .. }
-                    | TextEffect::Shadow { .. }
-                    | TextEffect::Bold
-                    | TextEffect::Italic
-                    | TextEffect::Rotation { .. }
-                    | TextEffect::Scale { .. }
-                    | TextEffect::Shear { .. }
-            )
-        });
-        if !eligible {
+        if !blur_tile_is_whole(data) {
             return false;
         }
-
-        // Extract blur/outline/shadow with the same first-match semantics the blur
-        // branch uses, so the key is identical to the one it stored.
         let Some(radius) = data.effects.iter().find_map(|e| match e {
             TextEffect::Blur { radius } => Some(*radius),
             _ => None,
         }) else {
             return false;
         };
-        let outline_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Outline {
-                color,
-                width_x,
-                width_y,
-            } => Some((*color, *width_x, *width_y)),
-            _ => None,
-        });
-        let shadow_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Shadow {
-                color,
-                x_offset,
-                y_offset,
-            } => Some((*color, *x_offset, *y_offset)),
-            _ => None,
-        });
 
-        let key = super::BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold,
-            italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        };
+        let local = base_transform.post_translate(-data.x, -baseline_y);
+        let fill = super::super::text::single_fill_color(data);
+        let key = super::blur_tile_key(data, radius, fill, local);
         let Some(tile) = super::BLUR_TILES.with(|c| c.borrow().get(&key).cloned()) else {
             return false;
         };
+        self.place_blur_tile(&tile, data.x, baseline_y, None, true);
+        true
+    }
 
-        let blur_size = (radius * 3.0).ceil();
-        let x = data.x - blur_size;
-        // The tile's baseline sits at `blur_size + ascent` from its top (see the
-        // blur branch's temp_transform), so the tile origin lands here.
-        let y = baseline_y - blur_size - ascent;
+    /// Put a blurred bitmap on the screen, its anchor at the rounded `(x, y)`: into
+    /// the bitmap list, when one is being collected and the bitmap is the layer's
+    /// `whole` output, otherwise onto the frame.
+    #[cfg(not(feature = "nostd"))]
+    pub(in crate::backends::software) fn place_blur_tile(
+        &mut self,
+        tile: &super::BlurTile,
+        x: f32,
+        y: f32,
+        clip_mask: Option<&tiny_skia::Mask>,
+        whole: bool,
+    ) {
+        let x = (x.round() as i32).saturating_add(tile.x);
+        let y = (y.round() as i32).saturating_add(tile.y);
 
-        // Bitmap-list mode: the cached tile IS this layer's entire output (the
-        // eligibility check guarantees nothing else is drawn), so emit it directly
-        // as a positioned bitmap — skipping the full-frame scratch render + crop +
-        // clear the generic vector path would do. `composite_rgba` places it at
-        // integer (x, y); the sharp `\blur` path's nearest-filter `draw_pixmap`
-        // lands at the same rounded position, so this stays frame-equivalent.
-        let emitted = super::EMIT_SINK.with(|sink| {
-            if let Some(list) = sink.borrow_mut().as_mut() {
-                list.push(crate::backends::coverage::RenderBitmap::Rgba {
-                    width: tile.width,
-                    height: tile.height,
-                    pixels: tile.data.clone(),
-                    x: x.round() as i32,
-                    y: y.round() as i32,
-                });
-                true
-            } else {
-                false
-            }
-        });
+        let emitted = whole
+            && super::EMIT_SINK.with(|sink| {
+                if let Some(list) = sink.borrow_mut().as_mut() {
+                    list.push(crate::backends::coverage::RenderBitmap::Rgba {
+                        width: tile.width,
+                        height: tile.height,
+                        pixels: tile.data.clone(),
+                        x,
+                        y,
+                    });
+                    true
+                } else {
+                    false
+                }
+            });
         if emitted {
-            return true;
+            return;
         }
 
-        // Composite mode: draw the tile into the frame at the same fractional
-        // origin and SourceOver blend the blur branch uses on a hit.
         if let Some(pixref) =
             tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
         {
@@ -242,8 +224,7 @@ impl super::super::SoftwareBackend {
                 ..Default::default()
             };
             self.pixmap
-                .draw_pixmap(0, 0, pixref, &paint, Transform::from_translate(x, y), None);
+                .draw_pixmap(x, y, pixref, &paint, Transform::identity(), clip_mask);
         }
-        true
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 7b4ab40..4564f33 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -18,6 +18,9 @@ use tiny_skia::Transform;
 mod blur_tile;
 mod coverage;
 
+#[cfg(not(feature = "nostd"))]
+pub(super) use blur_tile::blur_tile_is_whole;
+
 /// Cache key for a text layer's coverage tiles: everything that determines the
 /// rasterized *geometry* (glyph shapes + the position-independent transform +
 /// outline width + shadow offset), but NOT colour, alpha or screen position —
@@ -40,8 +43,8 @@ struct RunCoverageKey {
 
 /// Cache key for a blurred text layer's pre-composited bitmap. The `\blur` branch
 /// rasterizes shadow + outline + fill into a temp pixmap and box-blurs it; that
-/// result depends only on the glyph outlines, the blur radius and the baked
-/// colours — NOT screen position (applied at composite). So the recurring letters
+/// result depends only on the glyph outlines, the position-independent transform,
+/// the blur radius and the baked colours — NOT screen position (applied at composite). So the recurring letters
 /// of blurred credit text reuse one rasterized+blurred bitmap, as libass does.
 /// Colours are part of the key because they are baked into the bitmap.
 #[cfg(not(feature = "nostd"))]
@@ -57,15 +60,19 @@ pub(super) struct BlurTileKey {
     pub(super) fill: [u8; 4],
     pub(super) outline: Option<(u32, u32, [u8; 4])>,
     pub(super) shadow: Option<([u8; 4], u32, u32)>,
+    pub(super) transform: [u32; 6],
 }
 
-/// A cached blurred-text bitmap: premultiplied RGBA. The pixels live in an `Arc`
-/// so a cache hit can emit them as a [`RenderBitmap::Rgba`] with a cheap clone.
+/// A cached blurred-text bitmap: premultiplied RGBA, with its `(x, y)` offset from
+/// the layer anchor. The pixels live in an `Arc` so a cache hit can emit them as a
+/// [`RenderBitmap::Rgba`] with a cheap clone.
 #[cfg(not(feature = "nostd"))]
 pub(super) struct BlurTile {
     pub(super) data: Arc<Vec<u8>>,
     pub(super) width: u32,
     pub(super) height: u32,
+    pub(super) x: i32,
+    pub(super) y: i32,
 }
 
 /// Rasterized coverage tiles for one text layer, in position-independent local
@@ -104,6 +111,62 @@ std::thread_local! {
         const { std::cell::RefCell::new(None) };
 }
 
+/// The bits of a transform, for use in a cache key.
+#[cfg(not(feature = "nostd"))]
+pub(super) fn transform_bits(transform: Transform) -> [u32; 6] {
+    [
+        transform.sx.to_bits(),
+        transform.kx.to_bits(),
+        transform.ky.to_bits(),
+        transform.sy.to_bits(),
+        transform.tx.to_bits(),
+        transform.ty.to_bits(),
+    ]
+}
+
+/// Build the cache key of a text layer blurred by `radius`, its glyphs transformed
+/// by `local` and filled with `fill`.
+#[cfg(not(feature = "nostd"))]
+pub(super) fn blur_tile_key(
+    data: &crate::pipeline::TextData,
+    radius: f32,
+    fill: [u8; 4],
+    local: Transform,
+) -> BlurTileKey {
+    use crate::pipeline::TextEffect;
+
+    let outline = data.effects.iter().find_map(|e| match e {
+        TextEffect::Outline {
+            color,
+            width_x,
+            width_y,
+        } => Some((width_x.to_bits(), width_y.to_bits(), *color)),
+        _ => None,
+    });
+    let shadow = data.effects.iter().find_map(|e| match e {
+        TextEffect::Shadow {
+            color,
+            x_offset,
+            y_offset,
+        } => Some((*color, x_offset.to_bits(), y_offset.to_bits())),
+        _ => None,
+    });
+    let has = |f: fn(&TextEffect) -> bool| data.effects.iter().any(f);
+    BlurTileKey {
+        text: data.text.clone(),
+        font: data.font_family.clone(),
+        size: data.font_size.to_bits(),
+        spacing: data.spacing.to_bits(),
+        bold: has(|e| matches!(e, TextEffect::Bold)),
+        italic: has(|e| matches!(e, TextEffect::Italic)),
+        blur: radius.to_bits(),
+        fill,
+        outline,
+        shadow,
+        transform: transform_bits(local),
+    }
+}
+
 /// Build the coverage cache key (and extract the outline/shadow paints and the
 /// position-independent transform) for a text layer, or `None` if the layer uses
 /// an effect the coverage path does not handle (blur, edge blur, karaoke, clip,
@@ -181,14 +244,7 @@ fn coverage_key(
         italic,
         outline: outline.map(|(_, wx, wy)| (wx.to_bits(), wy.to_bits())),
         shadow: shadow.map(|(_, x, y)| (x.to_bits(), y.to_bits())),
-        transform: [
-            local.sx.to_bits(),
-            local.kx.to_bits(),
-            local.ky.to_bits(),
-            local.sy.to_bits(),
-            local.tx.to_bits(),
-            local.ty.to_bits(),
-        ],
+        transform: transform_bits(local),
     };
     Some((key, outline, shadow, local, fill_color, karaoke_sweep))
 }
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 8988e56..efb771b 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -15,19 +15,25 @@ use std::sync::Arc;
 use tiny_skia::{Pixmap, Transform};
 
 use super::cache::DIRTY_BBOX;
-use crate::backends::geometry::merge_transformed;
+use crate::backends::geometry::{merge_transformed, union};
 
 /// A generous screen-space bbox covering a text layer's vector-path output
-/// (glyphs plus an outline/shadow/blur margin), or `None` if it has no geometry.
+/// (glyphs and decorations plus an outline/shadow/blur/box margin), or `None` if it has no geometry.
 #[cfg(not(feature = "nostd"))]
 pub(super) fn text_vector_dirty_bbox(
     data: &crate::pipeline::TextData,
     paths: &[tiny_skia::Path],
+    decorations: &[tiny_skia::Path],
     base_transform: Transform,
 ) -> Option<(i32, i32, i32, i32)> {
     use crate::pipeline::TextEffect;
-    let bounds = merge_transformed(paths, base_transform)?.bounds();
-    let (mut outline, mut shadow, mut blur) = (0.0_f32, 0.0_f32, 0.0_f32);
+    let glyphs = merge_transformed(paths, base_transform);
+    let bounds = glyphs
+        .iter()
+        .chain(decorations)
+        .map(tiny_skia::Path::bounds)
+        .reduce(union)?;
+    let (mut outline, mut shadow, mut blur, mut padding) = (0.0_f32, 0.0_f32, 0.0_f32, 0.0_f32);
     for effect in &data.effects {
         match effect {
             TextEffect::Outline {
@@ -35,15 +41,26 @@ pub(super) fn text_vector_dirty_bbox(
             } => outline = outline.max(width_x.max(*width_y)),
             TextEffect::Shadow {
                 x_offset, y_offset, ..
-            } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
+            } => {
+                // The offset is taken along the run's own axes
+                let t = base_transform;
+                let dx = x_offset * t.sx + y_offset * t.kx;
+                let dy = x_offset * t.ky + y_offset * t.sy;
+                shadow = shadow.max(dx.abs()).max(dy.abs());
+            }
             TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => {
                 blur = blur.max(*radius)
             }
+            TextEffect::OpaqueBox {
+                padding_x,
+                padding_y,
+                ..
+            } => padding = padding.max(padding_x.max(*padding_y)),
             _ => {}
         }
     }
-    // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0;
+    // Generous: the blur spreads ~3r each side, a miter join up to 4 widths.
+    let margin = 4.0 + outline * 4.0 + shadow + blur * 4.0 + padding;
     Some((
         (bounds.left() - margin).floor() as i32,
         (bounds.top() - margin).floor() as i32,
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..b5dac9e 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -1,158 +1,103 @@
-//! Blurred-text fill pass for the software text layer: rasterize shadow,
-//! outline and fill into a padded temp pixmap (or reuse a cached one), Gaussian
-//! blur it, and composite at the baseline.
+//! Blurred passes of the software text layer: rasterize shadow, outline and fill
+//! (or, for `\be`, the outline) into a padded temp pixmap (or reuse a cached one),
+//! Gaussian blur it, and composite at the baseline.
 
 use tiny_skia::{Pixmap, Transform};
 
 use crate::backends::blur::apply_gaussian_blur;
-use crate::backends::geometry::stroke_outline;
+use crate::backends::geometry::{merge_transformed, stroke_outline, union};
 use crate::pipeline::TextData;
 
 #[cfg(not(feature = "nostd"))]
-use super::super::cache::{BlurTile, BlurTileKey, BLUR_TILES};
+use super::super::cache::{blur_tile_is_whole, blur_tile_key, BlurTile, BLUR_TILES};
 use super::TextRun;
 
+/// Fill `parts` in order into a pixmap that holds them all and `pad` pixels around,
+/// and blur it by `sigma`.
+fn blurred_tile(parts: &[(tiny_skia::Path, [u8; 4])], pad: f32, sigma: f32) -> Option<BlurTile> {
+    let bounds = parts.iter().map(|(path, _)| path.bounds()).reduce(union)?;
+    let left = (bounds.left() - pad).floor();
+    let top = (bounds.top() - pad).floor();
+    let mut pixmap = Pixmap::new(
+        ((bounds.right() + pad).ceil() - left).max(1.0) as u32,
+        ((bounds.bottom() + pad).ceil() - top).max(1.0) as u32,
+    )?;
+    for (path, color) in parts {
+        let mut paint = tiny_skia::Paint {
+            anti_alias: true,
+            blend_mode: tiny_skia::BlendMode::SourceOver,
+            ..Default::default()
+        };
+        paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
+        pixmap.fill_path(
+            path,
+            &paint,
+            tiny_skia::FillRule::Winding,
+            Transform::from_translate(-left, -top),
+            None,
+        );
+    }
+    apply_gaussian_blur(&mut pixmap, sigma);
+    Some(BlurTile {
+        width: pixmap.width(),
+        height: pixmap.height(),
+        data: std::sync::Arc::new(pixmap.take()),
+        x: left as i32,
+        y: top as i32,
+    })
+}
+
 impl super::super::SoftwareBackend {
     /// Blurred-text pass: rasterize shadow + outline + fill into a padded temp
-    /// pixmap (or reuse a cached one), box-blur it, and composite at `baseline_y`.
+    /// pixmap (or reuse a cached one), blur it, and composite at the baseline.
     pub(super) fn draw_blurred_text(&mut self, data: &TextData, run: &TextRun, radius: f32) {
-        let shaped = &run.shaped;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-        let outline_info = run.outline_info;
-        let shadow_info = run.shadow_info;
-        let paths = &run.paths;
-        let baseline_y = run.baseline_y;
-
-        // Create a temporary pixmap for blurred text. The padding must contain
-        // the full Gaussian kernel (~3*sigma) or the soft tail is clipped and
-        // the blurred glyph loses mass at larger radii.
-        let blur_size = (radius * 3.0).ceil() as u32;
-        let text_width = (shaped.width + blur_size as f32 * 2.0).ceil() as u32;
-        let text_height = (shaped.height + blur_size as f32 * 2.0).ceil() as u32;
-
-        // The blurred bitmap is a pure function of the glyph outlines, blur
-        // radius and baked colours (screen position is applied at composite),
-        // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached.
-        let cache_key = clip_mask.is_none().then(|| BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold: run.bold,
-            italic: run.italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        });
+        // The glyphs keep their rotation, scale and shear, but not their place on
+        // the screen, so that the bitmap can be reused wherever they are drawn.
+        let local = run.base_transform.post_translate(-data.x, -run.baseline_y);
+        let fill = super::single_fill_color(data);
 
+        // The blurred bitmap is a pure function of the glyph outlines, transform,
+        // blur radius and baked colours (screen position and `\clip` are applied
+        // at composite), so identical blurred glyphs reuse one bitmap. Projected
+        // (`\frx`/`\fry`) outlines depend on more, so they are not cached.
+        let cache_key = (!run.projected).then(|| blur_tile_key(data, radius, fill, local));
         let cached = cache_key
             .as_ref()
             .and_then(|k| BLUR_TILES.with(|c| c.borrow().get(k).cloned()));
 
-        let tile = if cached.is_some() {
-            cached
-        } else if let Some(mut temp_pixmap) = Pixmap::new(text_width, text_height) {
-            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
-
-            // Draw shadow (if any) then outline then text into the temp
-            // pixmap, so the box blur below softens shadow, outline and fill
-            // together. The shadow goes down first as it sits behind the rest.
-            //
-            // The glyph paths have their origin on the baseline and rise by
-            // `ascent` above it, so the baseline must sit `ascent` below the
-            // temp's top (plus the blur margin) — otherwise tall glyphs are
-            // clipped at the temp's top edge (only the lower part survives,
-            // the bug on large blurred text like the OP/ED song).
-            let temp_transform =
-                Transform::from_translate(blur_size as f32, blur_size as f32 + shaped.ascent);
-            if let Some((scolor, sx, sy)) = shadow_info {
-                let mut shadow_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                shadow_paint.set_color_rgba8(scolor[0], scolor[1], scolor[2], scolor[3]);
-                let shadow_transform = temp_transform.pre_translate(sx, sy);
-                // The shadow is the silhouette of the FINAL glyph (fill +
-                // border), so when there is a border, stroke it into the
-                // shadow too. Without this a heavy `\bord` is absent from the
-                // shadow — e.g. the "Declassified" body box is a row of `b`s
-                // (BSOD block font) drawn shadow-only with `\bord12`; the 12px
-                // border is what merges them into a solid box, so a fill-only
-                // shadow collapsed it to bare glyph blobs.
-                if let Some((_, owx, owy)) = outline_info {
-                    for path in paths {
-                        if let Some(t) = path.clone().transform(shadow_transform) {
-                            if let Some(outlined) = stroke_outline(&t, owx, owy) {
-                                temp_pixmap.fill_path(
-                                    &outlined,
-                                    &shadow_paint,
-                                    tiny_skia::FillRule::Winding,
-                                    Transform::identity(),
-                                    None,
-                                );
-                            }
-                        }
-                    }
-                }
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(shadow_transform) {
-                        temp_pixmap.fill_path(
-                            &transformed,
-                            &shadow_paint,
-                            tiny_skia::FillRule::Winding,
-                            Transform::identity(),
-                            None,
-                        );
+        let tile = cached.or_else(|| {
+            // Shadow (if any), then outline, then text, so the blur softens them
+            // together. The shadow goes down first as it sits behind the rest. It
+            // is the silhouette of the FINAL glyph (fill + border), so when there
+            // is a border, stroke it into the shadow too. Without this a heavy
+            // `\bord` is absent from the shadow — e.g. the "Declassified" body box
+            // is a row of `b`s (BSOD block font) drawn shadow-only with `\bord12`;
+            // the 12px border is what merges them into a solid box, so a fill-only
+            // shadow collapsed it to bare glyph blobs.
+            let merged = merge_transformed(&run.paths, local)?;
+            let mut parts = Vec::new();
+            if let Some((color, x, y)) = run.shadow_info {
+                let shadow = merge_transformed(&run.paths, local.pre_translate(x, y))?;
+                if let Some((_, wx, wy)) = run.outline_info {
+                    if let Some(outlined) = stroke_outline(&shadow, wx, wy) {
+                        parts.push((outlined, color));
                     }
                 }
+                parts.push((shadow, color));
             }
-            if let Some((ocolor, owx, owy)) = outline_info {
-                let mut outline_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                outline_paint.set_color_rgba8(ocolor[0], ocolor[1], ocolor[2], ocolor[3]);
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(temp_transform) {
-                        if let Some(outlined) = stroke_outline(&transformed, owx, owy) {
-                            temp_pixmap.fill_path(
-                                &outlined,
-                                &outline_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                None,
-                            );
-                        }
-                    }
+            if let Some((color, wx, wy)) = run.outline_info {
+                if let Some(outlined) = stroke_outline(&merged, wx, wy) {
+                    parts.push((outlined, color));
                 }
             }
-            for path in paths {
-                if let Some(transformed) = path.clone().transform(temp_transform) {
-                    temp_pixmap.fill_path(
-                        &transformed,
-                        text_paint,
-                        tiny_skia::FillRule::Winding,
-                        Transform::identity(),
-                        clip_mask,
-                    );
-                }
-            }
-
-            // `radius` is the screen-pixel \blur (scaled by blur_scale in
-            // the pipeline); map it to a Gaussian std-dev via libass's
-            // blur_radius_scale = 2/sqrt(ln 256).
-            apply_gaussian_blur(&mut temp_pixmap, radius * (2.0 / 256.0_f32.ln().sqrt()));
+            parts.push((merged, fill));
 
-            let tile = std::sync::Arc::new(BlurTile {
-                data: std::sync::Arc::new(temp_pixmap.data().to_vec()),
-                width: text_width,
-                height: text_height,
-            });
+            // `radius` is the screen-pixel \blur (scaled by blur_scale in the
+            // pipeline); map it to a Gaussian std-dev via libass's
+            // blur_radius_scale = 2/sqrt(ln 256). The padding must contain the full
+            // kernel (~3*sigma) or the soft tail is clipped.
+            let sigma = radius * (2.0 / 256.0_f32.ln().sqrt());
+            let tile = std::sync::Arc::new(blurred_tile(&parts, (radius * 3.0).ceil(), sigma)?);
             if let Some(key) = cache_key {
                 BLUR_TILES.with(|c| {
                     let mut map = c.borrow_mut();
@@ -165,31 +110,37 @@ impl super::super::SoftwareBackend {
                 });
             }
             Some(tile)
-        } else {
-            None
-        };
+        });
 
-        // Draw the (cached or freshly rendered) blurred bitmap. Use baseline_y
-        // (the same vertical origin as the sharp path) so the blurred glyphs
-        // land on the text rather than floating above it as a halo.
         if let Some(tile) = tile {
-            if let Some(pixref) =
-                tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
-            {
-                // The baseline sits at `blur_size + ascent` inside the tile
-                // (see temp_transform), so offset the composite to land that
-                // baseline back on `baseline_y`.
-                let blend_transform = Transform::from_translate(
-                    data.x - blur_size as f32,
-                    baseline_y - blur_size as f32 - shaped.ascent,
-                );
-                let paint = tiny_skia::PixmapPaint {
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                self.pixmap
-                    .draw_pixmap(0, 0, pixref, &paint, blend_transform, None);
-            }
+            self.place_blur_tile(
+                &tile,
+                data.x,
+                run.baseline_y,
+                run.clip_mask.as_ref(),
+                blur_tile_is_whole(data),
+            );
+        }
+    }
+
+    /// Edge-blur pass (`\be`): the outline alone, softened.
+    pub(super) fn draw_soft_outline(
+        &mut self,
+        data: &TextData,
+        run: &TextRun,
+        outline: ([u8; 4], f32, f32),
+        radius: f32,
+    ) {
+        let local = run.base_transform.post_translate(-data.x, -run.baseline_y);
+        let (color, wx, wy) = outline;
+        let outlined =
+            merge_transformed(&run.paths, local).and_then(|merged| stroke_outline(&merged, wx, wy));
+        // A gentler 1/sqrt(ln 256) std-dev keeps it a thin outline blur, not a halo.
+        let sigma = radius * (1.0 / 256.0_f32.ln().sqrt());
+        let tile =
+            outlined.and_then(|path| blurred_tile(&[(path, color)], (radius * 3.0).ceil(), sigma));
+        if let Some(tile) = tile {
+            self.place_blur_tile(&tile, data.x, run.baseline_y, run.clip_mask.as_ref(), false);
         }
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 680cc70..9b8bfaf 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -1,10 +1,10 @@
 //! Decoration passes for the software text layer: sharp shadow, opaque box,
 //! outline (with optional `\be` edge blur) and underline/strikethrough.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
 use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::pipeline::shaping::ShapedText;
 use crate::pipeline::TextData;
 
 use super::TextRun;
@@ -118,72 +118,15 @@ impl super::super::SoftwareBackend {
                 outline_paint.anti_alias = true;
                 outline_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
 
-                // `width` (the larger axis) sizes the temp pixmap and offsets; the
-                // stroke itself grows per-axis via stroke_outline.
-                let width = width_x.max(*width_y);
-
-                // If edge blur is needed, render outline to temporary pixmap first
+                // Edge blur softens the outline in a temporary pixmap
                 if let Some(blur_radius) = run.edge_blur_radius {
                     if blur_radius > 0.0 {
-                        let blur_size = (blur_radius * 3.0).ceil() as u32;
-                        let outline_width =
-                            (run.shaped.width + blur_size as f32 * 2.0 + width * 2.0).ceil() as u32;
-                        let outline_height =
-                            (run.shaped.height + blur_size as f32 * 2.0 + width * 2.0).ceil()
-                                as u32;
-
-                        if let Some(mut temp_pixmap) = Pixmap::new(outline_width, outline_height) {
-                            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
-
-                            // Draw outline to temporary pixmap
-                            let temp_transform = Transform::from_translate(
-                                blur_size as f32 + width,
-                                blur_size as f32 + width,
-                            );
-
-                            for path in &run.paths {
-                                if let Some(transformed) = path.clone().transform(temp_transform) {
-                                    if let Some(outlined_path) =
-                                        stroke_outline(&transformed, *width_x, *width_y)
-                                    {
-                                        temp_pixmap.fill_path(
-                                            &outlined_path,
-                                            &outline_paint,
-                                            tiny_skia::FillRule::Winding,
-                                            Transform::identity(),
-                                            None,
-                                        );
-                                    }
-                                }
-                            }
-
-                            // Edge softening (\be): a gentler 1/sqrt(ln 256)
-                            // std-dev keeps it a thin outline blur, not a halo.
-                            apply_gaussian_blur(
-                                &mut temp_pixmap,
-                                blur_radius * (1.0 / 256.0_f32.ln().sqrt()),
-                            );
-
-                            // Draw blurred outline to main pixmap
-                            let blend_transform = run.base_transform.pre_translate(
-                                -(blur_size as f32) - width,
-                                -(blur_size as f32) - width,
-                            );
-
-                            let paint = tiny_skia::PixmapPaint {
-                                blend_mode: tiny_skia::BlendMode::SourceOver,
-                                ..Default::default()
-                            };
-
-                            self.pixmap.draw_pixmap(
-                                0,
-                                0,
-                                temp_pixmap.as_ref(),
-                                &paint,
-                                blend_transform,
-                                run.clip_mask.as_ref(),
-                            );
-                        }
+                        self.draw_soft_outline(
+                            data,
+                            run,
+                            (*color, *width_x, *width_y),
+                            blur_radius,
+                        );
                     }
                 } else if run.blur_radius.is_none() {
                     // Draw outline using path expansion (like libass): stroke the
@@ -207,63 +150,49 @@ impl super::super::SoftwareBackend {
         }
     }
 
-    /// Underline / strikethrough decoration pass, positioned from the baseline
-    /// using libass's offsets and stroked in the primary colour.
-    pub(super) fn draw_text_decorations(&mut self, data: &TextData, run: &TextRun) {
-        let shaped = &run.shaped;
-        let baseline_y = run.baseline_y;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-
-        // Draw underline if present
-        if run.underline {
-            // Position underline according to libass formula: baseline + descent/2
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            // descent is negative, so we need to subtract half of its absolute value
-            let underline_y = baseline_y - shaped.descent / 2.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + run.drawn_width, underline_y);
-
-            if let Some(underline_path) = builder.finish() {
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.08,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &underline_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
+    /// Underline / strikethrough decoration pass, in the primary colour.
+    pub(super) fn draw_text_decorations(&mut self, run: &TextRun) {
+        for path in &run.decorations {
+            self.pixmap.fill_path(
+                path,
+                &run.text_paint,
+                tiny_skia::FillRule::Winding,
+                Transform::identity(),
+                run.clip_mask.as_ref(),
+            );
         }
+    }
+}
 
-        // Draw strikethrough if present
-        if run.strikethrough {
-            // Position strikethrough according to libass formula: baseline - ascent/3
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            let strike_y = baseline_y - shaped.ascent / 3.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + run.drawn_width, strike_y);
-
-            if let Some(strike_path) = builder.finish() {
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.06,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &strike_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
+/// The underline and strikethrough of a run `width` wide, about an origin on its
+/// baseline, placed by libass's offsets.
+pub(super) fn decoration_paths(
+    data: &TextData,
+    shaped: &ShapedText,
+    width: f32,
+    underline: bool,
+    strikethrough: bool,
+) -> Vec<tiny_skia::Path> {
+    // libass formulas: baseline + descent/2 (descent is negative) and
+    // baseline - ascent/3
+    let lines = [
+        (underline, -shaped.descent / 2.0, data.font_size * 0.08),
+        (strikethrough, -shaped.ascent / 3.0, data.font_size * 0.06),
+    ];
+    let mut paths = Vec::new();
+    for (drawn, y, thickness) in lines {
+        if !drawn {
+            continue;
         }
+        let mut builder = tiny_skia::PathBuilder::new();
+        builder.move_to(0.0, y);
+        builder.line_to(width, y);
+        let stroke = tiny_skia::Stroke {
+            width: thickness,
+            line_cap: tiny_skia::LineCap::Round,
+            ..Default::default()
+        };
+        paths.extend(builder.finish().and_then(|path| path.stroke(&stroke, 1.0)));
     }
+    paths
 }
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 092deb5..a1017be 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -108,25 +108,7 @@ impl super::super::SoftwareBackend {
             // Single-colour fill: binary \k, a finished/not-started sweep, or a
             // sweep under an active \clip (approximated by a secondary->primary
             // colour blend).
-            let c = if karaoke_style == 0 {
-                if progress > 0.0 {
-                    primary
-                } else {
-                    secondary
-                }
-            } else if progress >= 1.0 {
-                primary
-            } else if progress <= 0.0 {
-                secondary
-            } else {
-                let lerp = |s: u8, e: u8| (s as f32 * (1.0 - progress) + e as f32 * progress) as u8;
-                [
-                    lerp(secondary[0], primary[0]),
-                    lerp(secondary[1], primary[1]),
-                    lerp(secondary[2], primary[2]),
-                    primary[3],
-                ]
-            };
+            let c = super::single_fill_color(data);
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
             for path in paths {
                 if let Some(t) = path.clone().transform(text_transform) {
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index d0bb0dd..85f62cc 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -11,7 +11,6 @@
 
 use tiny_skia::Transform;
 
-use crate::pipeline::shaping::ShapedText;
 use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
@@ -29,12 +28,12 @@ struct TextRun {
     paths: Vec<tiny_skia::Path>,
     /// Base affine transform baking translation, rotation, scale and shear.
     base_transform: Transform,
+    /// Whether the outlines are projected (`\frx`/`\fry`) and on the screen already.
+    projected: bool,
     /// Baseline Y (`data.y + shaped.baseline`).
     baseline_y: f32,
-    /// Shaped run metrics (width/height/ascent/descent/baseline).
-    shaped: ShapedText,
-    /// Width of the drawn run, letter spacing and horizontal scale included.
-    drawn_width: f32,
+    /// Underline and strikethrough outlines, on the screen.
+    decorations: Vec<tiny_skia::Path>,
     /// Rectangular `\clip`/`\iclip` mask, or `None` when unclipped.
     clip_mask: Option<tiny_skia::Mask>,
     /// `\blur` radius, or `None` when the text is sharp.
@@ -51,10 +50,35 @@ struct TextRun {
     merged_base: Option<tiny_skia::Path>,
     /// Fill paint in the primary colour.
     text_paint: tiny_skia::Paint<'static>,
-    bold: bool,
-    italic: bool,
-    underline: bool,
-    strikethrough: bool,
+}
+
+/// The single colour a run is filled with where its karaoke sweep is not drawn: its
+/// primary colour, a syllable not yet sung (binary `\k` or a sweep not started) its
+/// secondary colour, and one being swept a blend of the two.
+pub(super) fn single_fill_color(data: &TextData) -> [u8; 4] {
+    let karaoke = data.effects.iter().find_map(|e| match e {
+        crate::pipeline::TextEffect::Karaoke {
+            progress,
+            style,
+            secondary,
+        } => Some((*progress, *style, *secondary)),
+        _ => None,
+    });
+    let primary = data.color;
+    match karaoke {
+        None => primary,
+        Some((progress, _, secondary)) if progress <= 0.0 => secondary,
+        Some((progress, style, _)) if style == 0 || progress >= 1.0 => primary,
+        Some((progress, _, secondary)) => {
+            let lerp = |s: u8, e: u8| (s as f32 * (1.0 - progress) + e as f32 * progress) as u8;
+            [
+                lerp(secondary[0], primary[0]),
+                lerp(secondary[1], primary[1]),
+                lerp(secondary[2], primary[2]),
+                primary[3],
+            ]
+        }
+    }
 }
 
 impl super::SoftwareBackend {
@@ -84,7 +108,7 @@ impl super::SoftwareBackend {
             self.draw_plain_text(&run);
         }
 
-        self.draw_text_decorations(data, &run);
+        self.draw_text_decorations(&run);
 
         Ok(())
     }
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 4c69b6d..5d252e3 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -11,6 +11,7 @@ use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
 use super::super::dirty::{note_dirty_bbox, text_vector_dirty_bbox};
+use super::decorations::decoration_paths;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -167,7 +168,7 @@ impl super::super::SoftwareBackend {
         // so this is bit-identical — it just avoids the per-call font parse and
         // outline build, the dominant cost of the recurring blurred credit glyphs.
         #[cfg(not(feature = "nostd"))]
-        if rot3d.is_none() && self.blur_tile_hit(data, bold, italic, baseline_y, shaped.ascent) {
+        if rot3d.is_none() && self.blur_tile_hit(data, base_transform, baseline_y) {
             return Ok(None);
         }
 
@@ -187,25 +188,44 @@ impl super::super::SoftwareBackend {
             data.spacing,
         )?;
 
+        // The decorations share the run's transform, which scales them horizontally
+        let decorations = if x_scale == 0.0 {
+            Vec::new()
+        } else {
+            decoration_paths(
+                data,
+                &shaped,
+                drawn_width / x_scale,
+                underline,
+                strikethrough,
+            )
+        };
+
         // For \frx/\fry, project the positioned glyph paths through the perspective
         // transform once and switch to an identity base transform, so the vector
         // fills below operate on the already-projected screen-space outlines. The
         // perspective camera distance is libass's 20000 in 1/64-px units.
         #[cfg(not(feature = "nostd"))]
-        let (paths, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
+        let (paths, decorations, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
             let mut center = [tiny_skia::Point::from_xy(lcx, lcy)];
             base_transform.map_points(&mut center);
             let dist = 20000.0 / 64.0;
-            let projected: Vec<tiny_skia::Path> = paths
-                .iter()
-                .filter_map(|p| {
-                    let screen = p.clone().transform(base_transform)?;
-                    project_path_3d(&screen, frx, fry, center[0].x, center[0].y, dist)
-                })
-                .collect();
-            (projected, Transform::identity())
+            let project = |paths: Vec<tiny_skia::Path>| -> Vec<tiny_skia::Path> {
+                paths
+                    .into_iter()
+                    .filter_map(|p| {
+                        let screen = p.transform(base_transform)?;
+                        project_path_3d(&screen, frx, fry, center[0].x, center[0].y, dist)
+                    })
+                    .collect()
+            };
+            (project(paths), project(decorations), Transform::identity())
         } else {
-            (paths, base_transform)
+            let decorations = decorations
+                .into_iter()
+                .filter_map(|p| p.transform(base_transform))
+                .collect();
+            (paths, decorations, base_transform)
         };
 
         // Rasterize, cache and composite the coverage. Returns false only for
@@ -221,7 +241,7 @@ impl super::super::SoftwareBackend {
         // Vector path (blur / swept karaoke / clip / opaque box / under-strike).
         // Record a generous dirty bbox so a bitmap-list crop scans only this region.
         #[cfg(not(feature = "nostd"))]
-        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, base_transform) {
+        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, &decorations, base_transform) {
             note_dirty_bbox(bbox);
         }
 
@@ -350,9 +370,9 @@ impl super::super::SoftwareBackend {
         Ok(Some(TextRun {
             paths,
             base_transform,
+            projected: rot3d.is_some(),
             baseline_y,
-            shaped,
-            drawn_width,
+            decorations,
             clip_mask,
             blur_radius,
             outline_info,
@@ -361,10 +381,6 @@ impl super::super::SoftwareBackend {
             karaoke_info,
             merged_base,
             text_paint,
-            bold,
-            italic,
-            underline,
-            strikethrough,
         }))
     }
 }
-- 
2.43.0


From 15adb6842d8465ac58ab1d77bf66cf196669c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 090/115] fix: keep blurred colour without alpha when cropping
 and blending tiles

---
 crates/ass-renderer/src/backends/coverage/composite.rs | 5 ++---
 crates/ass-renderer/src/backends/software/dirty.rs     | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index ea4cdf2..2eecbc4 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -118,9 +118,8 @@ fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), p
         let mut si = ((ty * tw + tx0) as usize) * 4;
         let mut di = ((y + ty) * dw + x + tx0) as usize * 4;
         for _ in tx0..tx1 {
-            let sa = u16::from(pixels[si + 3]);
-            if sa != 0 {
-                let inv = 255 - sa;
+            if pixels[si..si + 4] != [0; 4] {
+                let inv = 255 - u16::from(pixels[si + 3]);
                 // Saturate: a blurred tile can hold more colour than alpha
                 for c in 0..4 {
                     let blended = u16::from(pixels[si + c]) + mul255(u16::from(dst[di + c]), inv);
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index efb771b..b2fb219 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -135,7 +135,9 @@ pub(super) fn crop_pixmap(
     for y in scan_y0..scan_y1 {
         let row = (y * w) as usize * 4;
         for x in scan_x0..scan_x1 {
-            if data[row + x as usize * 4 + 3] != 0 {
+            // A blurred pixel can hold colour without alpha
+            let px = row + x as usize * 4;
+            if data[px..px + 4] != [0; 4] {
                 min_x = min_x.min(x);
                 max_x = max_x.max(x);
                 min_y = min_y.min(y);
-- 
2.43.0


From 332d6a36721c0c2b5767b0a658f0bbeb8394736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 091/115] fix: keep a soft outline on its glyphs

---
 crates/ass-renderer/src/backends/software/text/blur.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index b5dac9e..a396bc8 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -131,7 +131,11 @@ impl super::super::SoftwareBackend {
         outline: ([u8; 4], f32, f32),
         radius: f32,
     ) {
-        let local = run.base_transform.post_translate(-data.x, -run.baseline_y);
+        // Relative to where the bitmap's anchor is put, for the outline to stay on
+        // the glyphs
+        let local = run
+            .base_transform
+            .post_translate(-data.x.round(), -run.baseline_y.round());
         let (color, wx, wy) = outline;
         let outlined =
             merge_transformed(&run.paths, local).and_then(|merged| stroke_outline(&merged, wx, wy));
-- 
2.43.0


From c83f61c4c1a59222ad9f5e252f18fc0c5eec7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 092/115] fix: turn scaled or sheared text in 3D about its own
 centre

---
 crates/ass-renderer/src/backends/software/text/prepare.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 5d252e3..9cce910 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -207,15 +207,15 @@ impl super::super::SoftwareBackend {
         // perspective camera distance is libass's 20000 in 1/64-px units.
         #[cfg(not(feature = "nostd"))]
         let (paths, decorations, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
-            let mut center = [tiny_skia::Point::from_xy(lcx, lcy)];
-            base_transform.map_points(&mut center);
+            // The rotation centre stays where it is, however the run is scaled or sheared
+            let center = tiny_skia::Point::from_xy(data.x + lcx, baseline_y + lcy);
             let dist = 20000.0 / 64.0;
             let project = |paths: Vec<tiny_skia::Path>| -> Vec<tiny_skia::Path> {
                 paths
                     .into_iter()
                     .filter_map(|p| {
                         let screen = p.transform(base_transform)?;
-                        project_path_3d(&screen, frx, fry, center[0].x, center[0].y, dist)
+                        project_path_3d(&screen, frx, fry, center.x, center.y, dist)
                     })
                     .collect()
             };
-- 
2.43.0


From 26e6e1d8ec5fea0d0f96bd517e772b30458de988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 093/115] fix: honour a raster layer's opacity and refuse sizes
 that overflow

---
 crates/ass-renderer/src/backends/software/vector.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 7199959..5589944 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -17,9 +17,12 @@ impl super::SoftwareBackend {
         &mut self,
         data: &crate::pipeline::RasterData,
     ) -> Result<(), RenderError> {
-        if data.pixels.len() != (data.width * data.height * 4) as usize {
+        let expected = (data.width as usize)
+            .saturating_mul(data.height as usize)
+            .saturating_mul(4);
+        if data.pixels.len() != expected {
             return Err(RenderError::InvalidBufferSize {
-                expected: (data.width * data.height * 4) as usize,
+                expected,
                 actual: data.pixels.len(),
             });
         }
@@ -35,6 +38,7 @@ impl super::SoftwareBackend {
 
         // Use SourceOver blend mode for proper alpha compositing
         let paint = tiny_skia::PixmapPaint {
+            opacity: f32::from(data.opacity) / 255.0,
             blend_mode: tiny_skia::BlendMode::SourceOver,
             ..Default::default()
         };
-- 
2.43.0


From a346b214b863574abed760deef37f627834c8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 094/115] fix: leave room for the stroke around a blurred
 drawing

---
 crates/ass-renderer/src/backends/software/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 5589944..5824668 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -117,7 +117,7 @@ impl super::SoftwareBackend {
         // bitmap and applies `\clip` afterwards, so clipped gradient strips tile
         // seamlessly and dust/sparkle shapes spread into soft, dim glows instead
         // of hard bright dots.
-        let pad = (data.blur * 3.0).ceil().max(1.0);
+        let pad = (stroke * 2.0 + data.blur * 3.0).ceil().max(1.0);
         let tw = ((b.width() + pad * 2.0).ceil() as u32).max(1);
         let th = ((b.height() + pad * 2.0).ceil() as u32).max(1);
         let Some(mut temp) = Pixmap::new(tw, th) else {
-- 
2.43.0


From 2090d24c68ea0a6a4a2584b4fe2f97165b4c80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 095/115] fix: paint the shadow of bordered text as one
 silhouette

---
 .../src/backends/software/text/decorations.rs | 49 ++++++++++++++-----
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 9b8bfaf..7246e0c 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -29,23 +29,46 @@ impl super::super::SoftwareBackend {
                     // too. Without this the shadow is thinner than libass's by the
                     // border width (and inconsistent with the \blur branch, which
                     // already includes it).
-                    if let Some((_, owx, owy)) = run.outline_info {
-                        if let Some(stroked) = stroke_outline(&merged, owx, owy) {
-                            self.pixmap.fill_path(
-                                &stroked,
-                                &shadow_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                run.clip_mask.as_ref(),
-                            );
+                    let stroked = run
+                        .outline_info
+                        .and_then(|(_, owx, owy)| stroke_outline(&merged, owx, owy));
+                    let Some(stroked) = stroked else {
+                        self.pixmap.fill_path(
+                            &merged,
+                            &shadow_paint,
+                            tiny_skia::FillRule::Winding,
+                            Transform::identity(),
+                            run.clip_mask.as_ref(),
+                        );
+                        return;
+                    };
+                    // Border and fill overlap: paint them as one silhouette, or a
+                    // translucent shadow would be darker where they do.
+                    let (w, h) = (self.pixmap.width(), self.pixmap.height());
+                    let (Some(mut silhouette), Some(screen)) = (
+                        tiny_skia::Mask::new(w, h),
+                        tiny_skia::Rect::from_xywh(0.0, 0.0, w as f32, h as f32),
+                    ) else {
+                        return;
+                    };
+                    for path in [&stroked, &merged] {
+                        silhouette.fill_path(
+                            path,
+                            tiny_skia::FillRule::Winding,
+                            true,
+                            Transform::identity(),
+                        );
+                    }
+                    if let Some(clip) = &run.clip_mask {
+                        for (s, c) in silhouette.data_mut().iter_mut().zip(clip.data()) {
+                            *s = (u16::from(*s) * u16::from(*c) / 255) as u8;
                         }
                     }
-                    self.pixmap.fill_path(
-                        &merged,
+                    self.pixmap.fill_rect(
+                        screen,
                         &shadow_paint,
-                        tiny_skia::FillRule::Winding,
                         Transform::identity(),
-                        run.clip_mask.as_ref(),
+                        Some(&silhouette),
                     );
                 }
             }
-- 
2.43.0


From 6459a08581b60721230f62bf20835ba768b23962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 096/115] fix: cut oversized tiles and blurs to what the screen
 shows

---
 crates/ass-renderer/src/backends/blur.rs      | 98 ++++++++++++++++++-
 .../ass-renderer/src/backends/coverage/mod.rs | 19 ++--
 .../src/backends/software/cache/coverage.rs   | 47 ++++++---
 .../src/backends/software/text/blur.rs        | 81 ++++++++-------
 .../src/backends/software/vector.rs           | 56 +++++------
 5 files changed, 208 insertions(+), 93 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index 58d3cbb..ad2b57f 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -4,7 +4,103 @@
 //! `blur_radius_scale`); only the separable-kernel rasterization here is
 //! specific to the software backend.
 
-use tiny_skia::Pixmap;
+use tiny_skia::{Path, Pixmap, Rect, Transform};
+
+use crate::backends::geometry::union;
+
+/// The most pixels a blurred bitmap may have before it is cut to what can be seen.
+const LARGE: f32 = (4 << 20) as f32;
+
+/// A blurred bitmap and where its top left corner goes.
+pub(crate) struct Blurred {
+    pub(crate) pixmap: Pixmap,
+    pub(crate) x: i32,
+    pub(crate) y: i32,
+    /// Whether only what reaches the screen has been drawn.
+    pub(crate) cut: bool,
+}
+
+/// Fill `parts` in order into a pixmap that holds them all and `pad` pixels around,
+/// and blur it by `sigma`. A large bitmap is cut to what can be seen on `screen`.
+pub(crate) fn blurred(
+    parts: &[(Path, [u8; 4])],
+    pad: f32,
+    sigma: f32,
+    screen: Rect,
+) -> Option<Blurred> {
+    let (pad, sigma) = (pad.min(30_000.0), sigma.min(10_000.0));
+    let b = parts.iter().map(|(path, _)| path.bounds()).reduce(union)?;
+    let grown = |r: Rect| {
+        [
+            r.left() - pad,
+            r.top() - pad,
+            r.right() + pad,
+            r.bottom() + pad,
+        ]
+    };
+    let meet = |a: [f32; 4], b: [f32; 4]| {
+        [
+            a[0].max(b[0]),
+            a[1].max(b[1]),
+            a[2].min(b[2]),
+            a[3].min(b[3]),
+        ]
+    };
+    let whole = |r: [f32; 4]| {
+        let (x, y) = (r[0].floor(), r[1].floor());
+        let (w, h) = ((r[2].ceil() - x).max(1.0), (r[3].ceil() - y).max(1.0));
+        (x, y, w, h)
+    };
+    let mut all = grown(b);
+    let mut shown = all;
+    let (_, _, w, h) = whole(all);
+    let cut = w * h > LARGE;
+    if cut {
+        let edges = [screen.left(), screen.top(), screen.right(), screen.bottom()];
+        shown = meet(all, edges);
+        all = meet(all, grown(screen));
+        if shown[0] >= shown[2] || shown[1] >= shown[3] {
+            return None;
+        }
+    }
+    // A wide blur leaves no detail: a smaller picture holds all of it.
+    let shrink = if sigma > 32.0 {
+        (sigma / 16.0).floor()
+    } else {
+        1.0
+    };
+    let (left, top, w, h) = whole(all);
+    let mut pixmap = Pixmap::new((w / shrink).ceil() as u32, (h / shrink).ceil() as u32)?;
+    let place = Transform::from_translate(-left, -top).post_scale(1.0 / shrink, 1.0 / shrink);
+    for (path, color) in parts {
+        let mut paint = tiny_skia::Paint {
+            anti_alias: true,
+            blend_mode: tiny_skia::BlendMode::SourceOver,
+            ..Default::default()
+        };
+        paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
+        pixmap.fill_path(path, &paint, tiny_skia::FillRule::Winding, place, None);
+    }
+    apply_gaussian_blur(&mut pixmap, sigma / shrink);
+    let (mut x, mut y) = (left, top);
+    if shrink > 1.0 {
+        let (to_x, to_y, w, h) = whole(shown);
+        let mut full = Pixmap::new(w as u32, h as u32)?;
+        let paint = tiny_skia::PixmapPaint {
+            quality: tiny_skia::FilterQuality::Bilinear,
+            ..Default::default()
+        };
+        let enlarge = Transform::from_scale(shrink, shrink).post_translate(left - to_x, top - to_y);
+        full.draw_pixmap(0, 0, pixmap.as_ref(), &paint, enlarge, None);
+        (pixmap, x, y) = (full, to_x, to_y);
+    }
+    Some(Blurred {
+        pixmap,
+        x: x as i32,
+        y: y as i32,
+        cut,
+    })
+}
 
 /// Apply a separable Gaussian blur of standard deviation `sigma` (screen pixels)
 /// to a pixmap.
diff --git a/crates/ass-renderer/src/backends/coverage/mod.rs b/crates/ass-renderer/src/backends/coverage/mod.rs
index 9df2ea9..f5fdc75 100644
--- a/crates/ass-renderer/src/backends/coverage/mod.rs
+++ b/crates/ass-renderer/src/backends/coverage/mod.rs
@@ -76,6 +76,9 @@ pub enum RenderBitmap {
     },
 }
 
+/// The most pixels a tile may have.
+const MAX_TILE_PIXELS: u64 = 1 << 26;
+
 impl CoverageTile {
     /// Rasterize a screen-space `path` to a coverage tile.
     ///
@@ -88,12 +91,16 @@ impl CoverageTile {
     pub fn rasterize(path: &Path) -> Option<(Self, i32, i32)> {
         let bounds = path.bounds();
         // Pad by one pixel so anti-aliased edges are not clipped at the border.
-        let min_x = bounds.left().floor() as i32 - 1;
-        let min_y = bounds.top().floor() as i32 - 1;
-        let max_x = bounds.right().ceil() as i32 + 1;
-        let max_y = bounds.bottom().ceil() as i32 + 1;
-        let width = u32::try_from((max_x - min_x).max(1)).ok()?;
-        let height = u32::try_from((max_y - min_y).max(1)).ok()?;
+        let min_x = (bounds.left().floor() as i32).saturating_sub(1);
+        let min_y = (bounds.top().floor() as i32).saturating_sub(1);
+        let max_x = (bounds.right().ceil() as i32).saturating_add(1);
+        let max_y = (bounds.bottom().ceil() as i32).saturating_add(1);
+        let width = u32::try_from(max_x.checked_sub(min_x)?.max(1)).ok()?;
+        let height = u32::try_from(max_y.checked_sub(min_y)?.max(1)).ok()?;
+        // No memory is wasted on a shape no screen could show.
+        if u64::from(width) * u64::from(height) > MAX_TILE_PIXELS {
+            return None;
+        }
 
         // Feed the path's contours to the in-house scanline rasterizer, in tile
         // coordinates (origin at the padded bbox corner). Each contour is closed
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 7bab1dd..bb1d44e 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -5,28 +5,41 @@ use tiny_skia::Transform;
 
 use crate::backends::geometry::{merge_transformed, shadow_delta, stroke_outline};
 
-/// Rasterize a layer's fill and outline coverage in local space.
+/// The most pixels, by the bounds of its path, of a tile worth caching.
+#[cfg(not(feature = "nostd"))]
+const LARGEST_TILE: f32 = (4 << 20) as f32;
+
+/// Rasterize a layer's fill and outline coverage in local space. `None` where that would
+/// take tiles too large to keep.
 #[cfg(not(feature = "nostd"))]
 fn rasterize_run_coverage(
     paths: &[tiny_skia::Path],
     local: Transform,
     outline_width: Option<(f32, f32)>,
-) -> super::CachedCoverage {
+) -> Option<super::CachedCoverage> {
     use crate::backends::coverage::CoverageTile;
 
     // Merge the per-glyph paths once; both the fill and the outline derive from
     // the same merged outline (previously merged twice, redundantly).
     let merged = merge_transformed(paths, local);
-    let fill = merged.as_ref().and_then(CoverageTile::rasterize);
-    let outline = outline_width
+    // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
+    // stroke_outline produces that (uniform for the symmetric case).
+    let outlined = outline_width
         .zip(merged.as_ref())
-        .and_then(|((wx, wy), merged)| {
-            // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
-            // stroke_outline produces that (uniform for the symmetric case).
-            let outlined = stroke_outline(merged, wx, wy)?;
-            CoverageTile::rasterize(&outlined)
-        });
-    super::CachedCoverage { fill, outline }
+        .and_then(|((wx, wy), merged)| stroke_outline(merged, wx, wy));
+    // Tiles hold a run whole: one far larger than any screen is drawn straight onto
+    // the frame, which takes only what it shows.
+    let too_large = |path: &tiny_skia::Path| {
+        let b = path.bounds();
+        b.width() * b.height() > LARGEST_TILE
+    };
+    if merged.iter().chain(&outlined).any(too_large) {
+        return None;
+    }
+    Some(super::CachedCoverage {
+        fill: merged.as_ref().and_then(CoverageTile::rasterize),
+        outline: outlined.as_ref().and_then(CoverageTile::rasterize),
+    })
 }
 
 impl super::super::SoftwareBackend {
@@ -98,10 +111,12 @@ impl super::super::SoftwareBackend {
             return false;
         };
 
-        super::RUN_COVERAGE.with(|cache| {
+        let kept = super::RUN_COVERAGE.with(|cache| {
             if !cache.borrow().contains_key(&key) {
-                let cached =
-                    rasterize_run_coverage(paths, local, outline.map(|(_, wx, wy)| (wx, wy)));
+                let widths = outline.map(|(_, wx, wy)| (wx, wy));
+                let Some(cached) = rasterize_run_coverage(paths, local, widths) else {
+                    return false;
+                };
                 let mut map = cache.borrow_mut();
                 // Bound memory: continuously geometry-animated layers produce a
                 // fresh key every frame, so drop the cache when it grows large
@@ -111,7 +126,11 @@ impl super::super::SoftwareBackend {
                 }
                 map.insert(key.clone(), cached);
             }
+            true
         });
+        if !kept {
+            return false;
+        }
 
         let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(local, sx, sy)));
         let anchor_x = data.x.round() as i32;
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index a396bc8..a7496a5 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -2,52 +2,45 @@
 //! (or, for `\be`, the outline) into a padded temp pixmap (or reuse a cached one),
 //! Gaussian blur it, and composite at the baseline.
 
-use tiny_skia::{Pixmap, Transform};
-
-use crate::backends::blur::apply_gaussian_blur;
-use crate::backends::geometry::{merge_transformed, stroke_outline, union};
+use crate::backends::blur::blurred;
+use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
 #[cfg(not(feature = "nostd"))]
 use super::super::cache::{blur_tile_is_whole, blur_tile_key, BlurTile, BLUR_TILES};
 use super::TextRun;
 
-/// Fill `parts` in order into a pixmap that holds them all and `pad` pixels around,
-/// and blur it by `sigma`.
-fn blurred_tile(parts: &[(tiny_skia::Path, [u8; 4])], pad: f32, sigma: f32) -> Option<BlurTile> {
-    let bounds = parts.iter().map(|(path, _)| path.bounds()).reduce(union)?;
-    let left = (bounds.left() - pad).floor();
-    let top = (bounds.top() - pad).floor();
-    let mut pixmap = Pixmap::new(
-        ((bounds.right() + pad).ceil() - left).max(1.0) as u32,
-        ((bounds.bottom() + pad).ceil() - top).max(1.0) as u32,
-    )?;
-    for (path, color) in parts {
-        let mut paint = tiny_skia::Paint {
-            anti_alias: true,
-            blend_mode: tiny_skia::BlendMode::SourceOver,
-            ..Default::default()
-        };
-        paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
-        pixmap.fill_path(
-            path,
-            &paint,
-            tiny_skia::FillRule::Winding,
-            Transform::from_translate(-left, -top),
-            None,
-        );
-    }
-    apply_gaussian_blur(&mut pixmap, sigma);
-    Some(BlurTile {
-        width: pixmap.width(),
-        height: pixmap.height(),
-        data: std::sync::Arc::new(pixmap.take()),
-        x: left as i32,
-        y: top as i32,
-    })
+/// Fill `parts` in order into a bitmap that holds them all and `pad` pixels around,
+/// and blur it by `sigma`. The second value says whether it is all there, or has been
+/// cut to what can be seen on `screen`.
+fn blurred_tile(
+    parts: &[(tiny_skia::Path, [u8; 4])],
+    pad: f32,
+    sigma: f32,
+    screen: tiny_skia::Rect,
+) -> Option<(BlurTile, bool)> {
+    let b = blurred(parts, pad, sigma, screen)?;
+    let tile = BlurTile {
+        width: b.pixmap.width(),
+        height: b.pixmap.height(),
+        data: std::sync::Arc::new(b.pixmap.take()),
+        x: b.x,
+        y: b.y,
+    };
+    Some((tile, !b.cut))
 }
 
 impl super::super::SoftwareBackend {
+    /// The screen as it lies about the pixel nearest to `(x, y)`.
+    fn screen_from(&self, x: f32, y: f32) -> Option<tiny_skia::Rect> {
+        tiny_skia::Rect::from_xywh(
+            -x.round(),
+            -y.round(),
+            self.pixmap.width() as f32,
+            self.pixmap.height() as f32,
+        )
+    }
+
     /// Blurred-text pass: rasterize shadow + outline + fill into a padded temp
     /// pixmap (or reuse a cached one), blur it, and composite at the baseline.
     pub(super) fn draw_blurred_text(&mut self, data: &TextData, run: &TextRun, radius: f32) {
@@ -97,8 +90,10 @@ impl super::super::SoftwareBackend {
             // blur_radius_scale = 2/sqrt(ln 256). The padding must contain the full
             // kernel (~3*sigma) or the soft tail is clipped.
             let sigma = radius * (2.0 / 256.0_f32.ln().sqrt());
-            let tile = std::sync::Arc::new(blurred_tile(&parts, (radius * 3.0).ceil(), sigma)?);
-            if let Some(key) = cache_key {
+            let screen = self.screen_from(data.x, run.baseline_y)?;
+            let (tile, whole) = blurred_tile(&parts, (radius * 3.0).ceil(), sigma, screen)?;
+            let tile = std::sync::Arc::new(tile);
+            if let Some(key) = cache_key.filter(|_| whole) {
                 BLUR_TILES.with(|c| {
                     let mut map = c.borrow_mut();
                     // Bound memory: drop the cache wholesale if it grows large
@@ -141,9 +136,11 @@ impl super::super::SoftwareBackend {
             merge_transformed(&run.paths, local).and_then(|merged| stroke_outline(&merged, wx, wy));
         // A gentler 1/sqrt(ln 256) std-dev keeps it a thin outline blur, not a halo.
         let sigma = radius * (1.0 / 256.0_f32.ln().sqrt());
-        let tile =
-            outlined.and_then(|path| blurred_tile(&[(path, color)], (radius * 3.0).ceil(), sigma));
-        if let Some(tile) = tile {
+        let screen = self.screen_from(data.x, run.baseline_y);
+        let tile = outlined.zip(screen).and_then(|(path, screen)| {
+            blurred_tile(&[(path, color)], (radius * 3.0).ceil(), sigma, screen)
+        });
+        if let Some((tile, _)) = tile {
             self.place_blur_tile(&tile, data.x, run.baseline_y, run.clip_mask.as_ref(), false);
         }
     }
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 5824668..0d2cb55 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -6,7 +6,7 @@
 
 use tiny_skia::{Pixmap, Transform};
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::blurred;
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -117,42 +117,38 @@ impl super::SoftwareBackend {
         // bitmap and applies `\clip` afterwards, so clipped gradient strips tile
         // seamlessly and dust/sparkle shapes spread into soft, dim glows instead
         // of hard bright dots.
-        let pad = (stroke * 2.0 + data.blur * 3.0).ceil().max(1.0);
-        let tw = ((b.width() + pad * 2.0).ceil() as u32).max(1);
-        let th = ((b.height() + pad * 2.0).ceil() as u32).max(1);
-        let Some(mut temp) = Pixmap::new(tw, th) else {
-            return Ok(());
-        };
-        let off = Transform::from_translate(pad - b.left(), pad - b.top());
-        temp.fill_path(path, &paint, tiny_skia::FillRule::Winding, off, None);
+        let pad = (data.blur * 3.0).ceil().max(1.0);
+        let mut parts = vec![(path.clone(), data.color)];
         if let Some(stroke) = &data.stroke {
-            let mut sp = tiny_skia::Paint::default();
-            sp.set_color_rgba8(
-                stroke.color[0],
-                stroke.color[1],
-                stroke.color[2],
-                stroke.color[3],
-            );
-            sp.anti_alias = true;
             let sk_stroke = tiny_skia::Stroke {
                 width: stroke.width,
                 ..Default::default()
             };
-            temp.stroke_path(path, &sp, &sk_stroke, off, None);
+            if let Some(outline) = path.stroke(&sk_stroke, 1.0) {
+                parts.push((outline, stroke.color));
+            }
         }
-        apply_gaussian_blur(&mut temp, data.blur * (2.0 / 256.0_f32.ln().sqrt()));
-        let blend = Transform::from_translate(b.left() - pad, b.top() - pad);
-        self.pixmap.draw_pixmap(
-            0,
-            0,
-            temp.as_ref(),
-            &tiny_skia::PixmapPaint {
-                blend_mode: tiny_skia::BlendMode::SourceOver,
-                ..Default::default()
-            },
-            blend,
-            clip_mask.as_ref(),
+        let screen = tiny_skia::Rect::from_xywh(
+            0.0,
+            0.0,
+            self.pixmap.width() as f32,
+            self.pixmap.height() as f32,
         );
+        let sigma = data.blur * (2.0 / 256.0_f32.ln().sqrt());
+        let drawn = screen.and_then(|screen| blurred(&parts, pad, sigma, screen));
+        if let Some(drawn) = drawn {
+            self.pixmap.draw_pixmap(
+                drawn.x,
+                drawn.y,
+                drawn.pixmap.as_ref(),
+                &tiny_skia::PixmapPaint {
+                    blend_mode: tiny_skia::BlendMode::SourceOver,
+                    ..Default::default()
+                },
+                Transform::identity(),
+                clip_mask.as_ref(),
+            );
+        }
 
         Ok(())
     }
-- 
2.43.0


From 6d64de78a1bdef55fd63448eb9936a46b84787f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 097/115] fix: keep coordinates beyond the rasterizer's reach
 away from it

---
 crates/ass-renderer/src/backends/geometry.rs  | 32 +++++++++++++++++--
 .../src/backends/software/dirty.rs            |  7 +++-
 .../src/backends/software/text/decorations.rs | 19 ++++++-----
 .../src/backends/software/text/fills.rs       |  9 +++---
 .../src/backends/software/text/prepare.rs     | 17 ++++++----
 .../src/backends/software/vector.rs           | 15 +++++++--
 6 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 4c6ac1d..a085c8b 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -2,6 +2,30 @@
 
 use tiny_skia::Transform;
 
+/// How far, in pixels, a path may reach to be drawn: the rasterizer does not cope with
+/// coordinates far beyond (libass drops such outlines too).
+pub(crate) const REACH: f32 = (1 << 20) as f32;
+
+/// Whether all of `bounds` lies within [`REACH`].
+pub(crate) fn within_reach(bounds: tiny_skia::Rect) -> bool {
+    bounds.left() >= -REACH
+        && bounds.top() >= -REACH
+        && bounds.right() <= REACH
+        && bounds.bottom() <= REACH
+}
+
+/// `path` under `transform`, where that can be drawn.
+pub(crate) fn reachable(path: &tiny_skia::Path, transform: Transform) -> Option<tiny_skia::Path> {
+    let path = path.clone().transform(transform)?;
+    within_reach(path.bounds()).then_some(path)
+}
+
+/// A coordinate brought to within a pixel of a screen of `size` pixels, for what lies
+/// on the screen to stay the same.
+pub(crate) fn near(v: f32, size: u32) -> f32 {
+    v.clamp(-1.0, size as f32 + 1.0)
+}
+
 /// Merge positioned glyph outlines into a single path under one transform.
 ///
 /// Lets a layer's glyphs be stroked and filled in one rasterizer pass instead of
@@ -16,7 +40,7 @@ pub(crate) fn merge_transformed(
 ) -> Option<tiny_skia::Path> {
     let mut builder = tiny_skia::PathBuilder::new();
     for path in paths {
-        if let Some(transformed) = path.clone().transform(transform) {
+        if let Some(transformed) = reachable(path, transform) {
             builder.push_path(&transformed);
         }
     }
@@ -42,7 +66,7 @@ pub(crate) fn union(a: tiny_skia::Rect, b: tiny_skia::Rect) -> tiny_skia::Rect {
 #[cfg(not(feature = "nostd"))]
 pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option<tiny_skia::Path> {
     let mk = |w: f32| tiny_skia::Stroke {
-        width: w * 2.0,
+        width: w.min(REACH) * 2.0,
         line_cap: tiny_skia::LineCap::Square,
         line_join: tiny_skia::LineJoin::Miter,
         ..Default::default()
@@ -54,7 +78,9 @@ pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option
     // Stroke uniformly with radius wx in a space scaled by (1, wx/wy), then undo
     // the scale: the vertical extent becomes wy while the horizontal stays wx.
     let sy = wx / wy;
-    let scaled = path.clone().transform(Transform::from_scale(1.0, sy))?;
+    let Some(scaled) = reachable(path, Transform::from_scale(1.0, sy)) else {
+        return stroker.stroke(path, &mk(wx.max(wy)), 1.0);
+    };
     let stroked = stroker.stroke(&scaled, &mk(wx), 1.0)?;
     stroked.transform(Transform::from_scale(1.0, 1.0 / sy))
 }
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index b2fb219..3fb1800 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -125,7 +125,12 @@ pub(super) fn crop_pixmap(
     // Only scan the layer's (generous) dirty region — scanning the whole 4K frame
     // per vector layer is memory-bound and dominates otherwise.
     let (scan_x0, scan_y0, scan_x1, scan_y1) = match hint {
-        Some((x0, y0, x1, y1)) => (x0.max(0), y0.max(0), (x1 + 1).min(w), (y1 + 1).min(h)),
+        Some((x0, y0, x1, y1)) => (
+            x0.max(0),
+            y0.max(0),
+            x1.saturating_add(1).min(w),
+            y1.saturating_add(1).min(h),
+        ),
         None => (0, 0, w, h),
     };
     if scan_x1 <= scan_x0 || scan_y1 <= scan_y0 {
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 7246e0c..9525279 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -3,7 +3,9 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::backends::geometry::{
+    merge_transformed, reachable, stroke_outline, within_reach, REACH,
+};
 use crate::pipeline::shaping::ShapedText;
 use crate::pipeline::TextData;
 
@@ -87,7 +89,7 @@ impl super::super::SoftwareBackend {
             {
                 let mut bounds: Option<tiny_skia::Rect> = None;
                 for path in &run.paths {
-                    if let Some(t) = path.clone().transform(run.base_transform) {
+                    if let Some(t) = reachable(path, run.base_transform) {
                         let b = t.bounds();
                         bounds = Some(match bounds {
                             None => b,
@@ -103,10 +105,10 @@ impl super::super::SoftwareBackend {
                 }
                 if let Some(b) = bounds {
                     if let Some(rect) = tiny_skia::Rect::from_ltrb(
-                        b.left() - *padding_x,
-                        b.top() - *padding_y,
-                        b.right() + *padding_x,
-                        b.bottom() + *padding_y,
+                        (b.left() - *padding_x).clamp(-REACH, REACH),
+                        (b.top() - *padding_y).clamp(-REACH, REACH),
+                        (b.right() + *padding_x).clamp(-REACH, REACH),
+                        (b.bottom() + *padding_y).clamp(-REACH, REACH),
                     ) {
                         let mut box_paint = tiny_skia::Paint::default();
                         box_paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
@@ -211,11 +213,12 @@ pub(super) fn decoration_paths(
         builder.move_to(0.0, y);
         builder.line_to(width, y);
         let stroke = tiny_skia::Stroke {
-            width: thickness,
+            width: thickness.min(REACH),
             line_cap: tiny_skia::LineCap::Round,
             ..Default::default()
         };
-        paths.extend(builder.finish().and_then(|path| path.stroke(&stroke, 1.0)));
+        let line = builder.finish().filter(|p| within_reach(p.bounds()));
+        paths.extend(line.and_then(|path| path.stroke(&stroke, 1.0)));
     }
     paths
 }
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index a1017be..f4e7a7c 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -1,6 +1,7 @@
 //! Main-fill passes for the software text layer: the swept/binary karaoke fill
 //! and the plain sharp fill.
 
+use crate::backends::geometry::reachable;
 use tiny_skia::Transform;
 
 use crate::pipeline::TextData;
@@ -42,7 +43,7 @@ impl super::super::SoftwareBackend {
         let sweep_bounds = if sweeping && clip_mask.is_none() {
             let mut b: Option<tiny_skia::Rect> = None;
             for path in paths {
-                if let Some(t) = path.clone().transform(text_transform) {
+                if let Some(t) = reachable(path, text_transform) {
                     let pb = t.bounds();
                     b = Some(match b {
                         None => pb,
@@ -65,7 +66,7 @@ impl super::super::SoftwareBackend {
             // Secondary base across the whole syllable.
             paint.set_color_rgba8(secondary[0], secondary[1], secondary[2], secondary[3]);
             for path in paths {
-                if let Some(t) = path.clone().transform(text_transform) {
+                if let Some(t) = reachable(path, text_transform) {
                     self.pixmap.fill_path(
                         &t,
                         &paint,
@@ -92,7 +93,7 @@ impl super::super::SoftwareBackend {
                     );
                     paint.set_color_rgba8(primary[0], primary[1], primary[2], primary[3]);
                     for path in paths {
-                        if let Some(t) = path.clone().transform(text_transform) {
+                        if let Some(t) = reachable(path, text_transform) {
                             self.pixmap.fill_path(
                                 &t,
                                 &paint,
@@ -111,7 +112,7 @@ impl super::super::SoftwareBackend {
             let c = super::single_fill_color(data);
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
             for path in paths {
-                if let Some(t) = path.clone().transform(text_transform) {
+                if let Some(t) = reachable(path, text_transform) {
                     self.pixmap.fill_path(
                         &t,
                         &paint,
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 9cce910..ac685c1 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -5,7 +5,9 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::geometry::{merge_transformed, project_path_3d};
+use crate::backends::geometry::{
+    merge_transformed, near, project_path_3d, reachable, within_reach,
+};
 use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
@@ -216,6 +218,7 @@ impl super::super::SoftwareBackend {
                     .filter_map(|p| {
                         let screen = p.transform(base_transform)?;
                         project_path_3d(&screen, frx, fry, center.x, center.y, dist)
+                            .filter(|p| within_reach(p.bounds()))
                     })
                     .collect()
             };
@@ -223,7 +226,7 @@ impl super::super::SoftwareBackend {
         } else {
             let decorations = decorations
                 .into_iter()
-                .filter_map(|p| p.transform(base_transform))
+                .filter_map(|p| reachable(&p, base_transform))
                 .collect();
             (paths, decorations, base_transform)
         };
@@ -262,10 +265,12 @@ impl super::super::SoftwareBackend {
                 if let Some(mut mask) = tiny_skia::Mask::new(width, height) {
                     let mut builder = tiny_skia::PathBuilder::new();
                     // The clip rectangle itself.
-                    builder.move_to(*x1, *y1);
-                    builder.line_to(*x2, *y1);
-                    builder.line_to(*x2, *y2);
-                    builder.line_to(*x1, *y2);
+                    let (x1, x2) = (near(*x1, width), near(*x2, width));
+                    let (y1, y2) = (near(*y1, height), near(*y2, height));
+                    builder.move_to(x1, y1);
+                    builder.line_to(x2, y1);
+                    builder.line_to(x2, y2);
+                    builder.line_to(x1, y2);
                     builder.close();
 
                     // For \iclip, also add a full-canvas rectangle and use the
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 0d2cb55..6ef9ae2 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -7,6 +7,7 @@
 use tiny_skia::{Pixmap, Transform};
 
 use crate::backends::blur::blurred;
+use crate::backends::geometry::{near, within_reach, REACH};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -56,6 +57,9 @@ impl super::SoftwareBackend {
         let Some(path) = &data.path else {
             return Ok(());
         };
+        if !within_reach(path.bounds()) {
+            return Ok(());
+        }
 
         // Record the drawn region so `render_to_bitmaps` crops and clears only
         // this shape's bounds instead of scanning/clearing the whole frame per
@@ -98,7 +102,7 @@ impl super::SoftwareBackend {
                     stroke.color[3],
                 );
                 let sk_stroke = tiny_skia::Stroke {
-                    width: stroke.width,
+                    width: stroke.width.min(REACH),
                     ..Default::default()
                 };
                 self.pixmap.stroke_path(
@@ -121,7 +125,7 @@ impl super::SoftwareBackend {
         let mut parts = vec![(path.clone(), data.color)];
         if let Some(stroke) = &data.stroke {
             let sk_stroke = tiny_skia::Stroke {
-                width: stroke.width,
+                width: stroke.width.min(REACH),
                 ..Default::default()
             };
             if let Some(outline) = path.stroke(&sk_stroke, 1.0) {
@@ -136,7 +140,10 @@ impl super::SoftwareBackend {
         );
         let sigma = data.blur * (2.0 / 256.0_f32.ln().sqrt());
         let drawn = screen.and_then(|screen| blurred(&parts, pad, sigma, screen));
-        if let Some(drawn) = drawn {
+        let on_screen = |b: &crate::backends::blur::Blurred| {
+            b.x < self.pixmap.width() as i32 && b.y < self.pixmap.height() as i32
+        };
+        if let Some(drawn) = drawn.filter(on_screen) {
             self.pixmap.draw_pixmap(
                 drawn.x,
                 drawn.y,
@@ -165,6 +172,8 @@ impl super::SoftwareBackend {
         let height = self.pixmap.height();
         let mut mask = tiny_skia::Mask::new(width, height)?;
         let mut builder = tiny_skia::PathBuilder::new();
+        let (x1, x2) = (near(x1, width), near(x2, width));
+        let (y1, y2) = (near(y1, height), near(y2, height));
         builder.move_to(x1, y1);
         builder.line_to(x2, y1);
         builder.line_to(x2, y2);
-- 
2.43.0


From 5b978d03be5410e296874edb9533717a0d53c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 098/115] fix: place far-off blurred tiles without overflow,
 and blur huge parts coarsely

---
 crates/ass-renderer/src/backends/blur.rs             |  6 +++---
 .../src/backends/software/cache/blur_tile.rs         | 12 +++++++++---
 .../src/backends/software/cache/coverage.rs          |  6 +++++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index ad2b57f..68b4355 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -9,7 +9,7 @@ use tiny_skia::{Path, Pixmap, Rect, Transform};
 use crate::backends::geometry::union;
 
 /// The most pixels a blurred bitmap may have before it is cut to what can be seen.
-const LARGE: f32 = (4 << 20) as f32;
+const LARGE: f32 = (1 << 20) as f32;
 
 /// A blurred bitmap and where its top left corner goes.
 pub(crate) struct Blurred {
@@ -64,8 +64,8 @@ pub(crate) fn blurred(
         }
     }
     // A wide blur leaves no detail: a smaller picture holds all of it.
-    let shrink = if sigma > 32.0 {
-        (sigma / 16.0).floor()
+    let shrink = if sigma > 24.0 {
+        (sigma / 8.0).floor()
     } else {
         1.0
     };
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 64e1a91..c22976a 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -37,13 +37,16 @@ fn emit_cached(
     // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
     // tile rather than a separately rasterized one.
     if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
-        out.push(bitmap(tile, anchor_x + ox + dx, anchor_y + oy + dy, color));
+        let x = anchor_x.saturating_add(*ox).saturating_add(dx);
+        let y = anchor_y.saturating_add(*oy).saturating_add(dy);
+        out.push(bitmap(tile, x, y, color));
     }
     if let (Some(color), Some((tile, ox, oy))) = (outline_color, &cached.outline) {
-        out.push(bitmap(tile, anchor_x + ox, anchor_y + oy, color));
+        let (x, y) = (anchor_x.saturating_add(*ox), anchor_y.saturating_add(*oy));
+        out.push(bitmap(tile, x, y, color));
     }
     if let Some((tile, ox, oy)) = &cached.fill {
-        let (x, y) = (anchor_x + ox, anchor_y + oy);
+        let (x, y) = (anchor_x.saturating_add(*ox), anchor_y.saturating_add(*oy));
         match karaoke_sweep {
             // Swept `\K`/`\kf`: not-yet-sung syllables are wholly secondary,
             // fully-sung wholly primary (both reuse the shared tile, no copy);
@@ -216,6 +219,9 @@ impl super::super::SoftwareBackend {
             return;
         }
 
+        if x >= self.pixmap.width() as i32 || y >= self.pixmap.height() as i32 {
+            return;
+        }
         if let Some(pixref) =
             tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
         {
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index bb1d44e..32d8ff9 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -5,6 +5,10 @@ use tiny_skia::Transform;
 
 use crate::backends::geometry::{merge_transformed, shadow_delta, stroke_outline};
 
+/// The most pixels a side of a tile worth caching may have.
+#[cfg(not(feature = "nostd"))]
+const LONGEST_TILE: f32 = 16384.0;
+
 /// The most pixels, by the bounds of its path, of a tile worth caching.
 #[cfg(not(feature = "nostd"))]
 const LARGEST_TILE: f32 = (4 << 20) as f32;
@@ -31,7 +35,7 @@ fn rasterize_run_coverage(
     // the frame, which takes only what it shows.
     let too_large = |path: &tiny_skia::Path| {
         let b = path.bounds();
-        b.width() * b.height() > LARGEST_TILE
+        b.width().max(b.height()) > LONGEST_TILE || b.width() * b.height() > LARGEST_TILE
     };
     if merged.iter().chain(&outlined).any(too_large) {
         return None;
-- 
2.43.0


From a7d7a03c957006b52c3bfb9ed1933899fc9d8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 099/115] fix: read TertiaryColour and Actor columns as the
 ones they are older names of

---
 crates/ass-core/parser/sections/events/event_data.rs |  9 ++++++++-
 .../ass-core/parser/sections/events/static_parser.rs |  9 ++++++++-
 .../parser/sections/styles/parse_internal.rs         | 12 +++++++++++-
 crates/ass-core/parser/sections/styles/parse_line.rs | 12 +++++++++++-
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index 631d100..4fe6339 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -86,6 +86,13 @@ impl<'a> EventsParser<'a> {
                 .map_or("", |s| s.trim())
         };
 
+        // The column goes by two names
+        let name_column = if format.iter().any(|f| f.eq_ignore_ascii_case("Name")) {
+            "Name"
+        } else {
+            "Actor"
+        };
+
         let text = get_field("Text");
 
         // Calculate span for this event line
@@ -100,7 +107,7 @@ impl<'a> EventsParser<'a> {
             start: get_field("Start"),
             end: get_field("End"),
             style: get_field("Style"),
-            name: get_field("Name"),
+            name: get_field(name_column),
             margin_l: get_field("MarginL"),
             margin_r: get_field("MarginR"),
             margin_v: get_field("MarginV"),
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 2f80989..2390721 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -105,6 +105,13 @@ impl<'a> EventsParser<'a> {
                 .map_or("", |s| s.trim())
         };
 
+        // The column goes by two names
+        let name_column = if format.iter().any(|f| f.eq_ignore_ascii_case("Name")) {
+            "Name"
+        } else {
+            "Actor"
+        };
+
         // Create span for the event (caller will need to adjust this)
         let span = Span::new(0, 0, line_number, 1);
 
@@ -114,7 +121,7 @@ impl<'a> EventsParser<'a> {
             start: get_field("Start"),
             end: get_field("End"),
             style: get_field("Style"),
-            name: get_field("Name"),
+            name: get_field(name_column),
             margin_l: get_field("MarginL"),
             margin_r: get_field("MarginR"),
             margin_v: get_field("MarginV"),
diff --git a/crates/ass-core/parser/sections/styles/parse_internal.rs b/crates/ass-core/parser/sections/styles/parse_internal.rs
index 752a745..a428026 100644
--- a/crates/ass-core/parser/sections/styles/parse_internal.rs
+++ b/crates/ass-core/parser/sections/styles/parse_internal.rs
@@ -83,6 +83,16 @@ impl<'a> StylesParser<'a> {
                 .map_or("", |s| s.trim())
         };
 
+        // The column goes by two names
+        let outline_column = if format
+            .iter()
+            .any(|f| f.eq_ignore_ascii_case("OutlineColour"))
+        {
+            "OutlineColour"
+        } else {
+            "TertiaryColour"
+        };
+
         // Calculate span for this style line
         let full_line = self.current_line();
         let span = line_start.span_for(full_line.len());
@@ -94,7 +104,7 @@ impl<'a> StylesParser<'a> {
             fontsize: get_field("Fontsize"),
             primary_colour: get_field("PrimaryColour"),
             secondary_colour: get_field("SecondaryColour"),
-            outline_colour: get_field("OutlineColour"),
+            outline_colour: get_field(outline_column),
             back_colour: get_field("BackColour"),
             bold: get_field("Bold"),
             italic: get_field("Italic"),
diff --git a/crates/ass-core/parser/sections/styles/parse_line.rs b/crates/ass-core/parser/sections/styles/parse_line.rs
index b62cc8c..d310bf1 100644
--- a/crates/ass-core/parser/sections/styles/parse_line.rs
+++ b/crates/ass-core/parser/sections/styles/parse_line.rs
@@ -95,6 +95,16 @@ impl<'a> StylesParser<'a> {
                 .map_or("", |s| s.trim())
         };
 
+        // The column goes by two names
+        let outline_column = if format
+            .iter()
+            .any(|f| f.eq_ignore_ascii_case("OutlineColour"))
+        {
+            "OutlineColour"
+        } else {
+            "TertiaryColour"
+        };
+
         // Create span for the style (caller will need to adjust this)
         let span = Span::new(0, 0, line_number, 1);
 
@@ -105,7 +115,7 @@ impl<'a> StylesParser<'a> {
             fontsize: get_field("Fontsize"),
             primary_colour: get_field("PrimaryColour"),
             secondary_colour: get_field("SecondaryColour"),
-            outline_colour: get_field("OutlineColour"),
+            outline_colour: get_field(outline_column),
             back_colour: get_field("BackColour"),
             bold: get_field("Bold"),
             italic: get_field("Italic"),
-- 
2.43.0


From f44af6d39dd242f2ed62997de258b096e116960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 100/115] fix: let extensions reach the manager while it calls
 them, and leave no state behind for unknown ones

---
 crates/ass-editor/extensions/manager.rs       | 84 ++++++++++++++++++-
 .../ass-editor/extensions/manager_access.rs   | 10 +--
 .../ass-editor/extensions/manager_loading.rs  | 73 ++++++++--------
 3 files changed, 119 insertions(+), 48 deletions(-)

diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index ebc50b5..1f344fb 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -5,6 +5,8 @@
 
 use core::fmt;
 
+use crate::core::{EditorError, Result};
+
 #[cfg(feature = "std")]
 use crate::events::DocumentEvent;
 
@@ -18,17 +20,16 @@ use std::collections::HashMap;
 use alloc::collections::BTreeMap as HashMap;
 
 #[cfg(not(feature = "std"))]
-use alloc::{boxed::Box, string::String, vec::Vec};
+use alloc::{boxed::Box, format, string::String, vec::Vec};
 
 #[cfg(feature = "multi-thread")]
 use std::sync::Arc;
 
-#[cfg(not(feature = "multi-thread"))]
 use core::cell::RefCell;
 
 /// Extension manager with built-in thread safety
 #[cfg(feature = "multi-thread")]
-use parking_lot::Mutex;
+use parking_lot::{Mutex, ReentrantMutex};
 
 #[cfg(feature = "std")]
 use std::sync::mpsc::Sender;
@@ -40,11 +41,34 @@ pub type EventSender = Sender<DocumentEvent>;
 #[cfg(not(feature = "std"))]
 pub type EventSender = (); // No-op for no_std environments
 
+/// A loaded extension
+///
+/// Extensions are called without the manager locked, so that they can reach
+/// the manager through their context. Each has a lock of its own instead.
+#[cfg(feature = "multi-thread")]
+pub(super) type ExtensionSlot = Arc<ReentrantMutex<RefCell<Box<dyn EditorExtension>>>>;
+
+/// A loaded extension
+#[cfg(not(feature = "multi-thread"))]
+pub(super) type ExtensionSlot = RefCell<Box<dyn EditorExtension>>;
+
+/// Put an extension into the form it is stored in
+pub(super) fn extension_slot(extension: Box<dyn EditorExtension>) -> ExtensionSlot {
+    #[cfg(feature = "multi-thread")]
+    {
+        Arc::new(ReentrantMutex::new(RefCell::new(extension)))
+    }
+    #[cfg(not(feature = "multi-thread"))]
+    {
+        RefCell::new(extension)
+    }
+}
+
 /// Extension manager for loading and managing extensions
 /// Internal storage for ExtensionManager data
 pub(super) struct ExtensionManagerInner {
     /// Loaded extensions
-    pub(super) extensions: HashMap<String, Box<dyn EditorExtension>>,
+    pub(super) extensions: HashMap<String, ExtensionSlot>,
 
     /// Extension states
     pub(super) extension_states: HashMap<String, ExtensionState>,
@@ -156,6 +180,58 @@ impl ExtensionManager {
         let inner = self.inner.borrow();
         f(&inner)
     }
+
+    /// Helper method for calling an extension with the manager unlocked
+    #[cfg(feature = "multi-thread")]
+    pub(super) fn with_extension<F, R>(&self, extension_name: &str, f: F) -> Result<R>
+    where
+        F: FnOnce(&mut dyn EditorExtension) -> Result<R>,
+    {
+        let slot = self
+            .with_inner(|inner| inner.extensions.get(extension_name).cloned())
+            .ok_or_else(|| extension_not_found(extension_name))?;
+        let extension = slot.lock();
+        call_extension(extension_name, &extension, f)
+    }
+
+    /// Helper method for calling an extension
+    #[cfg(not(feature = "multi-thread"))]
+    pub(super) fn with_extension<F, R>(&self, extension_name: &str, f: F) -> Result<R>
+    where
+        F: FnOnce(&mut dyn EditorExtension) -> Result<R>,
+    {
+        self.with_inner(|inner| {
+            let extension = inner
+                .extensions
+                .get(extension_name)
+                .ok_or_else(|| extension_not_found(extension_name))?;
+            call_extension(extension_name, extension, f)
+        })
+    }
+}
+
+/// Call an extension, unless the call comes from the extension itself
+fn call_extension<F, R>(
+    extension_name: &str,
+    extension: &RefCell<Box<dyn EditorExtension>>,
+    f: F,
+) -> Result<R>
+where
+    F: FnOnce(&mut dyn EditorExtension) -> Result<R>,
+{
+    match extension.try_borrow_mut() {
+        Ok(mut extension) => f(&mut **extension),
+        Err(_) => Err(EditorError::CommandFailed {
+            message: format!("Extension '{extension_name}' is busy"),
+        }),
+    }
+}
+
+/// The error for an extension that is not loaded
+pub(super) fn extension_not_found(extension_name: &str) -> EditorError {
+    EditorError::CommandFailed {
+        message: format!("Extension '{extension_name}' not found"),
+    }
 }
 
 impl Default for ExtensionManager {
diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..4101cbf 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -32,14 +32,8 @@ impl ExtensionManager {
                 message: format!("Command '{command_id}' not found"),
             })?;
 
-        self.with_inner_mut(|inner| {
-            if let Some(extension) = inner.extensions.get_mut(&extension_name) {
-                extension.execute_command(command_id, args, context)
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+        self.with_extension(&extension_name, |extension| {
+            extension.execute_command(command_id, args, context)
         })
     }
 
diff --git a/crates/ass-editor/extensions/manager_loading.rs b/crates/ass-editor/extensions/manager_loading.rs
index 2dd6d56..167c0aa 100644
--- a/crates/ass-editor/extensions/manager_loading.rs
+++ b/crates/ass-editor/extensions/manager_loading.rs
@@ -8,7 +8,7 @@ use crate::core::Result;
 use super::command::ExtensionState;
 use super::context::ExtensionContext;
 use super::extension::EditorExtension;
-use super::manager::ExtensionManager;
+use super::manager::{extension_not_found, extension_slot, ExtensionManager};
 
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, format, string::ToString};
@@ -39,7 +39,9 @@ impl ExtensionManager {
                 });
             }
 
-            inner.extensions.insert(extension_name.clone(), extension);
+            inner
+                .extensions
+                .insert(extension_name.clone(), extension_slot(extension));
             inner
                 .extension_states
                 .insert(extension_name.clone(), ExtensionState::Uninitialized);
@@ -53,40 +55,34 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::Initializing);
+        if !self.set_extension_state(extension_name, ExtensionState::Initializing) {
+            return Err(extension_not_found(extension_name));
+        }
 
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                match extension.initialize(context) {
-                    Ok(()) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Active);
+        let commands = self.with_extension(extension_name, |extension| {
+            extension.initialize(context)?;
+            Ok(extension.commands())
+        });
 
-                        // Register commands
-                        for command in extension.commands() {
+        match commands {
+            Ok(commands) => {
+                if self.set_extension_state(extension_name, ExtensionState::Active) {
+                    // Register commands
+                    self.with_inner_mut(|inner| {
+                        for command in commands {
                             inner
                                 .commands
                                 .insert(command.id.clone(), (extension_name.to_string(), command));
                         }
-
-                        Ok(())
-                    }
-                    Err(e) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Error);
-                        Err(e)
-                    }
+                    });
                 }
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
+                Ok(())
             }
-        })
+            Err(e) => {
+                self.set_extension_state(extension_name, ExtensionState::Error);
+                Err(e)
+            }
+        }
     }
 
     /// Unload an extension
@@ -121,18 +117,23 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::ShuttingDown);
+        if self.set_extension_state(extension_name, ExtensionState::ShuttingDown) {
+            self.with_extension(extension_name, |extension| extension.shutdown(context))?;
+            self.set_extension_state(extension_name, ExtensionState::Shutdown);
+        }
+        Ok(())
+    }
 
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                extension.shutdown(context)?;
+    /// Set the state of a loaded extension, telling whether there is such an extension
+    fn set_extension_state(&mut self, extension_name: &str, state: ExtensionState) -> bool {
+        self.with_inner_mut(|inner| {
+            let loaded = inner.extensions.contains_key(extension_name);
+            if loaded {
                 inner
                     .extension_states
-                    .insert(extension_name.to_string(), ExtensionState::Shutdown);
+                    .insert(extension_name.to_string(), state);
             }
-            Ok(())
+            loaded
         })
     }
 }
-- 
2.43.0


From ed0a194aab7274e04d9ca0f402f9b3031dcd41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 101/115] fix: highlight the present text, with ranges that
 account for carriage returns and blanks after Style:

---
 .../builtin/syntax_highlight/document.rs          | 15 ++++++++++-----
 .../builtin/syntax_highlight/editor_ext.rs        |  3 +++
 .../builtin/syntax_highlight/extension.rs         |  4 ++--
 .../builtin/syntax_highlight/sections.rs          |  5 +++--
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index e210733..5cc2f0a 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -13,15 +13,19 @@ impl SyntaxHighlightExtension {
         let doc_id = document.id();
 
         // Check cache
-        if let Some(cached_tokens) = self.token_cache.get(doc_id) {
-            return Ok(cached_tokens.clone());
+        if let Some((cached_content, cached_tokens)) = self.token_cache.get(doc_id) {
+            if *cached_content == content {
+                return Ok(cached_tokens.clone());
+            }
         }
 
         let mut tokens = Vec::new();
         let mut current_section = None;
         let mut line_start = 0;
 
-        for line in content.lines() {
+        for full_line in content.split_inclusive('\n') {
+            let line = full_line.strip_suffix('\n').unwrap_or(full_line);
+            let line = line.strip_suffix('\r').unwrap_or(line);
             let line_range = Range::new(
                 Position::new(line_start),
                 Position::new(line_start + line.len()),
@@ -75,7 +79,7 @@ impl SyntaxHighlightExtension {
                 }
             }
 
-            line_start += line.len() + 1; // +1 for newline
+            line_start += full_line.len();
 
             // Check token limit
             if self.config.max_tokens > 0 && tokens.len() >= self.config.max_tokens {
@@ -84,7 +88,8 @@ impl SyntaxHighlightExtension {
         }
 
         // Cache the tokens
-        self.token_cache.insert(doc_id.to_string(), tokens.clone());
+        self.token_cache
+            .insert(doc_id.to_string(), (content, tokens.clone()));
 
         Ok(tokens)
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
index a96d08a..0593497 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
@@ -42,6 +42,9 @@ impl EditorExtension for SyntaxHighlightExtension {
             }
         }
 
+        // Tokens cached under another configuration are of no use
+        self.clear_cache();
+
         context.show_message("Syntax highlighting initialized", MessageLevel::Info)?;
         Ok(())
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
index b5d76f3..09d58d5 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
@@ -16,8 +16,8 @@ use std::collections::HashMap;
 pub struct SyntaxHighlightExtension {
     pub(super) info: ExtensionInfo,
     pub(super) state: ExtensionState,
-    /// Cached tokens for performance
-    pub(super) token_cache: HashMap<String, Vec<HighlightToken>>,
+    /// Cached tokens for performance, by document, with the text they belong to
+    pub(super) token_cache: HashMap<String, (String, Vec<HighlightToken>)>,
     /// Configuration
     pub(super) config: SyntaxHighlightConfig,
 }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
index ba1242a..88efe1f 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
@@ -84,8 +84,9 @@ impl SyntaxHighlightExtension {
         });
 
         // Parse style fields
-        let fields = line[6..].trim_start().split(',');
-        let mut field_start = line_start + 6;
+        let values = line[6..].trim_start();
+        let fields = values.split(',');
+        let mut field_start = line_start + line.len() - values.len();
 
         for (i, field) in fields.enumerate() {
             let field_len = field.len();
-- 
2.43.0


From 7c22fc867fd5d78a3a2915b2ca7cc4a389436773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 102/115] fix: complete at any cursor position, after line
 breaks of any kind and just inside a block

---
 .../extensions/builtin/auto_complete/completions.rs |  2 +-
 .../extensions/builtin/auto_complete/context.rs     | 13 ++++++++++---
 .../extensions/builtin/auto_complete/tags.rs        | 10 +---------
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index 018e0f8..b95fcf8 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -25,7 +25,7 @@ impl AutoCompleteExtension {
         ];
 
         let prefix = if context.line.starts_with('[') {
-            &context.line[1..context.column.min(context.line.len())]
+            context.line.get(1..context.column).unwrap_or("")
         } else {
             ""
         };
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/context.rs b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
index f5e67bb..c5191fe 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/context.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
@@ -5,7 +5,7 @@
 
 use super::extension::AutoCompleteExtension;
 use super::types::CompletionContext;
-use crate::core::{EditorDocument, Position, Result};
+use crate::core::{EditorDocument, EditorError, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -19,6 +19,12 @@ impl AutoCompleteExtension {
     ) -> Result<CompletionContext> {
         let content = document.text();
         let offset = position.offset;
+        if !content.is_char_boundary(offset) {
+            return Err(EditorError::PositionOutOfBounds {
+                position: offset,
+                length: content.len(),
+            });
+        }
 
         // Find current line
         let line_start = content[..offset].rfind('\n').map(|p| p + 1).unwrap_or(0);
@@ -27,8 +33,9 @@ impl AutoCompleteExtension {
             .map(|p| offset + p)
             .unwrap_or(content.len());
 
-        let line = content[line_start..line_end].to_string();
-        let column = offset - line_start;
+        let line = &content[line_start..line_end];
+        let line = line.strip_suffix('\r').unwrap_or(line).to_string();
+        let column = (offset - line_start).min(line.len());
 
         // Find current section
         let mut current_section = None;
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
index 6e8522a..f50ef0d 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
@@ -61,15 +61,7 @@ impl AutoCompleteExtension {
             ("\\pbo", "Baseline offset", "\\pbo0"),
         ];
 
-        let prefix = if let Some(ref tag) = context.current_tag {
-            tag
-        } else {
-            // Look for backslash prefix
-            context.line[..context.column]
-                .rfind('\\')
-                .map(|pos| &context.line[pos + 1..context.column])
-                .unwrap_or("")
-        };
+        let prefix = context.current_tag.as_deref().unwrap_or("");
 
         tags.into_iter()
             .filter(|(name, _, _)| {
-- 
2.43.0


From af5e40c950f37bf1566eb9d42778bb9fe09479af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 103/115] fix: commands that delete events or embed files
 report all the text they changed

---
 crates/ass-editor/commands/event_commands/batch_delete.rs  | 7 ++-----
 .../commands/fonts_graphics_commands/embedded.rs           | 5 +++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 757d916..8b28337 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -3,7 +3,7 @@
 use super::helpers::event_rows;
 use crate::commands::rows;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
@@ -43,10 +43,7 @@ impl EditorCommand for BatchDeleteEventsCommand {
             .collect();
 
         match rows::edit(document, &content, edits)? {
-            Some(range) => Ok(CommandResult::success_with_change(
-                Range::new(range.start, range.start),
-                range.start,
-            )),
+            Some(range) => Ok(CommandResult::success_with_change(range, range.start)),
             None => Ok(CommandResult::success()),
         }
     }
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
index 2915b11..414187e 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
@@ -66,6 +66,8 @@ pub(super) fn entries(content: &str, kind: Kind) -> Option<Vec<Entry<'_>>> {
 }
 
 /// Add an entry at the end of the section, which is created if needed
+///
+/// Returns the range of all the text that was added.
 pub(super) fn add(
     document: &mut EditorDocument,
     kind: Kind,
@@ -93,7 +95,6 @@ pub(super) fn add(
         }
     };
 
-    let entry_start = text.len();
     text.push_str(&format!("{} {filename}{line_break}", kind.key));
     for line in data_lines {
         text.push_str(line);
@@ -102,7 +103,7 @@ pub(super) fn add(
 
     document.insert(Position::new(pos), &text)?;
     Ok(Range::new(
-        Position::new(pos + entry_start),
+        Position::new(pos),
         Position::new(pos + text.len()),
     ))
 }
-- 
2.43.0


From dff784a18d4c2b3bc27256eeff8cd588a0ff8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 104/115] fix: place drawings by \pos and \move like text when
 a layout resolution is given

---
 .../src/pipeline/build/drawing.rs             | 29 +++----------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index cb79375..ad7fdeb 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -13,8 +13,8 @@ use super::{
     OwnedStyle,
 };
 use crate::pipeline::{
-    animation::calculate_move_progress, drawing::process_drawing_commands,
-    text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
+    drawing::process_drawing_commands, text_segmenter::TextSegment, IntermediateLayer, StrokeInfo,
+    VectorData,
 };
 use crate::renderer::RenderContext;
 use crate::utils::RenderError;
@@ -95,29 +95,8 @@ impl super::SoftwarePipeline {
                 .unwrap_or(path);
 
             // Calculate position with proper scaling
-            let (x, y) = if let Some((px, py)) = placement.position {
-                // Scale from script coordinates to render coordinates
-                (px * scale_x, py * scale_y)
-            } else if let Some((x1, y1, x2, y2, t1, t2)) = placement.movement {
-                // Movement times are relative to event start
-                let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let event_end_cs = event.end_time_cs().unwrap_or(u32::MAX);
-
-                // If t1 and t2 are both 0, movement spans the entire event duration
-                let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
-                    (event_start_cs, event_end_cs)
-                } else {
-                    (
-                        event_start_cs.saturating_add(t1),
-                        event_start_cs.saturating_add(t2),
-                    )
-                };
-
-                let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
-                let x = x1 + (x2 - x1) * progress;
-                let y = y1 + (y2 - y1) * progress;
-                // Scale from script coordinates to render coordinates
-                (x * scale_x, y * scale_y)
+            let (x, y) = if placement.is_pinned() {
+                self.anchor_point(placement, event, context, time_cs)
             } else {
                 // Default center (in render coordinates)
                 (context.width() as f32 / 2.0, context.height() as f32 / 2.0)
-- 
2.43.0


From 4a3769f2d975987be9a09748ad1b591a12c60096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 105/115] fix: make every documented form of edit_event!
 compile

---
 .../commands/macros/event_macros.rs           | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/commands/macros/event_macros.rs b/crates/ass-editor/commands/macros/event_macros.rs
index 2144585..c59e69a 100644
--- a/crates/ass-editor/commands/macros/event_macros.rs
+++ b/crates/ass-editor/commands/macros/event_macros.rs
@@ -23,18 +23,24 @@
 #[macro_export]
 macro_rules! edit_event {
     // Simple text replacement: edit_event!(doc, index, "text")
-    ($doc:expr, $index:expr, $text:expr) => {
-        $doc.edit_event_by_index($index, $text)
+    ($doc:expr, $index:expr, $text:literal) => {
+        $doc.edit_event_by_index($index, |_| vec![("text", $text.to_string())])
     };
 
     // Multi-field edit: edit_event!(doc, index, field = value, ...)
-    ($doc:expr, $index:expr, $($field:ident = $value:expr),+ $(,)?) => {{
-        let mut builder = $crate::core::EventUpdateBuilder::new();
-        $(
-            builder = edit_event!(@field builder, $field, $value);
-        )+
-        $doc.edit_event_with_builder($index, builder)
-    }};
+    ($doc:expr, $index:expr, $($field:ident = $value:expr),+ $(,)?) => {
+        $doc.edit_event_with_builder($index, |builder| {
+            $(
+                let builder = $crate::edit_event!(@field builder, $field, $value);
+            )+
+            builder
+        })
+    };
+
+    // Field updates chosen by a closure: edit_event!(doc, index, |event| ...)
+    ($doc:expr, $index:expr, $modifier:expr) => {
+        $doc.edit_event_by_index($index, $modifier)
+    };
 
     // Internal helper for field assignments
     (@field $builder:expr, text, $value:expr) => {
-- 
2.43.0


From c819f009fd5222b7e34fe29b3cac3188b0e4afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 106/115] fix: inspect regions beyond the frame and average
 every scanned segment

---
 .../ass-renderer/src/debug/inspector/mod.rs   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/ass-renderer/src/debug/inspector/mod.rs b/crates/ass-renderer/src/debug/inspector/mod.rs
index 62c36d6..49b0469 100644
--- a/crates/ass-renderer/src/debug/inspector/mod.rs
+++ b/crates/ass-renderer/src/debug/inspector/mod.rs
@@ -39,21 +39,21 @@ impl FrameInspector {
 
     pub fn move_cursor(&mut self, dx: i32, dy: i32) {
         if let Some(ref frame) = self.frame {
-            let new_x = (self.cursor_x as i32 + dx)
-                .max(0)
-                .min(frame.width() as i32 - 1) as u32;
-            let new_y = (self.cursor_y as i32 + dy)
-                .max(0)
-                .min(frame.height() as i32 - 1) as u32;
-            self.cursor_x = new_x;
-            self.cursor_y = new_y;
+            self.cursor_x = self
+                .cursor_x
+                .saturating_add_signed(dx)
+                .min(frame.width().saturating_sub(1));
+            self.cursor_y = self
+                .cursor_y
+                .saturating_add_signed(dy)
+                .min(frame.height().saturating_sub(1));
         }
     }
 
     pub fn set_cursor(&mut self, x: u32, y: u32) {
         if let Some(ref frame) = self.frame {
-            self.cursor_x = x.min(frame.width() - 1);
-            self.cursor_y = y.min(frame.height() - 1);
+            self.cursor_x = x.min(frame.width().saturating_sub(1));
+            self.cursor_y = y.min(frame.height().saturating_sub(1));
         }
     }
 
@@ -94,8 +94,8 @@ impl FrameInspector {
         let mut pixels = Vec::new();
         let mut histogram = ColorHistogram::new();
 
-        let x_end = (x + width).min(frame.width());
-        let y_end = (y + height).min(frame.height());
+        let x_end = x.saturating_add(width).min(frame.width());
+        let y_end = y.saturating_add(height).min(frame.height());
 
         for py in y..y_end {
             for px in x..x_end {
@@ -109,8 +109,8 @@ impl FrameInspector {
         RegionInfo {
             x,
             y,
-            width: x_end - x,
-            height: y_end - y,
+            width: x_end.saturating_sub(x),
+            height: y_end.saturating_sub(y),
             pixels,
             histogram,
         }
@@ -176,7 +176,8 @@ impl FrameInspector {
                             seg.pixels.push(pixel);
                         }
                         _ => {
-                            if let Some(seg) = current_segment.take() {
+                            if let Some(mut seg) = current_segment.take() {
+                                seg.calculate_average();
                                 segments.push(seg);
                             }
                             current_segment = Some(LineScanSegment {
@@ -188,7 +189,8 @@ impl FrameInspector {
                             });
                         }
                     }
-                } else if let Some(seg) = current_segment.take() {
+                } else if let Some(mut seg) = current_segment.take() {
+                    seg.calculate_average();
                     segments.push(seg);
                 }
             }
-- 
2.43.0


From 46a2c70438d928fccb865c0c682f06b4efe4a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 107/115] fix: render debug frames at the time given in
 milliseconds

---
 crates/ass-renderer/src/debug/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/debug/mod.rs b/crates/ass-renderer/src/debug/mod.rs
index ef191f1..a3158bb 100644
--- a/crates/ass-renderer/src/debug/mod.rs
+++ b/crates/ass-renderer/src/debug/mod.rs
@@ -102,7 +102,8 @@ impl DebugRenderer {
         let start = std::time::Instant::now();
 
         // Render the frame
-        let frame = self.inner.render_frame(script, time_ms)?;
+        // Convert milliseconds to centiseconds for the renderer
+        let frame = self.inner.render_frame(script, time_ms / 10)?;
 
         let render_time = start.elapsed().as_secs_f64() * 1000.0;
 
-- 
2.43.0


From c4642f62e954c5699cee9baac495e70f4c84c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 108/115] fix: keep the debug player's position when its speed
 changes and its times overflow

---
 crates/ass-renderer/src/debug/player/mod.rs      | 2 +-
 crates/ass-renderer/src/debug/player/playback.rs | 7 ++++---
 crates/ass-renderer/src/debug/player/render.rs   | 7 ++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/debug/player/mod.rs b/crates/ass-renderer/src/debug/player/mod.rs
index f838582..175f5b2 100644
--- a/crates/ass-renderer/src/debug/player/mod.rs
+++ b/crates/ass-renderer/src/debug/player/mod.rs
@@ -109,7 +109,7 @@ impl DebugPlayer {
                 for event in events.iter() {
                     event_count += 1;
                     if let Ok(end) = event.end_time_cs() {
-                        max_time = max_time.max(end * 10); // Convert centiseconds to milliseconds
+                        max_time = max_time.max(end.saturating_mul(10)); // Convert centiseconds to milliseconds
                     }
                 }
             }
diff --git a/crates/ass-renderer/src/debug/player/playback.rs b/crates/ass-renderer/src/debug/player/playback.rs
index 682b611..eb3f22c 100644
--- a/crates/ass-renderer/src/debug/player/playback.rs
+++ b/crates/ass-renderer/src/debug/player/playback.rs
@@ -75,7 +75,6 @@ impl super::DebugPlayer {
                 let elapsed = start.elapsed().as_secs_f32() * 1000.0 * self.playback_speed;
                 self.accumulated_time_ms += elapsed;
                 self.playback_start_instant = Some(Instant::now());
-                self.playback_start_time_ms = self.current_time_ms;
             }
         }
         self.playback_speed = speed.clamp(0.1, 10.0);
@@ -83,8 +82,10 @@ impl super::DebugPlayer {
     }
 
     pub fn step_forward(&mut self) {
-        self.current_time_ms =
-            (self.current_time_ms + self.frame_interval_ms).min(self.end_time_ms);
+        self.current_time_ms = self
+            .current_time_ms
+            .saturating_add(self.frame_interval_ms)
+            .min(self.end_time_ms);
         if self.is_playing {
             self.playback_start_instant = Some(Instant::now());
             self.playback_start_time_ms = self.current_time_ms;
diff --git a/crates/ass-renderer/src/debug/player/render.rs b/crates/ass-renderer/src/debug/player/render.rs
index dd1804b..442bbcc 100644
--- a/crates/ass-renderer/src/debug/player/render.rs
+++ b/crates/ass-renderer/src/debug/player/render.rs
@@ -47,7 +47,7 @@ impl super::DebugPlayer {
         let render_time = start.elapsed();
 
         // Cache the frame if enabled
-        if self.cache_enabled {
+        if self.cache_enabled && self.max_cache_size > 0 {
             let cache_key =
                 (self.current_time_ms / self.frame_interval_ms) * self.frame_interval_ms;
 
@@ -88,8 +88,9 @@ impl super::DebugPlayer {
         // Calculate the actual timeline position based on real elapsed time
         if let Some(start_instant) = self.playback_start_instant {
             let elapsed_ms = start_instant.elapsed().as_secs_f32() * 1000.0 * self.playback_speed;
-            self.current_time_ms =
-                self.playback_start_time_ms + (elapsed_ms + self.accumulated_time_ms) as u32;
+            self.current_time_ms = self
+                .playback_start_time_ms
+                .saturating_add((elapsed_ms + self.accumulated_time_ms) as u32);
 
             if self.current_time_ms >= self.end_time_ms {
                 if self.loop_playback {
-- 
2.43.0


From b15211e6d0002c83a3c8a14acd475a69719b2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 109/115] fix: draw text with the fonts its script brings, and
 no other script's

---
 crates/ass-renderer/src/backends/mod.rs       | 10 +-
 .../src/backends/software/cache/blur_tile.rs  |  2 +-
 .../src/backends/software/cache/coverage.rs   |  4 +-
 .../src/backends/software/cache/mod.rs        | 10 +-
 .../ass-renderer/src/backends/software/mod.rs | 32 +++++--
 .../src/backends/software/text/blur.rs        |  3 +-
 crates/ass-renderer/src/pipeline/build/mod.rs | 46 ++++++++-
 crates/ass-renderer/src/pipeline/build/run.rs | 11 ++-
 .../ass-renderer/src/pipeline/font_loader.rs  | 93 ++++++++++---------
 crates/ass-renderer/src/pipeline/mod.rs       | 10 +-
 .../src/pipeline/shaping/shape.rs             | 16 +++-
 crates/ass-renderer/src/renderer/mod.rs       | 13 ++-
 12 files changed, 180 insertions(+), 70 deletions(-)

diff --git a/crates/ass-renderer/src/backends/mod.rs b/crates/ass-renderer/src/backends/mod.rs
index d4b901b..7c3f798 100644
--- a/crates/ass-renderer/src/backends/mod.rs
+++ b/crates/ass-renderer/src/backends/mod.rs
@@ -5,9 +5,9 @@ use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, format, vec::Vec};
+use alloc::{boxed::Box, format, sync::Arc, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::{boxed::Box, vec::Vec};
+use std::{boxed::Box, sync::Arc, vec::Vec};
 
 #[cfg(feature = "software-backend")]
 pub mod blur;
@@ -57,6 +57,12 @@ pub trait RenderBackend: Send + Sync {
     /// Create a pipeline for this backend
     fn create_pipeline(&self) -> Result<Box<dyn Pipeline>, RenderError>;
 
+    /// Draw the layers to come with the fonts of a script: a number no other set
+    /// of fonts has and the database, or `None` for those of the system.
+    fn set_script_fonts(&mut self, fonts: Option<(usize, Arc<fontdb::Database>)>) {
+        let _ = fonts;
+    }
+
     /// Composite layers into final frame
     fn composite_layers(
         &mut self,
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index c22976a..d80376c 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -177,7 +177,7 @@ impl super::super::SoftwareBackend {
 
         let local = base_transform.post_translate(-data.x, -baseline_y);
         let fill = super::super::text::single_fill_color(data);
-        let key = super::blur_tile_key(data, radius, fill, local);
+        let key = super::blur_tile_key(data, self.fonts, radius, fill, local);
         let Some(tile) = super::BLUR_TILES.with(|c| c.borrow().get(&key).cloned()) else {
             return false;
         };
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 32d8ff9..de96f43 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -70,7 +70,7 @@ impl super::super::SoftwareBackend {
         baseline_y: f32,
     ) -> bool {
         let Some((key, outline, shadow, local, fill_color, karaoke_sweep)) =
-            super::coverage_key(data, base_transform, baseline_y)
+            super::coverage_key(data, self.fonts, base_transform, baseline_y)
         else {
             return false;
         };
@@ -110,7 +110,7 @@ impl super::super::SoftwareBackend {
         baseline_y: f32,
     ) -> bool {
         let Some((key, outline, shadow, local, fill_color, karaoke_sweep)) =
-            super::coverage_key(data, base_transform, baseline_y)
+            super::coverage_key(data, self.fonts, base_transform, baseline_y)
         else {
             return false;
         };
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 4564f33..f05f2e3 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -32,6 +32,7 @@ pub(super) use blur_tile::blur_tile_is_whole;
 struct RunCoverageKey {
     text: String,
     font: String,
+    fonts: usize,
     size: u32,
     spacing: u32,
     bold: bool,
@@ -52,6 +53,7 @@ struct RunCoverageKey {
 pub(super) struct BlurTileKey {
     pub(super) text: String,
     pub(super) font: String,
+    pub(super) fonts: usize,
     pub(super) size: u32,
     pub(super) spacing: u32,
     pub(super) bold: bool,
@@ -124,11 +126,12 @@ pub(super) fn transform_bits(transform: Transform) -> [u32; 6] {
     ]
 }
 
-/// Build the cache key of a text layer blurred by `radius`, its glyphs transformed
-/// by `local` and filled with `fill`.
+/// Build the cache key of a text layer in the fonts numbered `fonts`, blurred by
+/// `radius`, its glyphs transformed by `local` and filled with `fill`.
 #[cfg(not(feature = "nostd"))]
 pub(super) fn blur_tile_key(
     data: &crate::pipeline::TextData,
+    fonts: usize,
     radius: f32,
     fill: [u8; 4],
     local: Transform,
@@ -155,6 +158,7 @@ pub(super) fn blur_tile_key(
     BlurTileKey {
         text: data.text.clone(),
         font: data.font_family.clone(),
+        fonts,
         size: data.font_size.to_bits(),
         spacing: data.spacing.to_bits(),
         bold: has(|e| matches!(e, TextEffect::Bold)),
@@ -175,6 +179,7 @@ pub(super) fn blur_tile_key(
 #[allow(clippy::type_complexity)]
 fn coverage_key(
     data: &crate::pipeline::TextData,
+    fonts: usize,
     base_transform: Transform,
     baseline_y: f32,
 ) -> Option<(
@@ -238,6 +243,7 @@ fn coverage_key(
     let key = RunCoverageKey {
         text: data.text.clone(),
         font: data.font_family.clone(),
+        fonts,
         size: data.font_size.to_bits(),
         spacing: data.spacing.to_bits(),
         bold,
diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index 8e2a044..f9d4857 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -24,6 +24,8 @@ use dirty::{clear_region, crop_pixmap};
 pub struct SoftwareBackend {
     pixmap: Pixmap,
     font_database: Arc<fontdb::Database>,
+    /// Number of the script fonts in `font_database`, 0 for those of the system
+    fonts: usize,
     glyph_renderer: crate::pipeline::shaping::GlyphRenderer,
     /// Reused scratch pixmap into which a vector-path layer is rendered when
     /// collecting a bitmap list (`render_to_bitmaps`), then cropped to a tile.
@@ -39,13 +41,7 @@ impl SoftwareBackend {
         let pixmap =
             Pixmap::new(context.width(), context.height()).ok_or(RenderError::InvalidDimensions)?;
 
-        // Share the process-wide, lazily-loaded system font database. A fresh
-        // backend is built every frame, so re-scanning system fonts here (the old
-        // behaviour) dominated frame time; cloning the shared Arc is ~free.
-        #[cfg(not(feature = "nostd"))]
-        let font_database = crate::pipeline::font_loader::shared_system_fonts();
-        #[cfg(feature = "nostd")]
-        let font_database = Arc::new(fontdb::Database::new());
+        let font_database = Self::system_fonts();
 
         #[cfg(not(feature = "nostd"))]
         let scratch =
@@ -54,6 +50,7 @@ impl SoftwareBackend {
         Ok(Self {
             pixmap,
             font_database,
+            fonts: 0,
             glyph_renderer: crate::pipeline::shaping::GlyphRenderer::new(),
             #[cfg(not(feature = "nostd"))]
             scratch,
@@ -62,6 +59,17 @@ impl SoftwareBackend {
         })
     }
 
+    /// The fonts drawn with unless the script brings its own
+    fn system_fonts() -> Arc<fontdb::Database> {
+        // Share the process-wide, lazily-loaded system font database. A fresh
+        // backend is built every frame, so re-scanning system fonts here (the old
+        // behaviour) dominated frame time; cloning the shared Arc is ~free.
+        #[cfg(not(feature = "nostd"))]
+        return crate::pipeline::font_loader::shared_system_fonts();
+        #[cfg(feature = "nostd")]
+        Arc::new(fontdb::Database::new())
+    }
+
     /// Resize the backend pixmap
     pub fn resize(&mut self, width: u32, height: u32) -> Result<(), RenderError> {
         self.pixmap = Pixmap::new(width, height).ok_or(RenderError::InvalidDimensions)?;
@@ -166,6 +174,16 @@ impl RenderBackend for SoftwareBackend {
         Ok(Box::new(SoftwarePipeline::new()))
     }
 
+    fn set_script_fonts(&mut self, fonts: Option<(usize, Arc<fontdb::Database>)>) {
+        let number = fonts.as_ref().map_or(0, |(number, _)| *number);
+        if number != self.fonts {
+            self.fonts = number;
+            self.font_database = fonts.map_or_else(Self::system_fonts, |(_, database)| database);
+            // Its glyphs are those of the faces of the database before
+            self.glyph_renderer = crate::pipeline::shaping::GlyphRenderer::new();
+        }
+    }
+
     fn composite_layers(
         &mut self,
         layers: &[IntermediateLayer],
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index a7496a5..67e57a9 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -53,7 +53,8 @@ impl super::super::SoftwareBackend {
         // blur radius and baked colours (screen position and `\clip` are applied
         // at composite), so identical blurred glyphs reuse one bitmap. Projected
         // (`\frx`/`\fry`) outlines depend on more, so they are not cached.
-        let cache_key = (!run.projected).then(|| blur_tile_key(data, radius, fill, local));
+        let cache_key =
+            (!run.projected).then(|| blur_tile_key(data, self.fonts, radius, fill, local));
         let cached = cache_key
             .as_ref()
             .and_then(|k| BLUR_TILES.with(|c| c.borrow().get(k).cloned()));
diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index c47c9cd..af7549c 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -1,14 +1,17 @@
 //! Fixed software pipeline implementation with proper style resolution
 
 #[cfg(feature = "nostd")]
-use alloc::string::String;
+use alloc::{string::String, sync::Arc, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::string::String;
+use std::{string::String, sync::Arc, vec::Vec};
+
+use core::sync::atomic::{AtomicUsize, Ordering};
 
 use ahash::AHashMap;
+use ass_core::parser::Script;
 use fontdb::Database as FontDatabase;
 
-use crate::pipeline::shaping::GlyphRenderer;
+use crate::pipeline::{font_loader, shaping::GlyphRenderer};
 
 mod animation;
 mod drawing;
@@ -22,7 +25,13 @@ use style::OwnedStyle;
 /// Software rendering pipeline with proper style inheritance
 pub struct SoftwarePipeline {
     /// Font database for text rendering
-    font_database: FontDatabase,
+    font_database: Arc<FontDatabase>,
+    /// Fonts of the system
+    system_fonts: Arc<FontDatabase>,
+    /// Fonts the current script brings, as it spells them
+    font_sources: Vec<String>,
+    /// Number of the current script's fonts, if any of them could be loaded
+    script_fonts: Option<usize>,
     /// Glyph renderer
     #[allow(dead_code)] // Glyph rendering component - used in future rendering features
     glyph_renderer: GlyphRenderer,
@@ -64,9 +73,13 @@ impl SoftwarePipeline {
     pub fn new() -> Self {
         let mut font_database = FontDatabase::new();
         font_database.load_system_fonts();
+        let font_database = Arc::new(font_database);
 
         Self {
+            system_fonts: font_database.clone(),
             font_database,
+            font_sources: Vec::new(),
+            script_fonts: None,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(1920.0, 1080.0),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -87,9 +100,13 @@ impl SoftwarePipeline {
     pub fn with_dimensions(width: f32, height: f32) -> Self {
         let mut font_database = FontDatabase::new();
         font_database.load_system_fonts();
+        let font_database = Arc::new(font_database);
 
         Self {
+            system_fonts: font_database.clone(),
             font_database,
+            font_sources: Vec::new(),
+            script_fonts: None,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(width, height),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -106,6 +123,27 @@ impl SoftwarePipeline {
         }
     }
 
+    /// Put the fonts of a script over those of the system, in place of those of the
+    /// script before.
+    fn load_fonts(&mut self, script: &Script) {
+        static NUMBER: AtomicUsize = AtomicUsize::new(1);
+
+        let sources = font_loader::font_sources(script);
+        if sources == self.font_sources {
+            return;
+        }
+        self.font_sources = sources;
+        self.font_database = self.system_fonts.clone();
+        self.script_fonts = None;
+
+        let mut font_database = FontDatabase::clone(&self.system_fonts);
+        font_loader::load_script_fonts(script, &mut font_database);
+        if font_database.len() > self.system_fonts.len() {
+            self.font_database = Arc::new(font_database);
+            self.script_fonts = Some(NUMBER.fetch_add(1, Ordering::Relaxed));
+        }
+    }
+
     /// Set DPI scale factor (default is 0.9 for libass compatibility)
     /// Use 1.0 for 96 DPI, 0.9 for empirically matched libass rendering
     pub fn set_dpi_scale(&mut self, scale: f32) {
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index ef03d42..2bce6a5 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -1,9 +1,9 @@
 //! `Pipeline` trait implementation and per-event processing for the software pipeline.
 
 #[cfg(feature = "nostd")]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{string::ToString, sync::Arc, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::{string::ToString, vec::Vec};
+use std::{string::ToString, sync::Arc, vec::Vec};
 
 #[cfg(feature = "analysis-integration")]
 use ass_core::analysis::ScriptAnalysis;
@@ -66,7 +66,7 @@ impl Pipeline for super::SoftwarePipeline {
         #[cfg(not(feature = "analysis-integration"))] _analysis: Option<()>,
     ) -> Result<(), RenderError> {
         // Load embedded and referenced fonts from the script
-        super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+        self.load_fonts(script);
 
         // Clear and rebuild styles map
         self.styles_map.clear();
@@ -201,6 +201,11 @@ impl Pipeline for super::SoftwarePipeline {
         Ok(())
     }
 
+    fn script_fonts(&self) -> Option<(usize, Arc<fontdb::Database>)> {
+        self.script_fonts
+            .map(|number| (number, self.font_database.clone()))
+    }
+
     fn script(&self) -> Option<&Script<'_>> {
         None // We don't store the script reference directly
     }
diff --git a/crates/ass-renderer/src/pipeline/font_loader.rs b/crates/ass-renderer/src/pipeline/font_loader.rs
index c11cf44..c7ddcc1 100644
--- a/crates/ass-renderer/src/pipeline/font_loader.rs
+++ b/crates/ass-renderer/src/pipeline/font_loader.rs
@@ -1,5 +1,12 @@
 //! Font loading from ASS scripts including embedded fonts
 
+#[cfg(feature = "nostd")]
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
+
+use ass_core::parser::ast::{Font, Section};
 use ass_core::parser::Script;
 use fontdb::Database as FontDatabase;
 
@@ -44,56 +51,58 @@ pub fn shared_system_fonts() -> std::sync::Arc<FontDatabase> {
 
 /// Load embedded fonts from ASS script into font database
 pub fn load_embedded_fonts(script: &Script, font_database: &mut FontDatabase) {
-    // Check if the script has a Fonts section
-    if let Some(fonts) = script.sections().iter().find_map(|section| {
-        if let ass_core::parser::ast::Section::Fonts(fonts) = section {
-            Some(fonts)
-        } else {
-            None
-        }
-    }) {
-        // Process each embedded font
-        for font in fonts {
-            // Decode the UU-encoded font data
-            match font.decode_data() {
-                Ok(font_data) => {
-                    // Load the font into the database
-                    // fontdb's load_font_data takes ownership of the data
-                    font_database.load_font_data(font_data);
-                }
-                Err(_e) => {}
-            }
+    for font in embedded_fonts(script) {
+        // Decode the UU-encoded font data
+        if let Ok(font_data) = font.decode_data() {
+            // Load the font into the database
+            // fontdb's load_font_data takes ownership of the data
+            font_database.load_font_data(font_data);
         }
     }
 }
 
+/// The fonts embedded in every `[Fonts]` section of a script
+fn embedded_fonts<'s, 'a>(script: &'s Script<'a>) -> impl Iterator<Item = &'s Font<'a>> {
+    script.sections().iter().flat_map(|section| match section {
+        Section::Fonts(fonts) => fonts.as_slice(),
+        _ => &[],
+    })
+}
+
+/// The fields of a script's metadata that may name font files
+fn font_fields<'s, 'a>(script: &'s Script<'a>) -> impl Iterator<Item = &'s str> {
+    let info = script.sections().iter().find_map(|section| match section {
+        Section::ScriptInfo(info) => Some(info),
+        _ => None,
+    });
+    // Some scripts use "Font:" or "Fontname:" fields to specify external fonts
+    info.into_iter()
+        .flat_map(|info| &info.fields)
+        .filter(|(key, _)| key.to_lowercase().contains("font"))
+        .map(|(_, value)| value.trim())
+}
+
+/// All that `load_script_fonts` loads fonts from, as the script spells it
+pub(super) fn font_sources(script: &Script) -> Vec<String> {
+    embedded_fonts(script)
+        .flat_map(|font| core::iter::once("").chain(font.data_lines.iter().copied()))
+        .chain(font_fields(script))
+        .map(ToString::to_string)
+        .collect()
+}
+
 /// Load fonts from file paths specified in script metadata
 pub fn load_font_files(
-    script: &Script,
+    #[cfg_attr(feature = "nostd", allow(unused_variables))] script: &Script,
     #[cfg_attr(feature = "nostd", allow(unused_variables))] font_database: &mut FontDatabase,
 ) {
-    // Check Script Info section for font file references
-    if let Some(script_info) = script.sections().iter().find_map(|section| {
-        if let ass_core::parser::ast::Section::ScriptInfo(info) = section {
-            Some(info)
-        } else {
-            None
-        }
-    }) {
-        // Look for font file declarations in fields
-        for (key, value) in &script_info.fields {
-            // Some scripts use "Font:" or "Fontname:" fields to specify external fonts
-            if key.to_lowercase().contains("font") {
-                let _font_path = value.trim();
-
-                #[cfg(not(feature = "nostd"))]
-                {
-                    // Try to load as a file path if it exists
-                    let path = std::path::Path::new(_font_path);
-                    if path.exists() && path.is_file() {
-                        let _ = font_database.load_font_file(path);
-                    }
-                }
+    #[cfg(not(feature = "nostd"))]
+    for font_path in font_fields(script) {
+        // Try to load as a file path if it exists
+        let path = std::path::Path::new(font_path);
+        if path.is_file() {
+            if let Ok(font_data) = std::fs::read(path) {
+                font_database.load_font_data(font_data);
             }
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/mod.rs b/crates/ass-renderer/src/pipeline/mod.rs
index aec0dd1..a580cb7 100644
--- a/crates/ass-renderer/src/pipeline/mod.rs
+++ b/crates/ass-renderer/src/pipeline/mod.rs
@@ -8,9 +8,9 @@ use ass_core::parser::{Event, Script};
 use smallvec::SmallVec;
 
 #[cfg(feature = "nostd")]
-use alloc::{string::String, vec::Vec};
+use alloc::{string::String, sync::Arc, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::{string::String, vec::Vec};
+use std::{string::String, sync::Arc, vec::Vec};
 
 pub mod animation;
 pub mod compositing;
@@ -35,6 +35,12 @@ pub trait Pipeline: Send + Sync {
         #[cfg(not(feature = "analysis-integration"))] _analysis: Option<()>,
     ) -> Result<(), RenderError>;
 
+    /// The fonts of the prepared script and of the system, under a number no other
+    /// set of fonts has; `None` if the script brings none of its own.
+    fn script_fonts(&self) -> Option<(usize, Arc<fontdb::Database>)> {
+        None
+    }
+
     /// Get the current script
     fn script(&self) -> Option<&Script<'_>>;
 
diff --git a/crates/ass-renderer/src/pipeline/shaping/shape.rs b/crates/ass-renderer/src/pipeline/shaping/shape.rs
index ecd26d8..d3ff10c 100644
--- a/crates/ass-renderer/src/pipeline/shaping/shape.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/shape.rs
@@ -29,7 +29,8 @@ pub fn shape_text(
 /// and the backend re-shapes for rasterization — and across frames for content
 /// whose glyphs do not change (e.g. transform-animated or karaoke text). The
 /// shaped result depends only on the font outlines, so it is valid across the
-/// pipeline's and backend's (equivalent) system-font databases.
+/// pipeline's and backend's (equivalent) system-font databases. A database that
+/// also holds fonts of a script's own is not: its text is shaped anew.
 pub fn shape_text_cached(
     text: &str,
     font_family: &str,
@@ -42,6 +43,19 @@ pub fn shape_text_cached(
     {
         use std::cell::RefCell;
         use std::collections::HashMap;
+        if font_database
+            .faces()
+            .any(|face| matches!(face.source, fontdb::Source::Binary(_)))
+        {
+            return shape_text_with_style(
+                text,
+                font_family,
+                font_size,
+                bold,
+                italic,
+                font_database,
+            );
+        }
         // (text, font family, font size bits, bold, italic)
         type ShapeCacheKey = (String, String, u32, bool, bool);
         thread_local! {
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index c5eabcf..5ad88f1 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -125,7 +125,7 @@ impl Renderer {
         // The pipeline does not consume a ScriptAnalysis, so it is not computed
         // here — analysing the whole script every frame was pathologically slow on
         // large files (tens of seconds for a full episode).
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
@@ -172,7 +172,7 @@ impl Renderer {
             return Ok(Vec::new());
         }
 
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
@@ -180,6 +180,13 @@ impl Renderer {
             .render_layers_to_bitmaps(&layers, &self.context)
     }
 
+    /// Prepare the pipeline and the backend for a script
+    fn prepare(&mut self, script: &Script) -> Result<(), RenderError> {
+        self.pipeline.prepare_script(script, None)?;
+        self.backend.set_script_fonts(self.pipeline.script_fonts());
+        Ok(())
+    }
+
     /// Whether an event's text carries a time-dependent override (`\t`, `\move`,
     /// karaoke `\k`/`\K`, or `\fad`), meaning its output changes between frames
     /// and must not be served from the static frame cache.
@@ -242,7 +249,7 @@ impl Renderer {
             return Ok(previous_frame.with_timestamp(time_cs));
         }
 
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
-- 
2.43.0


From 3b86793c46168fc6d492ef2480fec45db369f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 110/115] fix: apply script deltas where the sections are and
 undo them exactly

---
 .../ass-editor/core/document/delta_apply.rs   | 176 +++++++-----------
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------
 crates/ass-editor/core/document/mod.rs        |   2 -
 crates/ass-editor/core/document/undo_redo.rs  |   2 +-
 4 files changed, 67 insertions(+), 232 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..1b2f434 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -5,148 +5,104 @@
 //! revalidating the result.
 
 use super::EditorDocument;
-use crate::commands::CommandResult;
+use crate::commands::{rows, CommandResult};
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
 use ass_core::parser::script::ScriptDeltaOwned;
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use alloc::string::{String, ToString};
 
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         use crate::core::history::Operation;
 
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        let old_text = self.text();
+        self.apply_script_delta_internal(&delta)?;
+        let new_text = self.text();
 
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
+        let end = Position::new(new_text.len());
+        let result = CommandResult::success_with_change(Range::new(Position::new(0), end), end);
 
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
+        // Record the texts: sections alone do not say where they were
+        let operation = Operation::Replace {
+            range: Range::new(Position::new(0), Position::new(old_text.len())),
+            old_text,
+            new_text,
         };
 
-        let result = CommandResult::success();
         self.history
             .record_operation(operation, "Apply delta".to_string(), &result);
+        self.validator.clear_cache();
 
         Ok(())
     }
 
     /// Apply a script delta for efficient incremental parsing (internal)
-    fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        // Parse the current script to get sections
-        let current_content = self.text();
-        let script = Script::parse(&current_content).map_err(EditorError::from)?;
-
-        // Apply removals first (in reverse order to maintain indices)
-        let mut removed_indices = delta.removed.clone();
-        removed_indices.sort_by(|a, b| b.cmp(a)); // Sort descending
-
-        for index in removed_indices {
-            if index < script.sections().len() {
-                // Find the section's text range and remove it
-                let section = &script.sections()[index];
-                let start_offset = self.find_section_start(section)?;
-                let end_offset = self.find_section_end(section)?;
-
-                self.delete_raw(Range::new(
-                    Position::new(start_offset),
-                    Position::new(end_offset),
-                ))?;
-            }
-        }
-
-        // Apply modifications
-        for (index, new_section_text) in delta.modified {
-            if index < script.sections().len() {
-                // Find the section's text range
-                let section = &script.sections()[index];
-                let start_offset = self.find_section_start(section)?;
-                let end_offset = self.find_section_end(section)?;
-
-                // Replace with new section text
-                self.replace_raw(
-                    Range::new(Position::new(start_offset), Position::new(end_offset)),
-                    &new_section_text,
-                )?;
-            }
-        }
-
-        // Apply additions
-        for section_text in delta.added {
-            // Add new sections at the end of the document
-            let end_pos = Position::new(self.len_bytes());
-
-            // Ensure proper newline before new section
-            if self.len_bytes() > 0 && !self.text().ends_with('\n') {
-                self.insert_raw(end_pos, "\n")?;
-            }
-
-            self.insert_raw(Position::new(self.len_bytes()), &section_text)?;
-
-            // Ensure trailing newline
-            if !section_text.ends_with('\n') {
-                self.insert_raw(Position::new(self.len_bytes()), "\n")?;
-            }
-        }
+    pub(super) fn apply_script_delta_internal(&mut self, delta: &ScriptDeltaOwned) -> Result<()> {
+        let content = self.text();
+        let new_text = apply_to_text(&content, delta);
 
         // Validate the result
-        let _ = Script::parse(&self.text()).map_err(EditorError::from)?;
+        let _ = Script::parse(&new_text).map_err(EditorError::from)?;
 
-        Ok(())
+        let whole = Range::new(Position::new(0), Position::new(content.len()));
+        self.replace_raw(whole, &new_text)
     }
+}
 
-    /// Find the start offset of a section in the document
-    fn find_section_start(&self, section: &Section) -> Result<usize> {
-        // Get the section header text
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the document
-        if let Some(pos) = self.text().find(header) {
-            Ok(pos)
+/// Text of the document with the sections of a delta in place
+fn apply_to_text(content: &str, delta: &ScriptDeltaOwned) -> String {
+    let sections = rows::sections(content);
+    let starts = sections.iter().map(|section| section.header.start);
+    let ends = starts.clone().skip(1).chain([content.len()]);
+
+    // The parser counts the sections it knows
+    let known = sections.iter().zip(starts.clone().zip(ends));
+    let known = known.filter(|(section, _)| {
+        matches!(
+            section.name,
+            "Script Info"
+                | "V4+ Styles"
+                | "V4 Styles"
+                | "V4++ Styles"
+                | "Events"
+                | "Fonts"
+                | "Graphics"
+        )
+    });
+
+    let mut result = String::with_capacity(content.len());
+    let mut pos = 0;
+    for (index, (_, (start, end))) in known.enumerate() {
+        let modified = delta.modified.iter().find(|(i, _)| *i == index);
+        if delta.removed.contains(&index) {
+            result.push_str(&content[pos..start]);
+        } else if let Some((_, section_text)) = modified {
+            result.push_str(&content[pos..start]);
+            result.push_str(section_text);
+            // A following section starts on a line of its own
+            if end < content.len() && !section_text.ends_with('\n') {
+                result.push('\n');
+            }
         } else {
-            Err(EditorError::SectionNotFound {
-                section: header.to_string(),
-            })
+            continue;
         }
+        pos = end;
     }
+    result.push_str(&content[pos..]);
 
-    /// Find the end offset of a section in the document
-    fn find_section_end(&self, section: &Section) -> Result<usize> {
-        let start = self.find_section_start(section)?;
-        let content = &self.text()[start..];
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let mut end_offset = content.len();
-        for header in &section_headers {
-            if let Some(pos) = content.find(header) {
-                if pos > 0 {
-                    end_offset = end_offset.min(pos);
-                }
-            }
+    // Add new sections at the end of the document
+    for section_text in &delta.added {
+        if !result.is_empty() && !result.ends_with('\n') {
+            result.push('\n');
+        }
+        result.push_str(section_text);
+        if !section_text.ends_with('\n') {
+            result.push('\n');
         }
-
-        Ok(start + end_offset)
     }
+    result
 }
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 86db7e2..5659787 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -23,8 +23,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 6a5a609..b0b7382 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -143,7 +143,7 @@ impl EditorDocument {
                     undo_data: _,
                 } => {
                     // Re-apply the delta
-                    self.apply_script_delta(forward.clone())?;
+                    self.apply_script_delta_internal(forward)?;
                     result.message = Some("Delta re-applied".to_string());
                 }
             }
-- 
2.43.0


From 46263ae9978d626dd42758af9c73872dcfcfc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 111/115] fix: scale event durations by the factor

---
 .../commands/event_commands/timing.rs         | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index f1bb8e6..d4c76d5 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -19,6 +19,7 @@ pub struct TimingAdjustCommand {
     pub event_indices: Vec<usize>, // Events to adjust (empty = all events)
     pub start_offset_cs: i32,      // Offset in centiseconds for start time
     pub end_offset_cs: i32,        // Offset in centiseconds for end time
+    pub duration_factor: Option<f64>, // Factor for the duration, before the offsets
     pub description: Option<String>,
 }
 
@@ -29,6 +30,7 @@ impl TimingAdjustCommand {
             event_indices,
             start_offset_cs,
             end_offset_cs,
+            duration_factor: None,
             description: None,
         }
     }
@@ -39,6 +41,7 @@ impl TimingAdjustCommand {
             event_indices: Vec::new(), // Empty means all events
             start_offset_cs,
             end_offset_cs,
+            duration_factor: None,
             description: None,
         }
     }
@@ -55,9 +58,10 @@ impl TimingAdjustCommand {
 
     /// Scale duration (multiply by factor)
     pub fn scale_duration(event_indices: Vec<usize>, factor: f64) -> Self {
-        // This is a simplified version - actual implementation would need to calculate per-event
-        let offset = (factor * 100.0) as i32 - 100; // Convert factor to centisecond offset
-        Self::new(event_indices, 0, offset)
+        Self {
+            duration_factor: Some(factor),
+            ..Self::new(event_indices, 0, 0)
+        }
     }
 
     /// Set a custom description for this command
@@ -90,6 +94,15 @@ impl EditorCommand for TimingAdjustCommand {
                 continue;
             };
 
+            // Scale the duration, rounded to the nearest centisecond
+            let end_cs = match self.duration_factor {
+                Some(factor) => {
+                    let duration = f64::from(end_cs.saturating_sub(start_cs)) * factor;
+                    start_cs.saturating_add((duration + 0.5) as u32)
+                }
+                None => end_cs,
+            };
+
             // Apply offsets
             let new_start_cs = start_cs
                 .saturating_add_signed(self.start_offset_cs)
-- 
2.43.0


From 6466f53a4e1de8f75d5510ff169efa34d3e51be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 112/115] fix: give documents made at the same time different
 ids

---
 crates/ass-editor/core/document/constructors.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/core/document/constructors.rs b/crates/ass-editor/core/document/constructors.rs
index e47a580..21bcd66 100644
--- a/crates/ass-editor/core/document/constructors.rs
+++ b/crates/ass-editor/core/document/constructors.rs
@@ -167,7 +167,11 @@ impl EditorDocument {
 
     /// Generate unique document ID
     fn generate_id() -> String {
-        // Simple ID generation - in production might use UUID
+        use core::sync::atomic::{AtomicU32, Ordering};
+        static COUNTER: AtomicU32 = AtomicU32::new(0);
+        let id = COUNTER.fetch_add(1, Ordering::Relaxed).wrapping_add(1);
+
+        // The counter tells apart the documents made at the same time
         #[cfg(feature = "std")]
         {
             use std::time::{SystemTime, UNIX_EPOCH};
@@ -175,13 +179,10 @@ impl EditorDocument {
                 .duration_since(UNIX_EPOCH)
                 .unwrap_or_default()
                 .as_nanos();
-            format!("doc_{timestamp}")
+            format!("doc_{timestamp}_{id}")
         }
         #[cfg(not(feature = "std"))]
         {
-            use core::sync::atomic::{AtomicU32, Ordering};
-            static COUNTER: AtomicU32 = AtomicU32::new(0);
-            let id = COUNTER.fetch_add(1, Ordering::Relaxed).wrapping_add(1);
             format!("doc_{id}")
         }
     }
-- 
2.43.0


From be6b26f27aea1c63c2b74f23aa12a92a0a423232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 113/115] fix: find the event text of an incremental edit where
 a plain edit finds it

---
 crates/ass-editor/core/document/ass_api.rs    | 25 +++++++++++--------
 .../core/document/incremental_parse.rs        |  6 +----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index abedb86..09cd35e 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -105,22 +105,27 @@ impl EditorDocument {
 
     /// Edit an event by finding and replacing text (simplified ASS-aware editing)
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
-        let content = self.text();
-
-        // Prefer the text of an event over other places that read the same
-        let script = rows::parse(&content)?;
-        let in_event = rows::events(&script).into_iter().find_map(|event| {
-            let text = rows::field_range(&content, event.text)?;
-            Some(text.start + event.text.find(old_text)?)
-        });
-        if let Some(pos) = in_event.or_else(|| content.find(old_text)) {
-            let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
+        if let Some(range) = self.find_event_range(old_text)? {
             self.replace(range, new_text)?;
         }
 
         Ok(())
     }
 
+    /// Where a text is found, preferring the text of an event over other
+    /// places that read the same
+    pub(super) fn find_event_range(&self, text: &str) -> Result<Option<Range>> {
+        let content = self.text();
+        let script = rows::parse(&content)?;
+        let in_event = rows::events(&script).into_iter().find_map(|event| {
+            let range = rows::field_range(&content, event.text)?;
+            Some(range.start + event.text.find(text)?)
+        });
+        Ok(in_event
+            .or_else(|| content.find(text))
+            .map(|pos| Range::new(Position::new(pos), Position::new(pos + text.len()))))
+    }
+
     /// Get script info field value by key
     pub fn get_script_info_field(&self, key: &str) -> Result<Option<String>> {
         self.parse_script_with(|script| {
diff --git a/crates/ass-editor/core/document/incremental_parse.rs b/crates/ass-editor/core/document/incremental_parse.rs
index 12e1720..b3b5697 100644
--- a/crates/ass-editor/core/document/incremental_parse.rs
+++ b/crates/ass-editor/core/document/incremental_parse.rs
@@ -11,8 +11,6 @@ use crate::core::position::Range;
 #[cfg(feature = "stream")]
 use crate::core::errors::EditorError;
 #[cfg(feature = "stream")]
-use crate::core::position::Position;
-#[cfg(feature = "stream")]
 use ass_core::parser::script::ScriptDeltaOwned;
 #[cfg(feature = "stream")]
 use ass_core::parser::Script;
@@ -52,9 +50,7 @@ impl EditorDocument {
         event_text: &str,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        let content = self.text();
-        if let Some(pos) = content.find(event_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + event_text.len()));
+        if let Some(range) = self.find_event_range(event_text)? {
             self.edit_incremental(range, new_text)
         } else {
             Err(EditorError::ValidationError {
-- 
2.43.0


From 8f2bf90216ecbcf2da5b81160d35bc88e4b29bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 114/115] fix: report where a batch changed the text after all
 its commands

---
 crates/ass-editor/commands/batch_command.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/commands/batch_command.rs b/crates/ass-editor/commands/batch_command.rs
index 29308bb..ebd1393 100644
--- a/crates/ass-editor/commands/batch_command.rs
+++ b/crates/ass-editor/commands/batch_command.rs
@@ -61,6 +61,7 @@ impl EditorCommand for BatchCommand {
         let mut last_cursor: Option<Position> = None;
 
         for command in &self.commands {
+            let length_before = document.len_bytes();
             let result = command.execute(document)?;
 
             if !result.success {
@@ -70,10 +71,17 @@ impl EditorCommand for BatchCommand {
                 )));
             }
 
-            // Track the overall range of changes
+            // Track the overall range of changes; what an earlier command
+            // changed moves with the text this one changed before it
             if let Some(range) = result.modified_range {
+                let length = document.len_bytes();
                 first_range = Some(match first_range {
-                    Some(existing) => existing.union(&range),
+                    Some(existing) => {
+                        let behind = length_before.saturating_sub(existing.end.offset);
+                        let moved = Position::new(length.saturating_sub(behind));
+                        let start = existing.start.offset.min(range.start.offset);
+                        Range::new(Position::new(start), range.end.max(moved))
+                    }
                     None => range,
                 });
             }
-- 
2.43.0


From bbc9ea75fcc99c42afdac7626295448fc8cb4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 115/115] fix: let the check of spans accept what the parser
 makes

---
 crates/ass-core/parser/ast/event/serialization.rs | 3 ++-
 crates/ass-core/parser/ast/media/font.rs          | 5 +++--
 crates/ass-core/parser/ast/media/graphic.rs       | 5 +++--
 crates/ass-core/parser/ast/script_info/info.rs    | 8 +++++---
 crates/ass-core/parser/ast/style/conversion.rs    | 3 ++-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index e2966a9..9d70f34 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -148,9 +148,10 @@ impl Event<'_> {
             self.text,
         ];
 
+        // An absent or empty field has no place in the source
         spans.iter().all(|span| {
             let ptr = span.as_ptr() as usize;
-            source_range.contains(&ptr)
+            span.is_empty() || source_range.contains(&ptr)
         })
     }
 }
diff --git a/crates/ass-core/parser/ast/media/font.rs b/crates/ass-core/parser/ast/media/font.rs
index 8631250..65e45f1 100644
--- a/crates/ass-core/parser/ast/media/font.rs
+++ b/crates/ass-core/parser/ast/media/font.rs
@@ -111,11 +111,12 @@ impl Font<'_> {
     #[must_use]
     pub fn validate_spans(&self, source_range: &Range<usize>) -> bool {
         let filename_ptr = self.filename.as_ptr() as usize;
-        let filename_valid = source_range.contains(&filename_ptr);
+        // An empty name has no place in the source
+        let filename_valid = self.filename.is_empty() || source_range.contains(&filename_ptr);
 
         let data_valid = self.data_lines.iter().all(|line| {
             let ptr = line.as_ptr() as usize;
-            source_range.contains(&ptr)
+            line.is_empty() || source_range.contains(&ptr)
         });
 
         filename_valid && data_valid
diff --git a/crates/ass-core/parser/ast/media/graphic.rs b/crates/ass-core/parser/ast/media/graphic.rs
index 2a16224..33832c7 100644
--- a/crates/ass-core/parser/ast/media/graphic.rs
+++ b/crates/ass-core/parser/ast/media/graphic.rs
@@ -99,11 +99,12 @@ impl Graphic<'_> {
     #[must_use]
     pub fn validate_spans(&self, source_range: &Range<usize>) -> bool {
         let filename_ptr = self.filename.as_ptr() as usize;
-        let filename_valid = source_range.contains(&filename_ptr);
+        // An empty name has no place in the source
+        let filename_valid = self.filename.is_empty() || source_range.contains(&filename_ptr);
 
         let data_valid = self.data_lines.iter().all(|line| {
             let ptr = line.as_ptr() as usize;
-            source_range.contains(&ptr)
+            line.is_empty() || source_range.contains(&ptr)
         });
 
         filename_valid && data_valid
diff --git a/crates/ass-core/parser/ast/script_info/info.rs b/crates/ass-core/parser/ast/script_info/info.rs
index c262ff7..5745c2b 100644
--- a/crates/ass-core/parser/ast/script_info/info.rs
+++ b/crates/ass-core/parser/ast/script_info/info.rs
@@ -171,10 +171,12 @@ impl<'a> ScriptInfo<'a> {
     #[cfg(debug_assertions)]
     #[must_use]
     pub fn validate_spans(&self, source_range: &Range<usize>) -> bool {
+        // An empty key or value has no place in the source
         self.fields.iter().all(|(key, value)| {
-            let key_ptr = key.as_ptr() as usize;
-            let value_ptr = value.as_ptr() as usize;
-            source_range.contains(&key_ptr) && source_range.contains(&value_ptr)
+            [key, value].iter().all(|span| {
+                let ptr = span.as_ptr() as usize;
+                span.is_empty() || source_range.contains(&ptr)
+            })
         })
     }
 }
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 67df48a..3be60ce 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -213,9 +213,10 @@ impl Style<'_> {
             self.encoding,
         ];
 
+        // An absent or empty field has no place in the source
         spans.iter().all(|span| {
             let ptr = span.as_ptr() as usize;
-            source_range.contains(&ptr)
+            span.is_empty() || source_range.contains(&ptr)
         })
     }
 }
-- 
2.43.0

