From 21db7ce84acff1f27c8ffd9850a881ae0b6a9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 01/32] fix: match no dictionary or mapping key across a NUL
 character

The double array marks the end of a key with NUL, so a NUL in the text was
followed like an end mark and a later key was reported as a match of the
text before it.
---
 lindera-core/src/prefix_dict.rs                | 10 +++++++++-
 lindera-filter/src/character_filter/mapping.rs |  3 ++-
 lindera-filter/src/token_filter/mapping.rs     |  3 ++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..519c7a2 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -32,10 +32,15 @@ impl PrefixDict<&[u8]> {
     }
 }
 
+fn until_nul(s: &str) -> &str {
+    s.split('\0').next().unwrap_or(s)
+}
+
 impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
+        // The double array ends its keys with NUL, so no key reaches beyond one.
         self.da
-            .common_prefix_search(s)
+            .common_prefix_search(until_nul(s))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
@@ -55,6 +60,9 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        if surface.contains('\0') {
+            return vec![];
+        }
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..f8f8440 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -84,7 +84,8 @@ impl CharacterFilter for MappingCharacterFilter {
             let suffix = &text[input_start..];
             match self
                 .trie
-                .common_prefix_search(suffix.as_bytes())
+                // The double array ends its keys with NUL, so no key reaches beyond one.
+                .common_prefix_search(suffix.split('\0').next().unwrap_or(suffix).as_bytes())
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..c39ffb4 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -79,7 +79,8 @@ impl TokenFilter for MappingTokenFilter {
                 let suffix = &token.text[start..];
                 match self
                     .trie
-                    .common_prefix_search(suffix.as_bytes())
+                    // The double array ends its keys with NUL, so no key reaches beyond one.
+                    .common_prefix_search(suffix.split('\0').next().unwrap_or(suffix).as_bytes())
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From fe5fb2b9980e66c3ec8ba21bb5694d92d28d886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 02/32] fix: keep each character category's own definition
 whatever the order in char.def

---
 lindera-core/src/character_definition.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..062fec2 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use byteorder::{ByteOrder, LittleEndian};
 use encoding_rs::UTF_16LE;
@@ -101,7 +101,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: BTreeMap<CategoryId, CategoryData>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -161,6 +161,12 @@ impl CharacterDefinitionsBuilder {
                 self.parse_category(line_str)?;
             }
         }
+        for (category_name, category_id) in &self.category_index {
+            if !self.category_definition.contains_key(category_id) {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("Undefined category: {}", category_name)));
+            }
+        }
         Ok(())
     }
 
@@ -221,9 +227,8 @@ impl CharacterDefinitionsBuilder {
             group,
             length,
         };
-        // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let category_id = self.category_id(fields[0]);
+        self.category_definition.insert(category_id, category_data);
 
         Ok(())
     }
@@ -237,7 +242,7 @@ impl CharacterDefinitionsBuilder {
         }
         let mapping = self.build_lookup_table();
         CharacterDefinitions {
-            category_definitions: self.category_definition,
+            category_definitions: self.category_definition.into_values().collect(),
             category_names,
             mapping,
         }
-- 
2.43.0


From 74f6d032dbe578ad898fa4fb50cb26df0c202afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 03/32] fix: read char.def code points as they are, byte order
 mark and surrogates included

---
 lindera-core/src/character_definition.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 062fec2..7af5e57 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,32 +1,17 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 
-use byteorder::{ByteOrder, LittleEndian};
-use encoding_rs::UTF_16LE;
 use serde::{Deserialize, Serialize};
 
 use crate::{error::LinderaErrorKind, LinderaResult};
 
 const DEFAULT_CATEGORY_NAME: &str = "DEFAULT";
 
-fn ucs2_to_unicode(ucs2_codepoint: u16) -> LinderaResult<u32> {
-    let mut buf = [0u8; 2];
-    LittleEndian::write_u16(&mut buf[..], ucs2_codepoint);
-
-    let s = UTF_16LE.decode(&buf[..]).0.into_owned();
-    let chrs: Vec<char> = s.chars().collect();
-
-    match chrs.len() {
-        1 => Ok(chrs[0] as u32),
-        _ => Err(LinderaErrorKind::Parse.with_error(anyhow::anyhow!("unusual char length"))),
-    }
-}
-
 fn parse_hex_codepoint(s: &str) -> LinderaResult<u32> {
     let removed_0x = s.trim_start_matches("0x");
     let ucs2_codepoint = u16::from_str_radix(removed_0x, 16)
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
-    ucs2_to_unicode(ucs2_codepoint)
+    Ok(u32::from(ucs2_codepoint))
 }
 
 #[derive(Serialize, Deserialize, Debug, Copy, Clone)]
-- 
2.43.0


From 15798315ec136e28b96cec7e6ef99c8d17696945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 04/32] fix: reject unknown-word ids and costs that do not fit

---
 lindera-core/src/unknown_dictionary.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..dd0f1d2 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -51,18 +51,18 @@ fn parse_dictionary_entry(
         )));
     }
     let surface = fields[0];
-    let left_id = u32::from_str(fields[1])
+    let left_id = u16::from_str(fields[1])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let right_id = u32::from_str(fields[2])
+    let right_id = u16::from_str(fields[2])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let word_cost = i32::from_str(fields[3])
+    let word_cost = i16::from_str(fields[3])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
     Ok(UnknownDictionaryEntry {
         surface: surface.to_string(),
-        left_id,
-        right_id,
-        word_cost,
+        left_id: u32::from(left_id),
+        right_id: u32::from(right_id),
+        word_cost: i32::from(word_cost),
     })
 }
 
-- 
2.43.0


From fc98a014d42009b87e075eaad362d0b2312adc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 05/32] fix: reject malformed lines in matrix.def instead of
 panicking or misplacing costs

---
 lindera-dictionary-builder/src/cost_matrix.rs | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..0088960 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,17 +43,33 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
-        let forward_size = header[0] as u32;
-        let backward_size = header[1] as u32;
-        let len = 2 + (forward_size * backward_size) as usize;
+        let malformed = || {
+            LinderaErrorKind::Content.with_error(anyhow::anyhow!("malformed line in matrix.def"))
+        };
+        let (forward_size, backward_size) = match header[..] {
+            [forward_size, backward_size, ..] => (
+                u16::try_from(forward_size).map_err(|_err| malformed())?,
+                u16::try_from(backward_size).map_err(|_err| malformed())?,
+            ),
+            _ => return Err(malformed()),
+        };
+        let len = 2 + forward_size as usize * backward_size as usize;
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
-            let forward_id = fields[0] as u32;
-            let backward_id = fields[1] as u32;
-            let cost = fields[2] as u16;
-            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
+            let (forward_id, backward_id, cost) = match fields[..] {
+                [forward_id, backward_id, cost, ..] => (
+                    u16::try_from(forward_id).map_err(|_err| malformed())?,
+                    u16::try_from(backward_id).map_err(|_err| malformed())?,
+                    i16::try_from(cost).map_err(|_err| malformed())?,
+                ),
+                _ => return Err(malformed()),
+            };
+            if forward_id >= forward_size || backward_id >= backward_size {
+                return Err(malformed());
+            }
+            costs[2 + backward_id as usize + forward_id as usize * backward_size as usize] = cost;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
-- 
2.43.0


From a7dda720b29a5eeade75f5fe70bb3fb75237483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 06/32] fix: read the matrix width as unsigned, so that more
 than 32767 context ids work

---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..3145887 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -11,7 +11,7 @@ pub struct ConnectionCostMatrix {
 
 impl ConnectionCostMatrix {
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -19,7 +19,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From ed3f23d9c8391c3df62578a1d5a776f1e382ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 07/32] fix: treat a missing cost or id column as unparsable
 instead of panicking

---
 lindera-dictionary-builder/src/dict.rs      | 6 +++---
 lindera-dictionary-builder/src/user_dict.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..7c0d66c 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,7 +120,7 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
-            let word_cost = match i16::from_str(row[3].trim()) {
+            let word_cost = match i16::from_str(row.get(3).unwrap_or("").trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -132,7 +132,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let left_id = match u16::from_str(row[1].trim()) {
+            let left_id = match u16::from_str(row.get(1).unwrap_or("").trim()) {
                 Ok(lid) => lid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
@@ -144,7 +144,7 @@ impl DictBuilder {
                     }
                 }
             };
-            let right_id = match u16::from_str(row[2].trim()) {
+            let right_id = match u16::from_str(row.get(2).unwrap_or("").trim()) {
                 Ok(rid) => rid,
                 Err(_err) => {
                     if self.skip_invalid_cost_or_id {
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..dd2ef4a 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -62,7 +62,7 @@ impl UserDictBuilder {
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
             } else {
-                row[3].parse::<i16>().map_err(|_err| {
+                row.get(3).unwrap_or("").parse::<i16>().map_err(|_err| {
                     LinderaErrorKind::Parse.with_error(anyhow::anyhow!("failed to parse word cost"))
                 })?
             };
@@ -70,11 +70,11 @@ impl UserDictBuilder {
                 (self.simple_context_id, self.simple_context_id)
             } else {
                 (
-                    row[1].parse::<u16>().map_err(|_err| {
+                    row.get(1).unwrap_or("").parse::<u16>().map_err(|_err| {
                         LinderaErrorKind::Parse
                             .with_error(anyhow::anyhow!("failed to parse left context id"))
                     })?,
-                    row[2].parse::<u16>().map_err(|_err| {
+                    row.get(2).unwrap_or("").parse::<u16>().map_err(|_err| {
                         LinderaErrorKind::Parse
                             .with_error(anyhow::anyhow!("failed to parse left context id"))
                     })?,
-- 
2.43.0


From 6e0ba0664b252c4394f90bc23b9dceb71524f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 08/32] fix: reject more homographs than an entry can count
 instead of corrupting the dictionary

---
 lindera-dictionary-builder/src/dict.rs      | 4 ++++
 lindera-dictionary-builder/src/user_dict.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 7c0d66c..2399a8a 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -227,6 +227,10 @@ impl DictBuilder {
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
             let len = word_entries.len() as u32;
+            if len >= 1 << 5 {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("too many words with the surface {}", key)));
+            }
             let val = (id << 5) | len; // 27bit for word ID, 5bit for different parts of speech on the same surface.
             keyset.push((key.as_bytes(), val));
             id += len;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index dd2ef4a..d8cbd9f 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -129,6 +129,10 @@ impl UserDictBuilder {
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
             let len = word_entries.len() as u32;
+            if len >= 1 << 5 {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("too many words with the surface {}", key)));
+            }
             let val = (id << 5) | len;
             keyset.push((key.as_bytes(), val));
             id += len;
-- 
2.43.0


From ea45ee18244552e45d0ea10af1a090ec538a09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 09/32] fix: build dictionaries from empty sources or NUL
 surfaces without panicking

---
 lindera-dictionary-builder/src/dict.rs      | 6 ++++++
 lindera-dictionary-builder/src/user_dict.rs | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 2399a8a..3549db6 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -224,6 +224,12 @@ impl DictBuilder {
 
         let mut id = 0u32;
 
+        if word_entry_map.is_empty() || word_entry_map.keys().any(|key| key.contains('\0')) {
+            return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                "dictionary without words, or with a NUL in a surface"
+            )));
+        }
+
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
             let len = word_entries.len() as u32;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d8cbd9f..27932f2 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -59,6 +59,10 @@ impl UserDictBuilder {
 
         for (row_id, row) in rows.iter().enumerate() {
             let surface = row[0].to_string();
+            if surface.contains('\0') {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("surface should not contain NUL")));
+            }
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
             } else {
@@ -137,6 +141,10 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        if keyset.is_empty() {
+            // the double array needs a key; this one has no words
+            keyset.push((b"", 0));
+        }
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From eca615b83c733c232555bc44637c17fd9d661471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 10/32] fix: report faulty ko-dic and CC-CEDICT sources as
 errors instead of panicking

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From 3f50e50ce2f22a6a25542498725d8b78d237d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 11/32] fix: reject a truncated matrix.mtx instead of panicking

---
 lindera-dictionary/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lindera-dictionary/src/lib.rs b/lindera-dictionary/src/lib.rs
index adbb391..12809fd 100644
--- a/lindera-dictionary/src/lib.rs
+++ b/lindera-dictionary/src/lib.rs
@@ -144,6 +144,14 @@ impl DictionaryLoader {
     pub fn connection(dir: PathBuf) -> LinderaResult<ConnectionCostMatrix> {
         let path = dir.join("matrix.mtx");
         let data = Self::read_file(path)?;
+        let size = |at: usize| match data.get(at..at + 2) {
+            Some(bytes) => usize::from(u16::from_le_bytes([bytes[0], bytes[1]])),
+            None => 0,
+        };
+        if data.len() < 4 || data.len() != 4 + 2 * size(0) * size(2) {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("matrix.mtx has a wrong size")));
+        }
 
         Ok(ConnectionCostMatrix::load(data.as_slice()))
     }
-- 
2.43.0


From 4dfe44c47ba85513fbdb50208eb5af1068e817a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 12/32] fix: load mapping filters with no entries, and reject
 NUL keys, without panicking

---
 lindera-filter/src/character_filter/mapping.rs | 8 ++++++++
 lindera-filter/src/token_filter/mapping.rs     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index f8f8440..a4050db 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -50,8 +50,16 @@ impl MappingCharacterFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key should not contain NUL")));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // the double array needs a key; the empty one never matches
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index c39ffb4..fb21fed 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -47,8 +47,16 @@ impl MappingTokenFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key should not contain NUL")));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // the double array needs a key; the empty one never matches
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
-- 
2.43.0


From 1ffb84a15cfc328e481facaca627755a8f8feef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 13/32] fix: compute regex filter offsets from the expanded
 replacement, empty matches included

---
 lindera-filter/src/character_filter/regex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..dffd0c0 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,11 +64,13 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
+        self.regex.captures_iter(text).for_each(|caps| {
+            let mat = caps.get(0).expect("group 0 always participates in a match");
             let input_start = mat.start();
             let input_text = mat.as_str();
             let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
+            let mut replacement_text = String::new();
+            caps.expand(&self.config.replacement, &mut replacement_text);
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
@@ -83,7 +85,9 @@ impl CharacterFilter for RegexCharacterFilter {
                     add_offset_diff(&mut offsets, &mut diffs, offset, diff);
                 } else {
                     // Replacement is longer than matched surface.
-                    let output_start = (input_offset as i64 + -prev_diff) as usize;
+                    // What is inserted at an empty match belongs to the place of the match.
+                    let output_start = (input_offset as i64 + -prev_diff) as usize
+                        + usize::from(input_len == 0);
                     for extra_idx in 0..diff_len.unsigned_abs() as usize {
                         let offset = output_start + extra_idx;
                         let diff = prev_diff - extra_idx as i64 - 1;
-- 
2.43.0


From da883e5ca57f0dbadf35e26ca35d7553198065a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 14/32] fix: report the offsets of iteration marks that expand
 to a character of another length

---
 .../japanese_iteration_mark.rs                | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..24d4b68 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -186,7 +186,33 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
             filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        // A mark and the character it repeats may differ in length.
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+        let mut input_offset = 0_usize;
+        for (input_char, output_char) in text_chars.iter().zip(filterd_text.chars()) {
+            let diff_len = input_char.len_utf8() as i64 - output_char.len_utf8() as i64;
+            input_offset += input_char.len_utf8();
+
+            if diff_len != 0 {
+                let prev_diff = *diffs.last().unwrap_or(&0);
+
+                if diff_len > 0 {
+                    let offset = (input_offset as i64 - diff_len - prev_diff) as usize;
+                    let diff = prev_diff + diff_len;
+                    add_offset_diff(&mut offsets, &mut diffs, offset, diff);
+                } else {
+                    let output_offset = (input_offset as i64 + -prev_diff) as usize;
+                    for extra_idx in 0..diff_len.unsigned_abs() as usize {
+                        let offset = output_offset + extra_idx;
+                        let diff = prev_diff - extra_idx as i64 - 1;
+                        add_offset_diff(&mut offsets, &mut diffs, offset, diff);
+                    }
+                }
+            }
+        }
+
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
-- 
2.43.0


From 66cc8a724dc41246fc7e2a1ee2801914ff7acd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 15/32] fix: keep corrected token offsets on character
 boundaries of the original text

---
 lindera-analyzer/src/analyzer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lindera-analyzer/src/analyzer.rs b/lindera-analyzer/src/analyzer.rs
index a1749ad..6e7cb7c 100644
--- a/lindera-analyzer/src/analyzer.rs
+++ b/lindera-analyzer/src/analyzer.rs
@@ -165,6 +165,14 @@ impl Analyzer {
                 token.byte_end =
                     correct_offset(token.byte_end, offsets, &diffs_vec[i], text_len_vec[i]);
             }
+
+            // An offset inside a replaced piece may fall inside a character of the original text.
+            while !text.is_char_boundary(token.byte_start) {
+                token.byte_start -= 1;
+            }
+            while token.byte_end < text.len() && !text.is_char_boundary(token.byte_end) {
+                token.byte_end += 1;
+            }
         }
 
         Ok(tokens)
-- 
2.43.0


From 30bee5cd4d70c7d6250ca6b7573a8349dd56fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 16/32] fix: convert kanji numerals next to other characters
 without panicking

---
 .../src/token_filter/japanese_number.rs       | 64 ++++++++++++++-----
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..5108b7a 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -127,17 +127,52 @@ impl TokenFilter for JapaneseNumberTokenFilter {
     }
 }
 
-fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
+/// Pad `num` with zeros up to the digits of the unit, or `None` if it already has more digits
+/// than the unit can be followed by.
+fn adjust_digits(num: &str, base: &str, digit: &str) -> Option<String> {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().checked_sub(num.len())?;
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
     num_str.insert_str(0, zeros);
-    num_str
+    Some(num_str)
 }
 
+fn is_numeral(c: char) -> bool {
+    matches!(
+        c,
+        '0'..='9'
+            | '０'..='９'
+            | '〇' | '零' | '一' | '壱' | '二' | '弐' | '三' | '参' | '四' | '五' | '六' | '七'
+            | '八' | '九' | '十' | '拾' | '百' | '千' | '万' | '億' | '兆' | '京' | '垓'
+    )
+}
+
+/// Convert each numeral in the text. Other characters, and sequences of numerals that do not
+/// make up a number, are left as they are.
 fn to_arabic_numerals(from_str: &str) -> String {
+    let mut result = String::new();
+    let mut rest = from_str;
+
+    while !rest.is_empty() {
+        let len = rest.find(|c| !is_numeral(c)).unwrap_or(rest.len());
+        let numeral = &rest[..len];
+        match numeral_to_arabic(numeral) {
+            Some(number) => result.push_str(&number),
+            None => result.push_str(numeral),
+        }
+        rest = &rest[len..];
+
+        let len = rest.find(is_numeral).unwrap_or(rest.len());
+        result.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    result
+}
+
+fn numeral_to_arabic(from_str: &str) -> Option<String> {
     let mut num_buf = String::new();
     let mut digit = String::new();
 
@@ -157,7 +192,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '8' | '８' | '八' => num_buf.insert(0, '8'),
             '9' | '９' | '九' => num_buf.insert(0, '9'),
             '十' | '拾' => {
-                num_buf = adjust_digits(&num_buf, "0", &digit);
+                num_buf = adjust_digits(&num_buf, "0", &digit)?;
 
                 match i.peek() {
                     Some('百') | Some('千') | Some('万') | Some('億') | Some('兆') | Some('京')
@@ -172,7 +207,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
                 }
             }
             '百' => {
-                num_buf = adjust_digits(&num_buf, "00", &digit);
+                num_buf = adjust_digits(&num_buf, "00", &digit)?;
 
                 match i.peek() {
                     Some('千') | Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓')
@@ -187,7 +222,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
                 }
             }
             '千' => {
-                num_buf = adjust_digits(&num_buf, "000", &digit);
+                num_buf = adjust_digits(&num_buf, "000", &digit)?;
 
                 match i.peek() {
                     Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓') | None => {
@@ -203,7 +238,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '万' => {
                 digit = "0000".to_string();
 
-                num_buf = adjust_digits(&num_buf, "", &digit);
+                num_buf = adjust_digits(&num_buf, "", &digit)?;
 
                 match i.peek() {
                     Some('億') | Some('兆') | Some('京') | Some('垓') | None => {
@@ -219,7 +254,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '億' => {
                 digit = "00000000".to_string();
 
-                num_buf = adjust_digits(&num_buf, "", &digit);
+                num_buf = adjust_digits(&num_buf, "", &digit)?;
 
                 match i.peek() {
                     Some('兆') | Some('京') | Some('垓') | None => {
@@ -235,7 +270,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '兆' => {
                 digit = "000000000000".to_string();
 
-                num_buf = adjust_digits(&num_buf, "", &digit);
+                num_buf = adjust_digits(&num_buf, "", &digit)?;
 
                 match i.peek() {
                     Some('京') | Some('垓') | None => {
@@ -251,7 +286,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '京' => {
                 digit = "0000000000000000".to_string();
 
-                num_buf = adjust_digits(&num_buf, "", &digit);
+                num_buf = adjust_digits(&num_buf, "", &digit)?;
 
                 match i.peek() {
                     Some('垓') | None => {
@@ -267,7 +302,7 @@ fn to_arabic_numerals(from_str: &str) -> String {
             '垓' => {
                 digit = "00000000000000000000".to_string();
 
-                num_buf = adjust_digits(&num_buf, "", &digit);
+                num_buf = adjust_digits(&num_buf, "", &digit)?;
 
                 if i.peek().is_none() {
                     // If the first character is a '0', the '1' has been omitted.
@@ -275,14 +310,11 @@ fn to_arabic_numerals(from_str: &str) -> String {
                     num_buf.insert(0, '1');
                 }
             }
-            _ => {
-                num_buf.insert(0, *c);
-                digit.clear();
-            }
+            _ => return None,
         }
     }
 
-    num_buf
+    Some(num_buf)
 }
 
 #[cfg(test)]
-- 
2.43.0


From b4865934de3fde841ef8f297d783ac905c0c188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 17/32] fix: leave tokens with few or no details to the token
 filters without panicking

---
 .../src/token_filter/japanese_base_form.rs         | 14 ++++++++++----
 .../src/token_filter/japanese_compound_word.rs     |  2 +-
 .../src/token_filter/japanese_keep_tags.rs         |  2 +-
 lindera-filter/src/token_filter/japanese_number.rs |  2 +-
 .../src/token_filter/japanese_reading_form.rs      | 14 ++++++++++----
 .../src/token_filter/japanese_stop_tags.rs         |  2 +-
 .../src/token_filter/korean_keep_tags.rs           |  7 ++++++-
 .../src/token_filter/korean_reading_form.rs        |  8 ++++++--
 .../src/token_filter/korean_stop_tags.rs           |  7 ++++++-
 9 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..11a33d4 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -58,22 +58,28 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map_or(true, |detail| detail == "UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(detail) = token.details.get(10) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..ded3acb 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -134,7 +134,7 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..652eb22 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -89,7 +89,7 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
             self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 5108b7a..6582f0d 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -105,7 +105,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 tag_vec[i] = j;
             }
             let tag = tag_vec.join(",");
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..ab3a79a 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -57,22 +57,28 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map_or(true, |detail| detail == "UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..24ccccd 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -89,7 +89,7 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
             !self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/korean_keep_tags.rs b/lindera-filter/src/token_filter/korean_keep_tags.rs
index 2262289..133e35a 100644
--- a/lindera-filter/src/token_filter/korean_keep_tags.rs
+++ b/lindera-filter/src/token_filter/korean_keep_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanKeepTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            token
+                .details
+                .first()
+                .map_or(false, |tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..ad2d3f8 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -29,8 +29,12 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+            if token.details.first().map_or(true, |detail| detail == "UNK") {
+                // NOOP
+                continue;
+            }
+            if let Some(detail) = token.details.get(3) {
+                token.text = detail.to_string();
             }
         }
 
diff --git a/lindera-filter/src/token_filter/korean_stop_tags.rs b/lindera-filter/src/token_filter/korean_stop_tags.rs
index 1170a5a..f1cd4b5 100644
--- a/lindera-filter/src/token_filter/korean_stop_tags.rs
+++ b/lindera-filter/src/token_filter/korean_stop_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanStopTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| !self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            !token
+                .details
+                .first()
+                .map_or(false, |tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
-- 
2.43.0


From 75470343a90f8a5568aabb7db0657279375ec170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 18/32] fix: stem tokens with characters outside of all Unicode
 blocks without panicking

---
 lindera-filter/src/token_filter/japanese_katakana_stem.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..843710c 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,8 +91,7 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
+        if unicode_blocks::find_unicode_block(ch) != Some(unicode_blocks::KATAKANA) {
             return false;
         }
     }
-- 
2.43.0


From b8e8461052c7feb27af846424b246c44d07678da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 19/32] fix: reject part-of-speech tags with too many parts
 instead of panicking

---
 lindera-filter/src/token_filter.rs            | 23 +++++++++++++++++++
 .../token_filter/japanese_compound_word.rs    | 20 +++-------------
 .../src/token_filter/japanese_keep_tags.rs    | 13 +++--------
 .../src/token_filter/japanese_number.rs       | 13 +++--------
 .../src/token_filter/japanese_stop_tags.rs    | 13 +++--------
 5 files changed, 35 insertions(+), 47 deletions(-)

diff --git a/lindera-filter/src/token_filter.rs b/lindera-filter/src/token_filter.rs
index 75039dd..514ccd6 100644
--- a/lindera-filter/src/token_filter.rs
+++ b/lindera-filter/src/token_filter.rs
@@ -109,6 +109,29 @@ impl<T: TokenFilter + Clone + 'static> TokenFilterClone for T {
     }
 }
 
+/// Number of parts in a part-of-speech tag.
+const TAG_LEN: usize = 4;
+
+/// Reject a configured tag with more parts than the tags of a token have.
+fn check_tag(tag: &str) -> LinderaResult<String> {
+    if tag.split(',').count() > TAG_LEN {
+        return Err(LinderaErrorKind::Deserialize
+            .with_error(anyhow::anyhow!("tag has too many parts: {}", tag)));
+    }
+
+    Ok(tag.to_string())
+}
+
+/// Fill up a configured tag with `*`.
+fn format_tag(tag: &str) -> String {
+    let mut formatted_tag: Vec<&str> = tag.split(',').collect();
+    while formatted_tag.len() < TAG_LEN {
+        formatted_tag.push("*");
+    }
+
+    formatted_tag.join(",")
+}
+
 pub struct TokenFilterLoader {}
 
 impl TokenFilterLoader {
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index ded3acb..a26661f 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -8,7 +8,7 @@ use lindera_core::LinderaResult;
 use lindera_dictionary::DictionaryKind;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_tag, format_tag, TokenFilter};
 
 pub const JAPANESE_COMPOUND_WORD_TOKEN_FILTER_NAME: &str = "japanese_compound_word";
 
@@ -27,25 +27,11 @@ impl JapaneseCompoundWordTokenFilterConfig {
     ) -> LinderaResult<Self> {
         let mut formatted_tags: HashSet<String> = HashSet::new();
         for tag in tags.iter() {
-            let mut formatted_tag = ["*", "*", "*", "*"];
-
-            let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
-                formatted_tag[i] = j;
-            }
-
-            formatted_tags.insert(formatted_tag.join(","));
+            formatted_tags.insert(format_tag(&check_tag(tag)?));
         }
 
         let formatted_new_tag = if let Some(new_tag_str) = new_tag {
-            let mut formatted_tag = ["*", "*", "*", "*"];
-
-            let tag_array: Vec<&str> = new_tag_str.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
-                formatted_tag[i] = j;
-            }
-
-            Some(formatted_tag.join(","))
+            Some(format_tag(&check_tag(&new_tag_str)?))
         } else {
             None
         };
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 652eb22..efb0d81 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_tag, format_tag, TokenFilter};
 
 pub const JAPANESE_KEEP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_keep_tags";
 
@@ -20,14 +20,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
     pub fn new(tags: HashSet<String>) -> Self {
         let mut formatted_tags: HashSet<String> = HashSet::new();
         for tag in tags.iter() {
-            let mut formatted_tag = ["*", "*", "*", "*"];
-
-            let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
-                formatted_tag[i] = j;
-            }
-
-            formatted_tags.insert(formatted_tag.join(","));
+            formatted_tags.insert(format_tag(tag));
         }
 
         Self {
@@ -54,7 +47,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
-                    .map(|s| s.to_string())
+                    .and_then(check_tag)
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
         Ok(Self::new(tags))
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 6582f0d..1049af1 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_tag, format_tag, TokenFilter};
 
 pub const JAPANESE_NUMBER_TOKEN_FILTER_NAME: &str = "japanese_number";
 
@@ -22,14 +22,7 @@ impl JapaneseNumberTokenFilterConfig {
             Some(tags) => {
                 let mut formatted_tags: HashSet<String> = HashSet::new();
                 for tag in tags.iter() {
-                    let mut formatted_tag = ["*", "*", "*", "*"];
-
-                    let tag_array: Vec<&str> = tag.split(',').collect();
-                    for (i, j) in tag_array.iter().enumerate() {
-                        formatted_tag[i] = j;
-                    }
-
-                    formatted_tags.insert(formatted_tag.join(","));
+                    formatted_tags.insert(format_tag(tag));
                 }
 
                 Self {
@@ -62,7 +55,7 @@ impl JapaneseNumberTokenFilterConfig {
                                     LinderaErrorKind::Deserialize
                                         .with_error(anyhow::anyhow!("tag must be string"))
                                 })
-                                .map(|s| s.to_string())
+                                .and_then(check_tag)
                         })
                         .collect::<LinderaResult<HashSet<String>>>()?,
                 )
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 24ccccd..521ac36 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -7,7 +7,7 @@ use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
-use crate::token_filter::TokenFilter;
+use crate::token_filter::{check_tag, format_tag, TokenFilter};
 
 pub const JAPANESE_STOP_TAGS_TOKEN_FILTER_NAME: &str = "japanese_stop_tags";
 
@@ -20,14 +20,7 @@ impl JapaneseStopTagsTokenFilterConfig {
     pub fn new(tags: HashSet<String>) -> Self {
         let mut formatted_tags: HashSet<String> = HashSet::new();
         for tag in tags.iter() {
-            let mut formatted_tag = ["*", "*", "*", "*"];
-
-            let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
-                formatted_tag[i] = j;
-            }
-
-            formatted_tags.insert(formatted_tag.join(","));
+            formatted_tags.insert(format_tag(tag));
         }
 
         Self {
@@ -54,7 +47,7 @@ impl JapaneseStopTagsTokenFilterConfig {
                         LinderaErrorKind::Deserialize
                             .with_error(anyhow::anyhow!("tag must be string"))
                     })
-                    .map(|s| s.to_string())
+                    .and_then(check_tag)
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
         Ok(Self::new(tags))
-- 
2.43.0


From a32921cfb5c300650deaca0f020cce7b3e965844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 20/32] fix: reject japanese_number tags that are not an array

---
 .../src/token_filter/japanese_number.rs       | 43 ++++++++-----------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 1049af1..9500f42 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -40,30 +40,25 @@ impl JapaneseNumberTokenFilterConfig {
     }
 
     pub fn from_value(value: &serde_json::Value) -> LinderaResult<Self> {
-        let tags = if let Some(t) = value.get("tags") {
-            if t.is_array() {
-                Some(
-                    t.as_array()
-                        .ok_or_else(|| {
-                            LinderaErrorKind::Deserialize
-                                .with_error(anyhow::anyhow!("tags is required"))
-                        })?
-                        .iter()
-                        .map(|v| {
-                            v.as_str()
-                                .ok_or_else(|| {
-                                    LinderaErrorKind::Deserialize
-                                        .with_error(anyhow::anyhow!("tag must be string"))
-                                })
-                                .and_then(check_tag)
-                        })
-                        .collect::<LinderaResult<HashSet<String>>>()?,
-                )
-            } else {
-                None
-            }
-        } else {
-            None
+        let tags = match value.get("tags") {
+            None | Some(Value::Null) => None,
+            Some(t) => Some(
+                t.as_array()
+                    .ok_or_else(|| {
+                        LinderaErrorKind::Deserialize
+                            .with_error(anyhow::anyhow!("tags must be array"))
+                    })?
+                    .iter()
+                    .map(|v| {
+                        v.as_str()
+                            .ok_or_else(|| {
+                                LinderaErrorKind::Deserialize
+                                    .with_error(anyhow::anyhow!("tag must be string"))
+                            })
+                            .and_then(check_tag)
+                    })
+                    .collect::<LinderaResult<HashSet<String>>>()?,
+            ),
         };
 
         Ok(Self::new(tags))
-- 
2.43.0


From 061f72a07de2c96646bbb5b676848887c39cd090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 21/32] fix: reject malformed filter lists in the analyzer
 configuration instead of skipping them

---
 lindera-analyzer/src/analyzer.rs | 46 ++++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/lindera-analyzer/src/analyzer.rs b/lindera-analyzer/src/analyzer.rs
index 6e7cb7c..38f27f0 100644
--- a/lindera-analyzer/src/analyzer.rs
+++ b/lindera-analyzer/src/analyzer.rs
@@ -46,18 +46,8 @@ impl Analyzer {
         let value = &config.inner;
 
         let mut character_filters: Vec<BoxCharacterFilter> = Vec::new();
-        let character_filter_settings = value["character_filters"].as_array();
-        if let Some(character_filter_settings) = character_filter_settings {
-            for character_filter_setting in character_filter_settings {
-                let character_filter_name = character_filter_setting["kind"].as_str();
-                if let Some(character_filter_name) = character_filter_name {
-                    let character_filter = CharacterFilterLoader::load_from_value(
-                        character_filter_name,
-                        &character_filter_setting["args"],
-                    )?;
-                    character_filters.push(character_filter);
-                }
-            }
+        for (kind, args) in filter_settings(value, "character_filters")? {
+            character_filters.push(CharacterFilterLoader::load_from_value(kind, args)?);
         }
 
         let args_value = value["tokenizer"].as_object().ok_or_else(|| {
@@ -71,17 +61,8 @@ impl Analyzer {
         let tokenizer = Tokenizer::from_config(tokenizer_config)?;
 
         let mut token_filters: Vec<BoxTokenFilter> = Vec::new();
-        let token_filter_settings = value["token_filters"].as_array();
-        if let Some(token_filter_settings) = token_filter_settings {
-            for token_filter_setting in token_filter_settings {
-                let token_filter_name = token_filter_setting["kind"].as_str();
-                if let Some(token_filter_name) = token_filter_name {
-                    token_filters.push(TokenFilterLoader::load_from_value(
-                        token_filter_name,
-                        &token_filter_setting["args"],
-                    )?);
-                }
-            }
+        for (kind, args) in filter_settings(value, "token_filters")? {
+            token_filters.push(TokenFilterLoader::load_from_value(kind, args)?);
         }
 
         Ok(Self::new(character_filters, tokenizer, token_filters))
@@ -179,6 +160,25 @@ impl Analyzer {
     }
 }
 
+/// The kind and the arguments of each filter listed in the configuration under `key`.
+fn filter_settings<'a>(config: &'a Value, key: &str) -> LinderaResult<Vec<(&'a str, &'a Value)>> {
+    match &config[key] {
+        Value::Null => Ok(Vec::new()),
+        Value::Array(settings) => settings
+            .iter()
+            .map(|setting| match setting["kind"].as_str() {
+                Some(kind) => Ok((kind, &setting["args"])),
+                None => Err(LinderaErrorKind::Deserialize
+                    .with_error(anyhow::anyhow!("missing filter kind in {}", key))),
+            })
+            .collect(),
+        _ => {
+            Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("{} must be an array", key)))
+        }
+    }
+}
+
 impl Clone for Analyzer {
     fn clone(&self) -> Self {
         let mut character_filters: Vec<BoxCharacterFilter> = Vec::new();
-- 
2.43.0


From 9da2c8316096af57149f296b03a7f781bbd37bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 22/32] fix: accept command line filter flags without arguments

---
 lindera-filter/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-filter/src/lib.rs b/lindera-filter/src/lib.rs
index c3e0d1f..c308916 100644
--- a/lindera-filter/src/lib.rs
+++ b/lindera-filter/src/lib.rs
@@ -10,6 +10,11 @@ pub mod token_filter;
 fn parse_cli_flag(cli_flag: &str) -> LinderaResult<(&str, Value)> {
     let (kind, json) = cli_flag.split_once(':').unwrap_or((cli_flag, ""));
 
+    // A filter without arguments needs none.
+    if json.trim().is_empty() {
+        return Ok((kind, Value::Null));
+    }
+
     let args: Value = serde_json::from_str(json)
         .map_err(|err| LinderaErrorKind::Content.with_error(anyhow::anyhow!(err)))?;
 
-- 
2.43.0


From 21ea661fcfc0e89bddba8978126d2392cf449dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 23/32] fix: normalize graphemes that compose with the next one
 together

---
 .../src/character_filter/unicode_normalize.rs | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/character_filter/unicode_normalize.rs b/lindera-filter/src/character_filter/unicode_normalize.rs
index eaaf4fc..ad64b8b 100644
--- a/lindera-filter/src/character_filter/unicode_normalize.rs
+++ b/lindera-filter/src/character_filter/unicode_normalize.rs
@@ -60,6 +60,38 @@ impl UnicodeNormalizeCharacterFilter {
             UnicodeNormalizeCharacterFilterConfig::from_slice(data)?,
         ))
     }
+
+    fn normalize(&self, text: &str) -> String {
+        match self.config.kind {
+            UnicodeNormalizeKind::NFC => text.nfc().collect::<String>(),
+            UnicodeNormalizeKind::NFD => text.nfd().collect::<String>(),
+            UnicodeNormalizeKind::NFKC => text.nfkc().collect::<String>(),
+            UnicodeNormalizeKind::NFKD => text.nfkd().collect::<String>(),
+        }
+    }
+
+    /// Split the text into pieces that can be normalized one by one. Some graphemes,
+    /// such as compatibility jamo, compose with the one that follows.
+    fn pieces<'a>(&self, text: &'a str) -> Vec<&'a str> {
+        let mut pieces = Vec::new();
+        let mut start = 0;
+        for (end, grapheme) in text.grapheme_indices(true) {
+            let piece = &text[start..end];
+            if piece.is_empty() {
+                continue;
+            }
+            let joined = self.normalize(&text[start..end + grapheme.len()]);
+            if joined == self.normalize(piece) + &self.normalize(grapheme) {
+                pieces.push(piece);
+                start = end;
+            }
+        }
+        if start < text.len() {
+            pieces.push(&text[start..]);
+        }
+
+        pieces
+    }
 }
 
 impl CharacterFilter for UnicodeNormalizeCharacterFilter {
@@ -74,14 +106,9 @@ impl CharacterFilter for UnicodeNormalizeCharacterFilter {
         let mut result = String::new();
         let mut input_start = 0;
 
-        for c in text.graphemes(true) {
+        for c in self.pieces(text) {
             let input_len = c.len();
-            let replacement_text = match self.config.kind {
-                UnicodeNormalizeKind::NFC => c.nfc().collect::<String>(),
-                UnicodeNormalizeKind::NFD => c.nfd().collect::<String>(),
-                UnicodeNormalizeKind::NFKC => c.nfkc().collect::<String>(),
-                UnicodeNormalizeKind::NFKD => c.nfkd().collect::<String>(),
-            };
+            let replacement_text = self.normalize(c);
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
-- 
2.43.0


From ad83d383283a142d36b5d48dc7cf84af20f3052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 24/32] fix: read back a tokenizer configuration without a user
 dictionary

---
 lindera-tokenizer/src/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..1352c58 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -112,7 +112,7 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 V: MapAccess<'de>,
             {
                 let mut dictionary = None;
-                let mut user_dictionary = None;
+                let mut user_dictionary: Option<Option<UserDictionaryConfig>> = None;
                 let mut mode = None;
                 while let Some(key) = map.next_key()? {
                     match key {
@@ -138,6 +138,7 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 }
                 let dictionary =
                     dictionary.ok_or_else(|| de::Error::missing_field("dictionary"))?;
+                let user_dictionary = user_dictionary.unwrap_or(None);
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-- 
2.43.0


From df20add81c8dfe26196d1103859e2eb401618c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 25/32] fix: reject character definitions without the DEFAULT
 category

---
 lindera-core/src/character_definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 7af5e57..8ebdc92 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -152,6 +152,12 @@ impl CharacterDefinitionsBuilder {
                     .with_error(anyhow::anyhow!("Undefined category: {}", category_name)));
             }
         }
+        if !self.category_index.contains_key(DEFAULT_CATEGORY_NAME) {
+            return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                "Undefined category: {}",
+                DEFAULT_CATEGORY_NAME
+            )));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1e9d12b710c1f5572677d4949bdfb1593404ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 26/32] fix: reject an empty or truncated dict.da instead of
 reading out of bounds

---
 lindera-dictionary/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-dictionary/src/lib.rs b/lindera-dictionary/src/lib.rs
index 12809fd..ab9731c 100644
--- a/lindera-dictionary/src/lib.rs
+++ b/lindera-dictionary/src/lib.rs
@@ -131,6 +131,11 @@ impl DictionaryLoader {
     pub fn prefix_dict(dir: PathBuf) -> LinderaResult<PrefixDict> {
         let unidic_data_path = dir.join("dict.da");
         let unidic_data = Self::read_file(unidic_data_path)?;
+        // A double array consists of blocks of 256 units of 4 bytes.
+        if unidic_data.is_empty() || unidic_data.len() % 1024 != 0 {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("dict.da has a wrong size")));
+        }
 
         let unidic_vals_path = dir.join("dict.vals");
         let unidic_vals = Self::read_file(unidic_vals_path)?;
-- 
2.43.0


From 77cce2994b4e5c031082cd511f8684b3e4d23fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 27/32] fix: let the Japanese token filters work with every
 dictionary kind, contained or not

lindera's and the command line tool's features do not reach lindera-filter, so
base and reading form did nothing there, and compounding with UniDic made IPADIC
shaped details.
---
 lindera-filter/src/token_filter/japanese_base_form.rs     | 3 ---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 2 --
 lindera-filter/src/token_filter/japanese_reading_form.rs  | 3 ---
 3 files changed, 8 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index 11a33d4..87664f8 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -63,19 +63,16 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
                 continue;
             }
             match self.config.kind {
-                #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
                     if let Some(detail) = token.details.get(6) {
                         token.text = detail.to_string();
                     }
                 }
-                #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
                     if let Some(detail) = token.details.get(6) {
                         token.text = detail.to_string();
                     }
                 }
-                #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
                     if let Some(detail) = token.details.get(10) {
                         token.text = detail.to_string();
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index a26661f..0557e79 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -83,12 +83,10 @@ impl JapaneseCompoundWordTokenFilter {
         token1.position_length += token2.position_length;
 
         let mut formatted_details = match self.config.kind {
-            #[cfg(any(feature = "ipadic", feature = "ipadic-neologd"))]
             DictionaryKind::IPADIC => "複合語,*,*,*,*,*,*,*,*"
                 .split(',')
                 .map(|s| s.to_string())
                 .collect::<Vec<String>>(),
-            #[cfg(feature = "unidic")]
             DictionaryKind::UniDic => "複合語,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*"
                 .split(',')
                 .map(|s| s.to_string())
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index ab3a79a..93f257d 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -62,19 +62,16 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
                 continue;
             }
             match self.config.kind {
-                #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
                     if let Some(detail) = token.details.get(7) {
                         token.text = detail.to_string();
                     }
                 }
-                #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
                     if let Some(detail) = token.details.get(7) {
                         token.text = detail.to_string();
                     }
                 }
-                #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
                     if let Some(detail) = token.details.get(6) {
                         token.text = detail.to_string();
-- 
2.43.0


From 81b635e9cadd6c3caf00d77eb932a0cdb7c971bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 28/32] fix: add up path costs in 64 bits

With extreme word costs, connection costs or penalties, or in a very long
sentence, the sum left the range of i32: a panic with overflow checks, a wrong
segmentation without.
---
 lindera-core/src/mode.rs    | 14 +++++++-------
 lindera-core/src/viterbi.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/lindera-core/src/mode.rs b/lindera-core/src/mode.rs
index 0902557..ab0215d 100644
--- a/lindera-core/src/mode.rs
+++ b/lindera-core/src/mode.rs
@@ -27,17 +27,17 @@ impl Default for Penalty {
 }
 
 impl Penalty {
-    pub fn penalty(&self, edge: &Edge) -> i32 {
+    pub fn penalty(&self, edge: &Edge) -> i64 {
         let num_chars = edge.num_chars();
         if num_chars <= self.kanji_penalty_length_threshold {
             return 0;
         }
         if edge.kanji_only {
-            ((num_chars - self.kanji_penalty_length_threshold) as i32)
-                * self.kanji_penalty_length_penalty
+            ((num_chars - self.kanji_penalty_length_threshold) as i64)
+                * self.kanji_penalty_length_penalty as i64
         } else if num_chars > self.other_penalty_length_threshold {
-            ((num_chars - self.other_penalty_length_threshold) as i32)
-                * self.other_penalty_length_penalty
+            ((num_chars - self.other_penalty_length_threshold) as i64)
+                * self.other_penalty_length_penalty as i64
         } else {
             0
         }
@@ -59,9 +59,9 @@ impl Mode {
             Mode::Decompose(_penalty) => true,
         }
     }
-    pub fn penalty_cost(&self, edge: &Edge) -> i32 {
+    pub fn penalty_cost(&self, edge: &Edge) -> i64 {
         match self {
-            Mode::Normal => 0i32,
+            Mode::Normal => 0i64,
             Mode::Decompose(penalty) => penalty.penalty(edge),
         }
     }
diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index 7c66bcc..3d88d37 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -28,7 +28,7 @@ pub struct Edge {
     pub edge_type: EdgeType,
     pub word_entry: WordEntry,
 
-    pub path_cost: i32,
+    pub path_cost: i64,
     pub left_edge: Option<EdgeId>,
 
     pub start_index: u32,
@@ -126,7 +126,7 @@ impl Lattice {
                         left_edge: None,
                         start_index: start as u32,
                         stop_index: (start + prefix_len) as u32,
-                        path_cost: i32::max_value(),
+                        path_cost: i64::max_value(),
                         kanji_only: is_kanji_only(&suffix[..prefix_len]),
                     };
                     self.add_edge_in_lattice(edge);
@@ -143,7 +143,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + prefix_len) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&suffix[..prefix_len]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -214,7 +214,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + unknown_word.len()) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&unknown_word[..]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -257,7 +257,8 @@ impl Lattice {
                         let left_edge = self.edge(left_edge_id);
                         let mut path_cost = left_edge.path_cost
                             + cost_matrix
-                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id());
+                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id())
+                                as i64;
                         path_cost += mode.penalty_cost(left_edge);
                         (path_cost, left_edge_id)
                     })
@@ -265,7 +266,7 @@ impl Lattice {
                 if let Some((best_cost, best_left)) = best_path {
                     let edge = &mut self.edges[right_edge_id.0 as usize];
                     edge.left_edge = Some(best_left);
-                    edge.path_cost = right_word_entry.word_cost as i32 + best_cost;
+                    edge.path_cost = right_word_entry.word_cost as i64 + best_cost;
                 }
             }
         }
-- 
2.43.0


From 205028c486f43dee919822df97cdd107cb8d7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 29/32] fix: look up dictionary and mapping keys without
 scanning the rest of the text

Cutting the text at its next NUL for every lookup made tokenizing a long
sentence take quadratic time.
---
 lindera-core/src/prefix_dict.rs               | 57 ++++++++++++-------
 .../src/character_filter/mapping.rs           |  6 +-
 lindera-filter/src/token_filter/mapping.rs    |  6 +-
 3 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index 519c7a2..bc2fb07 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -1,6 +1,7 @@
 use std::ops::Deref;
 
 use serde::{Deserialize, Serialize};
+use yada::unit::{Unit, UNIT_SIZE};
 use yada::DoubleArray;
 
 use crate::word_entry::WordEntry;
@@ -32,30 +33,48 @@ impl PrefixDict<&[u8]> {
     }
 }
 
-fn until_nul(s: &str) -> &str {
-    s.split('\0').next().unwrap_or(s)
+/// Find the values and lengths of the keys that `s` begins with, shortest first.
+/// The double array ends its keys with NUL, so no key reaches beyond one.
+pub fn common_prefixes<'a>(
+    da: &'a DoubleArray<Vec<u8>>,
+    s: &'a str,
+) -> impl Iterator<Item = (u32, usize)> + 'a {
+    let unit = move |id: u32| {
+        let start = id as usize * UNIT_SIZE;
+        let bytes = da.0.get(start..start + UNIT_SIZE)?;
+        Some(Unit::from_u32(u32::from_le_bytes(bytes.try_into().ok()?)))
+    };
+
+    s.bytes()
+        .take_while(|&b| b != 0)
+        .enumerate()
+        .scan(0_u32, move |node, (i, b)| {
+            *node ^= unit(*node)?.offset() ^ u32::from(b);
+            let reached = unit(*node).filter(|u| u.label() == u32::from(b))?;
+            let leaf = if reached.has_leaf() {
+                unit(reached.offset() ^ *node)
+            } else {
+                None
+            };
+            Some(leaf.map(|u| (u.value(), i + 1)))
+        })
+        .flatten()
 }
 
 impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
-        // The double array ends its keys with NUL, so no key reaches beyond one.
-        self.da
-            .common_prefix_search(until_nul(s))
-            .flat_map(move |(offset_len, prefix_len)| {
-                let len = offset_len & ((1u32 << 5) - 1u32);
-                let offset = offset_len >> 5u32;
-                let offset_bytes = (offset as usize) * WordEntry::SERIALIZED_LEN;
-                let data: &[u8] = &self.vals_data[offset_bytes..];
-                (0..len as usize).map(move |i| {
-                    (
-                        prefix_len,
-                        WordEntry::deserialize(
-                            &data[WordEntry::SERIALIZED_LEN * i..],
-                            self.is_system,
-                        ),
-                    )
-                })
+        common_prefixes(&self.da, s).flat_map(move |(offset_len, prefix_len)| {
+            let len = offset_len & ((1u32 << 5) - 1u32);
+            let offset = offset_len >> 5u32;
+            let offset_bytes = (offset as usize) * WordEntry::SERIALIZED_LEN;
+            let data: &[u8] = &self.vals_data[offset_bytes..];
+            (0..len as usize).map(move |i| {
+                (
+                    prefix_len,
+                    WordEntry::deserialize(&data[WordEntry::SERIALIZED_LEN * i..], self.is_system),
+                )
             })
+        })
     }
 
     /// Find `WordEntry`s with surface
diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index a4050db..776de54 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -6,6 +6,7 @@ use yada::builder::DoubleArrayBuilder;
 use yada::DoubleArray;
 
 use lindera_core::error::LinderaErrorKind;
+use lindera_core::prefix_dict::common_prefixes;
 use lindera_core::LinderaResult;
 
 use crate::character_filter::{add_offset_diff, CharacterFilter};
@@ -90,10 +91,7 @@ impl CharacterFilter for MappingCharacterFilter {
 
         while input_start < len {
             let suffix = &text[input_start..];
-            match self
-                .trie
-                // The double array ends its keys with NUL, so no key reaches beyond one.
-                .common_prefix_search(suffix.split('\0').next().unwrap_or(suffix).as_bytes())
+            match common_prefixes(&self.trie, suffix)
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index fb21fed..518fcfd 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -5,6 +5,7 @@ use yada::builder::DoubleArrayBuilder;
 use yada::DoubleArray;
 
 use lindera_core::error::LinderaErrorKind;
+use lindera_core::prefix_dict::common_prefixes;
 use lindera_core::LinderaResult;
 
 use crate::token::Token;
@@ -85,10 +86,7 @@ impl TokenFilter for MappingTokenFilter {
 
             while start < len {
                 let suffix = &token.text[start..];
-                match self
-                    .trie
-                    // The double array ends its keys with NUL, so no key reaches beyond one.
-                    .common_prefix_search(suffix.split('\0').next().unwrap_or(suffix).as_bytes())
+                match common_prefixes(&self.trie, suffix)
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From 3a5cfd0bcd6243e82961a56cbf4e2cc18da53354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 30/32] fix: find the word lists of a source directory whose
 path holds glob characters

---
 lindera-dictionary-builder/src/dict.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 3549db6..f6f0e02 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -12,7 +12,7 @@ use csv::StringRecord;
 use derive_builder::Builder;
 use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
-use glob::glob;
+use glob::{glob, Pattern};
 use log::{debug, warn};
 use yada::builder::DoubleArrayBuilder;
 
@@ -43,7 +43,7 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            format!("{}/*.csv", Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0


From fc576294f88f9222f70b95ea9571bbdb0e74d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:14 +0000
Subject: [PATCH 31/32] fix: read UTF-16 word lists with a byte order mark, as
 the other source files

---
 lindera-dictionary-builder/src/dict.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index f6f0e02..5898de3 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -79,7 +79,13 @@ impl DictBuilder {
             let file = File::open(filename)
                 .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
             let reader: Box<dyn Read> = if encoding == UTF_8 {
-                Box::new(file)
+                // Only UTF-16 with a BOM is decoded, so that the CSV reader finds invalid UTF-8.
+                Box::new(
+                    DecodeReaderBytesBuilder::new()
+                        .utf8_passthru(true)
+                        .strip_bom(true)
+                        .build(file),
+                )
             } else {
                 Box::new(
                     DecodeReaderBytesBuilder::new()
-- 
2.43.0


From 588f0cf5bc883c923777e0951ba6dc8e58e5beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:33 +0000
Subject: [PATCH 32/32] fix: keep byte offsets behind a sentence that cannot be
 segmented

---
 lindera-tokenizer/src/tokenizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 1352c58..b9a899d 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -275,6 +275,11 @@ impl Tokenizer {
 
                 position += 1;
             }
+
+            if offsets.is_empty() {
+                // This sentence cannot be segmented, the next one stays in its place.
+                byte_position += sentence.len();
+            }
         }
 
         Ok(tokens)
-- 
2.43.0

