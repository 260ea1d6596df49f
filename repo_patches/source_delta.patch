From 881d62d205d12c9ed86315a455b04b1589266618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:15 +0000
Subject: [PATCH 01/33] fix: zero-pad and range-check the project creation date

---
 src/parser/serde_util.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..ea9bff5 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -2,29 +2,38 @@
 pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
-    use serde::de::Error;
+    use serde::de::Error as _;
+    use serde::ser::Error as _;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
-        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
-        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
-        let hour = v[8..10].parse::<u32>().map_err(D::Error::custom)?;
-        let minute = v[10..12].parse::<u32>().map_err(D::Error::custom)?;
-        let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
+        // every part has a fixed width: YYYYMMDDhhmmss
+        let part = |range: std::ops::Range<usize>| v.get(range)
+            .ok_or_else(|| D::Error::custom("expected a date in the form of YYYYMMDDhhmmss"));
+
+        let year = part(0..4)?.parse::<u16>().map_err(D::Error::custom)?;
+        let month = part(4..6)?.parse::<u32>().map_err(D::Error::custom)?;
+        let day = part(6..8)?.parse::<u32>().map_err(D::Error::custom)?;
+        let hour = part(8..10)?.parse::<u32>().map_err(D::Error::custom)?;
+        let minute = part(10..12)?.parse::<u32>().map_err(D::Error::custom)?;
+        let second = part(12..14)?.parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year.into(), month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("the date is out of range"))?
                 .timestamp() as u64
         )
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| S::Error::custom("the timestamp is not representable as YYYYMMDDhhmmss"))?;
+
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From a269bc5355c7748ae7f2f931e7295b353659c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 02/33] fix: keep custom views when a file list without
 activities is rebuilt

---
 src/parser/file.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..e64978f 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -65,22 +65,21 @@ impl Parsable for File {
 
     fn reconstruct(&self) -> Result<String, Self::ReconstructionError> {
         Ok(format!(
-            "@activity\n{}\n@customview\n{}",
+            "@activity\n{}@customview\n{}",
             self.activities
                 .iter()
                 .try_fold(String::new(), |acc, i| {
-                    Ok(format!("{}\n{}", acc, i.reconstruct()
+                    Ok(format!("{}{}\n", acc, i.reconstruct()
                         .map_err(|err| FileReconstructionError::FileItemReconstructionError {
                             source: err,
                             item: i.to_owned()
                         })?))
-                })?
-                .trim(),
+                })?,
 
             self.custom_views
                 .iter()
                 .try_fold(String::new(), |acc, i| {
-                    Ok(format!("{}\n{}", acc, i.reconstruct()
+                    Ok(format!("{}{}\n", acc, i.reconstruct()
                         .map_err(|err| FileReconstructionError::FileItemReconstructionError {
                             source: err,
                             item: i.to_owned()
-- 
2.43.0


From 4648798e8e651bbd0dda412edf50191d59dcf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:03 +0000
Subject: [PATCH 03/33] fix: separate every layout when a view file is rebuilt

---
 src/parser/view.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..6d95145 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -74,7 +74,13 @@ impl Parsable for View {
             match layout.reconstruct() {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
-                    result.push_str(reconstructed_layout.as_str());
+
+                    if !reconstructed_layout.is_empty() {
+                        result.push_str(reconstructed_layout.as_str());
+                        result.push('\n');
+                    }
+
+                    // every layout ends with an empty line
                     result.push('\n');
                 }
 
@@ -88,9 +94,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From a5414bbceebc9678332d4c9205a1f56e75b6c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 04/33] fix: don't emit an empty section for screens without
 block containers

---
 src/parser/logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..cba7253 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -233,7 +233,8 @@ impl Parsable for Logic {
                 result.push('\n');
             }
 
-            block_containers.push(result);
+            // an empty section would end the file early when it's parsed again
+            if !result.is_empty() { block_containers.push(result); }
         }
 
         // stitch them together and boom!
-- 
2.43.0


From 861df4b15d50ed0890f87fdc1c992ff691590539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 05/33] fix: don't panic on malformed section headers of a
 logic file

---
 src/parser/logic.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index cba7253..95b4694 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -31,15 +31,14 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
-            if !line.starts_with("@") {
+            let header = match line.strip_prefix('@') {
+                Some(header) => header,
                 // todo: warning: skipping line {} because it doesn't resemble a header
-                break;
-            }
+                None => break,
+            };
 
-            if line.ends_with("java_var") {
+            if let Some(screen_name) = header.strip_suffix(".java_var") {
                 // variable pool
-                // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -54,11 +53,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_list") {
                 // list variable pool
-                // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
-
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::ListVariablePoolParseError {
@@ -73,11 +69,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_components") {
                 // component pool
-                // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
-
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::ComponentPoolParseError {
@@ -92,11 +85,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_events") {
                 // event pool
-                // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
-
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::EventPoolParseError {
@@ -111,10 +101,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = header.strip_suffix(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
-
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::MoreBlockPoolParseError {
-- 
2.43.0


From 5ff450ed6e0d5ea33ec90c7e266753f0eeb90a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 06/33] fix: don't panic on specs with a lone %, a nameless
 menu or multi-byte parameters

---
 src/api/block.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..21f7b0a 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -602,7 +602,8 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone `%` isn't a parameter, it's a text (the modulo operator)
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -612,13 +613,20 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' => Argument::Menu {
+                    // names are always present in menus
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
+                    value: ArgValue::Empty
+                },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -635,7 +643,8 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone `%` isn't a parameter, it's a text (the modulo operator)
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -645,7 +654,7 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String {
@@ -711,7 +720,11 @@ impl BlockContent {
                     }
                 },
                 'm' => Argument::Menu {
-                    name: name.unwrap(),
+                    // names are always present in menus
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                         ArgValue::Value(
-- 
2.43.0


From 6b33ee8996cb15de4f5add9d4f64e4862b84a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 07/33] fix: make block arguments point at the argument block
 instead of its last descendant

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 21f7b0a..3e4edf8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -249,8 +249,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -262,8 +262,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -283,12 +283,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -300,8 +300,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From ab9cd5692bd360b2464fbda0175700132a91751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 08/33] fix: make substacks point at their first block instead
 of their last

---
 src/api/block.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3e4edf8..46eec2c 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,11 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
+
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +194,17 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
+
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +213,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From 868c0b6ad1e90b11116430ced70152d2352c6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:55 +0000
Subject: [PATCH 09/33] fix: keep the type name of list blocks

---
 src/api/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 46eec2c..8f4cff1 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -515,6 +515,11 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type }) =>
+                Some(match inner_type {
+                    ListItem::String => "List String",
+                    ListItem::Number => "List Number",
+                }.to_string()),
             _ => None
         }
     }
-- 
2.43.0


From f6f60fdf4eddbb29968b216069e8de622923a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 10/33] fix: resolve blocks given to menu parameters

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 8f4cff1..38f1426 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -742,9 +742,16 @@ impl BlockContent {
                     })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 000a1ee52de9d5b7806437d104a9c024130233c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 11/33] fix: accept number and boolean parameters that are left
 empty

---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 38f1426..e9c1866 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -701,6 +701,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -724,6 +726,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -804,6 +808,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -829,6 +835,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From 0cb7d9b8a0dc7b8315f6410bbda087626cef4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 12/33] fix: use the right type ids of views and write them
 when flattening

---
 src/api/view.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..2855074 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,6 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
+            ViewType::ScrollView { orientation: Orientation::Vertical, .. } => 12,
             ViewType::ScrollView { .. }     => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
@@ -546,6 +547,8 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             result_view.r#type
         };
 
+        result_view.r#type = view_type_id;
+
         // and then just map the variables
         result_view.layout.height = view.height;
         result_view.layout.width = view.width;
-- 
2.43.0


From 586b71a00da6b50678f14fda93c2e3f9815137ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 13/33] fix: don't overwrite the layout orientation of scroll
 views

---
 src/api/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 2855074..90b6d37 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -352,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            // the orientation of a scroll view is stored as its type id, not as its layout orientation
+            ViewType::ScrollView { gravity, .. } => {
                 view.layout.gravity = gravity;
             }
 
-- 
2.43.0


From 8c80837b1e891f8834407df172c425060965e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 14/33] fix: keep resource files of projects that have them

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..dc604b4 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From e258a3c22adc696b6602bee00f006a5fba0e11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 15/33] fix: reject resource ids taken by a sound or a font

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dc604b4..87a477c 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From d2ca617d4216404de5c4055dc58f23c544a22dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 16/33] fix: name the logic of a screen without logic after its
 activity

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 87a477c..b6cd7ae 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 8d83cd7823a8782ca62e6ae13211cea894a90120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 17/33] fix: keep the target id of activity events

---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..4d3cfcc 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From ecb683e5ac9fa31d5274e233b26ea3560d150784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 18/33] fix: keep significant whitespace of variables and
 moreblocks

---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 95b4694..b5cdc01 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -233,8 +233,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_matches('\n')))
+            .trim_matches('\n')
             .to_string()
         )
     }
@@ -381,7 +381,7 @@ pub mod variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -538,7 +538,7 @@ pub mod list_variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -804,7 +804,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
-- 
2.43.0


From e76c4d8d162fefb57c222a883434d51093ee795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 19/33] fix: keep the custom icon flag of projects without
 resource files

---
 src/api/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index b6cd7ae..c94fc6d 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -403,7 +403,12 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             // to own Option<>
             custom_icon: if let Some(rf) = &val.resource_files {
                 rf.custom_icon.clone()
-            } else { None },
+            } else {
+                // assign it with a random id, just like other resources
+                val.project.custom_icon.then(|| ResourceFileWrapper::make_random_id(
+                    "icon.png".to_string(), ResourceType::CustomIcon
+                ))
+            },
             metadata: Metadata {
                 local_id: val.project.id,
                 name: val.project.app_name,
-- 
2.43.0


From 73fdbbc1ebd99de5e2de78c9211ab601c5f7fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 20/33] fix: keep the file type of drawers

---
 src/api/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index c94fc6d..e83f854 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -544,7 +544,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .iter()
                     .map(|custom_view| FileItem {
                         filename: custom_view.res_name.to_owned(),
-                        file_type: FileType::CustomView,
+                        // drawers are custom views named after the activity they belong to
+                        file_type: if custom_view.res_name.starts_with("_drawer_") {
+                            FileType::Drawer
+                        } else {
+                            FileType::CustomView
+                        },
                         keyboard_setting: KeyboardSetting::Unspecified,
                         options: ActivityOptions {
                             toolbar_enabled: false,
-- 
2.43.0


From 112b183a7f96865740988afdadabe6338d804e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 21/33] fix: don't truncate block container names at a second
 .java_

---
 src/parser/logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index b5cdc01..84962d6 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -979,7 +979,8 @@ impl Parsable for BlockContainerHeader {
             return Err(BlockContainerHeaderParseError::DoesntStartWithAtSign)
         }
 
-        let mut parts = s.split(".java_");
+        // the container name is everything after the first `.java_`
+        let mut parts = s.splitn(2, ".java_");
         let screen_name = parts.next()   // [1..] to get rid of the @ at the start
             .ok_or_else(||BlockContainerHeaderParseError::NoScreenName)?[1..].to_string();
 
-- 
2.43.0


From c8e492dc1cbd36d39a75967e58319265f31ba373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:12 +0000
Subject: [PATCH 22/33] fix: refuse an invalid use flag of the compat library

Every other library reports InvalidUseYNValue; compat silently took anything
but Y as disabled and would have written it back as N.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index e83f854..f16fa58 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -429,7 +429,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             screens: activities,
             custom_views,
             libraries: Libraries {
-                app_compat_enabled: val.library.compat.use_yn == "Y",
+                app_compat_enabled: library_conv!("compat", compat, ()).is_some(),
                 firebase: library_conv!("firebase", firebase_db, Firebase {
                     project_id: val.library.firebase_db.data,
                     app_id: val.library.firebase_db.reserved1,
-- 
2.43.0


From e16fc6732c2a711ad257d9653af0e28c98fcd6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:08 +0000
Subject: [PATCH 23/33] fix: don't drop everything after an additional empty
 line

A second empty line between two sections (or any empty line in the file and
resource lists) silently ended the parsing, losing all records after it.
---
 src/parser/file.rs     | 4 +---
 src/parser/logic.rs    | 3 +++
 src/parser/resource.rs | 4 +---
 src/parser/view.rs     | 3 +++
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index e64978f..9e9f001 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -37,10 +37,8 @@ impl Parsable for File {
             } else if line == "@customview" {
                 cur_section = FileSection::CustomView;
 
-            } else if cur_section != FileSection::None {
+            } else if cur_section != FileSection::None && !line.is_empty() {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
                         source: err,
diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 84962d6..fc5cabf 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -31,6 +31,9 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // there may be more empty lines between the sections than the one that ends a section
+            if line.is_empty() { continue; }
+
             let header = match line.strip_prefix('@') {
                 Some(header) => header,
                 // todo: warning: skipping line {} because it doesn't resemble a header
diff --git a/src/parser/resource.rs b/src/parser/resource.rs
index ac39da4..8ca1574 100644
--- a/src/parser/resource.rs
+++ b/src/parser/resource.rs
@@ -40,10 +40,8 @@ impl Parsable for Resource {
             } else if line == "@fonts" {
                 cur_section = ResourceSection::Fonts
 
-            } else if cur_section != ResourceSection::None {
+            } else if cur_section != ResourceSection::None && !line.is_empty() {
                 // parse the resource item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let resource_item = ResourceItem::parse(line)
                     .map_err(|err| ResourceParseError::ResourceItemParseError {
                         source: err,
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 6d95145..39b5350 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,6 +25,9 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
+            // there may be more empty lines between the sections than the one that ends a layout
+            if line.is_empty() { continue; }
+
             if !line.starts_with("@") { break; }
 
             let (screen_name, container_type) =
-- 
2.43.0


From 1aafef9094bf5545ab2f184e009122af49848e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:17 +0000
Subject: [PATCH 24/33] fix: refuse lines of a view or logic file that are no
 section header

Such a line silently ended the parsing, dropping it and everything after it.
---
 src/parser/logic.rs | 10 +++++-----
 src/parser/view.rs  |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index fc5cabf..e0a0267 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -34,11 +34,11 @@ impl Parsable for Logic {
             // there may be more empty lines between the sections than the one that ends a section
             if line.is_empty() { continue; }
 
-            let header = match line.strip_prefix('@') {
-                Some(header) => header,
-                // todo: warning: skipping line {} because it doesn't resemble a header
-                None => break,
-            };
+            let header = line.strip_prefix('@')
+                .ok_or_else(|| LogicParseError::BlockContainerHeaderParseError {
+                    line: line_counter,
+                    source: BlockContainerHeaderParseError::DoesntStartWithAtSign
+                })?;
 
             if let Some(screen_name) = header.strip_suffix(".java_var") {
                 // variable pool
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 39b5350..1ff35d9 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -28,7 +28,12 @@ impl Parsable for View {
             // there may be more empty lines between the sections than the one that ends a layout
             if line.is_empty() { continue; }
 
-            if !line.starts_with("@") { break; }
+            if !line.starts_with("@") {
+                return Err(ViewParseError::InvalidHeader {
+                    line: lines.get_count(),
+                    content: line.to_string()
+                })
+            }
 
             let (screen_name, container_type) =
                 &line[1..]
-- 
2.43.0


From 59c5e16ba291169a07a942166418c2e6c01485e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 25/33] fix: refuse colors that are no 32-bit integer

They were saturated, wrapped or truncated, silently becoming another color.
---
 src/color.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index eaa9af6..8897b2a 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -82,10 +82,15 @@ impl<'de> Deserialize<'de> for Color {
             }
 
             fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E> where E: Error {
-                self.visit_i64(v as i64)
+                self.visit_f64(v as f64)
             }
 
             fn visit_f64<E>(self, v: f64) -> Result<Self::Value, E> where E: serde::de::Error {
+                // the conversion below saturates and truncates, which would make it another color
+                if v < i32::MIN as f64 || v > i32::MAX as f64 || v.fract() != 0.0 {
+                    return Err(E::invalid_value(serde::de::Unexpected::Float(v), &self));
+                }
+
                 // this weird conversion is here to preserve the binary formation of the value.
                 // the conversion from f64 to u32 right would break the negative value and thus
                 // breaks the color
-- 
2.43.0


From 12f052ddd939b1b7dcc8cfae7caa30d0c6f76e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 26/33] fix: refuse hexadecimal colors with a sign

---
 src/color.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/color.rs b/src/color.rs
index 8897b2a..a860bab 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -11,6 +11,9 @@ pub struct Color {
 
 impl Color {
     pub fn parse_hex(txt: &str) -> Result<Self, ParseIntError> {
+        // a sign is not a hexadecimal digit, even though from_str_radix accepts one
+        let txt = if txt.starts_with('+') { "+" } else { txt };
+
         let mut hex = String::new();
         // add the transparency
         if txt.len() == 6 { hex.push_str("ff"); }
-- 
2.43.0


From affa74d763ab6c059028f2bdef1b118e1e75d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 27/33] fix: refuse creation dates with anything but fourteen
 digits

What followed the fourteenth character was silently dropped.
---
 src/parser/serde_util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index ea9bff5..6afba00 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -8,6 +8,10 @@ pub(crate) mod date_to_timestamp {
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
+        if v.len() != 14 || !v.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(D::Error::custom("expected a date in the form of YYYYMMDDhhmmss"));
+        }
+
         // every part has a fixed width: YYYYMMDDhhmmss
         let part = |range: std::ops::Range<usize>| v.get(range)
             .ok_or_else(|| D::Error::custom("expected a date in the form of YYYYMMDDhhmmss"));
-- 
2.43.0


From a6330f36e43b4be6b9f8e308d5139bea561aa44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 28/33] fix: keep the code of moreblocks whose name was changed

The code was written under the old name (the key), and was lost on the next load.
---
 src/api/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index f16fa58..f79d7a5 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -600,7 +600,9 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                         let (more_block, blocks) = more_block.into_parser_more_block();
 
                         let block_container = blocks.into();
-                        block_containers.insert(format!("{}_moreBlock", &id), block_container);
+                        // its record is written with the name in the moreblock, so that's where its
+                        // code has to be, even if the moreblock is stored under another key
+                        block_containers.insert(format!("{}_moreBlock", &more_block.id), block_container);
 
                         (id, more_block)
                     })
-- 
2.43.0


From 0454590b94c39b5b7bac317925c3f8478477b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:39 +0000
Subject: [PATCH 29/33] fix: name the resource id in the error for a taken id

The message formatted the literal 0.0 instead of the id, so it always read
"resource id `0` is already taken".
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index f79d7a5..1c68f60 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -226,7 +226,7 @@ impl Resources {
 
 #[derive(Error, Debug)]
 pub enum ResourceAdditionError {
-    #[error("resource id `{}` is already taken", 0.0)]
+    #[error("resource id `{}` is already taken", .id.0)]
     IdTaken { id: ResourceId },
 
     #[error("file `{path:?}` does not exist")]
-- 
2.43.0


From 1a8532c2c483249643b7361288326612f80470d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 30/33] fix: give the malformed fab, not its header, as the
 content of the error

---
 src/parser/view.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 1ff35d9..541a1e9 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -54,20 +54,21 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
-                let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
+                let content = lines.next()
+                    .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
                         screen_name: screen_name.to_string(),
-                        line: lines.get_count(),
-                        content: line.to_string(),
-                        source: err
+                        line: lines.get_count()
                     })?;
 
+                let fab_view =
+                    AndroidView::parse(content)
+                        .map_err(|err| ViewParseError::FabParseError {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count(),
+                            content: content.to_string(),
+                            source: err
+                        })?;
+
                 fabs.insert(screen_name.to_string(), fab_view);
             }
         }
-- 
2.43.0


From 035d570323a55702c53733a743fc6cbcffc93954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 31/33] fix: count lines, not sections, in the errors of logic
 files

The line they name was the number of the sections before. It is now the line of the
header, counted from one as in the errors of view files.
---
 src/parser/logic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index e0a0267..a724d2a 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -2,6 +2,7 @@ use ritelinked::LinkedHashMap;
 use serde::{Serialize, Deserialize};
 use crate::color::Color;
 use crate::parser::Parsable;
+use crate::util::CountingIterator;
 use thiserror::Error;
 use crate::parser::logic::component::{ComponentPoolParseError, ComponentPoolReconstructionError};
 use crate::parser::logic::event::EventPoolParseError;
@@ -22,14 +23,14 @@ impl Parsable for Logic {
     type ReconstructionError = LogicReconstructionError;
 
     fn parse(logic: &str) -> Result<Logic, Self::ParseError> {
-        let mut lines = logic.split("\n");
+        let mut lines = CountingIterator::new(logic.split("\n"));
         let mut screens = LinkedHashMap::<String, ScreenLogic>::new();
-        let mut line_counter = 0u32;
 
         loop {
             let line = lines.next();
             if line.is_none() { break; }
             let line = line.unwrap();
+            let line_counter = lines.get_count();
 
             // there may be more empty lines between the sections than the one that ends a section
             if line.is_empty() { continue; }
@@ -146,8 +147,6 @@ impl Parsable for Logic {
                     .block_containers
                     .insert(container_name.to_owned(), blocks);
             }
-
-            line_counter += 1;
         }
 
         Ok(Logic { screens })
-- 
2.43.0


From d500dd93449547da7680fd8c3566e4e5df51a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 32/33] fix: count the lines of the items in the errors of
 library files

Only the headers were counted, so the line named was the header's for the first
item, and too low for the others.
---
 src/parser/library.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/library.rs b/src/parser/library.rs
index 3583285..1900ddf 100644
--- a/src/parser/library.rs
+++ b/src/parser/library.rs
@@ -27,12 +27,14 @@ impl Parsable for Library {
         macro_rules! library_item_set {
             ($variable:ident, $header:expr) => {
                 {
-                    $variable = Some(LibraryItem::parse(
-                        newline_iter.next()
-                            .ok_or_else(|| LibraryParseError::EOFAfterHeader {
-                                header: $header.to_string()
-                            })?
-                    ).map_err(|err| LibraryParseError::LibraryItemParseError {
+                    let item = newline_iter.next()
+                        .ok_or_else(|| LibraryParseError::EOFAfterHeader {
+                            header: $header.to_string()
+                        })?;
+
+                    line_count += 1;
+
+                    $variable = Some(LibraryItem::parse(item).map_err(|err| LibraryParseError::LibraryItemParseError {
                         source: err,
                         header: $header.to_string(),
                         line: line_count
-- 
2.43.0


From 1e5120c18263118e1f75756de69aaa604a20a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:03 +0000
Subject: [PATCH 33/33] fix: keep view and component events named onCreate when
 converting a screen to its logic

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 1c68f60..52be21a 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -586,7 +586,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        if event.event_type == 3 && event.event_name == "onCreate" { return None; }
 
                         Some(event)
                     })
-- 
2.43.0

