From 6bea53188c8eec72c84366b1f28d87e29d0cbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 01/28] fix: report program files that are too short instead of
 panicking

---
 src/calculator/file/from_8xp.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..27f8817 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,18 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    let metadata_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+
+    if bytes.len() < 55 + metadata_length + 2 {
+        return Err(TiToolsError::FileRead(format!(
+            "The file is too short to be a program ({} bytes)",
+            bytes.len()
+        )));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From d96b99a5e2907777325804442beaa134c1037162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 02/28] fix: recognise the TI-83 signature instead of reporting
 TI-82

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..0ab0765 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
-- 
2.43.0


From 5befcc9af622fc91a2de6297b998f7f1b2767ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 03/28] fix: write model names to JSON in the form they are
 read back

---
 src/calculator/models.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 0ab0765..c98bdae 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -82,7 +82,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -117,6 +117,15 @@ impl PartialEq for Model {
     }
 }
 
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From 74fe29252e2e25c20cebf7b0c5c81603ea75c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 04/28] fix: choose the same token every time when several
 share a name

---
 src/calculator/tokens/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..f8a9feb 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -125,7 +125,10 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            let better = translation.len() > longest_length
+                || (translation.len() == longest_length && key_precedes(token, longest_key));
+
+            if value.starts_with(translation) && better {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -155,7 +158,10 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            let better = translation.len() < shortest_length
+                || (translation.len() == shortest_length && key_precedes(token, shortest_key));
+
+            if value.starts_with(translation) && better {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
@@ -170,6 +176,11 @@ impl Map {
     }
 }
 
+/// Decides between tokens with the same name: single byte tokens come first, then the lowest byte
+fn key_precedes(key: &str, other: &str) -> bool {
+    (key.len(), key) < (other.len(), other)
+}
+
 #[derive(Debug, Deserialize)]
 pub struct TokenDefinition {
     pub syntax: String,
-- 
2.43.0


From b46454a0c3b07d52cd7388750f215ff247c958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 05/28] fix: keep blank lines at the end of a program when
 converting through text

---
 src/calculator/file/encode.rs | 2 +-
 src/calculator/program.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..0b9d6dc 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -55,7 +55,7 @@ pub fn encode(
     };
 
     let mut state = EncodeState::new(encode_mode);
-    for line in decoded_program.lines() {
+    for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..07838e2 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -176,7 +176,7 @@ impl Program {
             }
             ProgramFileType::TXT => {
                 let output_string = format!(
-                    "{}\n{}\n{}\n{}\n{}\n{}\n{}",
+                    "{}\n{}\n{}\n{}\n{}\n{}\n{}\n",
                     self.metadata.name,
                     self.header.comment,
                     self.metadata.file_type.to_string(),
-- 
2.43.0


From ca2975c1b66a46c1e32dae3e867dadc3a8898506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/28] fix: keep the display mode of a text program when
 saving it as text or JSON

---
 src/calculator/file/from_txt.rs | 19 ++++++++++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..9dbe911 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, DisplayMode, ModelDetails), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
@@ -126,7 +132,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        display_mode,
+        model_details,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 07838e2..73725e2 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, display_mode, model) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, display_mode, model)) => {
+                    (header, metadata, body, checksum, display_mode, model)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From bad274289d02462f4964e06554344c73c9975968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 07/28] fix: reject text programs that do not fit the length
 fields

---
 src/calculator/file/from_txt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 9dbe911..61bf130 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -71,6 +71,14 @@ pub fn create_from_txt(
         encode_mode,
     )?;
 
+    // the length fields of a program file are 16 bits wide
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{} (the body is too large)",
+            body_bytes.len()
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From cf03e807972b4c76a12a34fbb57093c6ffb7f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 08/28] fix: do not panic on paths that are not valid UTF-8

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 73725e2..6834e96 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -24,7 +24,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -64,7 +64,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -103,7 +103,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -435,7 +435,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
@@ -545,7 +545,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
                 err.to_string(),
             ))
         }
-- 
2.43.0


From fc916ad41c49e43c055eb4b389dcba03867a64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/28] fix: update the checksum when a program is edited

---
 src/calculator/program.rs | 15 ++++++++++++++-
 src/commands/edit/mod.rs  |  6 ++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 6834e96..9154722 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -171,7 +171,7 @@ impl Program {
                 output_bytes.extend(self.header.bytes.to_vec());
                 output_bytes.extend(self.metadata.bytes.to_vec());
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
+                output_bytes.extend(Checksum::of(&self.metadata, &self.body).bytes);
 
                 write_to_file(path, output_bytes)?
             }
@@ -384,6 +384,19 @@ impl Checksum {
         Checksum { bytes, value }
     }
 
+    /// The checksum of a program: the lower 16 bits of the sum of its metadata and body bytes
+    pub fn of(metadata: &Metadata, body: &Body) -> Checksum {
+        let sum: u64 = metadata
+            .bytes
+            .iter()
+            .chain(&body.bytes)
+            .map(|byte| *byte as u64)
+            .sum();
+        let value = sum as u16;
+
+        Checksum::new(value.to_le_bytes().to_vec(), value)
+    }
+
     pub fn display(&self) -> String {
         format!(
             "Checksum\n\
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..d2ea563 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -6,7 +6,7 @@ pub mod unarchive;
 pub mod unlock;
 
 use crate::calculator::errors::TiToolsError;
-use crate::calculator::program::Program;
+use crate::calculator::program::{Checksum, Program};
 use crate::calculator::DisplayMode;
 use std::path::{Path, PathBuf};
 
@@ -20,11 +20,13 @@ fn load_program(input_path: &Path) -> Program {
 }
 
 fn save_edits(
-    program: Program,
+    mut program: Program,
     input_path: &PathBuf,
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
+    program.checksum = Checksum::of(&program.metadata, &program.body);
+
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
 
-- 
2.43.0


From d9b2a21e3a12bc1d35f97d11775231c5ef7660a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 10/28] fix: read and write the metadata layout of 82p and 83p
 files

---
 src/calculator/file/from_8xp.rs | 26 ++++++++++++++++++++------
 src/calculator/program.rs       | 30 ++++++++++++++++++++++++------
 src/commands/edit/mod.rs        |  2 +-
 3 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 27f8817..0b5e1ca 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -72,10 +72,17 @@ pub fn create_from_8xp(
         .map(|byte| *byte as char)
         .collect::<String>();
 
+    let mut header_bytes = header_bytes.to_vec();
+
+    if metadata_length == 17 {
+        let length = (body_bytes.len() + 19) as u16;
+        header_bytes.splice(53..55, length.to_le_bytes());
+    }
+
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
 
     let header = Header::new(
-        header_bytes.to_vec(),
+        header_bytes,
         signature,
         signature_extra.to_vec(),
         product_id,
@@ -114,22 +121,25 @@ pub fn create_from_8xp(
             )
         }
         ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            // kept in the 8xp layout, which has two more bytes (version and destination)
             let mut new_metadata_bytes = Vec::new();
 
             new_metadata_bytes.push(0x0D);
             new_metadata_bytes.push(0x00);
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            let file_type = FileType::from_byte(metadata_bytes[4])?;
+            new_metadata_bytes.push(file_type.to_byte());
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
             new_metadata_bytes.push(0x00);
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -137,7 +147,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                file_type,
                 name,
                 0x00,
                 Destination::RAM,
@@ -165,7 +175,11 @@ pub fn create_from_8xp(
     // checksum translation
     let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
 
-    let checksum = Checksum::new(checksum_bytes.to_vec(), checksum_value);
+    let checksum = if metadata_length == 17 {
+        Checksum::of(&metadata.bytes, &body.bytes)
+    } else {
+        Checksum::new(checksum_bytes.to_vec(), checksum_value)
+    };
 
     Ok((header, metadata, body, checksum, model_details))
 }
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 9154722..7833c5c 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -165,13 +165,32 @@ impl Program {
         };
 
         match file_type {
-            ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+                // the layout of older models has no version and destination bytes
+                let mut header_bytes = self.header.bytes.to_vec();
+                let length = (self.body.bytes.len() + 17) as u16;
+                header_bytes.splice(53..55, length.to_le_bytes());
+
+                let mut metadata_bytes = self.metadata.bytes.to_vec();
+                metadata_bytes.drain(13..15);
+                metadata_bytes[0] = 0x0B;
+
+                let mut output_bytes = Vec::new();
+
+                output_bytes.extend(header_bytes);
+                output_bytes.extend(&metadata_bytes);
+                output_bytes.extend(self.body.bytes.to_vec());
+                output_bytes.extend(Checksum::of(&metadata_bytes, &self.body.bytes).bytes);
+
+                write_to_file(path, output_bytes)?
+            }
+            ProgramFileType::XP => {
                 let mut output_bytes = Vec::new();
 
                 output_bytes.extend(self.header.bytes.to_vec());
                 output_bytes.extend(self.metadata.bytes.to_vec());
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(Checksum::of(&self.metadata, &self.body).bytes);
+                output_bytes.extend(Checksum::of(&self.metadata.bytes, &self.body.bytes).bytes);
 
                 write_to_file(path, output_bytes)?
             }
@@ -385,11 +404,10 @@ impl Checksum {
     }
 
     /// The checksum of a program: the lower 16 bits of the sum of its metadata and body bytes
-    pub fn of(metadata: &Metadata, body: &Body) -> Checksum {
-        let sum: u64 = metadata
-            .bytes
+    pub fn of(metadata_bytes: &[u8], body_bytes: &[u8]) -> Checksum {
+        let sum: u64 = metadata_bytes
             .iter()
-            .chain(&body.bytes)
+            .chain(body_bytes)
             .map(|byte| *byte as u64)
             .sum();
         let value = sum as u16;
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index d2ea563..ad59537 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -25,7 +25,7 @@ fn save_edits(
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
-    program.checksum = Checksum::of(&program.metadata, &program.body);
+    program.checksum = Checksum::of(&program.metadata.bytes, &program.body.bytes);
 
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
-- 
2.43.0


From fbf61b61d00efeaf9f5f3ad192c8fbb96b38a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 11/28] fix: never lose or half-write an existing file when
 saving fails

---
 src/calculator/program.rs | 43 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 7833c5c..5544019 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -133,6 +133,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -142,16 +147,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -159,11 +155,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 // the layout of older models has no version and destination bytes
@@ -571,8 +562,28 @@ impl Destination {
     }
 }
 
+/// Writes a temporary file next to the path first, so that an existing file is either kept or replaced completely
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    let target = path.canonicalize().unwrap_or_else(|_| path.clone());
+    let temporary = target.with_file_name(format!(".ti-tools.{}.tmp", std::process::id()));
+
+    let result = std::fs::File::create_new(&temporary).and_then(|mut file| {
+        let written = match target.metadata() {
+            Ok(metadata) => file.set_permissions(metadata.permissions()),
+            Err(_) => Ok(()),
+        }
+        .and_then(|_| file.write_all(content.as_ref()));
+        drop(file);
+
+        written
+            .and_then(|_| std::fs::rename(&temporary, &target))
+            .map_err(|err| {
+                let _ = std::fs::remove_file(&temporary);
+                err
+            })
+    });
+
+    match result {
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-- 
2.43.0


From 70e8bc318a2fec77424d799f900b517c886f92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 12/28] fix: reject JSON programs whose header, metadata or
 checksum is incomplete

---
 src/calculator/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5544019..4de2b34 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -129,6 +129,15 @@ impl Program {
             Err(err) => return Err(TiToolsError::FailedToDeserializeJson(err.to_string())),
         };
 
+        if program.header.bytes.len() != 55
+            || program.metadata.bytes.len() != 19
+            || program.checksum.bytes.len() != 2
+        {
+            return Err(TiToolsError::FailedToDeserializeJson(
+                "the header, metadata or checksum does not have the right length".to_string(),
+            ));
+        }
+
         Ok(program)
     }
 
-- 
2.43.0


From 06e773ad5a4f246e9a344f19c1c374f939f31429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 13/28] fix: do not delete the saved program when the new file
 is the old file

---
 src/commands/edit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index ad59537..735047c 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -44,7 +44,7 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        if delete_old && !is_same_file(input_path, &new_file_path) {
             let result = std::fs::remove_file(input_path);
 
             match result {
@@ -58,3 +58,10 @@ fn save_edits(
         }
     }
 }
+
+fn is_same_file(path: &Path, other: &Path) -> bool {
+    match (path.canonicalize(), other.canonicalize()) {
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
-- 
2.43.0


From 4e91f9a012d69b5a2603c429ba29fdda3d617a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 14/28] fix: keep the comment on one line in text programs

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 4de2b34..c6fb50b 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -198,7 +198,7 @@ impl Program {
                 let output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}\n",
                     self.metadata.name,
-                    self.header.comment,
+                    self.header.comment.replace(['\n', '\r'], " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From f960bb01d7c53b7aad4b3d5559003bfe082be253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 15/28] fix: compare equal OS versions as equal

---
 src/calculator/tokens/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index f8a9feb..47054bd 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -41,7 +41,9 @@ impl Ord for OsVersion {
         let other_order = other.model.model_order();
 
         self_order.cmp(&other_order).then_with(|| {
-            if self.version == "latest" {
+            if self.version == other.version {
+                Ordering::Equal
+            } else if self.version == "latest" {
                 Ordering::Greater
             } else if other.version == "latest" || self.version.is_empty() {
                 Ordering::Less
-- 
2.43.0


From 89513fe281050ba373b72cc3b1dd73f40604b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 16/28] fix: keep the output of a mass conversion inside the
 output directory

---
 src/commands/convert.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..7a0bdc3 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -4,7 +4,7 @@ use crate::calculator::{DisplayMode, EncodeMode};
 use crate::prints;
 use std::fs;
 use std::io::Write;
-use std::path::Path;
+use std::path::{Component, Path, PathBuf};
 
 pub fn convert_command(
     input_path_string: String,
@@ -166,7 +166,7 @@ pub fn convert_command(
         );
 
         if output_path_string.is_some() {
-            let name = program.metadata.name.to_string();
+            let name = output_name(&program.metadata.name, &path);
 
             match file_type {
                 ProgramFileType::XP
@@ -304,6 +304,16 @@ pub fn convert_command(
     }
 }
 
+/// The name stored in a program is only used for its output file if it stays inside the output directory
+fn output_name(name: &str, input_path: &Path) -> PathBuf {
+    let mut components = Path::new(name).components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(component)), None) if component == name => PathBuf::from(name),
+        _ => PathBuf::from(input_path.file_stem().unwrap_or_default()),
+    }
+}
+
 fn convert_program(
     program_file_type: &ProgramFileType,
     input_path: &Path,
-- 
2.43.0


From f990f7e30961e7c402d6fff97ab49cfef771a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 17/28] fix: report directories that cannot be created or read
 instead of panicking

---
 src/commands/convert.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 7a0bdc3..7ee88ad 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -115,11 +115,19 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            TiToolsError::FileWrite(err.to_string()).print().exit()
+        }
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    let entries = match fs::read_dir(input_path) {
+        Ok(entries) => entries,
+        Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
+            .print()
+            .exit(),
+    };
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From 87febc4405a5126cc63136fbef143410910055bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 18/28] fix: print names, comments and paths with brackets or
 non-ASCII characters without panicking

---
 src/styles.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..42a0c19 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,29 +148,36 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            if styled_string[i..].starts_with("[") {
+                let end = styled_string[i + 1..]
+                    .find(['[', ']'])
+                    .map_or(len, |end| end + i + 1);
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
+                let closed = styled_string[end..].starts_with("]");
 
-                if parts.len() == 2 {
-                    match parts[0] {
-                        "color" => {
-                            let color = Color::from_string(parts[1].to_string());
-                            result.push_str(&color.to_ansi_color_string());
-                        }
-                        "bg" => {
-                            let bg_color = Color::from_string(parts[1].to_string());
-                            result.push_str(&bg_color.to_ansi_background_color_string());
-                        }
-                        "style" => {
-                            let style = TextStyle::from_string(parts[1].to_string());
-                            result.push_str(&style.to_ansi_style_string());
-                        }
-                        _ => {}
+                match parts.as_slice() {
+                    ["color", color] if closed => {
+                        let color = Color::from_string(color.to_string());
+                        result.push_str(&color.to_ansi_color_string());
+                        i = end + 1;
+                    }
+                    ["bg", bg_color] if closed => {
+                        let bg_color = Color::from_string(bg_color.to_string());
+                        result.push_str(&bg_color.to_ansi_background_color_string());
+                        i = end + 1;
+                    }
+                    ["style", style] if closed => {
+                        let style = TextStyle::from_string(style.to_string());
+                        result.push_str(&style.to_ansi_style_string());
+                        i = end + 1;
+                    }
+                    // not a directive, printed as it is
+                    _ => {
+                        result.push('[');
+                        i += 1;
                     }
                 }
-                i = end + 1;
             } else {
                 let end = styled_string[i..].find("[").unwrap_or(len - i) + i;
                 result.push_str(&styled_string[i..end]);
-- 
2.43.0


From 0b02ea21a99006d24091f81d57db9f57e98d9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 19/28] fix: do not take the value of one argument for another
 argument

---
 src/cli.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..8e2c6b4 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -157,13 +157,7 @@ impl Command {
         if arg.requires.is_some() {
             for required in arg.requires.as_ref().unwrap() {
                 let required_arg = self.find_arg(required).unwrap();
-                if !env_args
-                    .iter()
-                    .any(|s| *s == format!("-{}", required_arg.short))
-                    && !env_args
-                        .iter()
-                        .any(|s| *s == format!("--{}", required_arg.long))
-                {
+                if self.find_position(env_args, required_arg).is_none() {
                     println!(
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
@@ -178,6 +172,26 @@ impl Command {
         self.args.iter().find(|&arg| arg.name == arg_name)
     }
 
+    /// Find where an argument was given, the values of other arguments are not searched
+    fn find_position(&self, env_args: &[String], arg: &Arg) -> Option<usize> {
+        let mut index = 2 + self.options.len();
+
+        while index < env_args.len() {
+            let given = self.args.iter().find(|given| {
+                env_args[index] == format!("-{}", given.short)
+                    || env_args[index] == format!("--{}", given.long)
+            });
+
+            match given {
+                Some(given) if given.name == arg.name => return Some(index),
+                Some(given) if given.value_name.is_some() => index += 2,
+                _ => index += 1,
+            }
+        }
+
+        None
+    }
+
     /// Check if a flag is present in the arguments
     pub fn has(&self, arg_name: &str) -> bool {
         self.args
@@ -185,9 +199,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let found = args
-                    .iter()
-                    .any(|s| *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));
+                let found = self.find_position(&args, arg).is_some();
 
                 if found {
                     self.check_if_required_args_are_present(&args, arg);
@@ -235,9 +247,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let arg_index = args.iter().position(|s| {
-                    *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long)
-                });
+                let arg_index = self.find_position(&args, arg);
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
                 value
-- 
2.43.0


From a58527663c13071b3cffbc9646687f929969cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 20/28] fix: treat an unreadable answer as a no instead of
 panicking

---
 src/calculator/program.rs | 2 +-
 src/commands/convert.rs   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index c6fb50b..0e442df 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -153,7 +153,7 @@ impl Program {
             print!("> ");
             input.clear();
             std::io::stdout().flush().unwrap();
-            std::io::stdin().read_line(&mut input).unwrap();
+            std::io::stdin().read_line(&mut input).unwrap_or_default();
             let input = input.trim();
             if input == "y" || input == "Y" {
                 println!("Replacing existing file");
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 7ee88ad..8590a72 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -107,7 +107,7 @@ pub fn convert_command(
         print!("> ");
         input.clear();
         std::io::stdout().flush().unwrap();
-        std::io::stdin().read_line(&mut input).unwrap();
+        std::io::stdin().read_line(&mut input).unwrap_or_default();
         let input = input.trim();
         if input != "y" && input != "Y" {
             prints!("[color:bright-red]Error:[color:reset] An output directory must be created for files to be saved");
@@ -216,7 +216,7 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            std::io::stdin().read_line(&mut input).unwrap_or_default();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -260,7 +260,7 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            std::io::stdin().read_line(&mut input).unwrap_or_default();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -295,7 +295,7 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            std::io::stdin().read_line(&mut input).unwrap_or_default();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
-- 
2.43.0


From b3fa91af2ba748d97cb3f639fcb94becf4fcc946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 21/28] fix: read comments with non-ASCII characters back as
 they were written

---
 src/calculator/file/from_8xp.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 0b5e1ca..d5a8d74 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -66,11 +66,17 @@ pub fn create_from_8xp(
 
     let tokens = load_tokens(&version)?;
 
-    let comment = header_bytes[11..53]
+    let comment_bytes = header_bytes[11..53]
         .iter()
-        .filter(|byte| **byte != 0x00)
-        .map(|byte| *byte as char)
-        .collect::<String>();
+        .copied()
+        .filter(|byte| *byte != 0x00)
+        .collect::<Vec<u8>>();
+
+    // comments are written as UTF-8, other programs may use other characters
+    let comment = match std::str::from_utf8(&comment_bytes) {
+        Ok(comment) => comment.to_string(),
+        Err(_) => comment_bytes.iter().map(|byte| *byte as char).collect(),
+    };
 
     let mut header_bytes = header_bytes.to_vec();
 
-- 
2.43.0


From d67d0b53e9d2fb46539d3bae5f07c62f54dd8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 22/28] fix: write the length field 0B 00 in the metadata of
 82p and 83p files

---
 src/calculator/program.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 0e442df..46a5790 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -174,6 +174,7 @@ impl Program {
                 let mut metadata_bytes = self.metadata.bytes.to_vec();
                 metadata_bytes.drain(13..15);
                 metadata_bytes[0] = 0x0B;
+                metadata_bytes[1] = 0x00;
 
                 let mut output_bytes = Vec::new();
 
-- 
2.43.0


From 63273059ea980c3a3f29c97ffddd5bc230ed82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 23/28] fix: keep the output of a mass conversion inside the
 output directory for input names like ..8xp

---
 src/commands/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 8590a72..22e60fb 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -318,7 +318,7 @@ fn output_name(name: &str, input_path: &Path) -> PathBuf {
 
     match (components.next(), components.next()) {
         (Some(Component::Normal(component)), None) if component == name => PathBuf::from(name),
-        _ => PathBuf::from(input_path.file_stem().unwrap_or_default()),
+        _ => PathBuf::from(input_path.file_name().unwrap_or_default()),
     }
 }
 
-- 
2.43.0


From d474dbbe766f56b90c0a3f61cb6a7388fd282b22 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:25:43 +0000
Subject: [PATCH 24/28] fix: mass conversion no longer cuts program names at a
 dot

---
 src/commands/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 22e60fb..31d147c 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -317,7 +317,10 @@ fn output_name(name: &str, input_path: &Path) -> PathBuf {
     let mut components = Path::new(name).components();
 
     match (components.next(), components.next()) {
-        (Some(Component::Normal(component)), None) if component == name => PathBuf::from(name),
+        (Some(Component::Normal(component)), None) if component == name => {
+            // The extension is set afterwards and must not replace a part of the name
+            PathBuf::from(format!("{}.txt", name))
+        }
         _ => PathBuf::from(input_path.file_name().unwrap_or_default()),
     }
 }
-- 
2.43.0


From 5f4248250060d48e2613d4f4a80ef80b38c51109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:04 +0000
Subject: [PATCH 25/28] fix: mass conversion reports the path it saved to

---
 src/commands/convert.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 31d147c..d6fb237 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -200,11 +200,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.{}",
+                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                             program.metadata.name,
-                            output_path_string.as_ref().unwrap(),
-                            program.metadata.name,
-                            output_path.extension().unwrap().to_str().unwrap()
+                            output_path.display()
                         );
                         }
                         Err(err) => {
@@ -246,9 +244,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.txt",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                txt_output_path.display()
                             );
                         }
                         Err(err) => {
@@ -281,9 +279,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.8xp",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                xp_output_path.display()
                             );
                         }
                         Err(err) => {
-- 
2.43.0


From 45fa2f226a6993e55da61ad8457d76205f82c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:22 +0000
Subject: [PATCH 26/28] fix: do not convert files saved to the input directory
 by the same mass conversion

The directory was read while its files were converted, so with the output
directory being the input directory (or one reached from it) files that had
just been saved could be listed and converted again.
---
 src/commands/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d6fb237..ae29acc 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -120,8 +120,9 @@ pub fn convert_command(
         }
     }
 
+    // All entries are read first, files saved to the input directory must not be converted again
     let entries = match fs::read_dir(input_path) {
-        Ok(entries) => entries,
+        Ok(entries) => entries.collect::<Vec<_>>(),
         Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
             .print()
             .exit(),
-- 
2.43.0


From e6f8d2a13c0fcccd683a4ccf765f470eb4d94820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:59 +0000
Subject: [PATCH 27/28] fix: save although a temporary file with the same
 process id exists

A killed command leaves its temporary file behind; every later command with
the same process id (always 1 in a container) then failed to save there.
---
 src/calculator/program.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 46a5790..2bde4f3 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -575,9 +575,21 @@ impl Destination {
 /// Writes a temporary file next to the path first, so that an existing file is either kept or replaced completely
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     let target = path.canonicalize().unwrap_or_else(|_| path.clone());
-    let temporary = target.with_file_name(format!(".ti-tools.{}.tmp", std::process::id()));
+    let id = std::process::id();
+
+    // a killed command or one in another container may have left or be using a file with the same id
+    let mut attempt = 0;
+    let (temporary, created) = loop {
+        let temporary = target.with_file_name(format!(".ti-tools.{}.{}.tmp", id, attempt));
+        match std::fs::File::create_new(&temporary) {
+            Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists && attempt < 1000 => {
+                attempt += 1;
+            }
+            created => break (temporary, created),
+        }
+    };
 
-    let result = std::fs::File::create_new(&temporary).and_then(|mut file| {
+    let result = created.and_then(|mut file| {
         let written = match target.metadata() {
             Ok(metadata) => file.set_permissions(metadata.permissions()),
             Err(_) => Ok(()),
-- 
2.43.0


From 1a21f6f1a69fd1f3e5e5a16cef7bb83dafb01a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:02 +0000
Subject: [PATCH 28/28] fix: do not replace a file without a question when its
 path is too long to be checked

---
 src/calculator/program.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 2bde4f3..63e6dcb 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -574,7 +574,11 @@ impl Destination {
 
 /// Writes a temporary file next to the path first, so that an existing file is either kept or replaced completely
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    let target = path.canonicalize().unwrap_or_else(|_| path.clone());
+    // a path that is too long to be checked must not be resolved either
+    let target = match path.exists() {
+        true => path.canonicalize().unwrap_or_else(|_| path.clone()),
+        false => path.clone(),
+    };
     let id = std::process::id();
 
     // a killed command or one in another container may have left or be using a file with the same id
-- 
2.43.0

